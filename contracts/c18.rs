// Executable contracts: C18 a stack of subqueries
use super::util::*;
use crate::gridstore::common::*;
use crate::gridstore::stackable::{stackable, StackableNode, StackableTree};
use crate::gridstore::store::GridStore;
use crate::gridstore::{coalesce, collapse_phrasematches, stack_and_coalesce, tree_coalesce};
use crate::nd;
use fixedbitset::FixedBitSet;
use super::stackutil::*;
use super::expect::*;

pub fn multi_sub<'s>(store: &'s GridStore, t: usize, mask: u32, key: MatchKey) -> Sub<'s> {
    PhrasematchSubquery {
        store,
        idx: (t as u16) * 3 + 1,
        non_overlapping_indexes: bits(&[]),
        weight: nd::pick(&[0.5f64, 0.25, 0.125]),
        mask,
        match_keys: vec![MatchKeyWithId { key, id: t as u32 + 1, ..MatchKeyWithId::default() }],
    }
}

pub fn small_key(n_phr: u32) -> MatchKey {
    let a = nd::below(n_phr);
    MatchKey {
        match_phrase: if nd::flag() { MatchPhrase::Exact(a) } else { MatchPhrase::Range { start: a, end: n_phr } },
        lang_set: 1,
    }
}

/// Soundness of a stack of subqueries given to `coalesce`.
pub fn multi_sound(got: &[CoalesceContext], subs: &[Sub], data: &[&Spec], opts: &MatchOpts) {
    assert!(got.len() <= 40, "at most 40 results");
    let mut tmp = vec![];
    for c in got {
        assert!(!c.entries.is_empty(), "no empty result");
        let mut mask = 0;
        let mut sum = 0.0;
        for e in &c.entries {
            let i = subs.iter().position(|s| s.idx == e.idx).expect("a subquery of the stack");
            let ok = grids_of(&data[i].data, &subs[i], &subs[i].match_keys[0], opts)
                .iter()
                .any(|g| is_entry(e, g, &subs[i]));
            assert!(ok, "every entry of a result is a stored match of its subquery");
            assert!(mask & e.mask == 0, "no query token is used twice");
            mask |= e.mask;
            sum += e.grid_entry.relev;
            let h = subs.iter().position(|s| s.idx == c.entries[0].idx).unwrap();
            assert!(
                ancestor(e, subs[i].store.zoom, &c.entries[0], subs[h].store.zoom),
                "entries of a result lie on top of one another"
            );
        }
        assert!(c.mask == mask, "the mask of a result is the union of its entries' masks");
        assert!(close(c.relev, sum) || close(c.relev, sum - 0.01), "relevance is the sum of its entries'");
        assert!(!tmp.contains(&c.entries[0].tmp_id), "one result per leading feature");
        tmp.push(c.entries[0].tmp_id);
        if c.entries.len() > 1 {
            nd::reached("stacked result");
        }
    }
    if let Some(c) = got.first() {
        assert!(got.iter().all(|d| c.relev - d.relev < 0.25), "nothing far less relevant than the best");
    }
    assert!(best_first(got), "best first");
}

/// two subqueries: the results are complete, too
pub fn c18_pair() {
    let zooms = nd::pick(&[[4u16, 6], [6, 6], [3, 13], [6, 14], [0, 16]]);
    let radius = nd::pick(&[0.0f64, 400.0]);
    let w = world(2, 2, 4, zooms.to_vec(), false, radius);
    let (p0, p1) = (Path::new(), Path::new());
    let (s0, s1) = (w.specs[0].build(&p0), w.specs[1].build(&p1));
    let masks = nd::pick(&[[1u32, 2], [2, 1], [1, 1], [6, 1]]);
    let a = multi_sub(&s0, 0, masks[0], small_key(2));
    let b = multi_sub(&s1, 1, masks[1], small_key(2));
    let opts = query_opts(nd::pick(&[zooms[0], zooms[1]]), true, true);
    let stack = if nd::flag() { vec![a.clone(), b.clone()] } else { vec![b.clone(), a.clone()] };
    let got = coalesce(stack, &opts).unwrap();
    let specs = [&w.specs[0], &w.specs[1]];
    let subs = [a, b];
    multi_sound(&got, &subs, &specs, &opts);
    // every context there should be, as (leading subquery, leading feature, relevance)
    let ga = grids_of(&w.specs[0].data, &subs[0], &subs[0].match_keys[0], &opts);
    let gb = grids_of(&w.specs[1].data, &subs[1], &subs[1].match_keys[0], &opts);
    let d = zooms[1] - zooms[0];
    let mut want: Vec<(u32, f64)> = vec![];
    let mut top: f64 = 0.0;
    for g in &gb {
        let own = g.grid_entry.relev * subs[1].weight;
        let below = ga
            .iter()
            .filter(|p| {
                masks[0] & masks[1] == 0
                    && p.grid_entry.x as u32 == (g.grid_entry.x as u32) >> d
                    && p.grid_entry.y as u32 == (g.grid_entry.y as u32) >> d
            })
            .map(|p| p.grid_entry.relev * subs[0].weight)
            .fold(0.0, f64::max);
        top = top.max(own + below);
        let penalty = if below == 0.0 || masks[1] > masks[0] { 0.01 } else { 0.0 };
        want.push((((subs[1].idx as u32) << 25) + g.grid_entry.id, own + below - penalty));
    }
    for g in &ga {
        let r = g.grid_entry.relev * subs[0].weight;
        top = top.max(r);
        want.push((((subs[0].idx as u32) << 25) + g.grid_entry.id, r));
    }
    for c in &got {
        let t = c.entries[0].tmp_id;
        assert!(want.iter().any(|w| w.0 == t && close(w.1, c.relev)), "a possible result with its relevance");
    }
    let mut feats: Vec<u32> = want.iter().map(|w| w.0).collect();
    feats.sort();
    feats.dedup();
    assert!(feats.len() <= 40);
    for f in feats {
        let best = want.iter().filter(|w| w.0 == f).map(|w| w.1).fold(0.0, f64::max);
        if top - best < 0.25 - 1e-9 {
            let c = got.iter().find(|c| c.entries[0].tmp_id == f);
            assert!(c.map_or(false, |c| close(c.relev, best)), "each leading feature with its best stack");
        }
    }
    nd::reached("pair");
}

pub fn c18_sound() {
    let zooms = zoom_sets();
    let radius = nd::pick(&[0.0f64, 400.0]);
    let w = world(3, 1, 4, zooms.clone(), false, radius);
    let paths = [Path::new(), Path::new(), Path::new()];
    let stores: Vec<GridStore> = (0..3).map(|t| w.specs[t].build(&paths[t])).collect();
    let subs: Vec<Sub> = (0..3)
        .map(|t| multi_sub(&stores[t], t, nd::pick(&[1u32, 2, 4, 3]), small_key(1)))
        .collect();
    let opts = query_opts(nd::pick(&zooms), true, true);
    let got = coalesce(subs.clone(), &opts).unwrap();
    multi_sound(&got, &subs, &[&w.specs[0], &w.specs[1], &w.specs[2]], &opts);
    nd::reached("three");
}

/// four subqueries on three zooms, two of them alike at the middle one
pub fn c18_four() {
    let z = nd::pick(&[[3u16, 6, 6, 9], [2, 4, 4, 6], [6, 6, 6, 9], [3, 6, 9, 9]]).to_vec();
    let w = world(4, 1, 3, z.clone(), false, 0.0);
    let paths = [Path::new(), Path::new(), Path::new(), Path::new()];
    let stores: Vec<GridStore> = (0..4).map(|t| w.specs[t].build(&paths[t])).collect();
    let masks = nd::pick(&[[1u32, 2, 2, 4], [2, 1, 1, 4], [1, 2, 4, 8], [1, 1, 2, 4]]);
    let subs: Vec<Sub> = (0..4)
        .map(|t| Sub { weight: nd::pick(&[1.0f64, 0.75, 0.5, 0.25, 0.125]), ..multi_sub(&stores[t], t, masks[t], small_key(1)) })
        .collect();
    let opts = query_opts(z[3], false, false);
    let got = coalesce(subs.clone(), &opts).unwrap();
    multi_sound(&got, &subs, &[&w.specs[0], &w.specs[1], &w.specs[2], &w.specs[3]], &opts);
    nd::reached("four");
}
