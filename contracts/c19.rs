// Executable contracts: C19 stacking and coalescing
use super::util::*;
use crate::gridstore::common::*;
use crate::gridstore::stackable::{stackable, StackableNode, StackableTree};
use crate::gridstore::store::GridStore;
use crate::gridstore::{coalesce, collapse_phrasematches, stack_and_coalesce, tree_coalesce};
use crate::nd;
use fixedbitset::FixedBitSet;
use super::stackutil::*;
use super::expect::*;

pub fn tree_subs<'s>(stores: &'s [GridStore], n_phr: u32, nearby: bool) -> Vec<Sub<'s>> {
    let mut subs: Vec<Sub> = vec![];
    let n = 1 + nd::below(4);
    for i in 0..n {
        let t = nd::below(stores.len() as u32) as usize;
        let mut non = vec![];
        for j in 0..stores.len() {
            if nd::below(6) == 0 {
                non.push(j)
            }
        }
        let mask = nd::pick(&[1u32, 2, 4, 3]);
        let weight = nd::pick(&[0.5f64, 0.25, 0.125]);
        if subs.iter().any(|s| s.idx == t as u16 && s.mask == mask && s.weight == weight) {
            continue;
        }
        let keys = 1 + nd::below(2);
        // (each key id belongs to one subquery)
        let match_keys = (0..keys)
            .map(|k| {
                let near = nearby && nd::below(3) == 0;
                MatchKeyWithId {
                    key: MatchKey { match_phrase: MatchPhrase::Exact(k % n_phr), lang_set: 1 },
                    id: i * 8 + k,
                    nearby_only: near,
                    phrase_length: 2,
                }
            })
            .collect();
        subs.push(PhrasematchSubquery {
            store: &stores[t],
            idx: t as u16,
            non_overlapping_indexes: bits(&non),
            weight,
            mask,
            match_keys,
        });
    }
    subs
}

pub type CKey = (Vec<(u16, u32, u16, u16, u32, u64)>, i64);

pub fn ckey(c: &CoalesceContext) -> CKey {
    (
        c.entries
            .iter()
            .map(|e| (e.idx, e.mask, e.grid_entry.x, e.grid_entry.y, e.grid_entry.id, e.grid_entry.relev.to_bits()))
            .collect(),
        (c.relev * 1e7).round() as i64,
    )
}

/// every context `stack_and_coalesce` could report: for each stack, each choice of nested grids
pub fn possible(subs: &[Sub], specs: &[&Spec], opts: &MatchOpts) -> (Vec<CKey>, Vec<(usize, Vec<CKey>)>) {
    let stacks = all_stacks(subs);
    let grids: Vec<Vec<(u32, Vec<MatchEntry>)>> = subs
        .iter()
        .map(|s| {
            s.match_keys
                .iter()
                .map(|k| (k.id, grids_of(&specs[s.store.type_id as usize].data, s, k, opts)))
                .collect()
        })
        .collect();
    let mut multi = vec![];
    let mut lone = vec![];
    for st in &stacks {
        let alone = st.len() == 1 && !stacks.iter().any(|o| o.len() > 1 && o[0] == st[0]);
        // partial contexts: (lead tile, entries lead first)
        let mut part: Vec<Vec<(usize, &MatchEntry)>> = vec![vec![]];
        for i in st {
            let mut next = vec![];
            for p in &part {
                for (_, gs) in &grids[*i] {
                    for g in gs {
                        let fits = p.first().map_or(true, |(j, q)| {
                            let d = subs[*i].store.zoom - subs[*j].store.zoom;
                            (g.grid_entry.x as u32) >> d == q.grid_entry.x as u32
                                && (g.grid_entry.y as u32) >> d == q.grid_entry.y as u32
                        });
                        if fits {
                            let mut n = vec![(*i, g)];
                            n.extend(p.iter().cloned());
                            next.push(n);
                        }
                    }
                }
            }
            part = next;
        }
        let keys: Vec<CKey> = part
            .iter()
            .map(|p| {
                let es: Vec<_> = p
                    .iter()
                    .map(|(i, g)| {
                        let r = g.grid_entry.relev * subs[*i].weight;
                        (subs[*i].idx, subs[*i].mask, g.grid_entry.x, g.grid_entry.y, g.grid_entry.id, r.to_bits())
                    })
                    .collect();
                let sum: f64 = p.iter().map(|(i, g)| g.grid_entry.relev * subs[*i].weight).sum();
                let pen = !alone && (es.len() == 1 || es[0].1 > es[1].1);
                (es, ((sum - if pen { 0.01 } else { 0.0 }) * 1e7).round() as i64)
            })
            .collect();
        if alone {
            lone.push((st[0], keys));
        } else {
            multi.extend(keys);
        }
    }
    (multi, lone)
}

pub fn tree_case(complete: bool) {
    let zooms = if complete {
        zoom_sets()
    } else {
        [[4u16, 6, 14], [3, 14, 16], [6, 16, 16], [3, 3, 15], [0, 6, 16]][nd::below(5) as usize].to_vec()
    };
    let radius = nd::pick(&[0.0f64, 400.0]);
    let w = world(3, 2, 3, zooms.clone(), true, radius);
    let paths = [Path::new(), Path::new(), Path::new()];
    let stores: Vec<GridStore> = (0..3).map(|t| w.specs[t].build(&paths[t])).collect();
    let subs = tree_subs(&stores, 2, true);
    let opts = query_opts(nd::pick(&zooms), true, true);
    let specs = [&w.specs[0], &w.specs[1], &w.specs[2]];
    let got = stack_and_coalesce(&subs, &opts).unwrap();
    let (multi, lone) = possible(&subs, &specs, &opts);
    assert!(got.len() <= 800, "at most 800 results");
    assert!(best_first(&got), "best first");
    let mut left: Vec<CKey> = multi;
    // results of a subquery that stacks with nothing: one per feature and key
    let mut alone: Vec<(CKey, u32)> = vec![];
    for c in &got {
        assert!(c.mask == c.entries.iter().fold(0, |m, e| m | e.mask), "mask is the union");
        for e in &c.entries {
            let ok = subs.iter().any(|s| {
                s.idx == e.idx
                    && s.match_keys.iter().filter(|k| k.id == e.phrasematch_id).any(|k| {
                        grids_of(&specs[s.store.type_id as usize].data, s, k, &opts).iter().any(|g| is_entry(e, g, s))
                    })
            });
            assert!(ok, "every entry of a result is a stored match of its subquery and key");
        }
        let k = ckey(c);
        if let Some(i) = left.iter().position(|l| *l == k) {
            left.swap_remove(i);
            if c.entries.len() > 1 {
                nd::reached("stacked result");
            }
        } else {
            assert!(
                lone.iter().any(|(_, ks)| ks.contains(&k)),
                "every result is one of the possible stacks of nested matches, with its relevance"
            );
            alone.push((k, c.entries[0].phrasematch_id));
        }
    }
    if complete {
        assert!(left.is_empty(), "every possible stack of nested matches is reported");
        for (s, _) in &lone {
            for mk in &subs[*s].match_keys {
                let gs = grids_of(&specs[subs[*s].store.type_id as usize].data, &subs[*s], mk, &opts);
                let top = gs.iter().map(|g| g.grid_entry.relev * subs[*s].weight).fold(0.0, f64::max);
                let mut feats: Vec<u32> = gs.iter().map(|g| g.grid_entry.id).collect();
                feats.sort();
                feats.dedup();
                for f in feats {
                    let of: Vec<&MatchEntry> = gs.iter().filter(|g| g.grid_entry.id == f).collect();
                    if !of.iter().all(|g| top - g.grid_entry.relev * subs[*s].weight < 0.25) {
                        continue;
                    }
                    let mine: Vec<&(CKey, u32)> = alone
                        .iter()
                        .filter(|((es, _), id)| *id == mk.id && es[0].0 == subs[*s].idx && es[0].1 == subs[*s].mask && es[0].4 == f
                            && of.iter().any(|g| (g.grid_entry.relev * subs[*s].weight).to_bits() == es[0].5))
                        .collect();
                    assert!(!mine.is_empty(), "every comparably relevant feature of a lone subquery is reported");
                    if opts.proximity.is_none() {
                        let best = of.iter().map(|g| g.grid_entry.relev).fold(0.0, f64::max) * subs[*s].weight;
                        assert!(mine.iter().any(|m| m.0 .0[0].5 == best.to_bits()), "with its best relevance");
                    }
                    nd::reached("lone subquery");
                }
            }
        }
    }
    nd::reached("tree results");
}

pub fn c19_tree() {
    tree_case(true)
}

/// high zooms, where some work may be skipped: whatever is reported is right
pub fn c19_high() {
    tree_case(false)
}

/// more results than are returned per key: the best ones are
pub fn c19_many() {
    let zooms = [4u16, 6];
    let p = [Path::new(), Path::new()];
    let a: Vec<GridEntry> = (0..(1 + nd::below(12)))
        .map(|i| GridEntry { relev: nd::pick(&RELEVS), score: nd::below(8) as u8, x: 1, y: 1, id: i, source_phrase_hash: 0 })
        .collect();
    let b: Vec<GridEntry> = (0..(1 + nd::below(20)))
        .map(|i| GridEntry {
            relev: nd::pick(&RELEVS),
            score: nd::below(8) as u8,
            x: 4 + nd::below(5) as u16,
            y: 4 + nd::below(3) as u16,
            id: i,
            source_phrase_hash: 0,
        })
        .collect();
    let key = GridKey { phrase_id: 0, lang_set: 1 };
    let specs = [
        Spec { type_id: 0, ..Spec::new(4, vec![(key.clone(), a)]) },
        Spec { type_id: 1, ..Spec::new(6, vec![(key, b)]) },
    ];
    let stores = [specs[0].build(&p[0]), specs[1].build(&p[1])];
    let mk = |t: usize, mask: u32| PhrasematchSubquery {
        store: &stores[t],
        idx: t as u16,
        non_overlapping_indexes: bits(&[]),
        weight: 0.5,
        mask,
        match_keys: vec![MatchKeyWithId {
            key: MatchKey { match_phrase: MatchPhrase::Exact(0), lang_set: 1 },
            id: t as u32,
            ..MatchKeyWithId::default()
        }],
    };
    let subs = vec![mk(0, 2), mk(1, 1)];
    let opts = MatchOpts { zoom: 6, bbox: None, proximity: None };
    let got = stack_and_coalesce(&subs, &opts).unwrap();
    let (multi, _) = possible(&subs, &[&specs[0], &specs[1]], &opts);
    // per stack, the best 40 by relevance then score of the leading entry
    assert!(best_first(&got), "best first");
    for len in 1..3 {
        for lead in 0..2u16 {
            if (len, lead) == (1, 1) {
                continue; // a subquery that stacks with nothing: C17
            }
            let of = |k: &CKey| k.0.len() == len && k.0[0].0 == lead;
            let mut want: Vec<i64> = multi.iter().filter(|k| of(k)).map(|k| k.1).collect();
            want.sort();
            want.reverse();
            want.truncate(40);
            let have: Vec<i64> = got.iter().map(ckey).filter(|k| of(k)).map(|k| k.1).collect();
            assert!(have == want, "the best 40 contexts of each stack");
            if want.len() == 40 {
                nd::reached("capped");
            }
        }
    }
}
