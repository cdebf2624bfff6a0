// Executable contracts: C17 one subquery
use super::util::*;
use crate::gridstore::common::*;
use crate::gridstore::stackable::{stackable, StackableNode, StackableTree};
use crate::gridstore::store::GridStore;
use crate::gridstore::{coalesce, collapse_phrasematches, stack_and_coalesce, tree_coalesce};
use crate::nd;
use fixedbitset::FixedBitSet;
use super::stackutil::*;
use super::expect::*;

/// One subquery: one context per feature, best first, each a genuine match.
pub fn single(zoom: u16, data: Vec<(GridKey, Vec<GridEntry>)>, radius: f64, weight: f64, key: MatchKey, opts: MatchOpts, tree: bool) {
    let s = Spec { radius, ..Spec::new(zoom, data) };
    let path = Path::new();
    let store = s.build(&path);
    let sub = PhrasematchSubquery {
        store: &store,
        idx: nd::pick(&[0u16, 1, 127]),
        non_overlapping_indexes: bits(&[]),
        weight,
        mask: nd::pick(&[1u32, 6]),
        match_keys: vec![MatchKeyWithId { key, id: 7, ..MatchKeyWithId::default() }],
    };
    let cands = grids_of(&s.data, &sub, &sub.match_keys[0], &opts);
    nd::assume(cands.len() <= 80);
    let got = if tree { stack_and_coalesce(&vec![sub.clone()], &opts) } else { coalesce(vec![sub.clone()], &opts) }.unwrap();
    assert!(got.len() <= 40, "at most 40 results");
    assert!(best_first(&got), "best first");
    let mut ids = vec![];
    for c in &got {
        assert!(c.entries.len() == 1 && c.mask == sub.mask, "one entry, with the mask of its subquery");
        let e = &c.entries[0];
        assert!(c.relev == e.grid_entry.relev, "relevance of a one-entry result is its entry's");
        assert!(cands.iter().any(|g| is_entry(e, g, &sub)), "every result is a stored match");
        assert!(e.phrasematch_id == if tree { 7 } else { 0 }, "the key it came from");
        assert!(!ids.contains(&e.grid_entry.id), "one result per feature");
        ids.push(e.grid_entry.id);
    }
    if let Some(c) = got.first() {
        assert!(got.iter().all(|d| c.relev - d.relev < 0.25), "nothing far less relevant than the best");
    }
    assert!(got.is_empty() == cands.is_empty(), "a match is found when there is one");
    let rel = |g: &MatchEntry| g.grid_entry.relev * weight;
    let top = cands.iter().map(rel).fold(0.0, f64::max);
    if opts.proximity.is_none() {
        let mut best: std::collections::BTreeMap<u32, (u64, u64)> = Default::default();
        for g in &cands {
            if top - rel(g) < 0.25 {
                let v = (rel(g).to_bits(), g.scoredist.to_bits());
                let b = best.entry(g.grid_entry.id).or_insert(v);
                *b = (*b).max(v);
            }
        }
        let mut want: Vec<(u64, u64)> = best.values().cloned().collect();
        want.sort();
        want.reverse();
        want.truncate(40);
        let have: Vec<(u64, u64)> =
            got.iter().map(|c| (c.relev.to_bits(), c.entries[0].scoredist.to_bits())).collect();
        assert!(have == want, "every feature with its best relevance and score, the best 40 of them");
        nd::reached("complete");
    } else if weight == 1.0 {
        let mut feats: Vec<u32> = cands.iter().map(|g| g.grid_entry.id).collect();
        feats.sort();
        feats.dedup();
        if feats.len() <= 40 {
            for f in feats {
                let all = cands.iter().filter(|g| g.grid_entry.id == f).all(|g| top - rel(g) < 0.25);
                assert!(!all || ids.contains(&f), "every comparably relevant feature is there");
            }
            nd::reached("near a point");
        }
    }
}

pub fn c17_single() {
    let zoom = nd::pick(&[6u16, 3, 14]);
    let mut data = vec![];
    let n_keys = 1 + nd::below(3);
    for k in 0..n_keys {
        data.push((GridKey { phrase_id: k, lang_set: nd::pick(&[1u128, 2]) }, nest_entries(zoom, 5, 5, false)));
    }
    let a = nd::below(n_keys);
    let key = MatchKey {
        match_phrase: if nd::flag() { MatchPhrase::Exact(a) } else { MatchPhrase::Range { start: a, end: n_keys + 1 } },
        lang_set: nd::pick(&[1u128, 3]),
    };
    let opts = query_opts(zoom, true, true);
    let radius = nd::pick(&[0.0f64, 40.0, 400.0]);
    single(zoom, data, radius, nd::pick(&[1.0f64, 0.5]), key, opts, nd::flag())
}

/// more features than results are returned
pub fn c17_many() {
    let zoom = 6;
    let n = 35 + nd::below(46);
    let es: Vec<GridEntry> = (0..n)
        .map(|i| GridEntry {
            relev: nd::pick(&[1.0, 0.8]),
            score: nd::below(16) as u8,
            x: nd::below(8) as u16,
            y: nd::below(8) as u16,
            id: if nd::below(8) == 0 { nd::below(n) } else { i },
            source_phrase_hash: 0,
        })
        .collect();
    let data = vec![(GridKey { phrase_id: 1, lang_set: 1 }, es)];
    let opts = MatchOpts { zoom, bbox: None, proximity: if nd::below(3) == 0 { Some([2, 2]) } else { None } };
    let key = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
    single(zoom, data, nd::pick(&[0.0f64, 200.0]), 1.0, key, opts, nd::flag())
}
