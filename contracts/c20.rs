// Executable contracts: C20 grouping equal subqueries
use super::util::*;
use crate::gridstore::common::*;
use crate::gridstore::stackable::{stackable, StackableNode, StackableTree};
use crate::gridstore::store::GridStore;
use crate::gridstore::{coalesce, collapse_phrasematches, stack_and_coalesce, tree_coalesce};
use crate::nd;
use fixedbitset::FixedBitSet;
use super::stackutil::*;

pub fn c20_collapse() {
    let p = Path::new();
    let store = Spec::new(6, vec![]).build(&p);
    let n = nd::below(6);
    let subs: Vec<Sub> = (0..n)
        .map(|i| PhrasematchSubquery {
            store: &store,
            idx: nd::below(2) as u16,
            non_overlapping_indexes: bits(&[]),
            weight: nd::pick(&[0.5f64, 0.25]),
            mask: nd::pick(&[1u32, 2]),
            match_keys: (0..(1 + nd::below(3)))
                .map(|k| MatchKeyWithId {
                    key: MatchKey { match_phrase: MatchPhrase::Exact(nd::below(2)), lang_set: k as u128 },
                    nearby_only: k == 1,
                    id: i * 10 + k,
                    phrase_length: k as usize + 1,
                })
                .collect(),
        })
        .collect();
    let got = collapse_phrasematches(subs.clone());
    let group = |s: &Sub| (s.weight.to_bits(), s.idx, s.mask);
    let view = |k: &MatchKeyWithId| (k.key.clone(), k.nearby_only, k.id, k.phrase_length);
    let mut order = vec![];
    for s in &subs {
        if !order.contains(&group(s)) {
            order.push(group(s));
        }
    }
    assert!(got.iter().map(group).collect::<Vec<_>>() == order, "one subquery per weight, index and mask, in order");
    for g in &got {
        let have: Vec<_> = g.match_keys.iter().map(view).collect();
        let want: Vec<_> =
            subs.iter().filter(|s| group(s) == group(g)).flat_map(|s| s.match_keys.iter().map(view)).collect();
        assert!(have == want, "with every match key of each of them");
    }
    nd::reached("grouped");
}
