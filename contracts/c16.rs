// Executable contracts: C16 cap on stacks
use super::util::*;
use crate::gridstore::common::*;
use crate::gridstore::stackable::{stackable, StackableNode, StackableTree};
use crate::gridstore::store::GridStore;
use crate::gridstore::{coalesce, collapse_phrasematches, stack_and_coalesce, tree_coalesce};
use crate::nd;
use fixedbitset::FixedBitSet;
use super::stackutil::*;

/// more stacks than the cap: what is dropped is strictly worse than everything kept
pub fn c16_cap() {
    let paths: Vec<Path> = (0..5).map(|_| Path::new()).collect();
    let n_types = 4 + nd::below(2) as usize;
    let stores: Vec<GridStore> = (0..n_types)
        .map(|t| Spec { type_id: t as u16, ..Spec::new(6, vec![]) }.build(&paths[t]))
        .collect();
    let mut subs: Vec<Sub> = vec![];
    for t in 0..n_types {
        let n = if n_types == 4 { 6 + nd::below(3) } else { 4 + nd::below(2) };
        for k in 0..n {
            // (dyadic weights: sums of them are exact)
            let w = nd::pick(&[0.5f64, 0.25, 0.125, 0.0625]);
            let mask = if nd::below(12) == 0 { 3 << t } else { 1 << t };
            let non = if nd::below(12) == 0 { vec![nd::below(t as u32 * 10 + 1) as usize] } else { vec![] };
            subs.push(PhrasematchSubquery {
                store: &stores[t],
                idx: (t as u32 * 10 + k) as u16,
                non_overlapping_indexes: bits(&non),
                weight: w,
                mask,
                match_keys: vec![MatchKeyWithId::default()],
            });
        }
    }
    let tree = stackable(&subs);
    let nodes = tree_nodes(&subs, &tree);
    let all = all_stacks(&subs);
    let prefixes: std::collections::HashSet<&[usize]> = all.iter().map(|s| &s[..s.len() - 1]).collect();
    let maximal: Vec<&Vec<usize>> = all.iter().filter(|s| !prefixes.contains(&s[..])).collect();
    let kept: std::collections::HashSet<&Vec<usize>> = nodes.iter().map(|n| &n.0).collect();
    assert!(kept.len() == nodes.len(), "each stack at most once");
    let valid: std::collections::HashSet<&Vec<usize>> = all.iter().collect();
    assert!(kept.iter().all(|p| valid.contains(*p)), "only possible stacks");
    let kept_maximal: Vec<&&Vec<usize>> = maximal.iter().filter(|p| kept.contains(**p)).collect();
    let dropped: Vec<&&Vec<usize>> = maximal.iter().filter(|p| !kept.contains(**p)).collect();
    if dropped.is_empty() {
        nd::reached("all kept");
        return;
    }
    nd::reached("some dropped");
    assert!(maximal.len() > 2000 && kept_maximal.len() >= 2000, "dropped only beyond the cap");
    let worst = kept_maximal.iter().map(|p| weight_of(&subs, p)).fold(f64::MAX, f64::min);
    let lost = dropped.iter().map(|p| weight_of(&subs, p)).fold(0.0, f64::max);
    assert!(lost <= worst, "nothing dropped is better than anything kept");
    let top = maximal.iter().map(|p| weight_of(&subs, p)).fold(0.0, f64::max);
    assert!(tree.root.max_relev == top, "the best stack survives and the root knows its weight");
}
