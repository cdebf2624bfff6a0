// Executable contracts: C15 stacking
use super::util::*;
use crate::gridstore::common::*;
use crate::gridstore::stackable::{stackable, StackableNode, StackableTree};
use crate::gridstore::store::GridStore;
use crate::gridstore::{coalesce, collapse_phrasematches, stack_and_coalesce, tree_coalesce};
use crate::nd;
use fixedbitset::FixedBitSet;
use super::stackutil::*;

pub fn stacking_case<'s>(stores: &[&'s GridStore]) -> Vec<Sub<'s>> {
    let n = 1 + nd::below(6);
    let mut subs: Vec<Sub> = vec![];
    for i in 0..n {
        let t = nd::below(stores.len() as u32) as usize;
        // idx is the index of the subquery's (hypothetical) geocoder index; several subqueries
        // may share it, and then differ in mask or weight
        let idx = (t as u32 * 2 + nd::below(2)) as u16;
        let mut non = vec![];
        for j in 0..(stores.len() * 2) {
            if nd::below(4) == 0 {
                non.push(j)
            }
        }
        let mask = nd::pick(&[1u32, 2, 4, 8, 3, 6, 12, 1 << 31]);
        let weight = nd::pick(&WEIGHTS);
        if subs.iter().any(|s| s.idx == idx && s.mask == mask && s.weight == weight) {
            continue;
        }
        subs.push(PhrasematchSubquery {
            store: stores[t],
            idx,
            non_overlapping_indexes: bits(&non),
            weight,
            mask,
            match_keys: vec![MatchKeyWithId { id: i, ..MatchKeyWithId::default() }],
        });
    }
    subs
}

pub fn c15_tree() {
    let (p0, p1, p2) = (Path::new(), Path::new(), Path::new());
    let z = [nd::pick(&[6u16, 9]), 9, 14];
    let mk = |p: &Path, i: usize| Spec { type_id: [0, 3, 7][i], ..Spec::new(z[i], vec![]) }.build(p);
    let (a, b, c) = (mk(&p0, 0), mk(&p1, 1), mk(&p2, 2));
    let subs = stacking_case(&[&a, &b, &c]);
    let tree = stackable(&subs);
    let nodes = tree_nodes(&subs, &tree);
    let mut got: Vec<Vec<usize>> = nodes.iter().map(|n| n.0.clone()).collect();
    got.sort();
    let mut want = all_stacks(&subs);
    want.sort();
    assert!(got == want, "exactly the possible stacks, each once");
    let best = |prefix: &[usize]| -> f64 {
        want.iter().filter(|s| s.starts_with(prefix)).map(|s| weight_of(&subs, s)).fold(0.0, f64::max)
    };
    assert!(tree.root.max_relev == best(&[]) && tree.root.mask == 0, "the root summarises the tree");
    for (path, node) in &nodes {
        let last = &subs[*path.last().unwrap()];
        let mask = path.iter().fold(0, |m, i| m | subs[*i].mask);
        let mut bm: Vec<usize> = path.iter().flat_map(|i| ones(&subs[*i].non_overlapping_indexes)).collect();
        bm.sort();
        bm.dedup();
        assert!(node.mask == mask, "mask of a stack is the union of its masks");
        assert!(ones(&node.bmask) == bm, "bmask of a stack is the union of its exclusions");
        assert!(node.idx == last.idx && node.zoom == last.store.zoom, "index and zoom of the last one");
        assert!(node.max_relev == best(path), "best relevance reachable through this stack");
        if path.len() > 1 {
            nd::reached("stacked");
        }
    }
    nd::reached("tree");
}
