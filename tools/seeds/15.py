ID="exclusion-of-ancestors"; PROP="C15"
NEEDS="a subquery that excludes an index two or more levels up its path but not the one right above"
BREAKS="the exclusion is tested against the exclusions gathered so far instead of the node's own index"
EDITS=[("stackable.rs","phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false","phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false\n                && node.bmask.contains(phrasematch.idx as usize) == false")]
DEMO='''
pub fn demo() {
    let a = store("a", 3, 0, vec![], vec![]);
    let b = store("b", 6, 1, vec![], vec![]);
    let mut x = sub(&a, 0, 1, 0.5, vec![]);
    x.non_overlapping_indexes.insert(1);
    let v = vec![x, sub(&b, 1, 2, 0.5, vec![])];
    let n = bfs(stackable(&v)).len();
    assert_eq!(n, 4, "root, a, a-b, b");
}
'''
