ID="collapse-ignores-mask"; PROP="C20"
NEEDS="two subqueries of equal weight and index whose masks differ"
BREAKS="subqueries of different masks are merged into one"
EDITS=[("coalesce.rs","group_hash = (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask);","group_hash =\n            (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask.count_ones());")]
DEMO='''
pub fn demo() {
    let a = store("a", 3, 0, vec![], vec![]);
    let v = vec![sub(&a, 0, 1, 0.5, vec![(exact(1, 1), 0)]), sub(&a, 0, 2, 0.5, vec![(exact(1, 1), 1)])];
    assert_eq!(collapse_phrasematches(v).len(), 2);
}
'''
