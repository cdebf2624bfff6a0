ID='cull-below-cap'; PROP='C16'
NEEDS='more than 2000 stacks, most of them in the worst weight class and the better ones found last'
BREAKS='the worst class is dropped as soon as the cap is reached, even if fewer than 2000 stacks remain'
EDITS=[('stackable.rs', 'if total_without_min >= self.soft_max {', 'if total_without_min > 0 && self.total_leaves >= self.soft_max {')]
DEMO='''
pub fn demo() {
    let a = store("a", 3, 0, vec![], vec![]);
    let b = store("b", 3, 1, vec![], vec![]);
    let mut v: Vec<_> = (0..2100u32).map(|i| sub(&a, (i % 100) as u16, 1, 0.125, vec![])).collect();
    for i in 0..5 {
        v.push(sub(&b, 100 + i, 1, 0.5, vec![]));
    }
    let t = stackable(&v);
    let leaves = bfs(t).iter().filter(|n| n.is_leaf()).count();
    assert!(leaves >= 2000, "{}", leaves);
}
'''
