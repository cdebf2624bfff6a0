ID='bound-is-not-the-sum'; PROP='C16'
NEEDS='more than 2000 stacks, and a better one made of three or more light subqueries, met after the cap is reached'
BREAKS='what can still be added to a stack is bounded by the heaviest later subquery alone, so the best stack is given up'
EDITS=[('stackable.rs', '        sum_so_far = sum_so_far + *bin.max_relev;', '        sum_so_far = if *bin.max_relev > sum_so_far { *bin.max_relev } else { sum_so_far };')]
DEMO='''
pub fn demo() {
    let s: Vec<GridStore> = (0..4u16).map(|i| store(&format!("s{}", i), 3, i, vec![], vec![])).collect();
    let mut v: Vec<_> = (0..2100u32).map(|i| sub(&s[0], (i % 100) as u16, 7, 0.5, vec![])).collect();
    for i in 0..3 {
        v.push(sub(&s[1 + i], 100 + i as u16, 1 << i, 0.1875, vec![]));
    }
    let t = stackable(&v);
    assert_eq!(t.root.max_relev, 0.5625);
}
'''
