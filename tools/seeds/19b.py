ID='mask-of-the-last-two'; PROP='C19'
NEEDS='a path of three or more indexes that match'
BREAKS='the mask of a combination of three misses what its first index covers'
EDITS=[('coalesce.rs', 'new_context.mask = new_context.mask | subquery.mask;', 'new_context.mask =\n                                        new_context.entries.iter().take(2).fold(0, |m, e| m | e.mask);')]
DEMO='''
pub fn demo() {
    let a = store("a", 3, 0, vec![], vec![(key(1, 1), vec![e(1., 1, 1, 1, 1, 0)])]);
    let b = store("b", 6, 1, vec![], vec![(key(1, 1), vec![e(1., 1, 8, 8, 2, 0)])]);
    let c = store("c", 9, 2, vec![], vec![(key(1, 1), vec![e(1., 1, 64, 64, 3, 0)])]);
    let v = vec![
        sub(&a, 0, 1, 0.25, vec![(exact(1, 1), 0)]),
        sub(&b, 1, 2, 0.25, vec![(exact(1, 1), 1)]),
        sub(&c, 2, 4, 0.25, vec![(exact(1, 1), 2)]),
    ];
    let r = stack_and_coalesce(&v, &opts(9)).unwrap();
    assert!(r.iter().any(|c| c.entries.len() == 3));
    for c in r {
        assert_eq!(c.mask, c.entries.iter().fold(0, |m, e| m | e.mask), "{:?}", c);
    }
}
'''
