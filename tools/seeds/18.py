ID='replace-keeps-relevance'; PROP='C18'
NEEDS='a stack of three zooms in which two subqueries of one mask at the middle zoom are each combined with the lowest, the heavier one second'
BREAKS="the replaced entry's relevance is not all taken back, so the result's relevance is more than the sum of its entries"
EDITS=[('coalesce.rs', '                                context_relevance -= prev_relev;\n', '                                context_relevance -= prev_relev.min(0.4);\n')]
DEMO='''
pub fn demo() {
    let a = store("a", 3, 0, vec![], vec![(key(1, 1), vec![e(1., 1, 1, 1, 1, 0)])]);
    let b = store("b", 6, 1, vec![], vec![(key(1, 1), vec![e(1., 1, 8, 8, 2, 0)])]);
    let c = store("c", 6, 2, vec![], vec![(key(1, 1), vec![e(1., 1, 8, 8, 3, 0)])]);
    let d = store("d", 9, 3, vec![], vec![(key(1, 1), vec![e(1., 1, 64, 64, 4, 0)])]);
    let r = coalesce(
        vec![
            sub(&a, 0, 1, 0.2, vec![(exact(1, 1), 0)]),
            sub(&b, 1, 2, 0.5, vec![(exact(1, 1), 1)]),
            sub(&c, 2, 2, 0.6, vec![(exact(1, 1), 2)]),
            sub(&d, 3, 4, 0.2, vec![(exact(1, 1), 3)]),
        ],
        &opts(9),
    )
    .unwrap();
    assert!(r.iter().any(|c| c.entries.len() == 3));
    for c in r {
        let sum: f64 = c.entries.iter().map(|e| e.grid_entry.relev).sum();
        assert!((sum - c.relev).abs() < 0.0101, "{} vs {}: {:?}", sum, c.relev, c);
    }
}
'''
