ID="bins-by-language"; PROP="C10"
NEEDS="a bin in which two phrases have different language sets"
BREAKS="all phrases of a bin are filed under the first phrase's language set... the bin forgets which phrase had which languages"
EDITS=[("builder.rs","lang_set_map.entry(grid_key.lang_set).or_insert_with(|| BuilderEntry::new());","lang_set_map.entry(grid_key.lang_set | 1).or_insert_with(|| BuilderEntry::new());")]
DEMO='''
pub fn demo() {
    let data = vec![(key(0, 1), vec![e(1., 1, 1, 1, 1, 0)]), (key(1, 2), vec![e(1., 1, 2, 2, 2, 0)])];
    let a = store("a", 6, 0, vec![], data.clone());
    let b = store("b", 6, 0, vec![0, 2], data);
    let q = |s: &GridStore| {
        let mut v: Vec<_> = s.streaming_get_matching(&range(0, 2, 1), &opts(6), 10).unwrap().map(|m| (m.grid_entry.id, m.matches_language)).collect();
        v.sort();
        v
    };
    assert_eq!(q(&a), q(&b));
}
'''
