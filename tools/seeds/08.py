ID="shared-id-lists"; PROP="C08"
NEEDS="two coordinates of one key whose id lists have the same length and the same largest id"
BREAKS="id lists are shared when only their length and first id agree"
EDITS=[("builder.rs","id_lists.entry(ids.clone()).or_insert_with","id_lists.entry((ids.len(), ids[0])).or_insert_with")]
DEMO='''
pub fn demo() {
    let es = vec![e(1., 1, 1, 1, 5, 0), e(1., 1, 1, 1, 9, 0), e(1., 1, 2, 2, 6, 0), e(1., 1, 2, 2, 9, 0)];
    let s = store("s", 6, 0, vec![], vec![(key(1, 1), es)]);
    let mut got: Vec<_> = s.get(&key(1, 1)).unwrap().unwrap().map(|e| (e.x, e.id)).collect();
    got.sort();
    assert_eq!(got, vec![(1, 5), (1, 9), (2, 6), (2, 9)]);
}
'''
