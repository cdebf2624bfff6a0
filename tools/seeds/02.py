ID="key-inner-zero-bytes"; PROP="C02"
NEEDS="two language sets that differ in zero bytes between non-zero ones, e.g. {0,16} and {0,8}"
BREAKS="all zero bytes of the language set are left out of the storage key, not only the leading ones, so distinct keys collide"
EDITS=[("common.rs","lang_set.iter().skip_while(|byte| **byte == 0u8)","lang_set.iter().filter(|byte| **byte != 0u8)")]
DEMO='''
pub fn demo() {
    let (a, b) = (key(7, 1 | 1 << 16), key(7, 1 | 1 << 8));
    let s = store("s", 6, 0, vec![], vec![(a.clone(), vec![e(1., 1, 1, 1, 1, 0)]), (b.clone(), vec![e(1., 1, 2, 2, 2, 0)])]);
    let ids = |k| s.get(&k).unwrap().map(|i| i.map(|e| e.id).collect::<Vec<_>>());
    assert_eq!((ids(a), ids(b)), (Some(vec![1]), Some(vec![2])));
}
'''
