ID="extend-replaces"; PROP="C09"
NEEDS="two appends (or two separate runs in one insert) to the same key, relevance, score and tile"
BREAKS="the second batch of ids for a tile replaces the first"
EDITS=[("builder.rs","                    e.get_mut().extend(id_phrases);","                    *e.get_mut() = id_phrases.collect();")]
DEMO='''
pub fn demo() {
    let path = std::env::temp_dir().join("s");
    let mut b = GridStoreBuilder::new(&path).unwrap();
    b.append(&key(1, 1), vec![e(1., 1, 1, 1, 5, 0)]).unwrap();
    b.append(&key(1, 1), vec![e(1., 1, 1, 1, 6, 0)]).unwrap();
    b.finish().unwrap();
    let s = GridStore::new(&path).unwrap();
    assert_eq!(s.get(&key(1, 1)).unwrap().unwrap().count(), 2);
}
'''
