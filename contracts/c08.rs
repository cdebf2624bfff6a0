// Executable contracts: C08 entries survive storage
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn check_stored(store: &GridStore, key: &GridKey, want: &[GridEntry]) {
    let got: Vec<GridEntry> = match store.get(key).unwrap() {
        Some(i) => i.collect(),
        None => {
            assert!(false, "the key is stored");
            return;
        }
    };
    assert!(sorted(&got) == sorted_distinct(want), "exactly the distinct entries put in");
    assert!(
        got.windows(2).all(|w| (w[0].relev, w[0].score) >= (w[1].relev, w[1].score)),
        "best relevance, then best score, first"
    );
}
pub fn c08_entries() {
    let n = nd::below(9);
    let small = nd::flag();
    let es: Vec<GridEntry> =
        (0..n).map(|_| if small { small_entry(3, 3) } else { wide_entry() }).collect();
    let k = GridKey { phrase_id: nd::u32(), lang_set: lang() };
    let path = Path::new();
    let mut b = GridStoreBuilder::new(&path.0).unwrap();
    b.insert(&k, es.clone()).unwrap();
    b.finish().unwrap();
    let store = GridStore::new(&path.0).unwrap();
    check_stored(&store, &k, &es);
    let all: Vec<_> = store.iter().map(|r| r.unwrap()).collect();
    assert!(all.len() == 1 && all[0].0 == k, "iteration meets every key");
    assert!(sorted(&all[0].1) == sorted_distinct(&es), "iteration meets every entry");
    nd::reached("stored");
}
/// two entries, all combinations of a small domain
pub fn c08_pairs() {
    let a = small_entry(2, 2);
    let b = small_entry(2, 2);
    let k = GridKey { phrase_id: 1, lang_set: 1 };
    let path = Path::new();
    let mut bl = GridStoreBuilder::new(&path.0).unwrap();
    bl.insert(&k, vec![a.clone(), b.clone()]).unwrap();
    bl.finish().unwrap();
    check_stored(&GridStore::new(&path.0).unwrap(), &k, &[a, b]);
    nd::reached("stored");
}
/// many entries: several coordinates, long id lists, far pointers, shared id lists
pub fn c08_many() {
    let n = nd::pick(&[40u32, 130, 300, 1200, 5000]);
    let (nx, nid) = (nd::pick(&[1u32, 2, 8, 400, 65536]), nd::pick(&[1u32, 2, 200, 1 << 24]));
    let es: Vec<GridEntry> = (0..n)
        .map(|_| GridEntry {
            relev: nd::pick(&RELEVS),
            score: nd::below(16) as u8,
            x: nd::below(nx) as u16,
            y: nd::below(nx) as u16,
            id: nd::below(nid),
            source_phrase_hash: nd::below(3) as u8,
        })
        .collect();
    let k = GridKey { phrase_id: 5, lang_set: 1 };
    let path = Path::new();
    let mut b = GridStoreBuilder::new(&path.0).unwrap();
    b.append(&k, es.clone()).unwrap();
    b.finish().unwrap();
    let store = GridStore::new(&path.0).unwrap();
    let got: Vec<GridEntry> = store.get(&k).unwrap().unwrap().collect();
    assert!(sorted(&got) == sorted_distinct(&es), "exactly the distinct entries put in");
    nd::reached("stored");
}
