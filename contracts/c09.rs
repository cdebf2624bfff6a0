// Executable contracts: C09 builder operations
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn c09_ops() {
    let path = Path::new();
    let mut b = GridStoreBuilder::new(&path.0).unwrap();
    let mut model: std::collections::BTreeMap<GridKey, Vec<GridEntry>> = Default::default();
    let nops = 1 + nd::below(6);
    let mut renumbered = false;
    for _ in 0..nops {
        let key = GridKey { phrase_id: nd::below(3), lang_set: nd::pick(&[1u128, 2, std::u128::MAX]) };
        match nd::below(4) {
            0 => {
                let es: Vec<GridEntry> = (0..nd::below(4)).map(|_| small_entry(2, 3)).collect();
                b.insert(&key, es.clone()).unwrap();
                model.insert(key, es);
            }
            1 => {
                let es: Vec<GridEntry> = (0..nd::below(4)).map(|_| small_entry(2, 3)).collect();
                b.append(&key, es.clone()).unwrap();
                model.entry(key).or_insert_with(Vec::new).extend(es);
            }
            2 => {
                let e = small_entry(2, 3);
                let coords: Vec<(u16, u16)> =
                    (0..nd::below(4)).map(|_| (nd::below(3) as u16, nd::below(3) as u16)).collect();
                b.compact_append(&key, e.relev, e.score, e.id, e.source_phrase_hash, &coords);
                let m = model.entry(key).or_insert_with(Vec::new);
                for (x, y) in coords {
                    m.push(GridEntry { x, y, ..e.clone() });
                }
            }
            _ => {
                let map: Vec<u32> = (0..1 + nd::below(3)).map(|_| nd::below(4)).collect();
                // expected: keys move to their new number; an unmapped number or two keys
                // landing on one are refused
                let oob = model.keys().any(|k| k.phrase_id as usize >= map.len());
                let mut new: std::collections::BTreeMap<GridKey, Vec<GridEntry>> = Default::default();
                let mut dup = false;
                if !oob {
                    for (k, v) in &model {
                        let nk = GridKey { phrase_id: map[k.phrase_id as usize], lang_set: k.lang_set };
                        dup |= new.insert(nk, v.clone()).is_some();
                    }
                }
                let r = b.renumber(&map);
                assert!(r.is_err() == (oob || dup), "renumbering is refused exactly when it is ambiguous or undefined");
                if r.is_err() {
                    nd::reached("renumbering refused");
                    return;
                }
                model = new;
                renumbered = true;
            }
        }
    }
    b.finish().unwrap();
    let store = GridStore::new(&path.0).unwrap();
    let all: Vec<_> = store.iter().map(|r| r.unwrap()).collect();
    assert!(all.len() == model.len(), "number of keys");
    for ((k, v), (mk, mv)) in all.iter().zip({
        let mut m: Vec<_> = model.iter().collect();
        m.sort_by_key(|(k, _)| {
            let mut b = vec![];
            k.write_to(TypeMarker::SinglePhrase, &mut b).unwrap();
            b
        });
        m
    }) {
        assert!(k == mk, "keys as the operations left them");
        assert!(sorted(v) == sorted_distinct(mv), "entries as the operations left them");
    }
    nd::reached(if renumbered { "renumbered" } else { "operations" });
}
