// Executable contracts: C02 keys
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


/// spec-side decoder of a storage key
pub fn spec_decode_key(b: &[u8]) -> (u8, u32, u128) {
    let p = ((b[1] as u32) << 24) | ((b[2] as u32) << 16) | ((b[3] as u32) << 8) | b[4] as u32;
    let mut l = 0u128;
    for x in &b[5..] {
        l = (l << 8) | *x as u128;
    }
    (b[0], p, if b.len() == 5 { std::u128::MAX } else { l })
}
pub fn key_roundtrip(ty: TypeMarker, k: GridKey, prefix: usize) {
    // the caller's buffer may hold earlier bytes: they stay
    let mut b: Vec<u8> = Vec::with_capacity(32);
    for _ in 0..prefix {
        b.push(7);
    }
    k.write_to(ty, &mut b).unwrap();
    assert!(b.len() >= prefix + 5 && b.len() - prefix <= MAX_KEY_LENGTH, "key length");
    let d = spec_decode_key(&b[prefix..]);
    assert!(d.0 == ty as u8, "type marker comes first");
    assert!(d.1 == k.phrase_id, "then the phrase id, most significant byte first");
    assert!(d.2 == k.lang_set, "the language set is recoverable");
    // only one spelling per key: no superfluous leading zero byte
    assert!(
        b.len() - prefix <= 6 || b[prefix + 5] != 0,
        "language bytes carry no superfluous leading zero"
    );
    nd::reached("key written");
}
pub fn c02_key() {
    let ty = if nd::flag() { TypeMarker::SinglePhrase } else { TypeMarker::PrefixBin };
    let k = GridKey { phrase_id: nd::u32(), lang_set: lang() };
    key_roundtrip(ty, k, nd::below(2) as usize)
}
/// Through a store: every key inserted is listed once, in (phrase) order, and finds its own data.
pub fn c02_store() {
    let n = 1 + nd::below(6) as usize;
    let near = nd::u32();
    let mut data: Vec<(GridKey, Vec<GridEntry>)> = vec![];
    for _ in 0..n {
        let phrase_id = match nd::below(5) {
            0 => near,
            1 => near ^ (1 << nd::below(32)),
            2 => nd::below(300),
            3 => nd::u32(),
            _ => std::u32::MAX - nd::below(3),
        };
        let k = GridKey { phrase_id, lang_set: lang() };
        if data.iter().all(|(o, _)| *o != k) {
            data.push((k, vec![wide_entry()]));
        }
    }
    let path = Path::new();
    let s = Spec { bins: if nd::flag() { vec![0, 100, 1 << 20] } else { vec![] }, ..Spec::new(6, vec![]) };
    let s = Spec { data, ..s };
    let store = s.build(&path);
    let keys: Vec<GridKey> = store.keys().map(|k| k.unwrap()).collect();
    let mut a = keys.clone();
    let mut e: Vec<GridKey> = s.data.iter().map(|d| d.0.clone()).collect();
    assert!(keys.windows(2).all(|w| w[0].phrase_id <= w[1].phrase_id), "keys come in phrase order");
    a.sort();
    e.sort();
    assert!(a == e, "every key exactly once");
    for (k, v) in &s.data {
        let got: Vec<GridEntry> = store.get(k).unwrap().expect("key present").collect();
        assert!(sorted(&got) == sorted(v), "each key finds its own entries");
    }
    for _ in 0..2 {
        let k = GridKey { phrase_id: near ^ (nd::below(2) << nd::below(32)), lang_set: lang() };
        if s.data.iter().all(|d| d.0 != k) {
            assert!(store.get(&k).unwrap().is_none(), "absent key finds nothing");
        }
    }
    nd::reached("store of keys");
}
