// Executable contracts: C03 key matching
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn match_phrase() -> MatchPhrase {
    if nd::flag() {
        MatchPhrase::Exact(nd::u32())
    } else {
        MatchPhrase::Range { start: nd::u32(), end: nd::u32() }
    }
}
pub fn match_one(mp: MatchPhrase, query_lang: u128, key: GridKey, kty: TypeMarker, qty: TypeMarker) {
    let mut b: Vec<u8> = Vec::with_capacity(32);
    key.write_to(kty, &mut b).unwrap();
    let mk = MatchKey { match_phrase: mp.clone(), lang_set: query_lang };
    let hit = match mp {
        MatchPhrase::Exact(p) => p == key.phrase_id,
        MatchPhrase::Range { start, end } => start <= key.phrase_id && key.phrase_id < end,
    };
    let same = (kty as u8) == (qty as u8);
    assert!(mk.matches_key(qty, &b).unwrap() == (hit && same), "phrase match");
    let l = key.lang_set == std::u128::MAX || (key.lang_set & query_lang) != 0;
    assert!(mk.matches_language(&b).unwrap() == l, "language match");
    // a scan begun at the start key meets every matching key and no smaller phrase
    let mut s: Vec<u8> = Vec::with_capacity(32);
    mk.write_start_to(qty, &mut s).unwrap();
    let (sty, sp) = (s[0], ((s[1] as u32) << 24) | ((s[2] as u32) << 16) | ((s[3] as u32) << 8) | s[4] as u32);
    let first = match mk.match_phrase {
        MatchPhrase::Exact(p) => p,
        MatchPhrase::Range { start, .. } => start,
    };
    assert!(s.len() == 5 && sty == qty as u8 && sp == first, "start of the scan");
    nd::reached("match decided");
}
pub fn tm() -> TypeMarker {
    if nd::flag() {
        TypeMarker::SinglePhrase
    } else {
        TypeMarker::PrefixBin
    }
}
pub fn c03_match() {
    let p = nd::u32();
    let near = |d: u32| match d {
        0 => p,
        1 => p.wrapping_add(1),
        2 => p.wrapping_sub(1),
        3 => p ^ (1 << nd::below(32)),
        _ => nd::u32(),
    };
    let mp = if nd::flag() {
        MatchPhrase::Exact(near(nd::below(5)))
    } else {
        MatchPhrase::Range { start: near(nd::below(5)), end: near(nd::below(5)) }
    };
    match_one(mp, lang(), GridKey { phrase_id: p, lang_set: lang() }, tm(), tm())
}
