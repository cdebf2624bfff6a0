// Executable contracts: C10 prefix bins
use super::expect::*;
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn c10_bins() {
    let top = 12u32;
    let mut bounds: Vec<u32> = vec![0];
    for i in 1..=top {
        if nd::below(3) == 0 {
            bounds.push(i);
        }
    }
    let mut data: Vec<(GridKey, Vec<GridEntry>)> = vec![];
    for p in 0..top + 2 {
        if nd::below(2) == 0 {
            for l in &[1u128, 2, 3, std::u128::MAX] {
                if nd::below(3) == 0 {
                    let es = (0..1 + nd::below(3)).map(|_| small_entry(2, 3)).collect();
                    data.push((GridKey { phrase_id: p, lang_set: *l }, es));
                }
            }
        }
    }
    let path = Path::new();
    let path2 = Path::new();
    let s = Spec { bins: bounds.clone(), ..Spec::new(6, data) };
    let binned = s.build(&path);
    let plain = Spec { bins: vec![], ..Spec::new(6, s.data.clone()) }.build(&path2);
    let mut bb: Vec<u32> = binned.bin_boundaries.iter().cloned().collect();
    bb.sort();
    assert!(bb == bounds, "the boundaries are read back");
    assert!(plain.bin_boundaries.iter().count() == 0, "no boundaries, none read back");
    let q = nd::pick(&[0u128, 1, 2, 3, std::u128::MAX]);
    let opts = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let k1: Vec<_> = binned.keys().map(|k| k.unwrap()).collect();
    let k2: Vec<_> = plain.keys().map(|k| k.unwrap()).collect();
    assert!(k1 == k2, "bins are not keys");
    for i in 0..bounds.len() {
        for j in i + 1..bounds.len() {
            let key = MatchKey { match_phrase: MatchPhrase::Range { start: bounds[i], end: bounds[j] }, lang_set: q };
            // the same tile, id, ... may sit under several phrases of a bin: compare as sets
            let set = |st: &GridStore| {
                let mut v: Vec<_> =
                    st.streaming_get_matching(&key, &opts, 1000).unwrap().map(|e| mkey(&e)).collect();
                v.sort();
                v.dedup();
                v
            };
            assert!(set(&binned) == set(&plain), "a range answered from bins has the entries of its phrases");
            nd::reached("bin range");
        }
    }
    // ranges that are not bin-aligned, and single phrases, do not see bins
    let a = nd::below(top);
    let key = MatchKey { match_phrase: MatchPhrase::Range { start: a, end: a + nd::below(4) }, lang_set: q };
    if bounds.contains(&a) {
        return;
    }
    let get = |st: &GridStore| {
        let mut v: Vec<_> = st.streaming_get_matching(&key, &opts, 1000).unwrap().map(|e| mkey(&e)).collect();
        v.sort();
        v
    };
    assert!(get(&binned) == get(&plain), "an unaligned range is answered from its phrases");
}
