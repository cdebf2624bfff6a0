// Executable contracts: C01 storage format
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


/// A list of `n` u32 written after `pad` others reads back, whatever their number and place.
pub fn fmt_fixed(pad: usize, n: usize) {
    let mut w = gf::Writer::new();
    let p: Vec<u32> = (0..pad).map(|i| i as u32).collect();
    let off0 = w.write_fixed_vec(&p);
    let salt = nd::u32();
    let v: Vec<u32> = (0..n).map(|i| salt.wrapping_mul(2 * i as u32 + 1) ^ (salt >> 7)).collect();
    let off = w.write_fixed_vec(&v);
    w.write_fixed_vec(&p[..pad.min(3)]);
    let r = gf::Reader::new(w.finish());
    let got = r.read_fixed_vec(off);
    assert!(got.len() == n, "length of a fixed list");
    assert!(got.iter().collect::<Vec<_>>() == v, "elements of a fixed list (iter)");
    assert!(got.into_iter().collect::<Vec<_>>() == v, "elements of a fixed list (into_iter)");
    for i in 0..n.min(5) {
        assert!(got.get(i) == v[i] && got.get(n - 1 - i) == v[n - 1 - i], "element by position");
    }
    let got0 = r.read_fixed_vec(off0);
    assert!(got0.len() == pad && got0.into_iter().eq(p.iter().cloned()), "an earlier list is unchanged");
    nd::reached("fixed list");
}
pub const SIZES: [usize; 16] =
    [0, 1, 2, 3, 31, 32, 62, 63, 64, 126, 127, 128, 129, 255, 4096, 16384];

pub fn c01_fixed() {
    let pad = nd::pick(&SIZES);
    let n = nd::pick(&SIZES);
    fmt_fixed(pad, n)
}

/// A full record: relevance/score groups of coordinates of id lists, as the builder lays it out,
/// with `filler` u32s before it so that pointers take 1, 2, 3 or 4 bytes.
pub fn fmt_record(filler: usize, dims: &dyn Fn() -> (usize, usize, usize), big: usize) {
    let mut w = gf::Writer::new();
    if filler > 0 {
        w.write_fixed_vec(&vec![0xa5a5_a5a5u32; filler]);
    }
    let (nrs, _, _) = dims();
    let mut spec: Vec<(u8, Vec<(u32, Vec<u32>)>)> = vec![];
    let mut rses = vec![];
    for _ in 0..nrs {
        let (_, nc, _) = dims();
        let mut coords = vec![];
        let mut sc = vec![];
        for ci in 0..nc {
            let (_, _, ni) = dims();
            let ids: Vec<u32> = (0..ni).map(|_| nd::u32()).collect();
            let off = w.write_fixed_vec(&ids);
            let coord = nd::u32();
            coords.push(gf::Coord { coord, ids: off });
            sc.push((coord, ids));
            if ci == 0 && big > 0 {
                w.write_fixed_vec(&vec![1u32; big]);
            }
        }
        let off = w.write_uniform_vec(&coords);
        let relev_score = nd::u8();
        rses.push(gf::RelevScore { relev_score, coords: off });
        spec.push((relev_score, sc));
    }
    let off = w.write_var_vec(&rses);
    w.write_fixed_scalar(gf::PhraseRecord { relev_scores: off });
    let data = w.finish();
    let reader = gf::Reader::new(&data[..]);
    let rec = gf::read_phrase_record_from(&reader);
    let rs = reader.read_var_vec(rec.relev_scores);
    assert!(rs.len() == spec.len(), "number of groups");
    let rs2: Vec<u8> = rs.iter().map(|r| r.relev_score).collect();
    assert!(rs2.iter().eq(spec.iter().map(|s| &s.0)), "groups in order");
    let mut i = 0;
    let rec2 = gf::read_phrase_record_from(&reader);
    for r in gf::read_var_vec_raw(&data, rec2.relev_scores).into_iter() {
        let cs = reader.read_uniform_vec(r.coords);
        assert!(cs.len() == spec[i].1.len(), "number of coordinates");
        let mut j = 0;
        for c in gf::read_uniform_vec_raw(&data, r.coords).into_iter() {
            assert!(c.coord == spec[i].1[j].0, "coordinate");
            assert!(cs.get(j).coord == c.coord, "coordinate by position");
            let ids: Vec<u32> = gf::read_fixed_vec_raw(&data, c.ids).into_iter().collect();
            assert!(ids == spec[i].1[j].1, "ids of a coordinate");
            assert!(reader.read_fixed_vec(cs.get(j).ids).iter().eq(ids.iter().cloned()), "ids by position");
            j += 1;
        }
        assert!(j == spec[i].1.len(), "iterator length");
        i += 1;
    }
    assert!(i == spec.len(), "iterator length");
    nd::reached("record");
}
/// small shapes, pointers of every size class straddled
pub fn c01_record() {
    let filler = nd::pick(&[0usize, 30, 60, 61, 62, 63, 64, 65, 4000, 16382, 16383, 16384]);
    let big = nd::pick(&[0usize, 0, 60, 63, 64, 16000, 16383]);
    fmt_record(filler, &|| (nd::below(4) as usize, nd::below(4) as usize, nd::below(4) as usize), big)
}
/// long lists at every level
pub fn c01_long() {
    let k = nd::below(3);
    let n = nd::pick(&[126usize, 127, 128, 129, 255, 256, 257, 300]);
    let d = move || match k {
        0 => (n, 1, 1),
        1 => (2, n, 1),
        _ => (2, 2, n),
    };
    fmt_record(nd::pick(&[0usize, 50, 64]), &d, 0)
}
/// pointers beyond 2^16 and 2^24
pub fn c01_far() {
    let filler = nd::pick(&[16_380usize, 16_383, 1_000_000, 4_194_300, 4_194_302, 4_194_303, 4_194_304]);
    fmt_record(filler, &|| (2, 3, 2), nd::pick(&[0usize, 4, 1_000]))
}
