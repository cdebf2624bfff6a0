// Executable contracts: C06, C07 spatial retrieval
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


/// An encoded list of coordinates, strictly descending, as the builder writes it.
pub fn coord_list(codes: &[u32]) -> (Vec<u8>, gf::UniformVecOffset<gf::Coord>) {
    let mut w = gf::Writer::new();
    let ids = w.write_fixed_vec(&[9u32]);
    let cs: Vec<gf::Coord> = codes.iter().map(|c| gf::Coord { coord: *c, ids }).collect();
    let off = w.write_uniform_vec(&cs);
    (w.finish(), off)
}
pub fn bbox_exact(codes: &[u32], b: [u16; 4]) {
    let (data, off) = coord_list(codes);
    let v = gf::read_uniform_vec_raw(&data, off);
    let got: Vec<u32> = match spatial::bbox_filter(v, b) {
        Some(it) => it.map(|c| c.coord).collect(),
        None => vec![],
    };
    let want: Vec<u32> = codes.iter().cloned().filter(|c| inside(&b, unz(*c).0, unz(*c).1)).collect();
    assert!(got == want, "exactly the coordinates inside the box, in stored order");
    if let Some((s, e)) = spatial::bbox_range(v, b) {
        assert!(s <= e && (e as usize) < codes.len(), "a range of positions");
    }
    nd::reached("box");
}
pub fn zdist(c: u32, p: u32) -> u64 {
    (c as i64 - p as i64).abs() as u64
}
pub fn prox_order(codes: &[u32], p: [u16; 2], b: Option<[u16; 4]>) {
    let (data, off) = coord_list(codes);
    let v = gf::read_uniform_vec_raw(&data, off);
    let got: Vec<u32> = match b {
        None => spatial::proximity(v, p).map(|i| i.map(|c| c.coord).collect()).unwrap_or(vec![]),
        Some(b) => spatial::bbox_proximity_filter(v, b, p).map(|i| i.map(|c| c.coord).collect()).unwrap_or(vec![]),
    };
    let mut want: Vec<u32> =
        codes.iter().cloned().filter(|c| b.map_or(true, |b| inside(&b, unz(*c).0, unz(*c).1))).collect();
    let mut sorted = got.clone();
    sorted.sort();
    want.sort();
    assert!(sorted == want, "every coordinate (inside the box) exactly once");
    let pz = zcode(p[0], p[1]);
    assert!(
        got.windows(2).all(|w| zdist(w[0], pz) <= zdist(w[1], pz)),
        "nearest along the z-order curve first"
    );
    nd::reached("proximity");
}
pub fn small_codes() -> Vec<u32> {
    // any subset of the 16 tiles of a 4x4 block, optionally moved away from the origin
    let base = nd::pick(&[(0u16, 0u16), (4, 8), (6, 7), (65532, 65532), (32766, 100)]);
    let mut v: Vec<u32> = vec![];
    for i in 0..16u16 {
        if nd::flag() {
            v.push(zcode(base.0 + i % 4, base.1 + i / 4));
        }
    }
    v.sort();
    v.reverse();
    v
}
pub fn wide_codes() -> Vec<u32> {
    let n = nd::below(40);
    let clustered = nd::flag();
    let (cx, cy) = (nd::u16(), nd::u16());
    let mut v: Vec<u32> = (0..n)
        .map(|_| if clustered { zcode(cx ^ nd::below(8) as u16, cy ^ nd::below(8) as u16) } else { nd::u32() })
        .collect();
    v.sort();
    v.dedup();
    v.reverse();
    v
}
pub fn point_near(codes: &[u32]) -> (u16, u16) {
    if codes.is_empty() || nd::below(8) == 0 {
        return (nd::u16(), nd::u16());
    }
    let (x, y) = unz(nd::pick(codes));
    match nd::below(4) {
        0 => (x, y),
        1 => (x ^ nd::below(8) as u16, y ^ nd::below(8) as u16),
        2 => (x.saturating_add(nd::below(4) as u16), y.saturating_sub(nd::below(4) as u16)),
        _ => (x.saturating_sub(nd::below(3) as u16), y.saturating_add(nd::below(3) as u16)),
    }
}
pub fn box_near(codes: &[u32]) -> [u16; 4] {
    let a = point_near(codes);
    let b = point_near(codes);
    [a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1)]
}
pub fn c06_small() {
    let v = small_codes();
    bbox_exact(&v, box_near(&v));
    bbox_exact(&v, [0, 0, 65535, 65535]);
}
pub fn c06_wide() {
    let v = wide_codes();
    bbox_exact(&v, box_near(&v));
}
/// every subset of a 2x4 block and every box over it
pub fn c06_all() {
    let mut v: Vec<u32> = vec![];
    for i in 0..8u16 {
        if nd::flag() {
            v.push(zcode(1 + i % 4, 1 + i / 4));
        }
    }
    v.sort();
    v.reverse();
    for x0 in 0..6 {
        for x1 in x0..6 {
            for y0 in 0..4 {
                for y1 in y0..4 {
                    bbox_exact(&v, [x0, y0, x1, y1]);
                }
            }
        }
    }
}
pub fn c07_all() {
    let mut v: Vec<u32> = vec![];
    for i in 0..8u16 {
        if nd::flag() {
            v.push(zcode(1 + i % 4, 1 + i / 4));
        }
    }
    v.sort();
    v.reverse();
    for x in 0..6 {
        for y in 0..4 {
            prox_order(&v, [x, y], None);
            prox_order(&v, [x, y], Some([1, 1, 3, 2]));
            prox_order(&v, [x, y], Some([2, 0, 5, 1]));
            prox_order(&v, [x, y], Some([0, 2, 2, 3]));
        }
    }
}
pub fn c07_small() {
    let v = small_codes();
    let p = point_near(&v);
    prox_order(&v, [p.0, p.1], None);
    prox_order(&v, [p.0, p.1], Some(box_near(&v)));
}
pub fn c07_wide() {
    let v = wide_codes();
    let p = point_near(&v);
    prox_order(&v, [p.0, p.1], None);
    prox_order(&v, [p.0, p.1], Some(box_near(&v)));
}
