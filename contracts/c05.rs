// Executable contracts: C05 nearby only
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn nearby(z: u16, bbox: Option<[u16; 4]>, prox: Option<[u16; 2]>) {
    let max = (1u32 << z) - 1;
    let o = MatchOpts { bbox, proximity: prox, zoom: z };
    if let Some(p) = prox {
        nd::assume(p[0] as u32 <= max && p[1] as u32 <= max);
    }
    let r = o.with_nearby_only();
    assert!(r.zoom == z, "zoom unchanged");
    let p = match (prox, r.proximity) {
        (None, None) => {
            match (bbox, r.bbox) {
                (None, None) => {}
                (Some(a), Some(b)) => assert!(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3], "no point: box unchanged"),
                _ => assert!(false, "no point: box unchanged"),
            }
            nd::reached("no point");
            return;
        }
        (Some(a), Some(b)) => {
            assert!(a[0] == b[0] && a[1] == b[1], "point unchanged");
            a
        }
        _ => {
            assert!(false, "point unchanged");
            return;
        }
    };
    let n = r.bbox.expect("a box is set");
    // smallest number of whole tiles that spans 25 miles: the first k with k * 24901 >= 25 * 2^z
    let tiles = 1i64 << z;
    let pad = (25 * tiles + 24900) / 24901;
    for i in 0..2 {
        let c = p[i] as i64;
        let lo = n[i] as i64;
        let hi = n[i + 2] as i64;
        match bbox {
            None => {
                assert!(lo == std::cmp::max(0, c - pad), "west/north edge");
                assert!(hi == c + pad || hi == std::cmp::min(c + pad, max as i64) || hi == std::cmp::min(c + pad, 65535), "east/south edge");
            }
            Some(b) => {
                let (bl, bh) = (b[i] as i64, b[i + 2] as i64);
                assert!(lo == std::cmp::max(bl, std::cmp::max(0, c - pad)), "west/north edge within the old box");
                let e = std::cmp::min(c + pad, 65535);
                assert!(
                    hi == std::cmp::min(bh, e) || hi == std::cmp::min(bh, std::cmp::min(e, max as i64)),
                    "east/south edge within the old box"
                );
            }
        }
    }
    nd::reached("restricted");
}
pub fn c05_nearby() {
    let z = nd::below(17) as u16;
    let m = ((1u32 << z) - 1) as u16;
    let c = || match nd::below(6) {
        0 => 0,
        1 => m,
        2 => (nd::u8() as u16).min(m),
        3 => m - (nd::u8() as u16).min(m),
        _ => nd::u16() & m,
    };
    let (x0, y0, x1, y1) = (c(), c(), c(), c());
    let bbox = [x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1)];
    nearby(z, if nd::flag() { Some(bbox) } else { None }, if nd::below(4) > 0 { Some([c(), c()]) } else { None })
}
