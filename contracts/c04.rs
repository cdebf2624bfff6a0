// Executable contracts: C04 zoom adjustment
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn zoom_adjust(sz: u16, tz: u16, bbox: Option<[u16; 4]>, prox: Option<[u16; 2]>) {
    let max = ((1u32 << sz) - 1) as u16;
    let tmax = ((1u32 << tz) - 1) as u16;
    if let Some(b) = bbox {
        nd::assume(b[0] <= b[2] && b[1] <= b[3] && b[2] <= max && b[3] <= max);
    }
    if let Some(p) = prox {
        nd::assume(p[0] <= max && p[1] <= max);
    }
    let o = MatchOpts { bbox, proximity: prox, zoom: sz };
    let r = o.adjust_to_zoom(tz);
    assert!(r.zoom == tz, "target zoom");
    assert!(r.bbox.is_some() == bbox.is_some() && r.proximity.is_some() == prox.is_some(), "same fields set");
    // tile t at the lower zoom covers t*2^d .. t*2^d + 2^d-1 at the higher one
    if tz >= sz {
        let d = (tz - sz) as u32;
        if let (Some(b), Some(n)) = (bbox, r.bbox) {
            for i in 0..2 {
                assert!(n[i] as u32 == (b[i] as u32) << d, "first tile of the box");
                assert!(n[i + 2] as u32 == ((b[i + 2] as u32 + 1) << d) - 1, "last tile of the box");
            }
        }
        if let (Some(p), Some(n)) = (prox, r.proximity) {
            for i in 0..2 {
                assert!((n[i] as u32) >> d == p[i] as u32, "point stays in its tile");
                if d > 0 {
                    let mid = ((p[i] as u32) << d) + (1 << (d - 1));
                    assert!(n[i] as u32 == mid - 1, "point is the middle of its tile");
                } else {
                    assert!(n[i] == p[i], "same zoom, same point");
                }
            }
        }
    } else {
        let d = (sz - tz) as u32;
        if let (Some(b), Some(n)) = (bbox, r.bbox) {
            for i in 0..4 {
                assert!(n[i] as u32 == (b[i] as u32) >> d, "tile containing the corner");
            }
        }
        if let (Some(p), Some(n)) = (prox, r.proximity) {
            for i in 0..2 {
                assert!(n[i] as u32 == (p[i] as u32) >> d, "tile containing the point");
            }
        }
    }
    if let Some(n) = r.bbox {
        assert!(n[0] <= n[2] && n[1] <= n[3] && n[2] <= tmax && n[3] <= tmax, "a valid box of the target zoom");
        let a = spatial::adjust_bbox_zoom(bbox.unwrap(), sz, tz);
        assert!(a[0] == n[0] && a[1] == n[1] && a[2] == n[2] && a[3] == n[3], "one adjustment for all");
    }
    if let Some(n) = r.proximity {
        assert!(n[0] <= tmax && n[1] <= tmax, "a valid tile of the target zoom");
    }
    nd::reached("adjusted");
}
pub fn c04_zoom() {
    let sz = nd::below(17) as u16;
    let tz = nd::below(17) as u16;
    let m = ((1u32 << sz) - 1) as u16;
    let c = || match nd::below(4) {
        0 => 0,
        1 => m,
        _ => nd::u16() & m,
    };
    let (x0, y0, x1, y1) = (c(), c(), c(), c());
    let bbox = [x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1)];
    zoom_adjust(sz, tz, if nd::flag() { Some(bbox) } else { None }, if nd::flag() { Some([c(), c()]) } else { None });
    let g = crate::gridstore::global_bbox_for_zoom(sz);
    assert!(g.len() == 1 && g[0][0] == 0 && g[0][1] == 0 && g[0][2] == m && g[0][3] == m, "whole world");
}
