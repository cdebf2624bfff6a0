// Executable contracts: C12 distance scoring
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn score_laws(zoom: u16, radius: f64, d1: f64, d2: f64, s1: u8, s2: u8) {
    // d1 <= d2, s1 <= s2
    let a = spatial::scoredist(zoom, d1, s1, radius);
    let far = spatial::scoredist(zoom, d2, s1, radius);
    let high = spatial::scoredist(zoom, d1, s2, radius);
    assert!(a.is_finite() && a > 0.0, "finite and positive");
    assert!(far <= a, "farther is never better");
    assert!(high >= a, "a higher score is never worse");
    let r = spatial::proximity_radius(zoom, radius);
    assert!(r >= 0.0 && r.is_finite(), "radius in tiles");
    let r6 = spatial::proximity_radius(if zoom < 6 { 6 } else { zoom }, radius);
    if d1 >= r6 && d1 >= 1.0 {
        assert!(a == far, "beyond the radius only the score counts");
        if s1 < s2 && s1 < 7 {
            assert!(high > a, "beyond the radius the score decides");
        }
        nd::reached("beyond the radius");
    }
    if d1 >= 1.0 && d2 <= r6 && d2 > d1 * 1.001 {
        assert!(far < a, "within the radius the nearer scores higher");
        nd::reached("within the radius");
    }
    if s1 < s2 && s1 < 7 {
        assert!(high > a, "a higher score (up to 7) is better");
    }
}
pub fn c12_scoring() {
    let zoom = nd::below(17) as u16;
    let radius = match nd::below(6) {
        0 => 0.0,
        1 => nd::below(2000) as f64 / 10.0,
        2 => 400.0,
        3 => 40.0,
        4 => 200.0,
        _ => nd::below(5000) as f64,
    };
    let (px, py) = (nd::u16(), nd::u16());
    let pt = || match nd::below(3) {
        0 => (px, py),
        1 => (px ^ nd::below(1 << nd::below(10)) as u16, py ^ nd::below(1 << nd::below(10)) as u16),
        _ => (nd::u16(), nd::u16()),
    };
    let (a, b) = (pt(), pt());
    let t = |p: (u16, u16)| spatial::tile_dist(px, py, p.0, p.1);
    let e = |p: (u16, u16)| {
        let (dx, dy) = (p.0 as i64 - px as i64, p.1 as i64 - py as i64);
        ((dx * dx + dy * dy) as f64).sqrt()
    };
    for p in &[a, b] {
        assert!((t(*p) - e(*p)).abs() <= 1e-9 * (1.0 + e(*p)), "Euclidean distance in tiles");
        assert!(t(*p) == spatial::tile_dist(p.0, p.1, px, py), "distance is symmetric");
    }
    assert!((t(a) == 0.0) == (a == (px, py)), "zero exactly at the point");
    let (d1, d2) = if t(a) <= t(b) { (t(a), t(b)) } else { (t(b), t(a)) };
    let (s1, s2) = (nd::below(16) as u8, nd::below(16) as u8);
    score_laws(zoom, radius, d1, d2, s1.min(s2), s1.max(s2));
    // 32 tiles are 40 miles at zoom 14; 1.5 times more tiles per zoom level
    let want = radius * 0.8 * 1.5f64.powi(zoom as i32 - 14);
    let r = spatial::proximity_radius(zoom, radius);
    assert!((r - want).abs() <= 1e-9 * (1.0 + want), "radius scales with the zoom");
}
