# C05: the box around the point
== import float
== source common.rs
== prelude
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct>[ core::cmp::max ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b }),
;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct>[ core::cmp::min ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a }),
;
/// smallest number of whole tiles of this zoom that span 25 miles: the first k with k * 24901 >= 25 * 2^zoom
spec fn pad(z: u16) -> int { (25 * (1u32 << (z as u32)) + 24900) / 24901 }
spec fn max0(a: int) -> int { if a < 0 { 0 } else { a } }
spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
spec fn most(a: int, b: int) -> int { if a < b { b } else { a } }
/// from the point in each direction by that many tiles, not beyond the first nor beyond u16 (so not beyond the last tile
/// either way), and within the old box
spec fn boxed(p: [u16; 2], z: u16, old: Option<[u16; 4]>, b: [u16; 4]) -> bool {
    let (x0, y0, x1, y1) = (max0(p[0] - pad(z)), max0(p[1] - pad(z)), least(p[0] + pad(z), 65535), least(p[1] + pad(z), 65535));
    match old {
        None => b[0] == x0 && b[1] == y0 && b[2] == x1 && b[3] == y1,
        Some(o) => b[0] == most(o[0] as int, x0) && b[1] == most(o[1] as int, y0) && b[2] == least(o[2] as int, x1) && b[3] == least(o[3] as int, y1),
    }
}
/// 25 / (24901 / t) rounds to something that lies strictly between the same two whole numbers as the exact quotient
proof fn quotient(t: int, n: real, m: real, k: int)
    requires 1 <= t <= 65536, (25 * t) % 24901 != 0, n == 25real, m == 24901real / (t as real),
    ensures mid(24901real / (t as real)), mid(n / m), m != 0real,
        rnd(n / m) <= (k as real) && (k as real) < rnd(n / m) + 1real ==> k == (25 * t + 24900) / 24901,
{
    let tr = t as real;
    let q = n / m;
    assert(0.3real <= m && m <= 24901real) by (nonlinear_arith) requires m == 24901real / tr, 1real <= tr, tr <= 65536real;
    assert(m * tr == 24901real) by (nonlinear_arith) requires m == 24901real / tr, 1real <= tr;
    assert(q * m == 25real) by (nonlinear_arith) requires q == 25real / m, m > 0real;
    assert(q * 24901real == 25real * tr) by (nonlinear_arith) requires q * m == 25real, m * tr == 24901real;
    let e = rnd(q) - q;
    assert(mid(q));
    fl_round(q);
    assert(rabs(e) <= q * ulp());
    assert(q <= 66real);
    let u = ulp();
    assert(q * u <= 66real * u) by (nonlinear_arith) requires q <= 66real, u > 0real;
    assert(rabs(e) * 1000000real <= 1real);
    let c = (25 * t + 24900) / 24901;
    assert(24901 * c >= 25 * t + 1 && 24901 * (c - 1) <= 25 * t - 1);
    let cr = c as real;
    assert(24901real * cr >= 25real * tr + 1real) by { assert((24901 * c) as real == 24901real * cr); assert((25 * t + 1) as real == 25real * tr + 1real); }
    assert(24901real * (cr - 1real) <= 25real * tr - 1real) by { assert((24901 * (c - 1)) as real == 24901real * (cr - 1real)); assert((25 * t - 1) as real == 25real * tr - 1real); }
}
== floats
== take const EARTH_CIRC_IN_MILES
== take const NEARBY_RADIUS
== take struct MatchOpts
// derive(Clone)
impl Clone for MatchOpts {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { MatchOpts { bbox: self.bbox, proximity: self.proximity, zoom: self.zoom } }
}
== text
proof fn pads(z: u16)
    requires z <= 16,
    ensures
        1 <= (1i32 << z) <= 65536, (1i32 << z) == (1u32 << (z as u32)),
        (1i32 << z) == 1 || (1i32 << z) == 2 || (1i32 << z) == 4 || (1i32 << z) == 8 || (1i32 << z) == 16 || (1i32 << z) == 32 || (1i32 << z) == 64 || (1i32 << z) == 128 || (1i32 << z) == 256 || (1i32 << z) == 512 || (1i32 << z) == 1024 || (1i32 << z) == 2048 || (1i32 << z) == 4096 || (1i32 << z) == 8192 || (1i32 << z) == 16384 || (1i32 << z) == 32768 || (1i32 << z) == 65536,
{
    assert(1 <= (1i32 << z) <= 65536 && (1i32 << z) == (1u32 << (z as u32)) && ((1i32 << z) == 1 || (1i32 << z) == 2 || (1i32 << z) == 4 || (1i32 << z) == 8 || (1i32 << z) == 16 || (1i32 << z) == 32 || (1i32 << z) == 64 || (1i32 << z) == 128 || (1i32 << z) == 256 || (1i32 << z) == 512 || (1i32 << z) == 1024 || (1i32 << z) == 2048 || (1i32 << z) == 4096 || (1i32 << z) == 8192 || (1i32 << z) == 16384 || (1i32 << z) == 32768 || (1i32 << z) == 65536)) by (bit_vector) requires z <= 16;
}
== take impl MatchOpts | with_nearby_only
== fn MatchOpts::with_nearby_only
-- ret r
requires self.zoom <= 16,
ensures r.zoom == self.zoom, r.proximity == self.proximity,
    self.proximity is None ==> r.bbox == self.bbox,
    self.proximity is Some ==> r.bbox is Some && boxed(self.proximity->0, self.zoom, self.bbox, r.bbox->0),
-- start
broadcast use fl;
proof { literals(); pads(self.zoom); }
-- before let mut new_box
proof {
    let t = (1i32 << self.zoom) as int;
    fl_int(24901); fl_int(25);
    fl_dyadic(24901, t);
    assert(mid(24901real / (t as real))) by (nonlinear_arith) requires 1real <= t as real, t as real <= 65536real;
    assert(val(EARTH_CIRC_IN_MILES) == 24901real);
    assert(val(miles_per_tile) == 24901real / (t as real));
    quotient(t, val(NEARBY_RADIUS), val(miles_per_tile), rceil(rnd(val(NEARBY_RADIUS) / val(miles_per_tile))));
    assert(padding == pad(self.zoom));
}
