# C12: distances, radius in tiles, distance score
== import float
== source spatial.rs
== prelude
pub assume_specification [f64::powi](x: f64, k: i32) -> (r: f64);
== floats scoring_literals
== hoist tiles_per_mile_by_zoom TILES_PER_MILE_BY_ZOOM
== take const E_POW
== prelude
/// tiles per mile: 0.8 at zoom 14 (32 tiles are 40 miles), 1.5 times as many per level
spec fn exact(z: int) -> real
    decreases z,
{
    if z <= 0 { 0.8real * (16384real / 4782969real) } else { exact(z - 1) * 1.5real }
}
spec fn tpm(z: int) -> real { val(TILES_PER_MILE_BY_ZOOM[z]) }
spec fn e(s: int) -> real { val(E_POW[s]) }
/// radius in tiles
spec fn pr(z: int, radius: real) -> real { rnd(radius * tpm(z)) }
spec fn zoom6(z: u16) -> int { if z < 6 { 6 } else { z as int } }
spec fn score7(s: u8) -> int { if s > 7 { 7 } else { s as int } }
/// what only the score decides
spec fn num(s: int) -> real { rnd(rnd(rnd(6real * e(s)) / e(7)) + 1real) }
spec fn near(d: real) -> real { if d < 1real { rnd(0.8real) } else { d } }
spec fn ratio(z: int, d: real, radius: real) -> real {
    let q = rnd(near(d) / pr(z, radius));
    if radius == 0real || q > 1real { 1real } else { q }
}
spec fn sd(zoom: u16, d: real, s: u8, radius: real) -> real { rnd(num(score7(s)) / ratio(zoom6(zoom), d, radius)) }
/// distance and radius in miles within reason
spec fn in_range(zoom: u16, d: real, radius: real) -> bool {
    zoom <= 16 && 0real <= d && d <= 200000real && (radius == 0real || (0.001real <= radius && radius <= 1000000000real))
}
spec fn radius_ok(radius: f64) -> bool { fin(radius) && (val(radius) == 0real ==> pzero(radius)) }
proof fn exact_table()
    ensures
        exact(0) == 0.8real * 16384real / 4782969real,
        exact(1) == 0.8real * 8192real / 1594323real,
        exact(2) == 0.8real * 4096real / 531441real,
        exact(3) == 0.8real * 2048real / 177147real,
        exact(4) == 0.8real * 1024real / 59049real,
        exact(5) == 0.8real * 512real / 19683real,
        exact(6) == 0.8real * 256real / 6561real,
        exact(7) == 0.8real * 128real / 2187real,
        exact(8) == 0.8real * 64real / 729real,
        exact(9) == 0.8real * 32real / 243real,
        exact(10) == 0.8real * 16real / 81real,
        exact(11) == 0.8real * 8real / 27real,
        exact(12) == 0.8real * 4real / 9real,
        exact(13) == 0.8real * 2real / 3real,
        exact(14) == 0.8real * 1real / 1real,
        exact(15) == 0.8real * 3real / 2real,
        exact(16) == 0.8real * 9real / 4real,
{
    reveal_with_fuel(exact, 18);
}
proof fn table(z: int)
    requires 0 <= z <= 16,
    ensures rabs(tpm(z) - exact(z)) <= exact(z) * 0.000000001real, 0.002real <= tpm(z) && tpm(z) <= 2real, fin(TILES_PER_MILE_BY_ZOOM[z]),
        z == 14 ==> rabs(exact(z) - 0.8real) == 0real,
{
    broadcast use fl;
    scoring_literals();
    exact_table();
    if z == 0 { assert(0.001real <= exact(0)); assert(rabs(tpm(0) - exact(0)) <= exact(0) * 0.000000001real); }
    if z == 1 { assert(0.001real <= exact(1)); assert(rabs(tpm(1) - exact(1)) <= exact(1) * 0.000000001real); }
    if z == 2 { assert(0.001real <= exact(2)); assert(rabs(tpm(2) - exact(2)) <= exact(2) * 0.000000001real); }
    if z == 3 { assert(0.001real <= exact(3)); assert(rabs(tpm(3) - exact(3)) <= exact(3) * 0.000000001real); }
    if z == 4 { assert(0.001real <= exact(4)); assert(rabs(tpm(4) - exact(4)) <= exact(4) * 0.000000001real); }
    if z == 5 { assert(0.001real <= exact(5)); assert(rabs(tpm(5) - exact(5)) <= exact(5) * 0.000000001real); }
    if z == 6 { assert(0.001real <= exact(6)); assert(rabs(tpm(6) - exact(6)) <= exact(6) * 0.000000001real); }
    if z == 7 { assert(0.001real <= exact(7)); assert(rabs(tpm(7) - exact(7)) <= exact(7) * 0.000000001real); }
    if z == 8 { assert(0.001real <= exact(8)); assert(rabs(tpm(8) - exact(8)) <= exact(8) * 0.000000001real); }
    if z == 9 { assert(0.001real <= exact(9)); assert(rabs(tpm(9) - exact(9)) <= exact(9) * 0.000000001real); }
    if z == 10 { assert(0.001real <= exact(10)); assert(rabs(tpm(10) - exact(10)) <= exact(10) * 0.000000001real); }
    if z == 11 { assert(0.001real <= exact(11)); assert(rabs(tpm(11) - exact(11)) <= exact(11) * 0.000000001real); }
    if z == 12 { assert(0.001real <= exact(12)); assert(rabs(tpm(12) - exact(12)) <= exact(12) * 0.000000001real); }
    if z == 13 { assert(0.001real <= exact(13)); assert(rabs(tpm(13) - exact(13)) <= exact(13) * 0.000000001real); }
    if z == 14 { assert(0.001real <= exact(14)); assert(rabs(tpm(14) - exact(14)) <= exact(14) * 0.000000001real); }
    if z == 15 { assert(0.001real <= exact(15)); assert(rabs(tpm(15) - exact(15)) <= exact(15) * 0.000000001real); }
    if z == 16 { assert(0.001real <= exact(16)); assert(rabs(tpm(16) - exact(16)) <= exact(16) * 0.000000001real); }
}
proof fn div_between(a: real, b: real, lo: real, hi: real)
    requires b > 0real, lo * b <= a, a <= hi * b,
    ensures lo <= a / b, a / b <= hi,
{
    let q = a / b;
    assert(q * b == a) by (nonlinear_arith) requires q == a / b, b > 0real;
    assert(lo <= q) by (nonlinear_arith) requires lo * b <= q * b, b > 0real;
    assert(q <= hi) by (nonlinear_arith) requires q * b <= hi * b, b > 0real;
}
spec fn num_lo(s: int) -> real {
    if s == 0 { 1.005470real } else if s == 1 { 1.014870real } else if s == 2 { 1.040423real } else if s == 3 { 1.109882real } else if s == 4 { 1.298692real } else if s == 5 { 1.811929real } else if s == 6 { 3.207055real } else { 6.999400real }
}
spec fn num_hi(s: int) -> real {
    if s == 0 { 1.005473real } else if s == 1 { 1.014875real } else if s == 2 { 1.040433real } else if s == 3 { 1.109906real } else if s == 4 { 1.298753real } else if s == 5 { 1.812094real } else if s == 6 { 3.207498real } else { 7.000600real }
}
proof fn num_at(s: int)
    requires 0 <= s <= 7,
    ensures num_lo(s) <= num(s) && num(s) <= num_hi(s), mid(6real * e(s)), mid(rnd(6real * e(s)) / e(7)), mid(rnd(rnd(6real * e(s)) / e(7)) + 1real), e(7) > 0real, fin(E_POW[s]), fin(E_POW[7]),
{
    broadcast use fl;
    scoring_literals();
    if s == 0 { div_between(rnd(6real * e(0)), e(7), 0.005471237real, 0.005471347real); }
    if s == 1 { div_between(rnd(6real * e(1)), e(7), 0.014872364real, 0.014872662real); }
    if s == 2 { div_between(rnd(6real * e(2)), e(7), 0.040427278real, 0.040428086real); }
    if s == 3 { div_between(rnd(6real * e(3)), e(7), 0.109892734real, 0.109894932real); }
    if s == 4 { div_between(rnd(6real * e(4)), e(7), 0.298719423real, 0.298725397real); }
    if s == 5 { div_between(rnd(6real * e(5)), e(7), 0.812003579real, 0.812019820real); }
    if s == 6 { div_between(rnd(6real * e(6)), e(7), 2.207254574real, 2.207298720real); }
    if s == 7 { div_between(rnd(6real * e(7)), e(7), 5.999940000real, 6.000060000real); }
}
proof fn nums(s: int)
    requires 0 <= s <= 7,
    ensures
        1real <= num(s) && num(s) <= 8real,
        s < 7 ==> num(s) * 1.001real <= num(s + 1),
{
    num_at(s);
    if s < 7 { num_at(s + 1); }
}
== text
spec fn sq(a: u16, b: u16, c: u16, d: u16) -> int { (a - c) * (a - c) + (b - d) * (b - d) }
/// whole numbers all the way
proof fn squares(a: int, b: int, x: real, y: real)
    requires -65535 <= a <= 65535, -65535 <= b <= 65535, x == a as real, y == b as real,
    ensures
        mid(x), mid(y), rnd(x) == x, rnd(y) == y,
        mid(x * x), mid(y * y), rnd(x * x) == x * x, rnd(y * y) == y * y, x * x >= 0real, y * y >= 0real,
        mid(x * x + y * y), rnd(x * x + y * y) == x * x + y * y, x * x + y * y == (a * a + b * b) as real,
{
    let (p, q) = (a * a, b * b);
    assert(p <= 65535 * 65535 && q <= 65535 * 65535 && p >= 0 && q >= 0) by (nonlinear_arith) requires p == a * a, q == b * b, -65535 <= a <= 65535, -65535 <= b <= 65535;
    assert(p as real == x * x) by (nonlinear_arith) requires p == a * a, x == a as real;
    assert(q as real == y * y) by (nonlinear_arith) requires q == b * b, y == b as real;
    fl_int(a); fl_int(b); fl_int(p); fl_int(q); fl_int(p + q);
}
== take fn tile_dist
== fn tile_dist
-- ret r
ensures fin(r), val(r) == rnd(rsqrt(sq(proximity_x, proximity_y, grid_x, grid_y) as real)),
-- start
broadcast use fl;
proof {
    let (a, b) = (proximity_x - grid_x, proximity_y - grid_y);
    let (x, y) = ((proximity_x as int as real) - (grid_x as int as real), (proximity_y as int as real) - (grid_y as int as real));
    let (v, w) = ((grid_x as int as real) - (proximity_x as int as real), (grid_y as int as real) - (proximity_y as int as real));
    assert((-a) * (-a) == a * a && (-b) * (-b) == b * b) by (nonlinear_arith);
    squares(a, b, x, y); squares(-a, b, v, y); squares(a, -b, x, w); squares(-a, -b, v, w);
}
== take fn tiles_per_mile_by_zoom
== fn tiles_per_mile_by_zoom
-- ret r
requires zoom <= 16,
ensures fin(r), val(r) == tpm(zoom as int),
-- start
proof { table(zoom as int); }
== text
/// the radius in tiles is a number well within range
proof fn radii(z: int, r: real)
    requires 0 <= z <= 16, r == 0real || (0.001real <= r && r <= 1000000000real),
    ensures mid(r * tpm(z)), r == 0real ==> pr(z, r) == 0real, r > 0real ==> 0.000001real <= pr(z, r) && pr(z, r) <= 3000000000real,
{
    broadcast use fl;
    table(z);
    fl_int(0);
    let t = tpm(z);
    if r == 0real { assert(r * t == 0real) by (nonlinear_arith) requires r == 0real; }
    else {
        assert(0.000002real <= r * t) by (nonlinear_arith) requires 0.001real <= r, 0.002real <= t;
        assert(r * t <= 2000000000real) by (nonlinear_arith) requires 0.001real <= r, r <= 1000000000real, 0.002real <= t, t <= 2real;
    }
}
/// a distance by a radius as well
proof fn ratios(z: int, d: real, r: real)
    requires 0 <= z <= 16, 0.001real <= r, r <= 1000000000real, 0real <= d, d <= 200000real,
    ensures 0.79real <= near(d) && near(d) <= 200000real, mid(near(d) / pr(z, r)), 0.0000000001real <= rnd(near(d) / pr(z, r)), rnd(near(d) / pr(z, r)) <= 1000000000000real,
{
    broadcast use fl;
    scoring_literals();
    radii(z, r);
    let (n, p) = (near(d), pr(z, r));
    div_between(n, p, 0.0000000002real, 300000000000real);
}
/// and the score by that ratio
proof fn scores(s: int, z: int, d: real, r: real)
    requires 0 <= z <= 16, 0 <= s <= 7, r == 0real || (0.001real <= r && r <= 1000000000real), 0real <= d, d <= 200000real,
    ensures 0.0000000001real <= ratio(z, d, r) && ratio(z, d, r) <= 1real, mid(num(s) / ratio(z, d, r)), 1real <= num(s) / ratio(z, d, r) && num(s) / ratio(z, d, r) <= 100000000000real,
{
    nums(s);
    if r != 0real { ratios(z, d, r); }
    let (n, q) = (num(s), ratio(z, d, r));
    assert(q <= 1real * n);
    assert(n <= 100000000000real * q);
    div_between(n, q, 1real, 100000000000real);
}
== take fn proximity_radius
== fn proximity_radius
-- ret r
requires zoom <= 16, in_range(zoom, 0real, val(radius)), radius_ok(radius),
ensures fin(r), val(r) == pr(zoom as int, val(radius)), val(radius) == 0real ==> pzero(r),
-- start
broadcast use fl;
proof { table(zoom as int); radii(zoom as int, val(radius)); }
== take fn scoredist
== fn scoredist
-- ret r
requires fin(distance), in_range(zoom, val(distance), val(radius)), radius_ok(radius),
ensures fin(r), val(r) == sd(zoom, val(distance), score, val(radius)),
-- start
broadcast use fl;
let ghost (z0, d0, s0, r0) = (zoom, val(distance), score, val(radius));
proof {
    scoring_literals();
    fl_int(0); fl_int(1); fl_int(6);
    if r0 != 0real { ratios(zoom6(z0), d0, r0); radii(zoom6(z0), r0); }
    scores(score7(s0), zoom6(z0), d0, r0);
    num_at(score7(s0));
}
== text
// ---- C12 -------------------------------------------------------------------------------------------------------------------
/// dividing keeps order
proof fn div_order(a: real, b: real, c: real, d: real)
    requires 0real < c, c <= a, 0real < b, b <= d,
    ensures c / d <= a / b,
{
    let (p, q) = (c / d, a / b);
    assert(p * d == c && q * b == a) by (nonlinear_arith) requires p == c / d, q == a / b, b > 0real, d > 0real;
    assert(q > 0real) by (nonlinear_arith) requires q * b == a, b > 0real, a > 0real;
    assert(q * d >= a) by (nonlinear_arith) requires q * b == a, b <= d, q > 0real;
    assert(p <= q) by (nonlinear_arith) requires q * d >= a, a >= p * d, d > 0real;
}
/// a gap wide enough survives rounding
proof fn gap(x: real, y: real, g: real)
    requires 0real < x, x * g <= y, 1.0000000000001real <= g, mid(x), mid(y),
    ensures rnd(x) < rnd(y), rnd(x) * (g * 0.99999999999999real) <= rnd(y),
{
    broadcast use fl;
    let u = 1real / 9007199254740992real;
    let v = 0.99999999999999real;
    assert(y > 0real) by (nonlinear_arith) requires x * g <= y, x > 0real, g >= 1real;
    assert(y * (1real - u) == y - y * u && x * (1real + u) == x + x * u) by (nonlinear_arith);
    assert(rnd(y) >= y * (1real - u));
    assert(rnd(x) <= x * (1real + u));
    let gv = g * v;
    assert(x * gv <= y * v) by (nonlinear_arith) requires x * g <= y, gv == g * v, v > 0real;
    assert(rnd(x) * gv <= x * (1real + u) * gv) by (nonlinear_arith) requires rnd(x) <= x * (1real + u), gv >= 0real;
    assert(x * (1real + u) * gv == x * gv * (1real + u)) by (nonlinear_arith);
    assert(x * gv * (1real + u) <= y * v * (1real + u)) by (nonlinear_arith) requires x * gv <= y * v, u > 0real;
    assert(y * v * (1real + u) <= y * (1real - u)) by (nonlinear_arith) requires y > 0real, v * (1real + u) <= 1real - u;
    assert(rnd(x) * 1.00000000000001real <= rnd(x) * gv) by (nonlinear_arith) requires rnd(x) > 0real, 1.00000000000001real <= gv;
}
/// never better from farther, positive
proof fn farther(zoom: u16, d1: real, d2: real, s: u8, r: real)
    requires in_range(zoom, d1, r), in_range(zoom, d2, r), d1 <= d2,
    ensures 0real < sd(zoom, d2, s, r) && sd(zoom, d2, s, r) <= sd(zoom, d1, s, r),
{
    broadcast use fl;
    scoring_literals();
    let (z, k) = (zoom6(zoom), score7(s));
    nums(k);
    scores(k, z, d1, r);
    scores(k, z, d2, r);
    fl_int(1);
    fl_monotone(0.8real, 1real);
    if r != 0real {
        ratios(z, d1, r); ratios(z, d2, r); radii(z, r);
        div_order(near(d2), pr(z, r), near(d1), pr(z, r));
        fl_monotone(near(d1) / pr(z, r), near(d2) / pr(z, r));
    }
    div_order(num(k), ratio(z, d1, r), num(k), ratio(z, d2, r));
    fl_monotone(num(k) / ratio(z, d2, r), num(k) / ratio(z, d1, r));
    fl_monotone(1real, num(k) / ratio(z, d2, r));
}
/// never worse with a higher score, better up to 7
proof fn higher(zoom: u16, d: real, s1: u8, s2: u8, r: real)
    requires in_range(zoom, d, r), s1 <= s2,
    ensures sd(zoom, d, s1, r) <= sd(zoom, d, s2, r), s1 < s2 && s1 < 7 ==> sd(zoom, d, s1, r) < sd(zoom, d, s2, r),
    decreases s2 - s1,
{
    broadcast use fl;
    if s1 < s2 && s1 < 7 {
        let (z, k) = (zoom6(zoom), s1 as int);
        higher(zoom, d, (s1 + 1) as u8, s2, r);
        nums(k); nums(k + 1);
        scores(k, z, d, r);
        scores(k + 1, z, d, r);
        let q = ratio(z, d, r);
        let (x, y) = (num(k) / q, num(k + 1) / q);
        assert(x * q == num(k) && y * q == num(k + 1)) by (nonlinear_arith) requires x == num(k) / q, y == num(k + 1) / q, q > 0real;
        assert(x * 1.001real <= y) by (nonlinear_arith) requires x * q == num(k), y * q == num(k + 1), num(k) * 1.001real <= num(k + 1), q > 0real;
        gap(x, y, 1.001real);
    }
}
/// within the radius (and a tile away) the nearer scores higher
proof fn nearer(zoom: u16, d1: real, d2: real, s: u8, r: real)
    requires in_range(zoom, d1, r), in_range(zoom, d2, r), r > 0real, 1real <= d1, d1 * 1.000000000001real <= d2, d2 <= pr(zoom6(zoom), r),
    ensures sd(zoom, d2, s, r) < sd(zoom, d1, s, r),
{
    broadcast use fl;
    let (z, k) = (zoom6(zoom), score7(s));
    let p = pr(z, r);
    nums(k); radii(z, r); ratios(z, d1, r); ratios(z, d2, r); scores(k, z, d1, r); scores(k, z, d2, r);
    let (x, y) = (d1 / p, d2 / p);
    assert(x * p == d1 && y * p == d2) by (nonlinear_arith) requires x == d1 / p, y == d2 / p, p > 0real;
    assert(x * 1.000000000001real <= y) by (nonlinear_arith) requires x * p == d1, y * p == d2, d1 * 1.000000000001real <= d2, p > 0real;
    assert(x > 0real && y <= 1real) by (nonlinear_arith) requires x * p == d1, y * p == d2, d1 > 0real, d2 <= p, p > 0real;
    gap(x, y, 1.000000000001real);
    fl_int(1);
    fl_monotone(y, 1real);
    let (a, b) = (rnd(x), rnd(y));
    assert(ratio(z, d1, r) == a && ratio(z, d2, r) == b);
    assert(a * 1.0000000000009real <= b) by (nonlinear_arith) requires a * (1.000000000001real * 0.99999999999999real) <= b, a > 0real;
    let (v, w) = (num(k) / a, num(k) / b);
    assert(v * a == num(k) && w * b == num(k)) by (nonlinear_arith) requires v == num(k) / a, w == num(k) / b, a > 0real, b > 0real;
    assert(w * 1.0000000000009real <= v) by (nonlinear_arith) requires v * a == num(k), w * b == num(k), a * 1.0000000000009real <= b, a > 0real, w > 0real;
    gap(w, v, 1.0000000000009real);
}
/// beyond the radius only the score counts
proof fn beyond(zoom: u16, d1: real, d2: real, s: u8, r: real)
    requires in_range(zoom, d1, r), in_range(zoom, d2, r), 1real <= d1, pr(zoom6(zoom), r) <= d1, 1real <= d2, pr(zoom6(zoom), r) <= d2,
    ensures sd(zoom, d1, s, r) == sd(zoom, d2, s, r),
{
    if r != 0real { one(zoom, d1, r); one(zoom, d2, r); }
}
proof fn one(zoom: u16, d: real, r: real)
    requires in_range(zoom, d, r), r > 0real, 1real <= d, pr(zoom6(zoom), r) <= d,
    ensures ratio(zoom6(zoom), d, r) == 1real,
{
    let p = pr(zoom6(zoom), r);
    radii(zoom6(zoom), r);
    let q = d / p;
    assert(q >= 1real) by (nonlinear_arith) requires q == d / p, p > 0real, p <= d;
    fl_int(1);
    fl_monotone(1real, q);
}
/// the radius in tiles is proportional to the radius, 0.8 tiles per mile at zoom 14, 1.5 times as many per level
proof fn radius_scales(z: int, r: real)
    requires 0 <= z <= 16, r == 0real || (0.001real <= r && r <= 1000000000real),
    ensures
        rabs(pr(z, r) - r * exact(z)) <= r * exact(z) * 0.00000001real,
        exact(14) == 0.8real, z < 16 ==> exact(z + 1) == exact(z) * 1.5real,
{
    broadcast use fl;
    table(z); radii(z, r); exact_table();
    let (t, x) = (tpm(z), exact(z));
    assert(x > 0real);
    let (p, q) = (r * t, r * x);
    assert(rabs(p - q) <= q * 0.000000001real) by (nonlinear_arith) requires p == r * t, q == r * x, r >= 0real, rabs(t - x) <= x * 0.000000001real;
    assert(q >= 0real) by (nonlinear_arith) requires q == r * x, r >= 0real, x > 0real;
    assert(p >= 0real) by (nonlinear_arith) requires p == r * t, r >= 0real, t > 0real;
    if r == 0real { assert(p == 0real && q == 0real) by (nonlinear_arith) requires p == r * t, q == r * x, r == 0real; }
    else { fl_round(p); let u = ulp(); assert(p * u <= q * 0.000000001real) by (nonlinear_arith) requires p <= q * 2real, 2real * u <= 0.000000001real, q >= 0real, u > 0real; }
}
/// distances between tiles: symmetric, 0 for the same tile only, a tile or more otherwise, in order, wide enough apart
proof fn distances(m: int, n: int)
    requires 0 <= m <= n <= 2 * 65535 * 65535,
    ensures
        m == 0 ==> rnd(rsqrt(m as real)) == 0real, m > 0 ==> rnd(rsqrt(m as real)) >= 1real,
        rnd(rsqrt(m as real)) <= rnd(rsqrt(n as real)) && rnd(rsqrt(n as real)) <= 200000real,
        m < n && m > 0 ==> rnd(rsqrt(m as real)) * 1.000000000001real <= rnd(rsqrt(n as real)),
{
    broadcast use fl;
    let (a, b) = (rsqrt(m as real), rsqrt(n as real));
    fl_sqrt(m as real); fl_sqrt(n as real);
    fl_int(0); fl_int(1); fl_int(200000);
    assert(a <= b) by (nonlinear_arith) requires a * a <= b * b, a >= 0real, b >= 0real;
    fl_monotone(a, b);
    assert(b <= 200000real) by (nonlinear_arith) requires b * b <= 8589672450real, b >= 0real;
    fl_monotone(b, 200000real);
    if m == 0 { assert(a == 0real) by (nonlinear_arith) requires a * a == 0real; }
    else {
        assert(a >= 1real) by (nonlinear_arith) requires a * a >= 1real, a >= 0real;
        fl_monotone(1real, a);
        if m < n {
            let g = 1.00000000005real;
            assert(a * a + 1real <= b * b);
            assert(a * a <= 8589672450real);
            assert((a * g) * (a * g) == a * a * (g * g)) by (nonlinear_arith);
            assert(a * a * (g * g) <= a * a + 1real) by (nonlinear_arith) requires a * a <= 8589672450real, a * a >= 0real, g * g <= 1.0000000001001real;
            assert(a * g <= b) by (nonlinear_arith) requires (a * g) * (a * g) <= b * b, a >= 0real, b >= 0real, g > 0real;
            gap(a, b, g);
            let c = rnd(a);
            assert(c * 1.000000000001real <= c * (g * 0.99999999999999real)) by (nonlinear_arith) requires c > 0real, 1.000000000001real <= g * 0.99999999999999real;
        }
    }
}
proof fn same_both_ways(a: u16, b: u16, c: u16, d: u16)
    ensures sq(a, b, c, d) == sq(c, d, a, b), sq(a, b, c, d) == 0 <==> a == c && b == d, 0 <= sq(a, b, c, d) <= 2 * 65535 * 65535,
{
    let (x, y) = (a - c, b - d);
    assert(x * x == (-x) * (-x) && y * y == (-y) * (-y)) by (nonlinear_arith);
    assert(0 <= x * x <= 65535 * 65535 && 0 <= y * y <= 65535 * 65535) by (nonlinear_arith) requires -65535 <= x <= 65535, -65535 <= y <= 65535;
    assert(x * x == 0 <==> x == 0) by (nonlinear_arith);
    assert(y * y == 0 <==> y == 0) by (nonlinear_arith);
}
