# C08: relevance as two bits
== import float
== source common.rs
== floats relev_literals
== prelude
/// the code of a relevance
spec fn relev_int(relev: f64) -> u8 {
    if relev.eq_spec(&0.4f64) { 0 } else if relev.eq_spec(&0.6f64) { 1 } else if relev.eq_spec(&0.8f64) { 2 } else { 3 }
}
/// the relevance of a code
spec fn relev_of(x: u8) -> f64 {
    if x == 0 { 0.4f64 } else if x == 1 { 0.6f64 } else if x == 2 { 0.8f64 } else { 1.0f64 }
}
/// the relevances that can be stored
spec fn storable(r: f64) -> bool { r == 0.4f64 || r == 0.6f64 || r == 0.8f64 || r == 1.0f64 }
== take fn relev_float_to_int
== fn relev_float_to_int
-- ret r
ensures r == relev_int(relev), r < 4,
-- start
broadcast use fl;
proof { relev_literals(); }
== take fn relev_int_to_float
== fn relev_int_to_float
-- ret r
ensures r == relev_of(relev),
== text
/// a storable relevance survives, better ones have greater codes
proof fn relev_survives(r: f64)
    requires storable(r),
    ensures relev_of(relev_int(r)) == r, fin(r),
{ broadcast use fl; relev_literals(); }
proof fn relev_order(a: u8, b: u8)
    requires a < b < 4,
    ensures val(relev_of(a)) < val(relev_of(b)),
{ broadcast use fl; relev_literals(); }
