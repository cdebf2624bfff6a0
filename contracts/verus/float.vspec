== prelude
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::float::float_cast_spec;
// ---- f64: IEEE 754 arithmetic as rounded arithmetic on reals (trusted; stated for finite values well within range) -----------
/// a finite value
pub uninterp spec fn fin(x: f64) -> bool;
/// the real number it is (both zeros are 0)
pub uninterp spec fn val(x: f64) -> real;
/// plus infinity
pub uninterp spec fn pinf(x: f64) -> bool;
/// plus zero
pub uninterp spec fn pzero(x: f64) -> bool;
/// the representable number nearest to x
pub uninterp spec fn rnd(x: real) -> real;
/// the square root
pub uninterp spec fn rsqrt(x: real) -> real;
/// the smallest whole number not below x
pub uninterp spec fn rceil(x: real) -> int;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
/// no overflow and no subnormal numbers
pub open spec fn mid(x: real) -> bool { x == 0real || (1real <= rabs(x) * 1000000000000000000000000000000real && rabs(x) <= 1000000000000000000000000000000real) }
/// no overflow (sums and differences that come out subnormal are exact)
pub open spec fn small(x: real) -> bool { rabs(x) <= 1000000000000000000000000000000real }
pub open spec fn ulp() -> real { 1real / 9007199254740992real }
#[verifier::external_body]
pub broadcast proof fn fl_round(x: real)
    ensures mid(x) ==> rabs(#[trigger] rnd(x) - x) <= rabs(x) * ulp() && (x > 0real ==> rnd(x) > 0real) && (x < 0real ==> rnd(x) < 0real),
{}
/// with or without subnormal numbers
#[verifier::external_body]
pub proof fn fl_round_small(x: real)
    requires small(x),
    ensures rabs(rnd(x) - x) * 9007199254740992real <= rabs(x) + 1real,
{}
#[verifier::external_body]
pub proof fn fl_monotone(x: real, y: real)
    requires x <= y,
    ensures rnd(x) <= rnd(y),
{}
#[verifier::external_body]
pub broadcast proof fn fl_exact(a: f64)
    ensures fin(a) ==> rnd(#[trigger] val(a)) == val(a),
{}
/// whole numbers up to 2^53 are exact
#[verifier::external_body]
pub proof fn fl_int(n: int)
    requires -9007199254740992 <= n <= 9007199254740992,
    ensures rnd(n as real) == n as real,
{}
/// and so are their quotients by powers of two
#[verifier::external_body]
pub proof fn fl_dyadic(n: int, d: int)
    requires -9007199254740992 <= n <= 9007199254740992, d == 1 || d == 2 || d == 4 || d == 8 || d == 16 || d == 32 || d == 64 || d == 128 || d == 256 || d == 512 || d == 1024 || d == 2048 || d == 4096 || d == 8192 || d == 16384 || d == 32768 || d == 65536,
    ensures rnd(n as real / d as real) == n as real / d as real,
{}
#[verifier::external_body]
pub broadcast proof fn fl_specs()
    ensures
        #![trigger <f64 as AddSpec<f64>>::obeys_add_spec()] #![trigger <f64 as SubSpec<f64>>::obeys_sub_spec()] #![trigger <f64 as MulSpec<f64>>::obeys_mul_spec()]
        #![trigger <f64 as DivSpec<f64>>::obeys_div_spec()] #![trigger <f64 as PartialOrdSpec<f64>>::obeys_partial_cmp_spec()] #![trigger <f64 as PartialEqSpec<f64>>::obeys_eq_spec()]
        <f64 as AddSpec<f64>>::obeys_add_spec(), <f64 as SubSpec<f64>>::obeys_sub_spec(), <f64 as MulSpec<f64>>::obeys_mul_spec(),
        <f64 as DivSpec<f64>>::obeys_div_spec(), <f64 as PartialOrdSpec<f64>>::obeys_partial_cmp_spec(), <f64 as PartialEqSpec<f64>>::obeys_eq_spec(),
{}
#[verifier::external_body]
pub broadcast proof fn fl_add(a: f64, b: f64)
    ensures #![trigger a.add_req(b)] #![trigger a.add_spec(b)] a.add_req(b),
        fin(a) && fin(b) && small(val(a) + val(b)) ==> fin(a.add_spec(b)) && val(a.add_spec(b)) == rnd(val(a) + val(b)),
{}
#[verifier::external_body]
pub broadcast proof fn fl_sub(a: f64, b: f64)
    ensures #![trigger a.sub_req(b)] #![trigger a.sub_spec(b)] a.sub_req(b),
        fin(a) && fin(b) && small(val(a) - val(b)) ==> fin(a.sub_spec(b)) && val(a.sub_spec(b)) == rnd(val(a) - val(b)),
{}
#[verifier::external_body]
pub broadcast proof fn fl_mul(a: f64, b: f64)
    ensures #![trigger a.mul_req(b)] #![trigger a.mul_spec(b)] a.mul_req(b),
        fin(a) && fin(b) && mid(val(a) * val(b)) ==> fin(a.mul_spec(b)) && val(a.mul_spec(b)) == rnd(val(a) * val(b)),
        (pzero(a) && fin(b) && val(b) > 0real) || (pzero(b) && fin(a) && val(a) > 0real) ==> pzero(a.mul_spec(b)),
{}
#[verifier::external_body]
pub broadcast proof fn fl_div(a: f64, b: f64)
    ensures #![trigger a.div_req(b)] #![trigger a.div_spec(b)] a.div_req(b),
        fin(a) && fin(b) && val(b) != 0real && mid(val(a) / val(b)) ==> fin(a.div_spec(b)) && val(a.div_spec(b)) == rnd(val(a) / val(b)),
        fin(a) && val(a) > 0real && pzero(b) ==> pinf(a.div_spec(b)),
{}
#[verifier::external_body]
pub broadcast proof fn fl_kinds(a: f64)
    ensures #![trigger fin(a)] #![trigger pinf(a)] #![trigger pzero(a)] !(fin(a) && pinf(a)), pzero(a) ==> fin(a) && val(a) == 0real,
{}
#[verifier::external_body]
pub broadcast proof fn fl_cmp(a: f64, b: f64)
    ensures
        fin(a) && fin(b) ==> #[trigger] a.partial_cmp_spec(&b) == Some(if val(a) < val(b) { core::cmp::Ordering::Less } else if val(a) == val(b) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }),
        pinf(a) && fin(b) ==> a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater),
        fin(a) && pinf(b) ==> a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less),
{}
#[verifier::external_body]
pub broadcast proof fn fl_eq(a: f64, b: f64)
    ensures fin(a) && fin(b) ==> (#[trigger] a.eq_spec(&b) <==> val(a) == val(b)),
{}
/// core::cmp::Ordering compares as its values
#[verifier::external_body]
pub broadcast proof fn fl_ordering(a: core::cmp::Ordering, b: core::cmp::Ordering)
    ensures #[trigger] a.eq_spec(&b) <==> a == b,
{}
#[verifier::external_body]
pub broadcast proof fn fl_ordering_eq()
    ensures #[trigger] <core::cmp::Ordering as PartialEqSpec<core::cmp::Ordering>>::obeys_eq_spec(),
{}
#[verifier::external_body]
pub broadcast proof fn fl_from_u8(a: u8, r: f64)
    ensures #[trigger] float_cast_spec::<u8, f64>(a, r) ==> fin(r) && val(r) == a as int as real,
{}
#[verifier::external_body]
pub broadcast proof fn fl_from_u16(a: u16, r: f64)
    ensures #[trigger] float_cast_spec::<u16, f64>(a, r) ==> fin(r) && val(r) == a as int as real,
{}
#[verifier::external_body]
pub broadcast proof fn fl_from_i32(a: i32, r: f64)
    ensures #[trigger] float_cast_spec::<i32, f64>(a, r) ==> fin(r) && val(r) == a as int as real,
{}
#[verifier::external_body]
pub broadcast proof fn fl_to_u16(a: f64, r: u16)
    ensures #[trigger] float_cast_spec::<f64, u16>(a, r) ==> fin(a) && 0real <= val(a) <= 65535real ==> r as int as real <= val(a) && val(a) < (r + 1) as real,
{}
pub assume_specification [f64::ceil](x: f64) -> (r: f64)
    ensures fin(x) ==> fin(r) && val(r) == rceil(val(x)) as real && val(x) <= val(r) && val(r) < val(x) + 1real,
;
pub assume_specification [f64::min](a: f64, b: f64) -> (r: f64)
    ensures fin(a) && fin(b) ==> fin(r) && (r == a || r == b) && val(r) <= val(a) && val(r) <= val(b),
;
pub assume_specification [f64::max](a: f64, b: f64) -> (r: f64)
    ensures fin(a) && fin(b) ==> fin(r) && (r == a || r == b) && val(r) >= val(a) && val(r) >= val(b),
;
pub assume_specification [f64::abs](a: f64) -> (r: f64)
    ensures fin(a) ==> fin(r) && val(r) == rabs(val(a)),
;
pub assume_specification [f64::sqrt](x: f64) -> (r: f64)
    ensures fin(x) && val(x) >= 0real ==> fin(r) && val(r) == rnd(rsqrt(val(x))),
;
#[verifier::external_body]
pub proof fn fl_sqrt(x: real)
    requires x >= 0real,
    ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x,
{}
pub broadcast group fl { fl_round, fl_exact, fl_specs, fl_add, fl_sub, fl_mul, fl_div, fl_kinds, fl_cmp, fl_eq, fl_ordering, fl_ordering_eq, fl_from_u8, fl_from_u16, fl_from_i32, fl_to_u16 }
