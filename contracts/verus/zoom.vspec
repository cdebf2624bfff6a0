# C04: adjusting boxes and points between zooms
== source spatial.rs
== subst-re!
Some\(\[(\w+), (\w+)\]\) => \{
=>
Some(xy_) => { let \1 = &xy_[0]; let \2 = &xy_[1];
== subst-re!
self\.bbox\.map\(\|(\w+)\| adjust_bbox_zoom\(
=>
self.bbox.map(|\1: [u16; 4]| -> (o: [u16; 4]) requires self.zoom <= 16, target_z <= 16, box_at(\1, self.zoom) ensures moved_box(\1, self.zoom, o, target_z) { adjust_bbox_zoom(
== subst-re!
, self\.zoom, target_z\)\);
=>
, self.zoom, target_z) });
== prelude
use vstd::arithmetic::power2::{pow2, lemma2_to64, lemma_pow2_adds, lemma_pow2_pos};
use vstd::bits::{lemma_u32_shr_is_div, lemma_u32_shl_is_mul};
// ---- what is claimed: tile x of zoom s covers the tiles x * 2^d ..= x * 2^d + 2^d - 1 of zoom s + d ----------
spec fn tile_at(x: u16, zoom: u16) -> bool { x < pow2(zoom as nat) }
spec fn box_at(b: [u16; 4], zoom: u16) -> bool {
    tile_at(b[0], zoom) && tile_at(b[1], zoom) && tile_at(b[2], zoom) && tile_at(b[3], zoom)
}
spec fn first_below(x: u16, s: u16, t: u16) -> int { x * pow2((t - s) as nat) }
spec fn last_below(x: u16, s: u16, t: u16) -> int { x * pow2((t - s) as nat) + pow2((t - s) as nat) - 1 }
spec fn over_(x: u16, s: u16, t: u16) -> int { x as int / pow2((s - t) as nat) as int }
spec fn moved_box(b: [u16; 4], s: u16, r: [u16; 4], t: u16) -> bool {
    &&& box_at(r, t)
    &&& if t < s {
        r[0] == over_(b[0], s, t) && r[1] == over_(b[1], s, t) && r[2] == over_(b[2], s, t) && r[3] == over_(b[3], s, t)
    } else {
        r[0] == first_below(b[0], s, t) && r[1] == first_below(b[1], s, t) && r[2] == last_below(b[2], s, t) && r[3] == last_below(b[3], s, t)
    }
}
spec fn moved_point(x: u16, s: u16, r: u16, t: u16) -> bool {
    &&& tile_at(r, t)
    &&& if t == s { r == x } else if t < s { r == over_(x, s, t) } else { r == first_below(x, s, t) + pow2((t - s) as nat) / 2 - 1 }
}
// ---- lemmas ------------------------------------------------------------------------------------------------------
proof fn levels(s: u16, t: u16)
    requires s <= t <= 16,
    ensures
        pow2(s as nat) * pow2((t - s) as nat) == pow2(t as nat),
        1 <= pow2(s as nat) <= 65536,
        1 <= pow2((t - s) as nat) <= 65536,
        1 <= pow2(t as nat) <= 65536,
        (1u32 << ((t - s) as u32)) == pow2((t - s) as nat),
        s < t ==> pow2((t - s) as nat) >= 2 && pow2((t - s) as nat) % 2 == 0,
{
    lemma2_to64();
    lemma_pow2_adds(s as nat, (t - s) as nat);
    lemma_u32_shl_is_mul(1, (t - s) as u32);
    if s < t { lemma_pow2_adds(1, (t - s - 1) as nat); }
}
proof fn lower_(x: u16, s: u16, t: u16)
    requires s <= t <= 16, tile_at(x, s),
    ensures 0 <= first_below(x, s, t), last_below(x, s, t) < pow2(t as nat), (x as int) * pow2((t - s) as nat) <= 0xffff_0000,
{
    levels(s, t);
    let m = pow2((t - s) as nat) as int;
    assert(x * m + m <= pow2(s as nat) * m) by (nonlinear_arith) requires x + 1 <= pow2(s as nat), m >= 1;
    assert(0 <= x * m) by (nonlinear_arith) requires m >= 1, 0 <= x;
}
proof fn upper_(x: u16, s: u16, t: u16)
    requires t <= s <= 16, tile_at(x, s),
    ensures 0 <= over_(x, s, t) < pow2(t as nat), over_(x, s, t) <= x, ((x as u32) >> ((s - t) as u32)) == over_(x, s, t),
{
    levels(t, s);
    let m = pow2((s - t) as nat) as int;
    lemma_u32_shr_is_div(x as u32, (s - t) as u32);
    assert(x as int / m < pow2(t as nat)) by (nonlinear_arith) requires x < pow2(t as nat) * m, m >= 1;
    assert(0 <= x as int / m <= x) by (nonlinear_arith) requires m >= 1, 0 <= x;
}
== take fn adjust_bbox_zoom
== fn adjust_bbox_zoom
-- ret r
requires source_z <= 16, target_z <= 16, box_at(bbox, source_z),
ensures moved_box(bbox, source_z, r, target_z),
-- start
proof {
    if target_z < source_z {
        levels(target_z, source_z);
        upper_(bbox[0], source_z, target_z); upper_(bbox[1], source_z, target_z); upper_(bbox[2], source_z, target_z); upper_(bbox[3], source_z, target_z);
    } else {
        levels(source_z, target_z);
        lower_(bbox[0], source_z, target_z); lower_(bbox[1], source_z, target_z); lower_(bbox[2], source_z, target_z); lower_(bbox[3], source_z, target_z);
    }
    lemma2_to64();
}
== take fn global_bbox_for_zoom
== fn global_bbox_for_zoom
-- ret r
requires zoom <= 16,
ensures r@.len() == 1, r@[0]@ == seq![0u16, 0u16, (pow2(zoom as nat) - 1) as u16, (pow2(zoom as nat) - 1) as u16],
-- start
proof { levels(0, zoom); lemma2_to64(); }
== source common.rs
== take struct MatchOpts
// derive(Clone)
impl Clone for MatchOpts {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
== take impl MatchOpts | adjust_to_zoom
== fn MatchOpts::adjust_to_zoom
-- ret r
requires
    self.zoom <= 16,
    target_z <= 16,
    self.bbox matches Some(b) ==> box_at(b, self.zoom),
    self.proximity matches Some(p) ==> tile_at(p[0], self.zoom) && tile_at(p[1], self.zoom),
ensures
    r.zoom == target_z,
    r.bbox.is_some() == self.bbox.is_some(),
    r.proximity.is_some() == self.proximity.is_some(),
    self.bbox matches Some(b) ==> moved_box(b, self.zoom, r.bbox.unwrap(), target_z),
    self.proximity matches Some(p) ==> moved_point(p[0], self.zoom, r.proximity.unwrap()[0], target_z) && moved_point(p[1], self.zoom, r.proximity.unwrap()[1], target_z),
-- start
proof {
    lemma2_to64();
    if target_z < self.zoom { levels(target_z, self.zoom); } else { levels(self.zoom, target_z); }
    if let Some(p) = self.proximity {
        if target_z < self.zoom {
            upper_(p[0], self.zoom, target_z); upper_(p[1], self.zoom, target_z);
        } else {
            lower_(p[0], self.zoom, target_z); lower_(p[1], self.zoom, target_z);
        }
    }
}
