# C18, C19: what combining matches speaks of
== import entry
== import zoom
== text
/// Iterator::take
#[verifier::external_body]
fn taken<A>(a: It<A>, n: usize) -> (r: Vec<A>)
    ensures r@ == a.seq().take(if a.seq().len() < n { a.seq().len() as int } else { n as int }),
{ unimplemented!() }
/// Vec::extend
#[verifier::external_body]
fn extend_list<A>(a: &mut Vec<A>, b: Vec<A>)
    ensures final(a)@ == old(a)@ + b@,
{ unimplemented!() }
spec fn zoom_of<T: HasStore>(s: Pm<T>) -> u16 { s.store.gs().zoom }
/// the options, for another zoom (unit zoom)
spec fn retuned(o: MatchOpts, r: MatchOpts) -> bool {
    r == o || {
        &&& r.zoom <= 16
        &&& r.bbox.is_some() == o.bbox.is_some()
        &&& r.proximity.is_some() == o.proximity.is_some()
        &&& o.bbox matches Some(b) ==> moved_box(b, o.zoom, r.bbox.unwrap(), r.zoom)
        &&& o.proximity matches Some(p) ==> moved_point(p[0], o.zoom, r.proximity.unwrap()[0], r.zoom) && moved_point(p[1], o.zoom, r.proximity.unwrap()[1], r.zoom)
    }
}
/// tile (x2, y2) of zoom z2 has tile (x, y) of zoom z in it
spec fn over_xy(x: u16, y: u16, z: u16, x2: u16, y2: u16, z2: u16) -> bool {
    z2 <= z && x2 == x as int / pow2((z - z2) as nat) as int && y2 == y as int / pow2((z - z2) as nat) as int
}
spec fn nearly(a: f64, b: real) -> bool { fin(a) && rabs(val(a) - b) <= 0.001real }
/// it stands alone, or its mask is the greater
spec fn out_of_order(es: Seq<CoalesceEntry>) -> bool { es.len() == 1 || es[0].mask > es[1].mask }
spec fn fair_relev(r: f64) -> bool { fin(r) && 0real <= val(r) <= 1real }
spec fn plus(a: f64, b: f64) -> f64 { a.add_spec(b) }
spec fn minus(a: f64, b: f64) -> f64 { a.sub_spec(b) }
/// the options for a zoom can be made
proof fn tune(o: MatchOpts, z: u16)
    ensures o.zoom == z ==> retuned(o, o),
{}
/// a lookup's answer is stored
proof fn answered_by<T: HasStore>(all: Seq<MatchEntry>, n: int, s: Pm<T>, key: MatchKey, o2: MatchOpts, max: int)
    requires answers(all, s.store.gs(), key, o2, max), 0 <= n < all.len(), sub_ok(s), val(s.weight) <= 1real,
    ensures
        sane(all[n]), plausible(read(all[n])), matching(s.store.gs(), key, o2).count(read(all[n])) > 0,
        forall|e: CoalesceEntry, kid: u32| #[trigger] entry_of(e, all[n], s, kid) ==> fair_relev(e.grid_entry.relev) && fin(e.scoredist),
{
    let m = all[n];
    let r = all.map_values(as_seen());
    assert(r[n] == read(m));
    ms_has(r);
    assert(r.contains(read(m)));
    assert(readings(all).count(read(m)) > 0);
    weighed_fair(m, s);
}
proof fn weighed_fair<T: HasStore>(m: MatchEntry, s: Pm<T>)
    requires sane(m), plausible(read(m)), sub_ok(s), val(s.weight) <= 1real,
    ensures forall|e: CoalesceEntry, kid: u32| #[trigger] entry_of(e, m, s, kid) ==> fair_relev(e.grid_entry.relev) && fin(e.scoredist),
{
    weighing(m, s.weight);
    let x = val(m.grid_entry.relev) * val(s.weight);
    assert(x <= 1real) by (nonlinear_arith) requires x == val(m.grid_entry.relev) * val(s.weight), 0.37real <= val(m.grid_entry.relev), val(m.grid_entry.relev) <= 1real, 0real <= val(s.weight), val(s.weight) <= 1real;
    fl_monotone(x, 1real); fl_int(1);
    assert(1int as real == 1real);
}
spec fn bits(m: u32) -> int
    decreases m,
{
    if m == 0 { 0 } else { (m % 2) as int + bits(m / 2) }
}
proof fn bits_add(m: u32, p: u32)
    requires m & p == 0,
    ensures bits(m | p) == bits(m) + bits(p),
    decreases m, p,
{
    if m != 0 || p != 0 {
        assert((m | p) / 2 == (m / 2) | (p / 2)) by (bit_vector);
        assert((m / 2) & (p / 2) == 0) by (bit_vector) requires m & p == 0;
        assert((m | p) % 2 == (m % 2) + (p % 2)) by (bit_vector) requires m & p == 0;
        assert((m | p) == 0 ==> m == 0 && p == 0) by (bit_vector);
        bits_add(m / 2, p / 2);
        if m == 0 { assert(bits(m / 2) == 0); }
        if p == 0 { assert(bits(p / 2) == 0); }
    } else { assert(0u32 | 0u32 == 0u32) by (bit_vector); }
}
proof fn bits_pos(m: u32)
    ensures m != 0 ==> bits(m) >= 1, bits(m) >= 0,
    decreases m,
{
    if m != 0 { bits_pos(m / 2); }
}
proof fn bits_max(m: u32, k: nat)
    requires m < pow2(k),
    ensures bits(m) <= k,
    decreases k,
{
    if k == 0 { lemma2_to64(); } else { lemma_pow2_adds(1, (k - 1) as nat); lemma2_to64(); if m != 0 { bits_max(m / 2, (k - 1) as nat); } }
}
proof fn scaling(x: u16, z: u16, z2: u16)
    requires z2 <= z <= 16,
    ensures 1u32 << ((z - z2) as u32) == pow2((z - z2) as nat), 1 <= pow2((z - z2) as nat) <= 65536, 0 <= x as int / pow2((z - z2) as nat) as int <= x,
{
    levels(z2, z);
    let m = pow2((z - z2) as nat) as int;
    assert(0 <= x as int / m <= x) by (nonlinear_arith) requires m >= 1, 0 <= x;
}
