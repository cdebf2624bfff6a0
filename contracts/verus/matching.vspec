# C11: what one record contributes to a lookup
== source gridstore_format.rs
== import decode
== import groups
== import coords
== import nearby
== import spatial
== import scoring
== import flows
== floats matching_literals
== source common.rs
== take struct MatchEntry
== text
// ---- lists at their address ---------------------------------------------------------------------------------------------
proof fn varint_one(d: Seq<u8>, at: int, x: u32, y: u32)
    requires has(d, at, varint(x)), has(d, at, varint(y)),
    ensures x == y,
    decreases x,
{
    let (a, b) = (varint(x), varint(y));
    varint_len(x); varint_len(y);
    assert(a[0] == d.subrange(at, at + a.len())[0] && b[0] == d.subrange(at, at + b.len())[0]);
    assert(d.subrange(at, at + a.len())[0] == d[at] && d.subrange(at, at + b.len())[0] == d[at]);
    if x >= 128 {
        assert(y >= 128);
        assert(a =~= seq![((x % 128) + 128) as u8] + varint(x / 128));
        assert(b =~= seq![((y % 128) + 128) as u8] + varint(y / 128));
        has_parts(d, at, seq![((x % 128) + 128) as u8], varint(x / 128));
        has_parts(d, at, seq![((y % 128) + 128) as u8], varint(y / 128));
        varint_one(d, at + 1, x / 128, y / 128);
    }
}
proof fn fcat_one(d: Seq<u8>, at: int, s: Seq<u32>, t: Seq<u32>)
    requires fall(s), fall(t), s.len() == t.len(), has(d, at, fcat(s)), has(d, at, fcat(t)),
    ensures s == t,
{
    assert(<u32 as FixedEncodable>::SIZE == 4);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by {
        fcat_at(s, i); fcat_at(t, i);
        has_inner(d, at, fcat(s), i * 4, s[i].fenc());
        has_inner(d, at, fcat(t), i * 4, t[i].fenc());
        le_len(s[i]); le_len(t[i]);
        le4_inj(s[i], t[i]);
    }
    assert(s =~= t);
}
spec fn is_cs(d: Seq<u8>, at: int, s: Seq<Coord>) -> bool { uall(s) && has(d, at, ulist(s)) }
spec fn is_ids(d: Seq<u8>, at: int, s: Seq<u32>) -> bool { fall(s) && has(d, at, flist(s)) }
proof fn cs_one(d: Seq<u8>, at: int, s: Seq<Coord>, t: Seq<Coord>)
    requires is_cs(d, at, s), is_cs(d, at, t),
    ensures s == t,
{
    let (m, n) = (s.len() as u32, t.len() as u32);
    has_parts(d, at, varint(m), seq![recsize(s) as u8] + ucat(s, recsize(s)));
    has_parts(d, at, varint(n), seq![recsize(t) as u8] + ucat(t, recsize(t)));
    varint_one(d, at, m, n);
    let a = at + varint(m).len();
    has_parts(d, a, seq![recsize(s) as u8], ucat(s, recsize(s)));
    has_parts(d, a, seq![recsize(t) as u8], ucat(t, recsize(t)));
    assert(d.subrange(a, a + 1)[0] == recsize(s) as u8 && d.subrange(a, a + 1)[0] == recsize(t) as u8);
    if s.len() > 0 {
        recsize_bounds(s); recsize_bounds(t);
        assert(<Coord as UniformEncodable>::MAX_SIZE == 8);
        ucat_one(d, a + 1, s, t, recsize(s));
    } else { assert(s =~= t); }
}
proof fn ids_one(d: Seq<u8>, at: int, s: Seq<u32>, t: Seq<u32>)
    requires is_ids(d, at, s), is_ids(d, at, t),
    ensures s == t,
{
    let (m, n) = (s.len() as u32, t.len() as u32);
    has_parts(d, at, varint(m), fcat(s));
    has_parts(d, at, varint(n), fcat(t));
    varint_one(d, at, m, n);
    fcat_one(d, at + varint(m).len(), s, t);
}
spec fn cs_at(d: Seq<u8>, rs: RelevScore) -> Seq<Coord> { choose|s: Seq<Coord>| is_cs(d, rs.coords.addr as int, s) }
spec fn ids_at(d: Seq<u8>, c: Coord) -> Seq<u32> { choose|s: Seq<u32>| is_ids(d, c.ids.addr as int, s) }
impl<'a> FixedVec<'a, u32> {
    fn ids_it(self) -> (r: It<u32>)
        requires self.ready(),
        ensures forall|s: Seq<u32>| #[trigger] self.reps(s) ==> r.seq() == s,
    {
        let ghost me = self;
        let r = self.into_it();
        proof {
            assert forall|s: Seq<u32>| #[trigger] me.reps(s) implies r.seq() == s by {
                assert forall|k: int| 0 <= k < s.len() implies r.seq()[k] == s[k] by { assert(r.seq()[k].fsame(&s[k])); }
                assert(r.seq() =~= s);
            }
        }
        r
    }
}
impl<'a> UniformVec<'a, Coord> {
    fn cs_it(self) -> (r: It<Coord>)
        requires self.ready(),
        ensures r.seq() == self.seq(),
    {
        broadcast use co;
        let ghost me = self;
        let r = self.into_it();
        proof {
            assert(me.reps(me.seq()));
            assert forall|k: int| 0 <= k < me.seq().len() implies r.seq()[k] == me.seq()[k] by { assert(r.seq()[k].usame(&me.seq()[k])); }
            assert(r.seq() =~= me.seq());
        }
        r
    }
}
/// a group and a coordinate of the record
spec fn of_rs(w: Record, rs: RelevScore) -> bool { exists|i: int| 0 <= i < w.rs.len() && #[trigger] w.rs[i] == rs }
spec fn of_c(w: Record, c: Coord) -> bool { exists|i: int, j: int| 0 <= i < w.rs.len() && 0 <= j < w.cs[i].len() && #[trigger] w.cs[i][j] == c }
spec fn tidy(w: Record) -> bool { forall|i: int| 0 <= i < w.rs.len() ==> down(#[trigger] w.cs[i]) }
proof fn lists_at(d: Seq<u8>, w: Record, i: int)
    requires held(d, w), 0 <= i < w.rs.len(),
    ensures
        is_cs(d, w.rs[i].coords.addr as int, w.cs[i]), cs_at(d, w.rs[i]) == w.cs[i],
        forall|j: int| 0 <= j < w.cs[i].len() ==> ids_at(d, #[trigger] w.cs[i][j]) == w.ids[i][j] && is_ids(d, w.cs[i][j].ids.addr as int, w.ids[i][j]),
{
    assert(is_cs(d, w.rs[i].coords.addr as int, w.cs[i]));
    cs_one(d, w.rs[i].coords.addr as int, w.cs[i], cs_at(d, w.rs[i]));
    assert forall|j: int| 0 <= j < w.cs[i].len() implies ids_at(d, #[trigger] w.cs[i][j]) == w.ids[i][j] && is_ids(d, w.cs[i][j].ids.addr as int, w.ids[i][j]) by {
        assert(is_ids(d, w.cs[i][j].ids.addr as int, w.ids[i][j])) by { assert(fall(w.ids[i][j])); }
        ids_one(d, w.cs[i][j].ids.addr as int, w.ids[i][j], ids_at(d, w.cs[i][j]));
    }
}
// ---- what is claimed -------------------------------------------------------------------------------------------------------
/// an entry of the answer, its floating-point values read as numbers
struct Seen { relev: real, score: u8, x: u16, y: u16, id: u32, hash: u8, lang: bool, distance: real, scoredist: real }
spec fn read(m: MatchEntry) -> Seen {
    let g = m.grid_entry;
    Seen { relev: val(g.relev), score: g.score, x: g.x, y: g.y, id: g.id, hash: g.source_phrase_hash, lang: m.matches_language, distance: val(m.distance), scoredist: val(m.scoredist) }
}
spec fn sane(m: MatchEntry) -> bool { fin(m.grid_entry.relev) && fin(m.distance) && fin(m.scoredist) }
spec fn opts_ok(o: MatchOpts, radius: f64) -> bool { o.zoom <= 16 && radius_ok(radius) && in_range(o.zoom, 0real, val(radius)) }
/// distance of a tile from the point
spec fn away(o: MatchOpts, c: Coord) -> real { match o.proximity { Some(p) => rnd(rsqrt(sq(p[0], p[1], tx(c.coord), ty(c.coord)) as real)), None => 0real } }
spec fn within(o: MatchOpts, radius: real, c: Coord) -> bool { o.proximity is Some && away(o, c) <= pr(o.zoom as int, radius) }
spec fn rank_of(o: MatchOpts, radius: real, score: u8, c: Coord) -> real { match o.proximity { Some(p) => sd(o.zoom, away(o, c), score, radius), None => score as int as real } }
/// in full for the language or within the radius
spec fn weighed(relev: real, full: bool) -> real { if full { relev } else { rnd(relev * rnd(0.96real)) } }
spec fn seen(o: MatchOpts, radius: real, lang: bool, relev: real, score: u8, c: Coord) -> spec_fn(u32) -> Seen {
    |i: u32| Seen {
        relev: weighed(relev, lang || within(o, radius, c)), score, x: tx(c.coord), y: ty(c.coord), id: i >> 8, hash: (i & 255) as u8,
        lang, distance: away(o, c), scoredist: rank_of(o, radius, score, c),
    }
}
/// the coordinates asked for
spec fn wanted(o: MatchOpts, s: Seq<Coord>) -> Seq<Coord> { match o.bbox { Some(b) => kept(s, b), None => s } }
spec fn of_coord(d: Seq<u8>, o: MatchOpts, radius: real, lang: bool, relev: real, score: u8) -> spec_fn(Coord) -> Multiset<Seen> {
    |c: Coord| ids_at(d, c).map_values(seen(o, radius, lang, relev, score, c)).to_multiset()
}
/// what a group of the record contributes
spec fn of_group(d: Seq<u8>, o: MatchOpts, radius: real, lang: bool) -> spec_fn(RelevScore) -> Multiset<Seen> {
    |rs: RelevScore| bag(wanted(o, cs_at(d, rs)), of_coord(d, o, radius, lang, val(relev_of(rs.relev_score >> 4)), rs.relev_score & 15))
}
/// best relevance first, then best distance score
spec fn ahead(a: MatchEntry, b: MatchEntry) -> bool {
    ||| val(a.grid_entry.relev) > val(b.grid_entry.relev)
    ||| val(a.grid_entry.relev) == val(b.grid_entry.relev) && val(a.scoredist) >= val(b.scoredist)
}
spec fn best_first(s: Seq<MatchEntry>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> ahead(#[trigger] s[i], #[trigger] s[j]) }
// ---- on the way there --------------------------------------------------------------------------------------------------------
spec fn tile7(o: MatchOpts, radius: real, score: u8, c: Coord, t: (f64, bool, u8, f64, u16, u16, Coord)) -> bool {
    &&& fin(t.0) && val(t.0) == away(o, c) && t.1 == within(o, radius, c) && t.2 == score
    &&& fin(t.3) && val(t.3) == rank_of(o, radius, score, c) && t.4 == tx(c.coord) && t.5 == ty(c.coord) && t.6 == c
}
spec fn rank7() -> spec_fn((f64, bool, u8, f64, u16, u16, Coord)) -> real { |t: (f64, bool, u8, f64, u16, u16, Coord)| val(t.3) }
spec fn seen7(lang: bool, relev: real, t: (f64, bool, u8, f64, u16, u16, Coord)) -> spec_fn(u32) -> Seen {
    |i: u32| Seen { relev: weighed(relev, lang || t.1), score: t.2, x: t.4, y: t.5, id: i >> 8, hash: (i & 255) as u8, lang, distance: val(t.0), scoredist: val(t.3) }
}
spec fn of_tile(d: Seq<u8>, lang: bool, relev: real) -> spec_fn((f64, bool, u8, f64, u16, u16, Coord)) -> Multiset<Seen> {
    |t: (f64, bool, u8, f64, u16, u16, Coord)| ids_at(d, t.6).map_values(seen7(lang, relev, t)).to_multiset()
}
proof fn tile_stands(d: Seq<u8>, o: MatchOpts, radius: real, lang: bool, relev: real, score: u8, c: Coord, t: (f64, bool, u8, f64, u16, u16, Coord))
    requires tile7(o, radius, score, c, t),
    ensures of_tile(d, lang, relev)(t) == of_coord(d, o, radius, lang, relev, score)(c),
{
    assert(ids_at(d, t.6).map_values(seen7(lang, relev, t)) =~= ids_at(d, c).map_values(seen(o, radius, lang, relev, score, c)));
}
/// a tile of a coordinate of the record; without a point its rank is the score
spec fn fine(w: Record, o: MatchOpts, score: u8) -> spec_fn((f64, bool, u8, f64, u16, u16, Coord)) -> bool {
    |t: (f64, bool, u8, f64, u16, u16, Coord)| fin(t.0) && fin(t.3) && of_c(w, t.6) && (o.proximity is None ==> !t.1 && val(t.3) == score as int as real)
}
spec fn fine_any(w: Record, o: MatchOpts) -> spec_fn((f64, bool, u8, f64, u16, u16, Coord)) -> bool {
    |t: (f64, bool, u8, f64, u16, u16, Coord)| fin(t.0) && fin(t.3) && of_c(w, t.6) && (o.proximity is None ==> !t.1)
}
/// what the first map makes of a group of the record
spec fn item(w: Record, e: (f64, u8, RelevScore)) -> bool { of_rs(w, e.2) && e.0 == relev_of(e.2.relev_score >> 4) && e.1 == e.2.relev_score & 15 }
spec fn of_item(d: Seq<u8>, o: MatchOpts, radius: real, lang: bool) -> spec_fn((f64, u8, RelevScore)) -> Multiset<Seen> {
    |e: (f64, u8, RelevScore)| of_group(d, o, radius, lang)(e.2)
}
spec fn one_relev(w: Record, g: (f64, Vec<(f64, u8, RelevScore)>)) -> bool { forall|i: int| 0 <= i < g.1@.len() ==> item(w, #[trigger] g.1@[i]) && g.1@[i].0 == g.0 }
spec fn of_run(d: Seq<u8>, o: MatchOpts, radius: real, lang: bool) -> spec_fn((f64, Vec<(f64, u8, RelevScore)>)) -> Multiset<Seen> {
    |g: (f64, Vec<(f64, u8, RelevScore)>)| bag(g.1@, of_item(d, o, radius, lang))
}
spec fn entry_ok(o: MatchOpts, lang: bool, relev: real) -> spec_fn(MatchEntry) -> bool {
    |m: MatchEntry| sane(m) && (o.proximity is None ==> val(m.grid_entry.relev) == weighed(relev, lang))
}
spec fn rank_m() -> spec_fn(MatchEntry) -> real { |m: MatchEntry| val(m.scoredist) }
spec fn as_seen() -> spec_fn(MatchEntry) -> Seen { |m: MatchEntry| read(m) }
/// what comes of a run of one relevance
spec fn run_made(d: Seq<u8>, o: MatchOpts, radius: real, lang: bool, g: (f64, Vec<(f64, u8, RelevScore)>), s: Seq<MatchEntry>) -> bool {
    &&& s.map_values(as_seen()).to_multiset() == of_run(d, o, radius, lang)(g)
    &&& all(s, entry_ok(o, lang, val(g.0)))
    &&& o.proximity is None ==> falls(s, rank_m())
}
proof fn rs_same(a: RelevScore, b: RelevScore)
    requires a.same(&b),
    ensures a == b,
{
    phantom_one(a.coords.phantom, b.coords.phantom);
}
/// the four relevances, as numbers
proof fn relev_near(a: u8)
    ensures
        fin(relev_of(a)),
        ({ let (v, w) = (val(relev_of(a)), if a == 0 { 0.4real } else if a == 1 { 0.6real } else if a == 2 { 0.8real } else { 1real }); w - 0.001real < v && v < w + 0.001real && v <= 1real }),
{
    broadcast use fl;
    relev_literals(); fl_int(1);
    assert(1int as real == 1real);
}
proof fn zero_real()
    ensures fin(0.0f64), val(0.0f64) == 0real,
{
    matching_literals(); fl_int(0);
    assert(0int as real == 0real);
}
proof fn weights()
    ensures fin(1.0f64), val(1.0f64) == 1real, fin(0.96f64), val(0.96f64) == rnd(0.96real),
{
    matching_literals(); fl_int(1);
    assert(1int as real == 1real);
}
proof fn weighed_near(v: real)
    requires 0.39real <= v <= 1real,
    ensures 0.959real * v <= weighed(v, false), weighed(v, false) <= 0.961real * v, mid(v * rnd(0.96real)), rnd(0.96real) > 0real,
{
    matching_literals();
    let p = rnd(0.96real);
    assert(0.9599real <= p && p <= 0.9601real);
    assert(0.9599real * v <= v * p && v * p <= 0.9601real * v) by (nonlinear_arith) requires 0.9599real <= p, p <= 0.9601real, 0.39real <= v;
    let x = v * p;
    fl_round(x);
    assert(rabs(x) * ulp() <= 0.0001real * v) by (nonlinear_arith) requires 0real <= x, x <= 0.9601real * v, 0.39real <= v, v <= 1real, ulp() == 1real / 9007199254740992real;
    assert(weighed(v, false) == rnd(x));
}
/// a distance in tiles
proof fn not_far(p: [u16; 2], x: u16, y: u16)
    ensures 0real <= rnd(rsqrt(sq(p[0], p[1], x, y) as real)), rnd(rsqrt(sq(p[0], p[1], x, y) as real)) <= 200000real,
{
    let (a, b) = (p[0] - x, p[1] - y);
    assert(0 <= a * a <= 65535 * 65535) by (nonlinear_arith) requires -65535 <= a <= 65535;
    assert(0 <= b * b <= 65535 * 65535) by (nonlinear_arith) requires -65535 <= b <= 65535;
    let q = sq(p[0], p[1], x, y) as real;
    assert(0real <= q && q <= 10000000000real);
    fl_sqrt(q);
    let r = rsqrt(q);
    assert(r <= 100000real) by (nonlinear_arith) requires r * r <= 10000000000real, r >= 0real;
    fl_monotone(0real, r); fl_monotone(r, 100000real); fl_int(0); fl_int(100000);
    assert(0int as real == 0real && 100000int as real == 100000real);
}
proof fn relevs_apart(a: u8, b: u8)
    ensures
        fin(relev_of(a)), 0.39real <= val(relev_of(a)) && val(relev_of(a)) <= 1real,
        relev_of(a) != relev_of(b) ==> (a < b <==> val(relev_of(a)) < val(relev_of(b))),
        relev_of(a) != relev_of(b) ==> val(relev_of(a)) != val(relev_of(b)),
        a <= b ==> val(relev_of(a)) <= val(relev_of(b)),
        val(relev_of(a)) < val(relev_of(b)) ==> weighed(val(relev_of(a)), false) < weighed(val(relev_of(b)), false),
{
    relev_near(a); relev_near(b);
    weighed_near(val(relev_of(a))); weighed_near(val(relev_of(b)));
}
/// the matched groups of std's and /repo's own grouping (unit groups): runs of one key that make up the whole
impl<T> It<T> {
    /// what an iterator yields, as a list; and the other way round
    #[verifier::external_body]
    fn list_(self) -> (r: Vec<T>)
        ensures r@ == self.seq()
    { unimplemented!() }
    #[verifier::external_body]
    fn of_(v: Vec<T>) -> (r: It<T>)
        ensures r.seq() == v@
    { unimplemented!() }
}
== exported
/// common::somewhat_eager_groupby (unit groups), read as the list of what it yields
fn somewhat_eager_groupby_<X, K: Copy + PartialEq, F: Fn(&X) -> K>(d: Ghost<spec_fn(X) -> bool>, items: It<X>, f: F) -> (r: It<(K, Vec<X>)>)
    requires key_law(d, f), takes(d, f, items.seq()),
    ensures flat(r.seq()) == items.seq(), runs(f, r.seq()),
{
    It::of_(pure_groups(d, items.list_().into_iter(), f))
}
== text
type Item = (f64, u8, RelevScore);
proof fn flat_bag<B>(g: Seq<(f64, Vec<Item>)>, h: spec_fn(Item) -> Multiset<B>, k: spec_fn((f64, Vec<Item>)) -> Multiset<B>)
    requires forall|t: (f64, Vec<Item>)| #[trigger] k(t) == bag(t.1@, h),
    ensures bag(flat(g), h) == bag(g, k),
    decreases g.len(),
{
    if g.len() > 0 {
        flat_bag(g.drop_last(), h, k);
        bag_add(flat(g.drop_last()), g.last().1@, h);
    }
}
proof fn flat_has(g: Seq<(f64, Vec<Item>)>, k: int, i: int)
    requires 0 <= k < g.len(), 0 <= i < g[k].1@.len(),
    ensures flat(g).contains(g[k].1@[i]),
    decreases g.len(),
{
    let p = flat(g.drop_last());
    if k == g.len() - 1 {
        assert(flat(g)[p.len() + i] == g[k].1@[i]);
    } else {
        flat_has(g.drop_last(), k, i);
        let j = p.index_of(g[k].1@[i]);
        assert(flat(g)[j] == p[j]);
    }
}
spec fn falling(s: Seq<Item>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> val((#[trigger] s[i]).0) >= val((#[trigger] s[j]).0) }
spec fn strict(g: Seq<(f64, Vec<Item>)>) -> bool { forall|i: int, j: int| 0 <= i < j < g.len() ==> val((#[trigger] g[i]).0) > val((#[trigger] g[j]).0) }
/// runs of descending relevance: each run below the one before
proof fn runs_fall(w: Record, g: Seq<(f64, Vec<Item>)>)
    requires
        falling(flat(g)),
        forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).1@.len() > 0 && one_relev(w, g[i]),
        forall|i: int| 0 <= i < g.len() - 1 ==> (#[trigger] g[i]).0 != g[i + 1].0,
    ensures strict(g),
    decreases g.len(),
{
    if g.len() > 1 {
        let p = g.drop_last();
        let f = flat(p);
        assert(falling(f)) by {
            assert forall|i: int, j: int| 0 <= i <= j < f.len() implies val((#[trigger] f[i]).0) >= val((#[trigger] f[j]).0) by { assert(flat(g)[i] == f[i] && flat(g)[j] == f[j]); }
        }
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).1@.len() > 0 && one_relev(w, p[i]) by { assert(g[i].1@.len() > 0 && one_relev(w, g[i])); }
        assert forall|i: int| 0 <= i < p.len() - 1 implies (#[trigger] p[i]).0 != p[i + 1].0 by { assert(g[i].0 != g[i + 1].0); }
        runs_fall(w, p);
        let (a, b) = (g[g.len() - 2], g[g.len() - 1]);
        assert(one_relev(w, a) && one_relev(w, b) && a.1@.len() > 0 && b.1@.len() > 0);
        let (x, y) = (a.1@[a.1@.len() - 1], b.1@[0]);
        assert(f == flat(p.drop_last()) + p.last().1@);
        assert(p.last() == a);
        assert(f[f.len() - 1] == x);
        assert(flat(g)[f.len() - 1] == x && flat(g)[f.len() as int] == y);
        assert(item(w, x) && item(w, y));
        relevs_apart(x.2.relev_score >> 4, y.2.relev_score >> 4);
        assert(a.0 != b.0) by { assert(g[g.len() - 2].0 != g[g.len() - 2 + 1].0); }
        assert(val(a.0) > val(b.0));
        assert forall|i: int, j: int| 0 <= i < j < g.len() implies val((#[trigger] g[i]).0) > val((#[trigger] g[j]).0) by {
            if j == g.len() - 1 { if i < g.len() - 2 { assert(val(p[i].0) > val(p[p.len() - 1].0)); } }
            else { assert(val(p[i].0) > val(p[j].0)); }
        }
    }
}
/// what the runs make, put together
proof fn made(d: Seq<u8>, w: Record, o: MatchOpts, radius: real, lang: bool, g: Seq<(f64, Vec<Item>)>, ss: Seq<It<MatchEntry>>)
    requires
        g.len() == ss.len(), strict(g),
        forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).1@.len() > 0 && one_relev(w, g[k]),
        forall|k: int| 0 <= k < ss.len() ==> run_made(d, o, radius, lang, g[k], (#[trigger] ss[k]).seq()),
    ensures
        joined(ss).map_values(as_seen()).to_multiset() == bag(g, of_run(d, o, radius, lang)),
        forall|i: int| 0 <= i < joined(ss).len() ==> sane(#[trigger] joined(ss)[i]),
        o.proximity is None ==> best_first(joined(ss)) && forall|i: int| 0 <= i < joined(ss).len() ==> val((#[trigger] joined(ss)[i]).grid_entry.relev) >= weighed(val(g.last().0), lang),
    decreases g.len(),
{
    if g.len() == 0 {
        joined_bag(g, ss, as_seen(), of_run(d, o, radius, lang));
    } else {
        let (p, q) = (g.drop_last(), ss.drop_last());
        assert forall|k: int| 0 <= k < q.len() implies run_made(d, o, radius, lang, p[k], (#[trigger] q[k]).seq()) by { assert(run_made(d, o, radius, lang, g[k], ss[k].seq())); }
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).1@.len() > 0 && one_relev(w, p[k]) by { assert(g[k].1@.len() > 0 && one_relev(w, g[k])); }
        assert(strict(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies val((#[trigger] p[i]).0) > val((#[trigger] p[j]).0) by { assert(val(g[i].0) > val(g[j].0)); } }
        made(d, w, o, radius, lang, p, q);
        let n = g.len() - 1;
        assert(run_made(d, o, radius, lang, g[n], ss[n].seq()));
        let (a, b) = (joined(q), ss.last().seq());
        assert(joined(ss) == a + b);
        assert((a + b).map_values(as_seen()) =~= a.map_values(as_seen()) + b.map_values(as_seen()));
        ms_add(a.map_values(as_seen()), b.map_values(as_seen()));
        if o.proximity is None {
            if n > 0 {
                assert(val(g[n - 1].0) > val(g[n].0));
                assert(one_relev(w, g[n]) && one_relev(w, g[n - 1]) && g[n].1@.len() > 0 && g[n - 1].1@.len() > 0);
                assert(item(w, g[n].1@[0]) && item(w, g[n - 1].1@[0]));
                relevs_apart(g[n].1@[0].2.relev_score >> 4, g[n - 1].1@[0].2.relev_score >> 4);
                assert(weighed(val(g[n - 1].0), lang) > weighed(val(g[n].0), lang));
            }
            assert forall|i: int| 0 <= i < a.len() implies val((#[trigger] a[i]).grid_entry.relev) > weighed(val(g[n].0), lang) by { assert(n > 0); assert(p.last() == g[n - 1]); }
            assert forall|i: int| 0 <= i < b.len() implies val((#[trigger] b[i]).grid_entry.relev) == weighed(val(g[n].0), lang) by { assert(entry_ok(o, lang, val(g[n].0))(b[i])); }
            let s = a + b;
            assert(best_first(s)) by {
                assert forall|i: int, j: int| 0 <= i <= j < s.len() implies (val((#[trigger] s[i]).grid_entry.relev) > val((#[trigger] s[j]).grid_entry.relev)
                    || val(s[i].grid_entry.relev) == val(s[j].grid_entry.relev) && val(s[i].scoredist) >= val(s[j].scoredist)) by {
                    if j < a.len() { assert(s[i] == a[i] && s[j] == a[j]); }
                    else if i >= a.len() {
                        let (x, y) = (b[i - a.len()], b[j - a.len()]);
                        assert(s[i] == x && s[j] == y);
                        assert(rank_m()(x) >= rank_m()(y));
                    }
                }
            }
        }
        assert forall|i: int| 0 <= i < joined(ss).len() implies sane(#[trigger] joined(ss)[i]) by {
            if i < a.len() { assert(joined(ss)[i] == a[i]); } else { assert(entry_ok(o, lang, val(g[n].0))(b[i - a.len()])); }
        }
    }
}
spec fn tile_entry(o: MatchOpts, lang: bool, relev: real, t: (f64, bool, u8, f64, u16, u16, Coord)) -> spec_fn(MatchEntry) -> bool {
    |m: MatchEntry| val(m.scoredist) == val(t.3) && entry_ok(o, lang, relev)(m)
}
/// the runs the grouping makes of the groups of the record
proof fn groups_are(w: Record, its: Seq<Item>, gs: Seq<(f64, Vec<Item>)>)
    requires
        its.len() == w.rs.len(), forall|k: int| 0 <= k < its.len() ==> item(w, #[trigger] its[k]) && its[k].2 == w.rs[k],
        forall|i: int, j: int| 0 <= i < j < w.rs.len() ==> (#[trigger] w.rs[i]).relev_score > (#[trigger] w.rs[j]).relev_score,
        flat(gs) == its,
        forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).1@.len() > 0 && forall|j: int| 0 <= j < gs[i].1@.len() ==> (#[trigger] gs[i].1@[j]).0 == gs[i].0,
        forall|i: int| 0 <= i < gs.len() - 1 ==> (#[trigger] gs[i]).0 != gs[i + 1].0,
    ensures
        strict(gs), forall|k: int| 0 <= k < gs.len() ==> (#[trigger] gs[k]).1@.len() > 0 && one_relev(w, gs[k]),
{
    assert forall|k: int| 0 <= k < gs.len() implies (#[trigger] gs[k]).1@.len() > 0 && one_relev(w, gs[k]) by {
        assert forall|i: int| 0 <= i < gs[k].1@.len() implies item(w, #[trigger] gs[k].1@[i]) && gs[k].1@[i].0 == gs[k].0 by {
            flat_has(gs, k, i);
            let j = its.index_of(gs[k].1@[i]);
            assert(item(w, its[j]));
        }
    }
    assert(falling(its)) by {
        assert forall|i: int, j: int| 0 <= i <= j < its.len() implies val((#[trigger] its[i]).0) >= val((#[trigger] its[j]).0) by {
            assert(item(w, its[i]) && item(w, its[j]));
            let (x, y) = (w.rs[i].relev_score, w.rs[j].relev_score);
            assert(x >= y);
            assert(x >= y ==> x >> 4 >= y >> 4) by (bit_vector);
            relevs_apart(y >> 4, x >> 4);
        }
    }
    runs_fall(w, gs);
}
/// all of it
proof fn whole(d: Seq<u8>, w: Record, o: MatchOpts, radius: real, lang: bool, its: Seq<Item>, gs: Seq<(f64, Vec<Item>)>)
    requires its.len() == w.rs.len(), forall|k: int| 0 <= k < its.len() ==> (#[trigger] its[k]).2 == w.rs[k], flat(gs) == its,
    ensures bag(gs, of_run(d, o, radius, lang)) == bag(w.rs, of_group(d, o, radius, lang)),
{
    flat_bag(gs, of_item(d, o, radius, lang), of_run(d, o, radius, lang));
    bag_alike(its, w.rs, of_item(d, o, radius, lang), of_group(d, o, radius, lang));
}
/// the ids of a coordinate of the record can be read
proof fn c_ready(d: Seq<u8>, w: Record, c: Coord)
    requires held(d, w), of_c(w, c),
    ensures is_ids(d, c.ids.addr as int, ids_at(d, c)),
{
    let (i, j) = choose|i: int, j: int| 0 <= i < w.rs.len() && 0 <= j < w.cs[i].len() && #[trigger] w.cs[i][j] == c;
    lists_at(d, w, i);
}
/// the coordinates of a group of the record can be read, are in order, and have ids
proof fn rs_ready(d: Seq<u8>, w: Record, rs: RelevScore)
    requires held(d, w), tidy(w), of_rs(w, rs),
    ensures is_cs(d, rs.coords.addr as int, cs_at(d, rs)), down(cs_at(d, rs)), forall|k: int| 0 <= k < cs_at(d, rs).len() ==> of_c(w, #[trigger] cs_at(d, rs)[k]),
{
    let i = choose|i: int| 0 <= i < w.rs.len() && #[trigger] w.rs[i] == rs;
    lists_at(d, w, i);
    assert forall|k: int| 0 <= k < cs_at(d, rs).len() implies of_c(w, #[trigger] cs_at(d, rs)[k]) by { assert(w.cs[i][k] == cs_at(d, rs)[k]); }
}
proof fn item_coords(d: Seq<u8>, w: Record, o: MatchOpts, radius: real, lang: bool, e: Item, got: Seq<Coord>)
    requires held(d, w), tidy(w), item(w, e), got.to_multiset() == wanted(o, cs_at(d, e.2)).to_multiset() || got.len() == 0 && wanted(o, cs_at(d, e.2)).len() == 0,
    ensures
        bag(got, of_coord(d, o, radius, lang, val(e.0), e.1)) == of_item(d, o, radius, lang)(e),
        forall|k: int| 0 <= k < got.len() ==> of_c(w, #[trigger] got[k]),
{
    rs_ready(d, w, e.2);
    let s = cs_at(d, e.2);
    if got.len() == 0 && wanted(o, s).len() == 0 { assert(got =~= wanted(o, s)); }
    bag_any_order(got, wanted(o, s), of_coord(d, o, radius, lang, val(e.0), e.1));
    ms_has(got); ms_has(wanted(o, s));
    assert forall|k: int| 0 <= k < got.len() implies of_c(w, #[trigger] got[k]) by {
        assert(got.contains(got[k]));
        assert(got.to_multiset().count(got[k]) > 0);
        assert(wanted(o, s).contains(got[k]));
        if o.bbox is Some { s.lemma_filter_contains_rev(|c: Coord| inbox(c, o.bbox->0), got[k]); }
        let i = s.index_of(got[k]);
        assert(of_c(w, s[i]));
    }
}
proof fn joined_has<B>(ss: Seq<It<B>>, p: spec_fn(B) -> bool)
    requires forall|k: int| 0 <= k < ss.len() ==> all((#[trigger] ss[k]).seq(), p),
    ensures forall|x: B| joined(ss).contains(x) ==> #[trigger] p(x),
{
    joined_all(ss, p);
    assert forall|x: B| joined(ss).contains(x) implies #[trigger] p(x) by { let i = joined(ss).index_of(x); assert(p(joined(ss)[i])); }
}
proof fn run_tiles(d: Seq<u8>, w: Record, o: MatchOpts, radius: real, lang: bool, g: (f64, Vec<Item>), parts: Seq<It<(f64, bool, u8, f64, u16, u16, Coord)>>, tiles: Seq<(f64, bool, u8, f64, u16, u16, Coord)>)
    requires
        one_relev(w, g), parts.len() == g.1@.len(),
        forall|k: int| 0 <= k < parts.len() ==> bag((#[trigger] parts[k]).seq(), of_tile(d, lang, val(g.1@[k].0))) == of_item(d, o, radius, lang)(g.1@[k]) && all(parts[k].seq(), fine(w, o, g.1@[k].1)),
        tiles.to_multiset() == joined(parts).to_multiset(),
    ensures
        bag(tiles, of_tile(d, lang, val(g.0))) == of_run(d, o, radius, lang)(g),
        all(tiles, fine_any(w, o)),
        o.proximity is None ==> forall|k: int| 0 <= k < parts.len() ==> falls((#[trigger] parts[k]).seq(), rank7()),
{
    if o.proximity is None {
        assert forall|k: int| 0 <= k < parts.len() implies falls((#[trigger] parts[k]).seq(), rank7()) by {
            let s = parts[k].seq();
            assert forall|i: int, j: int| 0 <= i <= j < s.len() implies rank7()(#[trigger] s[i]) >= rank7()(#[trigger] s[j]) by {
                assert(fine(w, o, g.1@[k].1)(s[i]) && fine(w, o, g.1@[k].1)(s[j]));
            }
        }
    }
    bag_any_order(tiles, joined(parts), of_tile(d, lang, val(g.0)));
    assert forall|k: int| 0 <= k < parts.len() implies bag((#[trigger] parts[k]).seq(), of_tile(d, lang, val(g.0))) == of_item(d, o, radius, lang)(g.1@[k]) by { assert(item(w, g.1@[k]) && g.1@[k].0 == g.0); }
    joined_sum(g.1@, parts, of_item(d, o, radius, lang), of_tile(d, lang, val(g.0)));
    assert forall|k: int| 0 <= k < parts.len() implies all((#[trigger] parts[k]).seq(), fine_any(w, o)) by {
        assert(all(parts[k].seq(), fine(w, o, g.1@[k].1)));
        assert forall|i: int| 0 <= i < parts[k].seq().len() implies fine_any(w, o)(#[trigger] parts[k].seq()[i]) by { assert(fine(w, o, g.1@[k].1)(parts[k].seq()[i])); }
    }
    joined_has(parts, fine_any(w, o));
    ms_has(tiles); ms_has(joined(parts));
    assert forall|i: int| 0 <= i < tiles.len() implies fine_any(w, o)(#[trigger] tiles[i]) by {
        assert(tiles.contains(tiles[i]));
        assert(tiles.to_multiset().count(tiles[i]) > 0);
        assert(joined(parts).contains(tiles[i]));
    }
}
== source store.rs
== subst
gridstore_format::
=>

== subst
spatial::
=>

== subst!
AsRef<[u8]>
=>
AsBytes
== subst!
unsafe { std::mem::transmute(value_ref) }
=>
static_of(value_ref)
== subst!
coalesce_radius: f64,
=>
coalesce_radius: f64, w: Ghost<Record>,
== subst!
impl Iterator<Item = MatchEntry>
=>
It<MatchEntry>
== subst-re!
\n    iter\n\}
=>
    proof {
        let ss = choose|ss: Seq<It<MatchEntry>>| ss.len() == gs.len() && iter.seq() == #[trigger] joined(ss) && forall|k: int| 0 <= k < ss.len() ==> run_made(d0, o0, val(coalesce_radius), matches_language, gs[k], (#[trigger] ss[k]).seq());
        made(d0, w@, o0, val(coalesce_radius), matches_language, gs, ss);
        whole(d0, w@, o0, val(coalesce_radius), matches_language, its, gs);
    }
    iter
}
== subst-re!
let relevs = (read_var_vec_raw\([^;]*?\))\s*\.into_iter\(\)\s*\.map\(\|rs_obj\| \{
=>
let raw = \1.into_it(); let ghost raws = raw.seq(); let relevs = raw.gmap_(|rs_obj: RelevScore| -> (o: Item) ensures o.2 == rs_obj, o.0 == relev_of(rs_obj.relev_score >> 4), o.1 == rs_obj.relev_score & 15 {
== subst-re!
let iter = somewhat_eager_groupby\(relevs\.into_iter\(\), \|\((\w+), _, _\)\| \*(\w+)\)\s*\.into_iter\(\)\s*\.flat_map\(move \|\((\w+), (\w+)\)\| \{
=>
proof { broadcast use fl_specs; assert(raws.len() == w@.rs.len()); assert forall|k: int| 0 <= k < raws.len() implies raws[k] == w@.rs[k] by { rs_same(raws[k], w@.rs[k]); } assert(raws =~= w@.rs); assert forall|x: u8| fin(#[trigger] relev_of(x)) by { relevs_apart(x, x); } assert forall|x: u8, y: u8| val(#[trigger] relev_of(x)) == val(#[trigger] relev_of(y)) implies relev_of(x) == relev_of(y) by { relevs_apart(x, y); }
        assert(<f64 as PartialEqSpec<f64>>::obeys_eq_spec());
        assert forall|x: u8, y: u8| #![trigger relev_of(x), relev_of(y)] relev_of(x).eq_spec(&relev_of(y)) <==> relev_of(x) == relev_of(y) by { fl_eq(relev_of(x), relev_of(y)); } }
    let ghost its = relevs.seq();
    let key = |e: &Item| -> (k: f64) requires item(w@, *e) ensures k == e.0 { let (\1, _, _) = e; *\2 };
    assert(forall|i: int| 0 <= i < its.len() ==> item(w@, #[trigger] its[i]) && its[i].2 == w@.rs[i]);
    let dom: Ghost<spec_fn(Item) -> bool> = Ghost(|e: Item| item(w@, e));
    assert(key_law(dom, key));
    let grouped = somewhat_eager_groupby_(dom, relevs, key);
    let ghost gs = grouped.seq();
    proof { groups_are(w@, its, gs); }
    let iter = grouped.flat_map_r(move |g: (f64, Vec<Item>)| -> (o: It<MatchEntry>)
        requires held(record_ref.1@, w@), tidy(w@), opts_ok(match_opts, coalesce_radius), one_relev(w@, g), g.1@.len() > 0
        ensures run_made(record_ref.1@, match_opts, val(coalesce_radius), matches_language, g, o.seq())
    { let (\3, \4) = g; let ghost (go, gd, gr, gg) = (match_opts, record_ref.1@, val(coalesce_radius), g);
== subst-re!
score_groups\.into_iter\(\)\.map\(move \|\(_, (\w+), (\w+)\)\| \{
=>
It::of(score_groups).gmap_(move |e: Item| -> (o: It<(f64, bool, u8, f64, u16, u16, Coord)>)
        requires held(nested_ref@, w@), tidy(w@), opts_ok(match_opts, coalesce_radius), item(w@, e)
        ensures bag(o.seq(), of_tile(nested_ref@, matches_language, val(e.0))) == of_item(nested_ref@, match_opts, val(coalesce_radius), matches_language)(e), all(o.seq(), fine(w@, match_opts, e.1))
    { broadcast use co; let (_, \1, \2) = e; proof { rs_ready(nested_ref@, w@, e.2); } let ghost (io, id, ir, il) = (match_opts, nested_ref@, val(coalesce_radius), matches_language);
== subst
Some(Box::new(coords_vec.into_iter()) as Box<dyn Iterator<Item = Coord>>)
=>
Some(coords_vec.cs_it())
== subst
Some(Box::new(v) as Box<dyn Iterator<Item = Coord>>)
=>
Some(v)
== subst-re!
let (\w+) = read_uniform_vec_raw\(([^;]*)\);
=>
let \1 = read_uniform_vec_raw(\2); proof { coords_seq(\1, cs_at(nested_ref@, e.2)); }
== subst
proximity(coords_vec
=>
proximity_(coords_vec
== subst-re!
unwrap_or_else\(\|\| \{\s*Box::new\(\(Option::<Coord>::None\)\.into_iter\(\)\)\s*as Box<dyn Iterator<Item = Coord>>\s*\}\)
=>
unwrap_or_else(|| -> (o: It<Coord>) ensures o.seq().len() == 0 { It::none() })
== subst-re!
coords\.map\(move \|coords_obj\| \{
=>
proof { item_coords(id, w@, io, ir, il, e, coords.seq());
        assert forall|c: Coord, t: (f64, bool, u8, f64, u16, u16, Coord)| #[trigger] tile7(io, ir, e.1, c, t) implies of_tile(id, il, val(e.0))(t) == of_coord(id, io, ir, il, val(e.0), e.1)(c) by { tile_stands(id, io, ir, il, val(e.0), e.1, c, t); } }
    coords.map_bag::<_, Seen, _>(Ghost(of_coord(id, io, ir, il, val(e.0), e.1)), Ghost(of_tile(id, il, val(e.0))), Ghost(fine(w@, io, e.1)), move |coords_obj: Coord| -> (t: (f64, bool, u8, f64, u16, u16, Coord))
        requires opts_ok(match_opts, coalesce_radius), of_c(w@, coords_obj)
        ensures tile7(match_opts, val(coalesce_radius), score, coords_obj, t), fine(w@, match_opts, score)(t)
    { broadcast use {fl_specs, fl_cmp, fl_from_u8}; proof { zero_real(); if match_opts.proximity is Some { not_far(match_opts.proximity->0, tx(coords_obj.coord), ty(coords_obj.coord)); } }
== subst-re!
let all_coords = coords_per_score\.kmerge_by\(\s*\|\s*\(([^()]*)\),\s*\(([^()]*)\)\s*\| \{
=>
let ghost parts = coords_per_score.seq();
    let all_coords = coords_per_score.kmerge_by_(Ghost(rank7()), Ghost(fine_any(w@, go)), |a: &(f64, bool, u8, f64, u16, u16, Coord), b: &(f64, bool, u8, f64, u16, u16, Coord)| -> (o: bool)
        requires fin(a.3), fin(b.3) ensures o == (val(a.3) > val(b.3))
    { broadcast use {fl_specs, fl_cmp, fl_ordering, fl_ordering_eq}; let (\1) = a; let (\2) = b;
== subst-re!
all_coords\.flat_map\(\s*move \|\(([^()]*)\)\| \{
=>
proof { assert(item(w@, g.1@[0]) && g.1@[0].0 == g.0); relevs_apart(g.1@[0].2.relev_score >> 4, 0); run_tiles(gd, w@, go, gr, matches_language, gg, parts, all_coords.seq()); }
    all_coords.flat_map_bag::<_, Seen, _>(Ghost(as_seen()), Ghost(of_tile(gd, matches_language, val(relev))), Ghost(rank_m()), Ghost(rank7()), Ghost(entry_ok(go, matches_language, val(relev))), move |t: (f64, bool, u8, f64, u16, u16, Coord)| -> (o: It<MatchEntry>)
        requires held(nested_ref@, w@), fine_any(w@, go)(t), fin(relev), 0.39real <= val(relev) && val(relev) <= 1real
        ensures o.seq().map_values(as_seen()).to_multiset() == of_tile(nested_ref@, matches_language, val(relev))(t), all(o.seq(), tile_entry(go, matches_language, val(relev), t))
    { let (\1) = t; proof { c_ready(nested_ref@, w@, t.6); }
== subst-re!
ids\.into_iter\(\)\.map\(move \|id_comp\| \{
=>
ids.ids_it().map_read::<_, Seen, _>(Ghost(seen7(matches_language, val(relev), t)), Ghost(as_seen()), Ghost(tile_entry(go, matches_language, val(relev), t)), move |id_comp: u32| -> (m: MatchEntry)
        requires fine_any(w@, go)(t), fin(relev), 0.39real <= val(relev) && val(relev) <= 1real
        ensures read(m) == seen7(matches_language, val(relev), t)(id_comp), tile_entry(go, matches_language, val(relev), t)(m)
    { broadcast use {fl_specs, fl_mul}; proof { weights(); fl_exact(relev); weighed_near(val(relev)); assert(id_comp & 255 <= 255) by (bit_vector); }
== take fn decode_matching_value
== fn decode_matching_value
-- ret r
requires held(value.bytes(), w@), tidy(w@), opts_ok(*match_opts, coalesce_radius),
    forall|i: int, j: int| 0 <= i < j < w@.rs.len() ==> (#[trigger] w@.rs[i]).relev_score > (#[trigger] w@.rs[j]).relev_score,
ensures
    r.seq().map_values(as_seen()).to_multiset() == bag(w@.rs, of_group(value.bytes(), *match_opts, val(coalesce_radius), matches_language)),
    forall|i: int| 0 <= i < r.seq().len() ==> sane(#[trigger] r.seq()[i]),
    match_opts.proximity is None ==> best_first(r.seq()),
-- start
let ghost (o0, d0) = (*match_opts, value.bytes());
