# C06, C07: spatial.rs (retrieval from coordinate lists)
== source gridstore_format.rs
== import format
== import coords
== source spatial.rs
== subst!
Option<impl Iterator<Item = Coord> + 'a>
=>
Option<It<Coord>>
== subst-re!
\(range\.0\.\.=range\.1\)\.filter_map\(move \|(\w+)\| \{
=>
(range.0..=range.1).filter_map(move |\1: u32| -> (o: Option<Coord>) requires coords.ready(), (\1 as int) < coords.seq().len() ensures o == pick(coords.seq(), bbox, \1) {
== subst-re!
= move \|(\w+)\| \{\s*(let grid)
=>
= move |\1: u32| -> (o: Option<Coord>) requires coords.ready(), (\1 as int) < coords.seq().len() ensures o == pick(coords.seq(), bbox, \1) { \2
== subst-re!
= move \|(\w+)\| coords\.get\((\w+) as usize\);
=>
= move |\1: u32| -> (o: Coord) requires coords.ready(), (\1 as int) < coords.seq().len() ensures o == coords.seq()[\1 as int] { coords.get(\2 as usize) };
== subst-re!
, move \|(\w+), (\w+)\| \{\s*(let morton_distance_1)
=>
, move |\1: &Coord, \2: &Coord| -> (o: bool) requires 0 <= prox_pt <= 0xffff_ffff ensures o == (zdist(*\1, prox_pt as int) < zdist(*\2, prox_pt as int)) { \3
== subst-re
\bfn proximity<
=>
fn proximity_<
== subst-re
\.filter_map\(
=>
.filter_map_(
== subst-re
\.merge_by\(
=>
.merge_by_(
== subst-re
\.rev\(\)
=>
.rev_()
== subst-re
\.map\(
=>
.gmap_(
== subst-re
\.into_iter\(\)
=>
.into_iter_()
== import iters
== import morton
== prelude
// ---- assumed contracts ------------------------------------------------------------------------------
pub assume_specification [ i64::abs ](x: i64) -> (r: i64)
    requires x != i64::MIN,
    ensures r == (if x < 0 { -x } else { x as int });

// ---- what is claimed ----------------------------------------------------------------------------------
/// descending, no coordinate twice
spec fn down(s: Seq<Coord>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).coord > (#[trigger] s[j]).coord }
spec fn inbox(c: Coord, b: [u16; 4]) -> bool { b[0] <= tx(c.coord) <= b[2] && b[1] <= ty(c.coord) <= b[3] }
spec fn pick(s: Seq<Coord>, b: [u16; 4], i: u32) -> Option<Coord> { if inbox(s[i as int], b) { Some(s[i as int]) } else { None } }
/// the listed coordinates in the box, in list order
spec fn kept(s: Seq<Coord>, b: [u16; 4]) -> Seq<Coord> { s.filter(|c: Coord| inbox(c, b)) }
spec fn zdist(c: Coord, p: int) -> int { if c.coord >= p { c.coord - p } else { p - c.coord } }
/// in order of non-decreasing z-order distance from p
spec fn near_first(s: Seq<Coord>, p: int) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> zdist(#[trigger] s[i], p) <= zdist(#[trigger] s[j], p)
}

// ---- lemmas ---------------------------------------------------------------------------------------------
proof fn spread_mono(v: u16, w: u16)
    requires v <= w,
    ensures spread(v) <= spread(w), spread(v) & 0xaaaa_aaaa == 0,
{
    assert(v <= w ==> ({
        let a = v as u32;
        let a1 = (a | (a << 8)) & 0x00ff_00ff;
        let a2 = (a1 | (a1 << 4)) & 0x0f0f_0f0f;
        let a3 = (a2 | (a2 << 2)) & 0x3333_3333;
        let p = (a3 | (a3 << 1)) & 0x5555_5555;
        let b = w as u32;
        let b1 = (b | (b << 8)) & 0x00ff_00ff;
        let b2 = (b1 | (b1 << 4)) & 0x0f0f_0f0f;
        let b3 = (b2 | (b2 << 2)) & 0x3333_3333;
        let q = (b3 | (b3 << 1)) & 0x5555_5555;
        p <= q && p & 0xaaaa_aaaa == 0
    })) by (bit_vector);
}
proof fn z_mono(x: u16, y: u16, x2: u16, y2: u16)
    requires x <= x2, y <= y2,
    ensures z(x, y) <= z(x2, y2),
{
    spread_mono(x, x2);
    spread_mono(y, y2);
    let (a, b, c, d) = (spread(x), spread(y), spread(x2), spread(y2));
    spread_mono(x2, x2);
    spread_mono(y2, y2);
    assert(a <= c && b <= d && a & 0xaaaa_aaaa == 0 && b & 0xaaaa_aaaa == 0 && c & 0xaaaa_aaaa == 0 && d & 0xaaaa_aaaa == 0
        ==> (a | (b << 1)) <= (c | (d << 1))) by (bit_vector);
}
proof fn inbox_range(c: Coord, b: [u16; 4])
    requires inbox(c, b),
    ensures z(b[0], b[1]) <= c.coord <= z(b[2], b[3]),
{
    z_inv(c.coord);
    z_mono(b[0], b[1], tx(c.coord), ty(c.coord));
    z_mono(tx(c.coord), ty(c.coord), b[2], b[3]);
}
proof fn kept_none(s: Seq<Coord>, b: [u16; 4])
    requires forall|i: int| 0 <= i < s.len() ==> !inbox(#[trigger] s[i], b),
    ensures kept(s, b).len() == 0,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { kept_none(s.drop_last(), b); assert(!inbox(s[s.len() - 1], b)); }
}
spec fn sel(s: Seq<Coord>, ix: Seq<u32>) -> Seq<Coord> { Seq::new(ix.len(), |i: int| s[ix[i] as int]) }
proof fn fmaps_kept<F: Fn(u32) -> Option<Coord>>(f: F, s: Seq<Coord>, b: [u16; 4], ix: Seq<u32>, out: Seq<Coord>)
    requires
        fmaps(f, ix, out),
        forall|i: u32, o: Option<Coord>| f.ensures((i,), o) ==> o == pick(s, b, i),
    ensures out == kept(sel(s, ix), b),
    decreases ix.len(),
{
    reveal(Seq::filter);
    let t = sel(s, ix);
    if ix.len() == 0 {
        assert(out =~= kept(t, b));
    } else {
        assert(t.drop_last() =~= sel(s, ix.drop_last()));
        if inbox(t.last(), b) {
            fmaps_kept(f, s, b, ix.drop_last(), out.drop_last());
            assert(out =~= out.drop_last().push(out.last()));
        } else {
            fmaps_kept(f, s, b, ix.drop_last(), out);
        }
    }
}
/// what lies outside lo..hi can be left out if nothing of it is in the box
proof fn kept_mid(s: Seq<Coord>, b: [u16; 4], lo: int, hi: int)
    requires
        0 <= lo <= hi <= s.len(),
        forall|i: int| 0 <= i < lo || hi <= i < s.len() ==> !inbox(#[trigger] s[i], b),
    ensures kept(s.subrange(lo, hi), b) == kept(s, b),
{
    let (x, y, w) = (s.subrange(0, lo), s.subrange(lo, hi), s.subrange(hi, s.len() as int));
    let p = |c: Coord| inbox(c, b);
    Seq::filter_distributes_over_add(x, y, p);
    Seq::filter_distributes_over_add(x + y, w, p);
    assert(s =~= x + y + w);
    kept_none(x, b);
    kept_none(w, b);
    assert(kept(s, b) =~= kept(y, b));
}
proof fn kept_ms(s: Seq<Coord>, b: [u16; 4])
    ensures kept(s, b).to_multiset() == s.to_multiset().filter(|c: Coord| inbox(c, b)),
    decreases s.len(),
{
    reveal(Seq::filter);
    let p = |c: Coord| inbox(c, b);
    s.to_multiset_ensures();
    kept(s, b).to_multiset_ensures();
    if s.len() == 0 {
        assert(kept(s, b).to_multiset() =~= s.to_multiset().filter(p));
    } else {
        kept_ms(s.drop_last(), b);
        s.drop_last().to_multiset_ensures();
        kept(s.drop_last(), b).to_multiset_ensures();
        assert(s =~= s.drop_last().push(s.last()));
        assert(kept(s, b).to_multiset() =~= s.to_multiset().filter(p));
    }
}
proof fn rev_ms(s: Seq<Coord>)
    ensures s.reverse().to_multiset() == s.to_multiset(),
    decreases s.len(),
{
    if s.len() > 0 {
        rev_ms(s.drop_first());
        s.drop_first().reverse().to_multiset_ensures();
        assert(s.reverse() =~= s.drop_first().reverse().push(s.first()));
        add_ms(seq![s.first()], s.drop_first());
        assert(s =~= seq![s.first()] + s.drop_first());
        single_ms(s.first());
        assert(s.reverse().to_multiset() =~= s.to_multiset());
    } else {
        assert(s.reverse() =~= s);
    }
}
proof fn single_ms(c: Coord)
    ensures seq![c].to_multiset() == vstd::multiset::Multiset::<Coord>::empty().insert(c),
{
    let e = Seq::<Coord>::empty();
    e.to_multiset_ensures();
    assert(seq![c] =~= e.push(c));
    assert(e.to_multiset() =~= vstd::multiset::Multiset::<Coord>::empty());
}
proof fn add_ms(a: Seq<Coord>, b: Seq<Coord>)
    ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset()),
    decreases b.len(),
{
    b.to_multiset_ensures();
    if b.len() == 0 {
        assert(a + b =~= a);
        assert((a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    } else {
        add_ms(a, b.drop_last());
        b.drop_last().to_multiset_ensures();
        (a + b.drop_last()).to_multiset_ensures();
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        assert(b =~= b.drop_last().push(b.last()));
        assert((a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    }
}
proof fn first_ms(a: Seq<Coord>)
    requires a.len() > 0,
    ensures a.to_multiset() == a.drop_first().to_multiset().insert(a.first()),
{
    add_ms(seq![a.first()], a.drop_first());
    single_ms(a.first());
    assert(a =~= seq![a.first()] + a.drop_first());
    assert(a.to_multiset() =~= a.drop_first().to_multiset().insert(a.first()));
}
proof fn kept_near(s: Seq<Coord>, b: [u16; 4], p: int)
    requires near_first(s, p),
    ensures near_first(kept(s, b), p),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        kept_near(t, b, p);
        assert forall|i: int| 0 <= i < kept(t, b).len() implies zdist(#[trigger] kept(t, b)[i], p) <= zdist(s.last(), p) by {
            let q = |c: Coord| inbox(c, b);
            t.lemma_filter_contains_rev(q, kept(t, b)[i]);
            let k = choose|k: int| 0 <= k < t.len() && t[k] == kept(t, b)[i];
            assert(s[k] == t[k]);
            assert(zdist(s[k], p) <= zdist(s[s.len() - 1], p));
        }
    }
}
proof fn merged<F: Fn(&Coord, &Coord) -> bool>(f: F, a: Seq<Coord>, b: Seq<Coord>, c: Seq<Coord>, p: int)
    requires
        merges(f, a, b, c),
        near_first(a, p),
        near_first(b, p),
        forall|x: Coord, y: Coord, o: bool| f.ensures((&x, &y), o) ==> o == (zdist(x, p) < zdist(y, p)),
    ensures
        near_first(c, p),
        c.to_multiset() == a.to_multiset().add(b.to_multiset()),
        forall|i: int| 0 <= i < c.len() ==> (a.len() > 0 && zdist(a[0], p) <= zdist(#[trigger] c[i], p)) || (b.len() > 0 && zdist(b[0], p) <= zdist(c[i], p)),
    decreases a.len() + b.len(),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    c.to_multiset_ensures();
    if a.len() == 0 || b.len() == 0 {
        assert(c.to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    } else {
        let r = c.drop_first();
        first_ms(c);
        if f.ensures((&a.first(), &b.first()), true) && c.first() == a.first() && merges(f, a.drop_first(), b, r) {
            assert(near_first(a.drop_first(), p)) by {
                assert forall|i: int, j: int| 0 <= i <= j < a.drop_first().len() implies zdist(#[trigger] a.drop_first()[i], p) <= zdist(#[trigger] a.drop_first()[j], p) by {
                    assert(a.drop_first()[i] == a[i + 1] && a.drop_first()[j] == a[j + 1]);
                }
            }
            merged(f, a.drop_first(), b, r, p);
            first_ms(a);
            assert(c.to_multiset() =~= a.to_multiset().add(b.to_multiset()));
            assert forall|i: int| 0 <= i < r.len() implies zdist(a[0], p) <= zdist(#[trigger] r[i], p) by {
                if a.drop_first().len() > 0 { assert(a.drop_first()[0] == a[1]); }
            }
            assert forall|i: int, j: int| 0 <= i <= j < c.len() implies zdist(#[trigger] c[i], p) <= zdist(#[trigger] c[j], p) by {
                if i > 0 { assert(c[i] == r[i - 1] && c[j] == r[j - 1]); } else if j > 0 { assert(c[j] == r[j - 1]); }
            }
            assert forall|i: int| 0 <= i < c.len() implies zdist(a[0], p) <= zdist(#[trigger] c[i], p) by {
                if i > 0 { assert(c[i] == r[i - 1]); }
            }
        } else {
            assert(near_first(b.drop_first(), p)) by {
                assert forall|i: int, j: int| 0 <= i <= j < b.drop_first().len() implies zdist(#[trigger] b.drop_first()[i], p) <= zdist(#[trigger] b.drop_first()[j], p) by {
                    assert(b.drop_first()[i] == b[i + 1] && b.drop_first()[j] == b[j + 1]);
                }
            }
            merged(f, a, b.drop_first(), r, p);
            first_ms(b);
            assert(c.to_multiset() =~= a.to_multiset().add(b.to_multiset()));
            assert forall|i: int| 0 <= i < r.len() implies zdist(b[0], p) <= zdist(#[trigger] r[i], p) by {
                if b.drop_first().len() > 0 { assert(b.drop_first()[0] == b[1]); }
            }
            assert forall|i: int, j: int| 0 <= i <= j < c.len() implies zdist(#[trigger] c[i], p) <= zdist(#[trigger] c[j], p) by {
                if i > 0 { assert(c[i] == r[i - 1] && c[j] == r[j - 1]); } else if j > 0 { assert(c[j] == r[j - 1]); }
            }
            assert forall|i: int| 0 <= i < c.len() implies zdist(b[0], p) <= zdist(#[trigger] c[i], p) by {
                if i > 0 { assert(c[i] == r[i - 1]); }
            }
        }
    }
}

// the same lemmas where the intermediate iterators have no name: fired by the tag of what is asked for
spec fn about(s: Seq<Coord>, b: [u16; 4]) -> bool { true }
spec fn around(p: int) -> bool { true }
broadcast proof fn auto_kept<F: Fn(u32) -> Option<Coord>>(f: F, s: Seq<Coord>, b: [u16; 4], ix: Seq<u32>, out: Seq<Coord>)
    requires
        #[trigger] fmaps(f, ix, out),
        #[trigger] about(s, b),
        forall|i: u32, o: Option<Coord>| f.ensures((i,), o) ==> o == pick(s, b, i),
    ensures out == kept(sel(s, ix), b),
{
    fmaps_kept(f, s, b, ix, out);
}
broadcast proof fn auto_sel(s: Seq<Coord>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len() <= 0xffff_ffff,
    ensures
        #[trigger] sel(s, upto(lo, hi)) == s.subrange(lo, hi),
{
    assert(sel(s, upto(lo, hi)) =~= s.subrange(lo, hi));
}
broadcast proof fn auto_sel_empty(s: Seq<Coord>, lo: int, hi: int)
    requires hi <= lo,
    ensures
        (#[trigger] sel(s, upto(lo, hi))).len() == 0,
        sel(s, upto(lo, hi).reverse()).len() == 0,
{
}
broadcast proof fn auto_sel_rev(s: Seq<Coord>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len() <= 0xffff_ffff,
    ensures
        #[trigger] sel(s, upto(lo, hi).reverse()) == s.subrange(lo, hi).reverse(),
{
    assert(sel(s, upto(lo, hi).reverse()) =~= s.subrange(lo, hi).reverse());
}
broadcast proof fn auto_mid(s: Seq<Coord>, b: [u16; 4], lo: int, hi: int)
    requires
        0 <= lo <= hi <= s.len(),
        forall|i: int| 0 <= i < lo || hi <= i < s.len() ==> !inbox(#[trigger] s[i], b),
    ensures #[trigger] kept(s.subrange(lo, hi), b) == kept(s, b),
{
    kept_mid(s, b, lo, hi);
}
broadcast proof fn auto_none(s: Seq<Coord>, b: [u16; 4])
    requires forall|i: int| 0 <= i < s.len() ==> !inbox(#[trigger] s[i], b),
    ensures (#[trigger] kept(s, b)).len() == 0,
{
    kept_none(s, b);
}
broadcast proof fn auto_mapped<F: Fn(u32) -> Coord>(f: F, s: Seq<Coord>, ix: Seq<u32>, out: Seq<Coord>)
    requires
        #[trigger] mapped(f, ix, out),
        #[trigger] all_of(s),
        forall|i: u32, o: Coord| f.ensures((i,), o) ==> o == s[i as int],
    ensures out == sel(s, ix),
{
    assert(out =~= sel(s, ix));
}
spec fn splits(s: Seq<Coord>, m: int, p: int) -> bool {
    &&& down(s)
    &&& 0 <= m < s.len() <= 0xffff_ffff
    &&& forall|i: int| 0 <= i < m ==> (#[trigger] s[i]).coord > p
    &&& forall|i: int| m < i < s.len() ==> (#[trigger] s[i]).coord < p
    &&& s[m].coord > p ==> m == s.len() - 1
}
/// descending coordinates above p, read backwards; descending coordinates up to p, read forwards
proof fn near_parts(s: Seq<Coord>, m: int, p: int, lo: int, hi: int)
    requires splits(s, m, p), 0 <= lo, hi <= s.len(),
    ensures
        near_first(sel(s, upto(lo, m).reverse()), p),
        near_first(sel(s, upto(m, hi)), p),
{
    let h = sel(s, upto(lo, m).reverse());
    let t = sel(s, upto(m, hi));
    assert forall|i: int, j: int| 0 <= i <= j < h.len() implies zdist(#[trigger] h[i], p) <= zdist(#[trigger] h[j], p) by {
        assert(h[i] == s[m - 1 - i] && h[j] == s[m - 1 - j]);
    }
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies zdist(#[trigger] t[i], p) <= zdist(#[trigger] t[j], p) by {
        assert(t[i] == s[m + i] && t[j] == s[m + j]);
    }
}
broadcast proof fn auto_whole(s: Seq<Coord>, m: int, p: int)
    requires
        #[trigger] around(p),
        splits(s, m, p),
    ensures
        near_first(#[trigger] sel(s, upto(0, m).reverse()), p),
        near_first(sel(s, upto(m, s.len() as int)), p),
        sel(s, upto(0, m).reverse()).to_multiset().add(sel(s, upto(m, s.len() as int)).to_multiset()) == s.to_multiset(),
{
    let (a, b) = (s.subrange(0, m), s.subrange(m, s.len() as int));
    near_parts(s, m, p, 0, s.len() as int);
    auto_sel(s, m, s.len() as int);
    auto_sel_rev(s, 0, m);
    rev_ms(a);
    add_ms(a, b);
    assert(a + b =~= s);
}
proof fn kept_rev_ms(s: Seq<Coord>, b: [u16; 4])
    ensures kept(s.reverse(), b).to_multiset() == kept(s, b).to_multiset(),
{
    kept_ms(s, b);
    kept_ms(s.reverse(), b);
    rev_ms(s);
}
broadcast proof fn auto_boxed(s: Seq<Coord>, m: int, p: int, b: [u16; 4], lo: int, hi: int)
    requires
        #[trigger] around(p),
        splits(s, m, p),
        0 <= lo < hi <= s.len(),
        forall|i: int| 0 <= i < lo || hi <= i < s.len() ==> !inbox(#[trigger] s[i], b),
    ensures
        near_first(#[trigger] kept(sel(s, upto(lo, m).reverse()), b), p),
        near_first(#[trigger] kept(sel(s, upto(m, hi)), b), p),
        kept(sel(s, upto(lo, m).reverse()), b).to_multiset().add(kept(sel(s, upto(m, hi)), b).to_multiset()) == kept(s, b).to_multiset(),
{
    let h = kept(sel(s, upto(lo, m).reverse()), b);
    let t = kept(sel(s, upto(m, hi)), b);
    near_parts(s, m, p, lo, hi);
    kept_near(sel(s, upto(lo, m).reverse()), b, p);
    kept_near(sel(s, upto(m, hi)), b, p);
    h.to_multiset_ensures();
    t.to_multiset_ensures();
    kept(s, b).to_multiset_ensures();
    if m <= lo {
        auto_sel_empty(s, lo, m);
        kept_none(sel(s, upto(lo, m).reverse()), b);
        auto_sel(s, m, hi);
        kept_mid(s, b, m, hi);
        assert(h.to_multiset().add(t.to_multiset()) =~= kept(s, b).to_multiset());
    } else if m >= hi {
        auto_sel_empty(s, m, hi);
        kept_none(sel(s, upto(m, hi)), b);
        auto_sel_rev(s, lo, m);
        kept_rev_ms(s.subrange(lo, m), b);
        kept_mid(s, b, lo, m);
        assert(h.to_multiset().add(t.to_multiset()) =~= kept(s, b).to_multiset());
    } else {
        auto_sel_rev(s, lo, m);
        auto_sel(s, m, hi);
        kept_rev_ms(s.subrange(lo, m), b);
        let (x, y) = (s.subrange(lo, m), s.subrange(m, hi));
        Seq::filter_distributes_over_add(x, y, |c: Coord| inbox(c, b));
        add_ms(kept(x, b), kept(y, b));
        assert(x + y =~= s.subrange(lo, hi));
        kept_mid(s, b, lo, hi);
    }
}
spec fn all_of(s: Seq<Coord>) -> bool { true }
broadcast proof fn auto_merged<F: Fn(&Coord, &Coord) -> bool>(f: F, a: Seq<Coord>, b: Seq<Coord>, c: Seq<Coord>, p: int)
    requires
        #[trigger] merges(f, a, b, c),
        #[trigger] around(p),
        near_first(a, p),
        near_first(b, p),
        forall|x: Coord, y: Coord, o: bool| f.ensures((&x, &y), o) ==> o == (zdist(x, p) < zdist(y, p)),
    ensures
        near_first(c, p),
        c.to_multiset() == a.to_multiset().add(b.to_multiset()),
{
    merged(f, a, b, c, p);
}

== take fn coord_binary_search
== fn coord_binary_search
-- ret r
requires coords.ready(), down(coords.seq()),
ensures
    r.is_err() == (offset >= coords.seq().len()),
    r matches Ok(p) ==> offset <= p < coords.seq().len()
        && (forall|i: int| offset <= i < p ==> (#[trigger] coords.seq()[i]).coord > val)
        && (forall|i: int| p < i < coords.seq().len() ==> (#[trigger] coords.seq()[i]).coord < val)
        && (coords.seq()[p as int].coord > val ==> p == coords.seq().len() - 1),
-- start
broadcast use co;
-- loop 0
invariant
    coords.ready(),
    len == coords.seq().len(),
    down(coords.seq()),
    offset < len,
    1 <= size <= len,
    offset <= base,
    base + size <= len,
    base > offset ==> coords.seq()[base as int].coord >= val,
    base + size < len ==> coords.seq()[base + size as int].coord < val,
decreases size,

== take fn bbox_range
== fn bbox_range
-- ret r
requires coords.ready(), down(coords.seq()),
ensures
    match r {
        Some((s, e)) => s <= e < coords.seq().len()
            && (forall|i: int| 0 <= i < s || e < i < coords.seq().len() ==> !inbox(#[trigger] coords.seq()[i], bbox)),
        None => forall|i: int| 0 <= i < coords.seq().len() ==> !inbox(#[trigger] coords.seq()[i], bbox),
    },
-- start
broadcast use co;
proof {
    assert forall|i: int| 0 <= i < coords.seq().len() && inbox(#[trigger] coords.seq()[i], bbox) implies
        z(bbox[0], bbox[1]) <= coords.seq()[i].coord <= z(bbox[2], bbox[3]) by { inbox_range(coords.seq()[i], bbox); }
}

== take fn bbox_filter
== fn bbox_filter
-- ret r
requires coords.ready(), down(coords.seq()),
ensures
    r matches Some(it) ==> it.seq() == kept(coords.seq(), bbox),
    r.is_none() ==> kept(coords.seq(), bbox).len() == 0,
-- start
broadcast use {co, auto_kept, auto_sel, auto_mid, auto_none};
proof { assert(about(coords.seq(), bbox)); }

== take fn proximity
== fn proximity
-- ret r
requires coords.ready(), down(coords.seq()),
ensures
    r matches Some(it) ==> it.seq().to_multiset() == coords.seq().to_multiset() && near_first(it.seq(), z(proximity[0], proximity[1]) as int),
    r.is_none() ==> coords.seq().len() == 0,
-- start
broadcast use {co, auto_mapped, auto_whole, auto_merged};
proof { assert(around(z(proximity[0], proximity[1]) as int)); assert(all_of(coords.seq())); }

== take fn bbox_proximity_filter
== fn bbox_proximity_filter
-- ret r
requires coords.ready(), down(coords.seq()),
ensures
    r matches Some(it) ==> it.seq().to_multiset() == kept(coords.seq(), bbox).to_multiset() && near_first(it.seq(), z(proximity[0], proximity[1]) as int),
    r.is_none() ==> kept(coords.seq(), bbox).len() == 0,
-- start
broadcast use {co, auto_kept, auto_boxed, auto_merged, auto_none};
proof { assert(around(z(proximity[0], proximity[1]) as int)); assert(about(coords.seq(), bbox)); }
