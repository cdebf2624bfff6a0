# C18: coalescing a stack of subqueries
== import single
== import piles
== prelude
use vstd::arithmetic::div_mod::lemma_div_denominator;
== subst
T: Borrow<GridStore> + Clone
=>
T: HasStore
== subst
mut stack: Vec<PhrasematchSubquery<T>>
=>
stack_: Vec<PhrasematchSubquery<T>>
== subst-re!
stack\.sort_by_key\(\|(\w+)\| \(([^;]*)\)\);
=>
let mut stack = stack_;
    let by = |\1: &PhrasematchSubquery<T>| -> (k: (u16, u16))
        ensures k.0 == zoom_of(*\1), k.1 == \1.idx
        { (\2) };
    stack.sort_by_key(by);
    proof {
        let ks = choose|ks: Seq<(u16, u16)>| #[trigger] by_keys(stack@, by, ks);
        assert(in_turn(stack@)) by {
            assert forall|i: int, j: int| 0 <= i <= j < stack@.len() implies not_after(#[trigger] stack@[i], #[trigger] stack@[j]) by {
                assert(by.ensures((&stack@[i],), ks[i]) && by.ensures((&stack@[j],), ks[j]));
                assert(ks[i].ok() && ks[j].ok());
                assert(!ks[j].lt(ks[i]));
            }
        }
        moved(ss, stack@);
        set_up(ss, stack@, *match_opts);
    }
== subst-re!
\b(\w*relev\w*) ([-+])= ([\w.\[\]]+)
=>
\1 = \1 \2 \3
== subst-re!
let (\w+) = subquery\s*\.store\s*\.borrow\(\)\s*\.streaming
=>
proof { assert(retuned(*match_opts, zoom_adjusted_match_options)); }
        let \1 = subquery.store.borrow().streaming
== subst-re!
(\w+)\.extend\((\w+)\);
=>
extend_list(\1, \2);
== inline!
stack\s*\.iter\(\)\s*\.filter_map\(\|(\w+)\| \{
=>
Zooms({
        let mut out: Vec<u16> = Vec::new();
        for bi in 0..stack.len()
            invariant scene(ss, stack@, *match_opts), out@.len() <= bi, forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] <= zoom_of(*subquery), *subquery == stack@[i as int], 0 <= i < stack@.len(),
        {
            let \1 = &stack[bi];
            proof { assert(fits_one(stack@[i as int], *match_opts) && fits_one(stack@[bi as int], *match_opts)); }
            let o: Option<u16> = BODY;
            match o { Some(z) => { out.push(z); } None => {} }
        }
        out
    })
== block!
for \((\w+), (\w+)\) in stack\.iter\(\)\.enumerate\(\) \{
=>
for \1 in 0..stack.len()
        invariant
            scene(ss, stack@, *match_opts),
            retuned(*match_opts, zoom_adjusted_match_options),
            kept_at(coalesced@, ss, *match_opts, \1 * 100000),
            found(contexts@, ss, *match_opts),
            fin(max_relevance), -1real <= val(max_relevance) <= 40real,
    {
        broadcast use {fl_sub, fl_cmp, fl_specs};
        let \2 = &stack[\1];
        proof { some_literals(); assert(fits_one(stack@[\1 as int], *match_opts)); tune(*match_opts, zoom_of(*\2)); }
        BODY
    }
== block!
for (\w+) in grids\.take\(MAX_GRIDS_PER_PHRASE\) \{
=>
let ghost all = grids.seq();
        let some = taken(grids, MAX_GRIDS_PER_PHRASE);
        for \1 in it: some
            invariant
                scene(ss, stack@, *match_opts), 0 <= i < stack@.len(), *subquery == stack@[i as int],
                retuned(*match_opts, zoom_adjusted_match_options), zoom_adjusted_match_options.zoom == zoom_of(*subquery),
                compatible_zooms@.len() <= 128, forall|k: int| 0 <= k < compatible_zooms@.len() ==> #[trigger] compatible_zooms@[k] <= zoom_of(*subquery),
                kept_at(coalesced@, ss, *match_opts, i * 100000),
                kept_at(to_add_to_coalesced@, ss, *match_opts, it.index@),
                found(contexts@, ss, *match_opts),
                fin(max_relevance), -1real <= val(max_relevance) <= 40real,
                it.seq() == all.take(it.seq().len() as int), it.seq().len() <= 100000, it.seq().len() <= all.len(),
                answers(all, subquery.store.gs(), subquery.match_keys@[0].key, zoom_adjusted_match_options, 100000),
        {
            broadcast use {fl_add, fl_sub, fl_cmp, fl_specs};
            proof {
                some_literals();
                assert(fits_one(stack@[i as int], *match_opts));
                let n = it.index@ as int;
                if 0 <= n < all.len() && \1 == all[n] { answered(all, n, *subquery, zoom_adjusted_match_options, *match_opts, ss); }
            }
            BODY
        }
== block!
for (\w+) in compatible_zooms\.iter\(\) \{
=>
let ghost mut ops: int = 0;
            let ghost first = entries@[0];
            proof { begun(entries@, ss, *match_opts, zoom_of(*subquery), context_relevance); }
            for zi in 0..compatible_zooms.len()
                invariant
                    scene(ss, stack@, *match_opts), 0 <= i < stack@.len(), *subquery == stack@[i as int],
                    compatible_zooms@.len() <= 128, forall|k: int| 0 <= k < compatible_zooms@.len() ==> #[trigger] compatible_zooms@[k] <= zoom_of(*subquery),
                    kept_at(coalesced@, ss, *match_opts, i * 100000),
                    built(entries@, context_mask, ss, *match_opts, grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery)),
                    entries@[0] == first,
                    near_total(context_relevance, entries@, ops), 0 <= ops <= zi * 819200000,
            {
                broadcast use {fl_add, fl_sub, fl_cmp, fl_specs};
                let \1 = &compatible_zooms[zi];
                proof { some_literals(); assert(fits_one(stack@[i as int], *match_opts)); scaling(entries@[0].grid_entry.x, zoom_of(*subquery), *\1); scaling(entries@[0].grid_entry.y, zoom_of(*subquery), *\1); }
                BODY
            }
            proof { few(entries@); ending(entries@, context_mask, ss, *match_opts, grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery), context_relevance, ops); }
== block!
for parent_context in already_coalesced \{
=>
let ghost ops0 = ops;
                    for pi in 0..already_coalesced.len()
                        invariant
                            listing(already_coalesced@, ss, *match_opts, *other_zoom, other_zxy.1, other_zxy.2), already_coalesced@.len() <= 12800000,
                            *other_zoom <= zoom_of(*subquery) <= 16, over_xy(grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery), other_zxy.1, other_zxy.2, *other_zoom),
                            built(entries@, context_mask, ss, *match_opts, grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery)),
                            entries@[0] == first,
                            near_total(context_relevance, entries@, ops), 0 <= ops <= ops0 + pi * 64, 0 <= ops0 <= 128 * 819200000,
                            last_put(entries@, prev_mask, prev_relev),
                    {
                        broadcast use {fl_add, fl_sub, fl_cmp, fl_specs};
                        let parent_context = &already_coalesced[pi];
                        let ghost ops1 = ops;
                        proof { assert(one_of(*parent_context, ss, *match_opts, *other_zoom, other_zxy.1, other_zxy.2)); few(parent_context.entries@); }
                        BODY
                    }
== block!
for parent_entry in &parent_context\.entries \{
=>
for ei in 0..parent_context.entries.len()
                            invariant
                                one_of(*parent_context, ss, *match_opts, *other_zoom, other_zxy.1, other_zxy.2), parent_context.entries@.len() <= 32,
                                *other_zoom <= zoom_of(*subquery) <= 16, over_xy(grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery), other_zxy.1, other_zxy.2, *other_zoom),
                                built(entries@, context_mask, ss, *match_opts, grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery)),
                                entries@[0] == first,
                                near_total(context_relevance, entries@, ops), 0 <= ops <= ops1 + ei * 2, 0 <= ops1 <= 128 * 819200000 + 819200000,
                                last_put(entries@, prev_mask, prev_relev),
                        {
                            broadcast use {fl_add, fl_sub, fl_cmp, fl_specs};
                            let parent_entry = &parent_context.entries[ei];
                            let ghost (es0, r0) = (entries@, context_relevance);
                            proof { placing(es0, context_mask, ss, *match_opts, grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery), *parent_context, ei as int, other_zxy.1, other_zxy.2, *other_zoom); totals(es0, context_mask, ss, *match_opts, grid.grid_entry.x, grid.grid_entry.y, zoom_of(*subquery), *parent_entry, r0, prev_relev, ops); }
                            BODY
                            proof { if entries@ != es0 { ops = ops + 2; } }
                        }
== block!
for \((\w+), (\w+)\) in to_add_to_coalesced \{
=>
let ghost fresh = to_add_to_coalesced@;
        for (\1, \2) in it: to_add_to_coalesced.into_iter()
            invariant
                scene(ss, stack@, *match_opts), 0 <= i < stack@.len(),
                lists(it.seq(), fresh), kept_at(fresh, ss, *match_opts, 100000),
                kept_at(coalesced@, ss, *match_opts, i * 100000 + 100000),
                forall|k: int| it.index@ <= k < it.seq().len() && coalesced@.dom().contains((#[trigger] it.seq()[k]).0) ==> coalesced@[it.seq()[k].0]@.len() <= i * 100000,
        {
            proof { assert(it.seq()[it.index@] == (\1, \2)); assert(listing(fresh[\1]@, ss, *match_opts, \1.0, \1.1, \1.2)); }
            BODY
        }
== block!
for \(_, matched\) in coalesced \{
=>
let ghost kept = coalesced@;
    for (kz_, matched) in it: coalesced.into_iter()
        invariant
            scene(ss, stack@, *match_opts), lists(it.seq(), kept), kept_at(kept, ss, *match_opts, 12800000), found(contexts@, ss, *match_opts),
    {
        broadcast use {fl_sub, fl_cmp, fl_specs};
        proof { assert(it.seq()[it.index@] == (kz_, matched)); assert(listing(kept[kz_]@, ss, *match_opts, kz_.0, kz_.1, kz_.2)); }
        BODY
    }
== block!
for context in matched \{
=>
for context in jt: matched
            invariant
                listing(jt.seq(), ss, *match_opts, kz_.0, kz_.1, kz_.2), found(contexts@, ss, *match_opts),
        {
            broadcast use {fl_sub, fl_cmp, fl_specs};
            proof { assert(one_of(context, ss, *match_opts, kz_.0, kz_.1, kz_.2)); plain(context, ss, *match_opts, kz_.0, kz_.1, kz_.2); }
            BODY
        }
== subst-re!
contexts\.sort_by_key\(\|context\| \{([^{}]*)\}\);
=>
let ghost c0 = contexts@;
    let key = |context: &CoalesceContext| -> (k: (Reverse<OrderedFloat<f64>>, Reverse<OrderedFloat<f64>>, u16, Reverse<u16>, Reverse<u16>, Reverse<u32>))
        requires context.entries@.len() > 0
        ensures k.0.0.0 == context.relev, k.1.0.0 == context.entries@[0].scoredist
        {\1};
    proof { assert forall|i: int| 0 <= i < c0.len() implies ctx_ok(#[trigger] c0[i]) by { assert(combined(c0[i], ss, *match_opts)); } }
    contexts.sort_by_key(key);
    let ghost c1 = contexts@;
    proof {
        if c0.to_multiset() == c1.to_multiset() {
            moved(c0, c1);
            refound(c0, c1, ss, *match_opts);
            let kk = choose|kk: Seq<(Reverse<OrderedFloat<f64>>, Reverse<OrderedFloat<f64>>, u16, Reverse<u16>, Reverse<u16>, Reverse<u32>)>| #[trigger] by_keys(c1, key, kk);
            assert forall|i: int, j: int| 0 <= i <= j < c1.len() implies ranked(#[trigger] c1[i], #[trigger] c1[j]) by {
                assert(ctx_ok(c1[i]) && ctx_ok(c1[j]));
                assert(key.ensures((&c1[i],), kk[i]) && key.ensures((&c1[j],), kk[j]));
                assert(!kk[j].lt(kk[i]));
            }
        }
    }
== text
struct Zooms(Vec<u16>);
impl Zooms {
    /// itertools::dedup: some of them, in order
    #[verifier::external_body]
    fn dedup(self) -> (r: Zooms)
        ensures r.0@.len() <= self.0@.len(), forall|k: int| 0 <= k < r.0@.len() ==> self.0@.contains(#[trigger] r.0@[k]),
    { unimplemented!() }
    fn collect(self) -> (r: Vec<u16>)
        ensures r == self.0
    { self.0 }
}
// ---- what is claimed --------------------------------------------------------------------------------------------------------------
/// a match of the subquery, with its weight
spec fn a_match<T: HasStore>(e: CoalesceEntry, s: Pm<T>, o: MatchOpts, m: MatchEntry, o2: MatchOpts) -> bool {
    entry_of(e, m, s, 0) && fin(m.scoredist) && retuned(o, o2) && o2.zoom == zoom_of(s) && matching(s.store.gs(), s.match_keys@[0].key, o2).count(read(m)) > 0
}
spec fn matched_by<T: HasStore>(e: CoalesceEntry, s: Pm<T>, o: MatchOpts) -> bool { exists|m: MatchEntry, o2: MatchOpts| #[trigger] a_match(e, s, o, m, o2) }
/// a match of one of the subqueries, stored at zoom z
spec fn from_one<T: HasStore>(e: CoalesceEntry, ss: Seq<Pm<T>>, o: MatchOpts, z: u16) -> bool {
    exists|s: Pm<T>| #[trigger] ss.contains(s) && matched_by(e, s, o) && zoom_of(s) == z && s.idx == e.idx
}
spec fn hangs<T: HasStore>(e: CoalesceEntry, ss: Seq<Pm<T>>, o: MatchOpts, x: u16, y: u16, z: u16) -> bool {
    exists|z2: u16| #[trigger] from_one(e, ss, o, z2) && over_xy(x, y, z, e.grid_entry.x, e.grid_entry.y, z2)
}
spec fn union(es: Seq<CoalesceEntry>) -> u32
    decreases es.len(),
{
    if es.len() == 0 { 0u32 } else { union(es.drop_last()) | es.last().mask }
}
/// no two masks have a bit in common
spec fn apart(es: Seq<CoalesceEntry>) -> bool
    decreases es.len(),
{
    es.len() == 0 || apart(es.drop_last()) && union(es.drop_last()) & es.last().mask == 0 && es.last().mask != 0
}
spec fn summed(es: Seq<CoalesceEntry>) -> real
    decreases es.len(),
{
    if es.len() == 0 { 0real } else { summed(es.drop_last()) + val(es.last().grid_entry.relev) }
}
/// the subquery that comes last in the stack, by zoom and index
spec fn not_after<T: HasStore>(a: Pm<T>, b: Pm<T>) -> bool { zoom_of(a) < zoom_of(b) || zoom_of(a) == zoom_of(b) && a.idx <= b.idx }
spec fn comes_last<T: HasStore>(ss: Seq<Pm<T>>, idx: u16) -> bool {
    exists|s: Pm<T>| #[trigger] ss.contains(s) && s.idx == idx && forall|t: Pm<T>| #[trigger] ss.contains(t) ==> not_after(t, s)
}
/// matches of the stack's subqueries: the first's tile in all others' tiles, no mask bit twice; their union and sum
spec fn stacked<T: HasStore>(c: CoalesceContext, ss: Seq<Pm<T>>, o: MatchOpts, x: u16, y: u16, z: u16) -> bool {
    &&& built(c.entries@, c.mask, ss, o, x, y, z)
    &&& nearly(c.relev, summed(c.entries@) - if comes_last(ss, c.entries@[0].idx) && out_of_order(c.entries@) { 0.01real } else { 0real })
}
spec fn combined<T: HasStore>(c: CoalesceContext, ss: Seq<Pm<T>>, o: MatchOpts) -> bool { exists|x: u16, y: u16, z: u16| #[trigger] stacked(c, ss, o, x, y, z) }
spec fn found<T: HasStore>(cs: Seq<CoalesceContext>, ss: Seq<Pm<T>>, o: MatchOpts) -> bool { forall|i: int| 0 <= i < cs.len() ==> combined(#[trigger] cs[i], ss, o) }
spec fn built<T: HasStore>(es: Seq<CoalesceEntry>, mask: u32, ss: Seq<Pm<T>>, o: MatchOpts, x: u16, y: u16, z: u16) -> bool {
    &&& es.len() > 0
    &&& from_one(es[0], ss, o, z) && es[0].grid_entry.x == x && es[0].grid_entry.y == y && fin(es[0].scoredist)
    &&& forall|k: int| 0 <= k < es.len() ==> hangs(#[trigger] es[k], ss, o, x, y, z)
    &&& forall|k: int| 0 <= k < es.len() ==> fair_relev((#[trigger] es[k]).grid_entry.relev)
    &&& apart(es) && mask == union(es)
}
// ---- what is asked of the stack ----------------------------------------------------------------------------------------------------
spec fn fits_one<T: HasStore>(s: Pm<T>, o: MatchOpts) -> bool {
    &&& sub_ok(s) && val(s.weight) <= 1real && s.mask != 0 && s.match_keys@.len() > 0 && zoom_of(s) <= 16
    &&& forall|o2: MatchOpts| #[trigger] retuned(o, o2) && o2.zoom == zoom_of(s) ==> ready(s.store.gs(), o2)
}
spec fn stack_ok<T: HasStore>(ss: Seq<Pm<T>>, o: MatchOpts) -> bool {
    &&& ss.len() <= 128
    &&& o.zoom <= 16 && (o.bbox matches Some(b) ==> box_at(b, o.zoom)) && (o.proximity matches Some(p) ==> tile_at(p[0], o.zoom) && tile_at(p[1], o.zoom))
    &&& forall|s: Pm<T>| #[trigger] ss.contains(s) ==> fits_one(s, o)
    &&& forall|s: Pm<T>, t: Pm<T>| #[trigger] ss.contains(s) && #[trigger] ss.contains(t) && s.idx == t.idx ==> s == t
    &&& ss.no_duplicates()
}
// ---- on the way there --------------------------------------------------------------------------------------------------------------
spec fn in_turn<T: HasStore>(st: Seq<Pm<T>>) -> bool { forall|i: int, j: int| 0 <= i <= j < st.len() ==> not_after(#[trigger] st[i], #[trigger] st[j]) }
spec fn scene<T: HasStore>(ss: Seq<Pm<T>>, st: Seq<Pm<T>>, o: MatchOpts) -> bool {
    &&& stack_ok(ss, o)
    &&& st.len() == ss.len()
    &&& forall|i: int| 0 <= i < st.len() ==> ss.contains(#[trigger] st[i]) && fits_one(st[i], o) && (comes_last(ss, st[i].idx) <==> i == st.len() - 1)
}
/// combined, without a penalty; not of the last subquery
spec fn one_of<T: HasStore>(c: CoalesceContext, ss: Seq<Pm<T>>, o: MatchOpts, z: u16, x: u16, y: u16) -> bool {
    &&& built(c.entries@, c.mask, ss, o, x, y, z)
    &&& nearly(c.relev, summed(c.entries@))
    &&& !comes_last(ss, c.entries@[0].idx)
}
spec fn listing<T: HasStore>(cs: Seq<CoalesceContext>, ss: Seq<Pm<T>>, o: MatchOpts, z: u16, x: u16, y: u16) -> bool {
    forall|j: int| 0 <= j < cs.len() ==> one_of(#[trigger] cs[j], ss, o, z, x, y)
}
spec fn kept_at<T: HasStore>(m: Map<(u16, u16, u16), Vec<CoalesceContext>>, ss: Seq<Pm<T>>, o: MatchOpts, n: int) -> bool {
    forall|k: (u16, u16, u16)| #[trigger] m.dom().contains(k) ==> m[k]@.len() <= n && listing(m[k]@, ss, o, k.0, k.1, k.2)
}
/// off by the rounding of so many sums at most
spec fn near_total(r: f64, es: Seq<CoalesceEntry>, ops: int) -> bool { fin(r) && rabs(val(r) - summed(es)) * 9007199254740992real <= ops as real * 45real }
spec fn last_put(es: Seq<CoalesceEntry>, mask: u32, r: f64) -> bool {
    fin(r) && (mask == 0 && val(r) == 0real || es.len() >= 2 && es.last().mask == mask && val(es.last().grid_entry.relev) == val(r))
}
== floats coalesce_literals2
== text
proof fn some_literals()
    ensures
        fin(0.25f64), val(0.25f64) == 0.25real, fin(0.0f64), val(0.0f64) == 0real,
        fin(0.01f64), rabs(val(0.01f64) - 0.01real) <= 0.0001real,
{
    coalesce_literals2();
    fl_dyadic(1, 4); fl_int(0);
    assert(1int as real / 4int as real == 0.25real);
    assert(0int as real == 0real);
}
proof fn set_up<T: HasStore>(ss: Seq<Pm<T>>, st: Seq<Pm<T>>, o: MatchOpts)
    requires stack_ok(ss, o), ss.to_multiset() == st.to_multiset(), st.len() == ss.len(), in_turn(st),
    ensures scene(ss, st, o),
{
    moved(ss, st);
    assert forall|i: int| 0 <= i < st.len() implies ss.contains(#[trigger] st[i]) && fits_one(st[i], o) && (comes_last(ss, st[i].idx) <==> i == st.len() - 1) by {
        let l = st.len() - 1;
        assert(ss.contains(st[i]) && ss.contains(st[l]));
        assert(not_after(st[i], st[l]));
        if i == l {
            assert forall|t: Pm<T>| #[trigger] ss.contains(t) implies not_after(t, st[l]) by {
                let p = choose|p: int| 0 <= p < ss.len() && ss[p] == t;
                assert(st.contains(ss[p]));
                let q = choose|q: int| 0 <= q < st.len() && st[q] == t;
                assert(not_after(st[q], st[l]));
            }
        } else if comes_last(ss, st[i].idx) {
            let s = choose|s: Pm<T>| #[trigger] ss.contains(s) && s.idx == st[i].idx && forall|t: Pm<T>| #[trigger] ss.contains(t) ==> not_after(t, s);
            assert(s == st[i]);
            assert(not_after(st[l], st[i]));
            assert(st[i].idx == st[l].idx);
            assert(st[i] == st[l]);
        }
    }
}
/// a lookup's answer is stored
proof fn answered<T: HasStore>(all: Seq<MatchEntry>, n: int, s: Pm<T>, o2: MatchOpts, o: MatchOpts, ss: Seq<Pm<T>>)
    requires answers(all, s.store.gs(), s.match_keys@[0].key, o2, 100000), 0 <= n < all.len(), retuned(o, o2), o2.zoom == zoom_of(s), ss.contains(s), fits_one(s, o),
    ensures
        sane(all[n]), plausible(read(all[n])),
        forall|e: CoalesceEntry| #[trigger] entry_of(e, all[n], s, 0) ==> from_one(e, ss, o, zoom_of(s)) && fair_relev(e.grid_entry.relev) && e.mask != 0 && fin(e.scoredist),
{
    let m = all[n];
    answered_by(all, n, s, s.match_keys@[0].key, o2, 100000);
    assert forall|e: CoalesceEntry| #[trigger] entry_of(e, m, s, 0) implies from_one(e, ss, o, zoom_of(s)) && fair_relev(e.grid_entry.relev) && e.mask != 0 && fin(e.scoredist) by {
        assert(a_match(e, s, o, m, o2));
        assert(matched_by(e, s, o));
    }
}
/// 32 at most
proof fn few(es: Seq<CoalesceEntry>)
    requires apart(es),
    ensures es.len() <= bits(union(es)), bits(union(es)) <= 32,
    decreases es.len(),
{
    lemma2_to64();
    bits_max(union(es), 32);
    bits_pos(union(es));
    if es.len() > 0 { few(es.drop_last()); bits_add(union(es.drop_last()), es.last().mask); bits_pos(es.last().mask); }
}
proof fn sum_up(es: Seq<CoalesceEntry>)
    requires forall|k: int| 0 <= k < es.len() ==> fair_relev((#[trigger] es[k]).grid_entry.relev),
    ensures 0real <= summed(es) <= es.len() as real,
    decreases es.len(),
{
    if es.len() > 0 { let d = es.drop_last(); assert forall|k: int| 0 <= k < d.len() implies fair_relev((#[trigger] d[k]).grid_entry.relev) by { assert(d[k] == es[k]); } sum_up(d); assert(fair_relev(es[es.len() - 1].grid_entry.relev)); }
}
/// a leading entry alone
proof fn begun<T: HasStore>(es: Seq<CoalesceEntry>, ss: Seq<Pm<T>>, o: MatchOpts, z: u16, r: f64)
    requires es.len() == 1, from_one(es[0], ss, o, z), fair_relev(es[0].grid_entry.relev), es[0].mask != 0, fin(es[0].scoredist), r == es[0].grid_entry.relev,
    ensures built(es, es[0].mask, ss, o, es[0].grid_entry.x, es[0].grid_entry.y, z), near_total(r, es, 0),
{
    let (e, m) = (es[0], es[0].mask);
    lemma2_to64();
    assert(e.grid_entry.x as int / 1 == e.grid_entry.x && e.grid_entry.y as int / 1 == e.grid_entry.y);
    assert(over_xy(e.grid_entry.x, e.grid_entry.y, z, e.grid_entry.x, e.grid_entry.y, z));
    let d = es.drop_last();
    assert(d.len() == 0 && es.last() == e);
    assert(union(d) == 0 && apart(d) && summed(d) == 0real);
    assert(0u32 | m == m && 0u32 & m == 0) by (bit_vector);
}
proof fn masked(es: Seq<CoalesceEntry>, k: int)
    requires apart(es), 0 <= k < es.len(),
    ensures es[k].mask != 0,
    decreases es.len(),
{
    if k < es.len() - 1 { masked(es.drop_last(), k); }
}
/// a tile over a tile over a tile
proof fn hang_on<T: HasStore>(e: CoalesceEntry, ss: Seq<Pm<T>>, o: MatchOpts, x: u16, y: u16, z: u16, x2: u16, y2: u16, z2: u16)
    requires hangs(e, ss, o, x2, y2, z2), over_xy(x, y, z, x2, y2, z2),
    ensures hangs(e, ss, o, x, y, z),
{
    let z3 = choose|z3: u16| #[trigger] from_one(e, ss, o, z3) && over_xy(x2, y2, z2, e.grid_entry.x, e.grid_entry.y, z3);
    let (a, b) = (pow2((z - z2) as nat) as int, pow2((z2 - z3) as nat) as int);
    lemma_pow2_pos((z - z2) as nat); lemma_pow2_pos((z2 - z3) as nat);
    lemma_pow2_adds((z - z2) as nat, (z2 - z3) as nat);
    lemma_div_denominator(x as int, a, b); lemma_div_denominator(y as int, a, b);
    assert(over_xy(x, y, z, e.grid_entry.x, e.grid_entry.y, z3));
}
/// an entry can be added, or take the last one's place
proof fn placing<T: HasStore>(es: Seq<CoalesceEntry>, mask: u32, ss: Seq<Pm<T>>, o: MatchOpts, x: u16, y: u16, z: u16, c: CoalesceContext, k: int, x2: u16, y2: u16, z2: u16)
    requires built(es, mask, ss, o, x, y, z), one_of(c, ss, o, z2, x2, y2), over_xy(x, y, z, x2, y2, z2), 0 <= k < c.entries@.len(),
    ensures
        es.len() <= 32, c.entries@[k].mask != 0, fair_relev(c.entries@[k].grid_entry.relev),
        mask & c.entries@[k].mask == 0 ==> built(es.push(c.entries@[k]), mask | c.entries@[k].mask, ss, o, x, y, z),
        es.len() >= 2 && es.last().mask == c.entries@[k].mask ==> built(es.drop_last().push(c.entries@[k]), mask, ss, o, x, y, z),
{
    let e = c.entries@[k];
    few(es);
    masked(c.entries@, k);
    assert(hangs(e, ss, o, x2, y2, z2));
    hang_on(e, ss, o, x, y, z, x2, y2, z2);
    let a = es.push(e);
    assert(a.drop_last() =~= es && a.last() == e);
    assert forall|j: int| 0 <= j < a.len() implies hangs(#[trigger] a[j], ss, o, x, y, z) && fair_relev(a[j].grid_entry.relev) by { if j < es.len() { assert(a[j] == es[j]); } }
    if es.len() >= 2 {
        let d = es.drop_last();
        let b = d.push(e);
        assert(b.drop_last() =~= d && b.last() == e);
        assert forall|j: int| 0 <= j < b.len() implies hangs(#[trigger] b[j], ss, o, x, y, z) && fair_relev(b[j].grid_entry.relev) by { if j < d.len() { assert(b[j] == es[j]); } }
    }
}
/// the sum follows, up to rounding
proof fn totals<T: HasStore>(es: Seq<CoalesceEntry>, mask: u32, ss: Seq<Pm<T>>, o: MatchOpts, x: u16, y: u16, z: u16, e: CoalesceEntry, r: f64, prev: f64, ops: int)
    requires built(es, mask, ss, o, x, y, z), fair_relev(e.grid_entry.relev), near_total(r, es, ops), 0 <= ops <= 200000000000, es.len() <= 32,
    ensures
        near_total(plus(r, e.grid_entry.relev), es.push(e), ops + 2),
        es.len() >= 2 && fin(prev) && val(prev) == val(es.last().grid_entry.relev) ==> near_total(plus(minus(r, prev), e.grid_entry.relev), es.drop_last().push(e), ops + 2),
{
    sum_up(es);
    let v = e.grid_entry.relev;
    assert(rabs(val(r) - summed(es)) <= 1real);
    assert(-1real <= val(r) <= 33real);
    fl_add(r, v);
    fl_round_small(val(r) + val(v));
    let a = es.push(e);
    assert(a.drop_last() =~= es && a.last() == e);
    if es.len() >= 2 && fin(prev) && val(prev) == val(es.last().grid_entry.relev) {
        let d = es.drop_last();
        assert(es.last() == es[es.len() - 1]);
        let b = d.push(e);
        assert(b.drop_last() =~= d && b.last() == e);
        fl_sub(r, prev);
        fl_round_small(val(r) - val(prev));
        let m = minus(r, prev);
        assert(-3real <= val(m) <= 34real);
        fl_add(m, v);
        fl_round_small(val(m) + val(v));
    }
}
/// the end of a combination
proof fn ending<T: HasStore>(es: Seq<CoalesceEntry>, mask: u32, ss: Seq<Pm<T>>, o: MatchOpts, x: u16, y: u16, z: u16, r: f64, ops: int)
    requires built(es, mask, ss, o, x, y, z), near_total(r, es, ops), 0 <= ops <= 105000000000, es.len() <= 32,
    ensures
        nearly(r, summed(es)), -1real <= val(r) <= 33real,
        nearly(minus(r, 0.01f64), summed(es) - 0.01real),
        forall|c: CoalesceContext| c.entries@ == es && c.mask == mask && nearly(c.relev, summed(es) - if comes_last(ss, es[0].idx) && out_of_order(es) { 0.01real } else { 0real }) ==> #[trigger] combined(c, ss, o),
{
    sum_up(es);
    some_literals();
    fl_sub(r, 0.01f64);
    assert(rabs(val(r) - summed(es)) <= 0.0006real);
    fl_round_small(val(r) - val(0.01f64));
    assert forall|c: CoalesceContext| c.entries@ == es && c.mask == mask && nearly(c.relev, summed(es) - if comes_last(ss, es[0].idx) && out_of_order(es) { 0.01real } else { 0real }) implies #[trigger] combined(c, ss, o) by {
        assert(stacked(c, ss, o, x, y, z));
    }
}
proof fn plain<T: HasStore>(c: CoalesceContext, ss: Seq<Pm<T>>, o: MatchOpts, z: u16, x: u16, y: u16)
    requires one_of(c, ss, o, z, x, y),
    ensures combined(c, ss, o),
{
    assert(stacked(c, ss, o, x, y, z));
}
proof fn refound<T: HasStore>(a: Seq<CoalesceContext>, b: Seq<CoalesceContext>, ss: Seq<Pm<T>>, o: MatchOpts)
    requires found(a, ss, o), forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]),
    ensures found(b, ss, o), forall|i: int| 0 <= i < b.len() ==> ctx_ok(#[trigger] b[i]),
{
    assert forall|i: int| 0 <= i < b.len() implies combined(#[trigger] b[i], ss, o) && ctx_ok(b[i]) by {
        let p = choose|p: int| 0 <= p < a.len() && a[p] == b[i];
        assert(combined(a[p], ss, o));
    }
}
== source coalesce.rs
== take fn coalesce_multi
== fn coalesce_multi
-- ret r
requires
    stack_ok(stack_@, *match_opts), stack_@.len() > 0,
ensures
    r matches Ok(cs) ==> found(cs@, stack_@, *match_opts) && descending(cs@),
-- start
let ghost ss = stack_@;
proof { some_literals(); }
