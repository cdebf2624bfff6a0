# C17, C18: coalesce
== import multi
== subst
T: Borrow<GridStore> + Clone + Debug
=>
T: HasStore
== subst
context.entries[0].tmp_id.into()
=>
context.entries[0].tmp_id as u64
== block!
for context in contexts \{
=>
let ghost cs = contexts@;
        for context in it: contexts
            invariant_except_break
                picking(out@, cs, it.index@, max_relevance, sets@),
            invariant
                it.seq() == cs, cs.len() > 0, max_relevance == cs[0].relev, led(cs),
            ensures
                picking(out@, cs, cs.len() as int, max_relevance, sets@) || exists|n: int| 0 <= n < cs.len() && #[trigger] picking(out@, cs, n, max_relevance, sets@) && (out@.len() == 40 || far(val(max_relevance), val(cs[n].relev))),
        {
            broadcast use {fl_sub, fl_cmp, fl_specs};
            proof { some_literals(); assert(context == cs[it.index@]); }
            let ghost (n, out0, sets0) = (it.index@ as int, out@, sets@);
            proof { next_one(out0, cs, n, max_relevance, sets0); }
            BODY
        }
        proof { picked_all(out@, cs, max_relevance, sets@); }
== text
impl<K> HashSet<K> {
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Set::<K>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (r: bool)
        ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k)
    { unimplemented!() }
}
// ---- what is claimed --------------------------------------------------------------------------------------------------------------
spec fn lead(c: CoalesceContext) -> u64 { c.entries@[0].tmp_id as u64 }
/// each has a leading entry
spec fn led(cs: Seq<CoalesceContext>) -> bool { forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).entries@.len() > 0 && fin(cs[i].relev) && 0real - 1real <= val(cs[i].relev) <= 1000001real }
/// chosen among the first n, in their order
spec fn chosen(out: Seq<CoalesceContext>, cs: Seq<CoalesceContext>, n: int, at: Seq<int>) -> bool {
    &&& at.len() == out.len()
    &&& forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < n && out[i] == cs[at[i]]
    &&& forall|i: int, j: int| 0 <= i < j < at.len() ==> #[trigger] at[i] < #[trigger] at[j]
}
/// out has the first of each leading feature among the first n, none of them far less relevant than the best
spec fn firsts(out: Seq<CoalesceContext>, cs: Seq<CoalesceContext>, n: int) -> bool {
    &&& out.len() <= 40
    &&& exists|at: Seq<int>| #[trigger] chosen(out, cs, n, at)
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> lead(#[trigger] out[i]) != lead(#[trigger] out[j])
    &&& forall|i: int| 0 <= i < out.len() ==> !far(val(cs[0].relev), val((#[trigger] out[i]).relev))
    &&& forall|j: int| 0 <= j < n ==> has_lead(out, lead(#[trigger] cs[j]))
}
spec fn has_lead(out: Seq<CoalesceContext>, l: u64) -> bool { exists|i: int| 0 <= i < out.len() && #[trigger] lead(out[i]) == l }
/// the first of each leading feature, down to the first far less relevant than the best, 40 at most
spec fn selected(out: Seq<CoalesceContext>, cs: Seq<CoalesceContext>) -> bool {
    exists|n: int| 0 <= n <= cs.len() && #[trigger] firsts(out, cs, n) && (n == cs.len() || out.len() == 40 || far(val(cs[0].relev), val(cs[n].relev)))
}
// ---- on the way there --------------------------------------------------------------------------------------------------------------
spec fn picking(out: Seq<CoalesceContext>, cs: Seq<CoalesceContext>, n: int, max: f64, sets: Set<u64>) -> bool {
    &&& firsts(out, cs, n)
    &&& forall|l: u64| #[trigger] sets.contains(l) <==> has_lead(out, l)
}
proof fn next_one(out: Seq<CoalesceContext>, cs: Seq<CoalesceContext>, n: int, max: f64, sets: Set<u64>)
    requires picking(out, cs, n, max, sets), led(cs), 0 <= n < cs.len(), max == cs[0].relev,
    ensures
        small(val(max) - val(cs[n].relev)), cs[n].entries@.len() > 0, fin(cs[n].relev), fin(max),
        sets.contains(lead(cs[n])) ==> picking(out, cs, n + 1, max, sets.insert(lead(cs[n]))),
        !sets.contains(lead(cs[n])) && !far(val(max), val(cs[n].relev)) && out.len() < 40 ==> picking(out.push(cs[n]), cs, n + 1, max, sets.insert(lead(cs[n]))),
{
    assert(cs[0].entries@.len() > 0);
    let at = choose|at: Seq<int>| #[trigger] chosen(out, cs, n, at);
    assert(chosen(out, cs, n + 1, at));
    assert(sets.contains(lead(cs[n])) ==> sets.insert(lead(cs[n])) =~= sets);
    if !sets.contains(lead(cs[n])) && !far(val(max), val(cs[n].relev)) && out.len() < 40 {
        let o = out.push(cs[n]);
        assert(chosen(o, cs, n + 1, at.push(n)));
        assert forall|l: u64| #[trigger] has_lead(o, l) <==> has_lead(out, l) || l == lead(cs[n]) by {
            if has_lead(out, l) { let i = choose|i: int| 0 <= i < out.len() && #[trigger] lead(out[i]) == l; assert(lead(o[i]) == l); }
            if l == lead(cs[n]) { assert(lead(o[out.len() as int]) == l); }
            if has_lead(o, l) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] lead(o[i]) == l; if i < out.len() { assert(lead(out[i]) == l); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < o.len() implies lead(#[trigger] o[i]) != lead(#[trigger] o[j]) by {
            if j == out.len() { assert(lead(out[i]) == lead(o[i])); assert(!has_lead(out, lead(cs[n]))); }
        }
        assert forall|j: int| 0 <= j < n + 1 implies has_lead(o, lead(#[trigger] cs[j])) by { if j < n { assert(has_lead(out, lead(cs[j]))); } }
    }
}
proof fn picked_all(out: Seq<CoalesceContext>, cs: Seq<CoalesceContext>, max: f64, sets: Set<u64>)
    requires max == cs[0].relev,
    ensures
        picking(out, cs, cs.len() as int, max, sets) ==> selected(out, cs),
        forall|n: int| 0 <= n < cs.len() && #[trigger] picking(out, cs, n, max, sets) && (out.len() == 40 || far(val(max), val(cs[n].relev))) ==> selected(out, cs),
{
    assert forall|n: int| 0 <= n < cs.len() && #[trigger] picking(out, cs, n, max, sets) && (out.len() == 40 || far(val(max), val(cs[n].relev))) implies selected(out, cs) by {
        assert(firsts(out, cs, n));
    }
    if picking(out, cs, cs.len() as int, max, sets) { assert(firsts(out, cs, cs.len() as int)); }
}
spec fn single_fits<T: HasStore>(s: Pm<T>, o: MatchOpts) -> bool { o.zoom == zoom_of(s) && sub_ok(s) && s.match_keys@.len() > 0 && ready(s.store.gs(), o) }
/// what coalesce answers: one subquery's best, or combinations of several
spec fn answer<T: HasStore>(cs: Seq<CoalesceContext>, ss: Seq<Pm<T>>, o: MatchOpts) -> bool {
    if ss.len() == 1 { single(cs, ss[0], o) } else { found(cs, ss, o) && descending(cs) }
}
spec fn coalesced_from<T: HasStore>(out: Seq<CoalesceContext>, ss: Seq<Pm<T>>, o: MatchOpts) -> bool {
    exists|cs: Seq<CoalesceContext>| #[trigger] answer(cs, ss, o) && selected(out, cs)
}
proof fn all_led<T: HasStore>(cs: Seq<CoalesceContext>, ss: Seq<Pm<T>>, o: MatchOpts)
    requires answer(cs, ss, o), ss.len() == 1 ==> single_fits(ss[0], o),
    ensures led(cs), cs.len() == 0 ==> selected(Seq::empty(), cs), cs.len() > 0 ==> picking(Seq::empty(), cs, 0, cs[0].relev, Set::empty()),
{
    let no = Seq::<CoalesceContext>::empty();
    assert(chosen(no, cs, 0, Seq::empty()));
    assert(firsts(no, cs, 0));
    assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]).entries@.len() > 0 && fin(cs[i].relev) && 0real - 1real <= val(cs[i].relev) <= 1000001real by {
        if ss.len() == 1 {
            let s = ss[0];
            let all = choose|all: Seq<MatchEntry>| #[trigger] best_of(cs, all, s, o);
            assert(lone(cs[i], cs[i].entries@[0]) && of_match(cs[i].entries@[0], all, s, 0, all.len() as int));
            let j = choose|j: int| 0 <= j < all.len() && #[trigger] entry_of(cs[i].entries@[0], all[j], s, 0);
            assert(sane(all[j]));
            weighing(all[j], s.weight);
        } else {
            assert(combined(cs[i], ss, o));
            few(cs[i].entries@);
            sum_up(cs[i].entries@);
        }
    }
}
== source coalesce.rs
== take fn coalesce
== fn coalesce
-- ret r
requires
    stack@.len() > 0,
    stack@.len() == 1 ==> single_fits(stack@[0], *match_opts),
    stack@.len() > 1 ==> stack_ok(stack@, *match_opts),
ensures
    r matches Ok(out) ==> coalesced_from(out@, stack@, *match_opts),
-- start
let ghost ss = stack@;
proof { some_literals(); }
-- before let mut out
proof { if answer(contexts@, ss, *match_opts) { all_led(contexts@, ss, *match_opts); } }
