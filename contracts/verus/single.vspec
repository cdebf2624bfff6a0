# C17: coalescing one subquery
== import entry
== subst
T: Borrow<GridStore> + Clone + Debug
=>
T: HasStore
== subst
T: Borrow<GridStore> + Clone
=>
T: HasStore
== subst-re!
, U: Iterator<Item = MatchEntry>
=>
 
== subst
grids: U
=>
grids: It<MatchEntry>
== subst
impl Iterator<Item = CoalesceContext>
=>
It<CoalesceContext>
== subst
std::f64::MAX
=>
greatest()
== subst
coalesced.keys().cloned().collect()
=>
coalesced.key_list()
== subst-re!
\b(\w+)\.sort\(\);
=>
\1.sort_();
    let ghost ks = \1@;
    proof { if lists_keys(ids0, coalesced@) { same_keys(ids0, ks, coalesced@); } }
== subst-re!
\bEntry::(Occupied|Vacant)\b
=>
HmEntry::\1
== block!
for (\w+) in grids\s*\{
=>
let mut left = grids;
    let ghost all = left.seq();
    let ghost srt = match_opts.proximity is None;
    let ghost mut c: int = 0;
    proof { quarter(); assert(all.skip(0) =~= all); }
    loop
        invariant_except_break
            0 <= c <= all.len(), left.seq() == all.skip(c),
            state(all, *subquery, kid, srt, c, coalesced@, max_relevance, previous_id, previous_relevance, previous_scoredist, min_scoredist, feature_count as int),
        invariant
            match_opts.zoom == subquery.store.gs().zoom, sub_ok(*subquery), srt == match_opts.proximity is None, bigger_max == 80, kid == phrasematch_id,
        ensures
            stopped(all, *subquery, kid, srt, c, coalesced@) || stopped(all, *subquery, kid, srt, c - 1, coalesced@),
        decreases all.len() - c,
    {
        broadcast use {fl_sub, fl_cmp, fl_specs};
        proof { quarter(); }
        let ghost n = c;
        let \1 = match left.next() { Some(g) => g, None => break };
        proof { c = c + 1; }
        proof { if n < all.len() && \1 == all.skip(n)[0] { ahead_of(all, *subquery, kid, srt, n, coalesced@, max_relevance, previous_id, previous_relevance, previous_scoredist, min_scoredist, feature_count as int); } }
        BODY
    }
== subst-re!
contexts\.sort_by_key\(\|context\| \{([^{}]*)\}\);
=>
let ghost c0 = contexts@;
    let key = |context: &CoalesceContext| -> (k: Reverse<(OrderedFloat<f64>, OrderedFloat<f64>, u16, u16, u32)>)
        requires context.entries@.len() > 0
        ensures k.0.0.0 == context.relev, k.0.1.0 == context.entries@[0].scoredist
        {\1};
    proof { if lists_keys(ks, coalesced@) { each_one(c0, ks, coalesced@, all, *subquery, kid, srt); } }
    contexts.sort_by_key(key);
    let ghost c1 = contexts@;
    proof {
        if one_each(c0, all, *subquery, kid) && c0.to_multiset() == c1.to_multiset() {
            rankable(c0, c1, all, *subquery, srt);
            let kk = choose|kk: Seq<Reverse<(OrderedFloat<f64>, OrderedFloat<f64>, u16, u16, u32)>>| #[trigger] by_keys(c1, key, kk);
            if forall|i: int| 0 <= i < c1.len() ==> ctx_ok(#[trigger] c1[i]) {
                assert forall|i: int, j: int| 0 <= i <= j < c1.len() implies ranked(#[trigger] c1[i], #[trigger] c1[j]) by {
                    assert(key.ensures((&c1[i],), kk[i]) && key.ensures((&c1[j],), kk[j]));
                    assert(!kk[j].lt(kk[i]));
                }
            }
        }
    }
== inline!
coalesced\s*\.iter\(\)\s*\.map\(\|\(_, (\w+)\)\| CoalesceContext \{
=>
Listed({
        let mut out: Vec<CoalesceContext> = Vec::new();
        for (kk, \1) in it: coalesced.iter()
            invariant
                lists(listed(it.seq()), coalesced@),
                out@.len() == it.index@, ks.len() == it.index@,
                forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == listed(it.seq())[i].0,
                it.index@ == it.seq().len() ==> lists_keys(ks, coalesced@),
                forall|i: int| 0 <= i < out@.len() ==> lone((#[trigger] out@[i]), coalesced@[ks[i]]),
        {
            let c = CoalesceContext BODY;
            proof {
                ks = ks.push(*kk);
                assert(listed(it.seq())[it.index@] == (*kk, *\1));
                assert(c.entries@ =~= seq![*\1]);
                walked(ks, listed(it.seq()), coalesced@);
            }
            out.push(c);
        }
        out
    })
== inline!
(\w+)\.into_iter\(\)\.map\(move \|(\w+)\| \{
=>
{
        let mut out: Vec<CoalesceContext> = Vec::new();
        for \2 in it: \1
            invariant
                lists_keys(it.seq(), m1),
                out@.len() == it.index@,
                forall|k: u32| #[trigger] coalesced@.dom().contains(k) <==> m1.dom().contains(k) && !it.seq().take(it.index@).contains(k),
                forall|k: u32| #[trigger] coalesced@.dom().contains(k) ==> coalesced@[k] == m1[k],
                forall|i: int| 0 <= i < out@.len() ==> lone((#[trigger] out@[i]), m1[it.seq()[i]]),
        {
            let c = BODY;
            proof { assert(c.entries@ =~= seq![m1[\2]]); assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(\2));
                assert forall|k: u32| it.seq().take(it.index@ + 1).contains(k) <==> it.seq().take(it.index@).contains(k) || k == \2 by {
                    let (a, b) = (it.seq().take(it.index@), it.seq().take(it.index@ + 1));
                    if k == \2 { assert(b[it.index@] == k); }
                    if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(b[i] == k); }
                    if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; if i < it.index@ { assert(a[i] == k); } }
                } }
            out.push(c);
        }
        It::of_(out)
    }
== text
/// f64::MAX: finite
#[verifier::external_body]
fn greatest() -> (r: f64)
    ensures fin(r)
{ unimplemented!() }
impl<K: Copy, V> HashMap<K, V> {
    /// keys().cloned().collect()
    #[verifier::external_body]
    fn key_list(&self) -> (r: Vec<K>)
        ensures r@.no_duplicates(), forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(#[trigger] r@[i]), forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == k,
    { unimplemented!() }
}
trait SortIds { fn sort_(&mut self); }
impl SortIds for Vec<u32> {
    #[verifier::external_body]
    fn sort_(&mut self)
        ensures final(self)@.to_multiset() == old(self)@.to_multiset(),
    { unimplemented!() }
}
struct Listed(Vec<CoalesceContext>);
impl Listed {
    fn collect(self) -> (r: Vec<CoalesceContext>)
        ensures r == self.0
    { self.0 }
}
// ---- what is claimed --------------------------------------------------------------------------------------------------------------
/// x is less relevant than the best by a quarter or more
spec fn far(best: real, x: real) -> bool { rnd(best - x) >= 0.25real }
/// the context is the entry alone
spec fn lone(c: CoalesceContext, e: CoalesceEntry) -> bool { c.entries@ == seq![e] && c.mask == e.mask && c.relev == e.grid_entry.relev }
spec fn idm(m: MatchEntry) -> u32 { m.grid_entry.id }
/// the entry is at least as good as the match: more relevant, or as relevant and of no lesser distance score
spec fn serves(e: CoalesceEntry, m: MatchEntry, w: f64) -> bool {
    val(e.grid_entry.relev) > rel(m, w) || val(e.grid_entry.relev) == rel(m, w) && val(e.scoredist) >= val(m.scoredist)
}
spec fn of_match<T: HasStore>(e: CoalesceEntry, all: Seq<MatchEntry>, s: Pm<T>, kid: u32, n: int) -> bool {
    exists|j: int| 0 <= j < n && #[trigger] entry_of(e, all[j], s, kid)
}
/// the first n matches, one entry per feature
spec fn kept_of<T: HasStore>(all: Seq<MatchEntry>, s: Pm<T>, kid: u32, srt: bool, n: int, m: Map<u32, CoalesceEntry>) -> bool {
    &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> m[k].grid_entry.id == k && of_match(m[k], all, s, kid, n)
    &&& srt ==> forall|j: int| 0 <= j < n ==> m.dom().contains(idm(#[trigger] all[j])) && serves(m[idm(all[j])], all[j], s.weight)
    &&& srt ==> forall|k: u32| #[trigger] m.dom().contains(k) ==> all.len() > 0 && !far(rel(all[0], s.weight), val(m[k].grid_entry.relev))
}
/// nothing is left, or only matches far less relevant than the best, or more than 80 have been seen
spec fn enough(all: Seq<MatchEntry>, w: f64, n: int) -> bool {
    n == all.len() || n > 80 || forall|j: int| n <= j < all.len() ==> far(rel(all[0], w), rel(#[trigger] all[j], w))
}
spec fn stopped<T: HasStore>(all: Seq<MatchEntry>, s: Pm<T>, kid: u32, srt: bool, n: int, m: Map<u32, CoalesceEntry>) -> bool {
    0 <= n <= all.len() && kept_of(all, s, kid, srt, n, m) && (srt ==> enough(all, s.weight, n))
}
spec fn readable(all: Seq<MatchEntry>, srt: bool) -> bool {
    &&& all.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < all.len() ==> sane(#[trigger] all[i]) && plausible(read(all[i]))
    &&& srt ==> best_first(all)
}
/// one result per feature, each a match of the subquery
spec fn one_each<T: HasStore>(cs: Seq<CoalesceContext>, all: Seq<MatchEntry>, s: Pm<T>, kid: u32) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> lone(#[trigger] cs[i], cs[i].entries@[0]) && of_match(cs[i].entries@[0], all, s, kid, all.len() as int)
    &&& forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).entries@[0].grid_entry.id != (#[trigger] cs[j]).entries@[0].grid_entry.id
}
spec fn close_to(c: CoalesceContext, all: Seq<MatchEntry>, w: f64) -> bool { all.len() > 0 && !far(rel(all[0], w), val(c.relev)) }
spec fn none_far(cs: Seq<CoalesceContext>, all: Seq<MatchEntry>, w: f64) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> close_to(#[trigger] cs[i], all, w)
}
spec fn served(cs: Seq<CoalesceContext>, m: MatchEntry, w: f64) -> bool {
    exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).entries@[0].grid_entry.id == idm(m) && serves(cs[i].entries@[0], m, w)
}
/// every feature that is not far less relevant than the best has its result, at its best
spec fn complete(cs: Seq<CoalesceContext>, all: Seq<MatchEntry>, w: f64) -> bool {
    exists|n: int| 0 <= n <= all.len() && #[trigger] enough(all, w, n) && forall|j: int| 0 <= j < n ==> served(cs, #[trigger] all[j], w)
}
spec fn ctx_ok(c: CoalesceContext) -> bool { c.entries@.len() > 0 && fin(c.relev) && fin(c.entries@[0].scoredist) }
/// best first: more relevant, or as relevant and of no lesser distance score
spec fn ranked(a: CoalesceContext, b: CoalesceContext) -> bool {
    val(a.relev) > val(b.relev) || val(a.relev) == val(b.relev) && val(a.entries@[0].scoredist) >= val(b.entries@[0].scoredist)
}
spec fn descending(cs: Seq<CoalesceContext>) -> bool { forall|i: int, j: int| 0 <= i <= j < cs.len() ==> ranked(#[trigger] cs[i], #[trigger] cs[j]) }
/// the match's feature is there, at its best, or 40 are that are no worse
spec fn placed(cs: Seq<CoalesceContext>, m: MatchEntry, w: f64) -> bool {
    served(cs, m, w) || cs.len() == 40 && forall|i: int| 0 <= i < cs.len() ==> serves((#[trigger] cs[i]).entries@[0], m, w)
}
spec fn best_of<T: HasStore>(cs: Seq<CoalesceContext>, all: Seq<MatchEntry>, s: Pm<T>, o: MatchOpts) -> bool {
    &&& answers(all, s.store.gs(), s.match_keys@[0].key, o, 80)
    &&& one_each(cs, all, s, 0)
    &&& o.proximity is None ==> none_far(cs, all, s.weight) && exists|n: int| 0 <= n <= all.len() && #[trigger] enough(all, s.weight, n) && forall|j: int| 0 <= j < n ==> placed(cs, #[trigger] all[j], s.weight)
}
/// the best of what the lookup answers, at most 40, best first
spec fn single<T: HasStore>(cs: Seq<CoalesceContext>, s: Pm<T>, o: MatchOpts) -> bool {
    &&& cs.len() <= 40
    &&& descending(cs)
    &&& exists|all: Seq<MatchEntry>| #[trigger] best_of(cs, all, s, o)
}
// ---- on the way there --------------------------------------------------------------------------------------------------------------
spec fn was_last<T: HasStore>(all: Seq<MatchEntry>, s: Pm<T>, n: int, p: u32, relev: f64, sd: f64) -> bool {
    exists|j: int| 0 <= j < n && idm(#[trigger] all[j]) == p && val(relev) == rel(all[j], s.weight) && val(sd) == val(all[j].scoredist)
}
spec fn state<T: HasStore>(all: Seq<MatchEntry>, s: Pm<T>, kid: u32, srt: bool, n: int, m: Map<u32, CoalesceEntry>, max: f64, pid: Option<u32>, prel: f64, psd: f64, least: f64, count: int) -> bool {
    &&& readable(all, srt) && weight_ok(s.weight)
    &&& 0 <= n <= all.len()
    &&& kept_of(all, s, kid, srt, n, m)
    &&& fin(max) && fin(prel) && fin(psd) && fin(least)
    &&& 0real <= val(max) <= 1000001real
    &&& srt ==> val(max) == (if n > 0 { rel(all[0], s.weight) } else { 0real })
    &&& pid matches Some(p) ==> was_last(all, s, n, p, prel, psd)
    &&& 0 <= count <= n
    &&& srt ==> count <= 80
}
spec fn put(m: Map<u32, CoalesceEntry>, e: CoalesceEntry) -> Map<u32, CoalesceEntry> {
    let k = e.grid_entry.id;
    if m.dom().contains(k) && !(val(e.scoredist) > val(m[k].scoredist) && val(e.grid_entry.relev) >= val(m[k].grid_entry.relev)) { m } else { m.insert(k, e) }
}
/// what the next match is compared with
proof fn ahead_of<T: HasStore>(all: Seq<MatchEntry>, s: Pm<T>, kid: u32, srt: bool, n: int, m: Map<u32, CoalesceEntry>, max: f64, pid: Option<u32>, prel: f64, psd: f64, least: f64, count: int)
    requires state(all, s, kid, srt, n, m, max, pid, prel, psd, least, count), n < all.len(),
    ensures
        0real <= rel(all[n], s.weight) <= 1000001real, small(val(max) - rel(all[n], s.weight)),
        // kept, skipped or in the place of a lesser one
        forall|e: CoalesceEntry, m2: Map<u32, CoalesceEntry>| #[trigger] entry_of(e, all[n], s, kid) && m2 == put(m, e) && (srt && n > 0 ==> !far(rel(all[0], s.weight), rel(all[n], s.weight)))
            ==> #[trigger] kept_of(all, s, kid, srt, n + 1, m2),
        pid == Some(idm(all[n])) && val(all[n].scoredist) <= val(psd) ==> n > 0 && kept_of(all, s, kid, srt, n + 1, m),
        forall|e: CoalesceEntry| #[trigger] entry_of(e, all[n], s, kid) ==> was_last(all, s, n + 1, idm(all[n]), e.grid_entry.relev, e.scoredist),
        pid matches Some(p) ==> was_last(all, s, n + 1, p, prel, psd),
        !srt ==> kept_of(all, s, kid, srt, n + 1, m),
        srt ==> {
            &&& forall|j: int| 0 <= j < n ==> rel(#[trigger] all[j], s.weight) >= rel(all[n], s.weight)
            &&& forall|j: int| n <= j < all.len() ==> rel(#[trigger] all[j], s.weight) <= rel(all[n], s.weight)
            &&& n > 0 ==> forall|j: int| n <= j < all.len() ==> (far(val(max), rel(all[n], s.weight)) ==> far(val(max), rel(#[trigger] all[j], s.weight)))
            &&& !far(0real, rel(all[n], s.weight)) && !far(rel(all[n], s.weight), rel(all[n], s.weight))
        },
{
    assert(sane(all[n]));
    weighing(all[n], s.weight);
    if srt {
        assert forall|i: int, j: int| 0 <= i <= j < all.len() implies rel(#[trigger] all[i], s.weight) >= rel(#[trigger] all[j], s.weight) by {
            assert(ahead(all[i], all[j]));
            let (a, b, w) = (val(all[i].grid_entry.relev), val(all[j].grid_entry.relev), val(s.weight));
            assert(a * w >= b * w) by (nonlinear_arith) requires a >= b, w >= 0real;
            fl_monotone(b * w, a * w);
        }
        assert forall|j: int| n <= j < all.len() && n > 0 && far(val(max), rel(all[n], s.weight)) implies far(val(max), rel(#[trigger] all[j], s.weight)) by {
            fl_monotone(val(max) - rel(all[n], s.weight), val(max) - rel(all[j], s.weight));
        }
        assert forall|k: u32| #[trigger] m.dom().contains(k) implies val(m[k].grid_entry.relev) >= rel(all[n], s.weight) by {
            assert(of_match(m[k], all, s, kid, n));
            let j = choose|j: int| 0 <= j < n && #[trigger] entry_of(m[k], all[j], s, kid);
            assert(rel(all[j], s.weight) >= rel(all[n], s.weight));
        }
        fl_int(0);
        fl_monotone(0real - rel(all[n], s.weight), 0real);
        assert(0int as real == 0real);
    }
}
proof fn same_keys<V>(a: Seq<u32>, b: Seq<u32>, m: Map<u32, V>)
    requires lists_keys(a, m), a.to_multiset() == b.to_multiset(),
    ensures lists_keys(b, m),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    ms_has(a); ms_has(b);
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: u32| a.contains(k) <==> b.contains(k) by { assert(a.to_multiset().count(k) > 0 <==> a.contains(k)); assert(b.to_multiset().count(k) > 0 <==> b.contains(k)); }
    assert forall|i: int| 0 <= i < b.len() implies m.dom().contains(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(a.contains(b[i])); }
    assert forall|k: u32| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == k by {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == k;
        assert(a.contains(k)); assert(b.contains(k));
    }
}
proof fn ones<T: HasStore>(cs: Seq<CoalesceContext>, ks: Seq<u32>, m: Map<u32, CoalesceEntry>, all: Seq<MatchEntry>, s: Pm<T>, kid: u32, srt: bool, n: int)
    requires
        stopped(all, s, kid, srt, n, m), lists_keys(ks, m), cs.len() == ks.len(), forall|i: int| 0 <= i < cs.len() ==> lone(#[trigger] cs[i], m[ks[i]]),
    ensures one_each(cs, all, s, kid), srt ==> none_far(cs, all, s.weight) && complete(cs, all, s.weight),
{
    assert forall|i: int| 0 <= i < cs.len() implies lone(#[trigger] cs[i], cs[i].entries@[0]) && of_match(cs[i].entries@[0], all, s, kid, all.len() as int) && cs[i].entries@[0] == m[ks[i]] && m.dom().contains(ks[i]) by {
        assert(m.dom().contains(ks[i]));
        assert(of_match(m[ks[i]], all, s, kid, n));
        let j = choose|j: int| 0 <= j < n && #[trigger] entry_of(m[ks[i]], all[j], s, kid);
        assert(entry_of(m[ks[i]], all[j], s, kid));
    }
    if srt {
        assert forall|j: int| 0 <= j < n implies served(cs, #[trigger] all[j], s.weight) by {
            assert(m.dom().contains(idm(all[j])));
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == idm(all[j]);
            assert(lone(cs[i], m[ks[i]]));
        }
        assert(enough(all, s.weight, n));
    }
}
proof fn walked<V>(ks: Seq<u32>, ls: Seq<(u32, V)>, m: Map<u32, V>)
    requires lists(ls, m), ks.len() <= ls.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == ls[i].0,
    ensures ks.len() == ls.len() ==> lists_keys(ks, m),
{
    if ks.len() == ls.len() {
        assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by { assert(ls[i].0 != ls[j].0); }
        assert forall|k: u32| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k by {
            let i = choose|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).0 == k;
            assert(ks[i] == k);
        }
    }
}
/// when the search has stopped, `ones` holds of its results
proof fn each_one<T: HasStore>(cs: Seq<CoalesceContext>, ks: Seq<u32>, m: Map<u32, CoalesceEntry>, all: Seq<MatchEntry>, s: Pm<T>, kid: u32, srt: bool)
    requires lists_keys(ks, m), cs.len() == ks.len(), forall|i: int| 0 <= i < cs.len() ==> lone(#[trigger] cs[i], m[ks[i]]),
    ensures forall|n: int| #[trigger] stopped(all, s, kid, srt, n, m) ==> one_each(cs, all, s, kid) && (srt ==> none_far(cs, all, s.weight) && complete(cs, all, s.weight)),
{
    assert forall|n: int| #[trigger] stopped(all, s, kid, srt, n, m) implies one_each(cs, all, s, kid) && (srt ==> none_far(cs, all, s.weight) && complete(cs, all, s.weight)) by {
        ones(cs, ks, m, all, s, kid, srt, n);
    }
}
/// each result can be ranked
proof fn rankable<T: HasStore>(c0: Seq<CoalesceContext>, c1: Seq<CoalesceContext>, all: Seq<MatchEntry>, s: Pm<T>, srt: bool)
    requires one_each(c0, all, s, 0), readable(all, srt), c0.to_multiset() == c1.to_multiset(),
    ensures
        forall|i: int| 0 <= i < c1.len() ==> ctx_ok(#[trigger] c1[i]),
        one_each(c1, all, s, 0),
{
    moved(c0, c1);
    assert(c0.no_duplicates());
    assert forall|i: int| 0 <= i < c1.len() implies ctx_ok(#[trigger] c1[i]) && lone(c1[i], c1[i].entries@[0]) && of_match(c1[i].entries@[0], all, s, 0, all.len() as int) by {
        let p = choose|p: int| 0 <= p < c0.len() && c0[p] == c1[i];
        assert(lone(c0[p], c0[p].entries@[0]));
        let e = c0[p].entries@[0];
        let j = choose|j: int| 0 <= j < all.len() && #[trigger] entry_of(e, all[j], s, 0);
        assert(sane(all[j]));
    }
    assert forall|i: int, j: int| 0 <= i < j < c1.len() implies (#[trigger] c1[i]).entries@[0].grid_entry.id != (#[trigger] c1[j]).entries@[0].grid_entry.id by {
        let p = choose|p: int| 0 <= p < c0.len() && c0[p] == c1[i];
        let q = choose|q: int| 0 <= q < c0.len() && c0[q] == c1[j];
        assert(c1[i] != c1[j]);
        if p < q { assert(c0[p].entries@[0].grid_entry.id != c0[q].entries@[0].grid_entry.id); } else { assert(c0[q].entries@[0].grid_entry.id != c0[p].entries@[0].grid_entry.id); }
    }
}
proof fn still_near(c0: Seq<CoalesceContext>, cs: Seq<CoalesceContext>, all: Seq<MatchEntry>, w: f64)
    requires none_far(c0, all, w), forall|i: int| 0 <= i < cs.len() ==> c0.contains(#[trigger] cs[i]),
    ensures none_far(cs, all, w),
{
    assert forall|i: int| 0 <= i < cs.len() implies close_to(#[trigger] cs[i], all, w) by {
        let p = choose|p: int| 0 <= p < c0.len() && c0[p] == cs[i];
        assert(close_to(c0[p], all, w));
    }
}
/// the 40 best of them
proof fn best_40<T: HasStore>(c0: Seq<CoalesceContext>, c1: Seq<CoalesceContext>, cs: Seq<CoalesceContext>, all: Seq<MatchEntry>, s: Pm<T>, o: MatchOpts)
    requires
        answers(all, s.store.gs(), s.match_keys@[0].key, o, 80), readable(all, o.proximity is None),
        one_each(c0, all, s, 0), o.proximity is None ==> none_far(c0, all, s.weight) && complete(c0, all, s.weight),
        c0.to_multiset() == c1.to_multiset(), descending(c1), cs =~= c1.take(if c1.len() > 40 { 40 } else { c1.len() as int }),
    ensures single(cs, s, o),
{
    moved(c0, c1);
    rankable(c0, c1, all, s, o.proximity is None);
    assert forall|i: int| 0 <= i < cs.len() implies cs[i] == c1[i] by {}
    assert forall|i: int, j: int| 0 <= i < j < cs.len() implies (#[trigger] cs[i]).entries@[0].grid_entry.id != (#[trigger] cs[j]).entries@[0].grid_entry.id by { assert(c1[i].entries@[0].grid_entry.id != c1[j].entries@[0].grid_entry.id); }
    assert(one_each(cs, all, s, 0));
    assert(descending(cs)) by {
        assert forall|i: int, j: int| 0 <= i <= j < cs.len() implies ranked(#[trigger] cs[i], #[trigger] cs[j]) by { assert(ranked(c1[i], c1[j])); }
    }
    if o.proximity is None {
        let w = s.weight;
        let n = choose|n: int| 0 <= n <= all.len() && #[trigger] enough(all, w, n) && forall|j: int| 0 <= j < n ==> served(c0, #[trigger] all[j], w);
        assert forall|j: int| 0 <= j < n implies placed(cs, #[trigger] all[j], w) by {
            assert(served(c0, all[j], w));
            let i = choose|i: int| 0 <= i < c0.len() && (#[trigger] c0[i]).entries@[0].grid_entry.id == idm(all[j]) && serves(c0[i].entries@[0], all[j], w);
            assert(c1.contains(c0[i]));
            let p = choose|p: int| 0 <= p < c1.len() && c1[p] == c0[i];
            if p < cs.len() {
                assert(cs[p] == c0[i]);
            } else {
                assert forall|q: int| 0 <= q < cs.len() implies serves((#[trigger] cs[q]).entries@[0], all[j], w) by {
                    assert(ranked(c1[q], c1[p]));
                    assert(lone(c1[q], c1[q].entries@[0]) && lone(c1[p], c1[p].entries@[0]));
                }
            }
        }
        still_near(c0, cs, all, w);
        assert(0 <= n <= all.len() && enough(all, w, n));
    }
    assert(best_of(cs, all, s, o));
}
spec fn lists_keys<V>(ks: Seq<u32>, m: Map<u32, V>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i])
    &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k
}
== floats coalesce_literals
== text
proof fn quarter()
    ensures fin(0.25f64), val(0.25f64) == 0.25real, fin(0.0f64), val(0.0f64) == 0real,
{
    coalesce_literals();
    fl_dyadic(1, 4); fl_int(0);
    assert(1int as real / 4int as real == 0.25real);
    assert(0int as real == 0real);
}
== source coalesce.rs
== take fn tree_coalesce_single
== fn tree_coalesce_single
-- ret r
requires
    match_opts.zoom == subquery.store.gs().zoom, sub_ok(*subquery), readable(grids.seq(), match_opts.proximity is None),
ensures
    r matches Ok(it) ==> one_each(it.seq(), grids.seq(), *subquery, phrasematch_id)
        && (match_opts.proximity is None ==> none_far(it.seq(), grids.seq(), subquery.weight) && complete(it.seq(), grids.seq(), subquery.weight)),
-- start
let ghost kid = phrasematch_id;
proof { zero_real(); }
-- before let mut \w+: Vec
let ghost m1 = coalesced@;
-- before \w+\.sort_?\(
let ghost ids0 = ids@;
-- before Ok\(\w+\)
proof {
    let cs = contexts.seq();
    assert forall|n: int| lists_keys(ids0, m1) && #[trigger] stopped(all, *subquery, kid, srt, n, m1) implies one_each(cs, all, *subquery, kid) && (srt ==> none_far(cs, all, subquery.weight) && complete(cs, all, subquery.weight)) by {
        ones(cs, ks, m1, all, *subquery, kid, srt, n);
    }
}
== subst
kid == phrasematch_id,
=>
kid == 0,
== take fn coalesce_single
== fn coalesce_single
-- ret r
requires
    match_opts.zoom == subquery.store.gs().zoom, sub_ok(*subquery), subquery.match_keys@.len() > 0, ready(subquery.store.gs(), *match_opts),
ensures
    r matches Ok(cs) ==> single(cs@, *subquery, *match_opts),
-- start
let ghost kid = 0u32;
proof { zero_real(); }
let ghost mut ks: Seq<u32> = Seq::empty();
-- before Ok\(\w+\)
proof {
    if one_each(c0, all, *subquery, 0) && c0.to_multiset() == c1.to_multiset() && descending(c1) && contexts@ =~= c1.take(if c1.len() > 40 { 40 } else { c1.len() as int }) { best_40(c0, c1, contexts@, all, *subquery, *match_opts); }
}
