# C15, C16: the tree of stacks
== import arena
== source stackable.rs
== subst
T: Borrow<GridStore> + Clone + Debug
=>
T: HasStore
== subst
OrderedFloat<f64>
=>
OrderedFloat
== subst-re
\*((?:\w+)\.(?:min_relev|max_relev|max_relev_after_this))\b
=>
\1.0
== subst-re
&(\w+\.mask)\b
=>
\1
== subst-re
\b(\w+) \+= (\*?[\w.]+);
=>
\1 = \1 + \2;
== subst-re
\blet (\w+) = ([\w.]+ \+ [\w.]+);
=>
let \1: f64 = \2;
== subst-re!
arena: &mut ArenaManager<'a, T>,
=>
arena: &mut ArenaManager<'a, T>, cap: Ghost<bool>
== subst-re!
(?<!mut )\barena,(\s*)\)
=>
arena, cap\1)
== subst-re!
\barena\.add\((\w+)\)
=>
add_child(arena, \1, Ghost(bins), Ghost(a1), cap, Ghost(next(bins, st, c)), Ghost(st_bm.union(cand(bins, c).non_overlapping_indexes@)), Ghost(cand(bins, c).store.gs().zoom), Ghost(Some(bins[c.0].phrasematches@[c.1])))
== block!
for \((\w+), (\w+)\) in\s*(\w+)\.iter\(\)\.enumerate\(\)\.skip\(([^()]*)\)\s*\{
=>
proof { broadcast use {fl_add, fl_specs, fl_cmp}; part_start(bins, *arena, cap@, node, st, st_bm, zoom, current_phrasematch); }
    let mut ti: usize = \4;
    while ti < \3.len()
        invariant
            bins == \3@, bins_ok(bins), cap@ ==> bins_exact(bins) && exact_relev(st.relev, st.start), relev_ok(st.relev, st.start),
            st == (St { mask, idx, relev: relev_so_far, start: start_type_idx as int }),
            start_type_idx <= ti <= bins.len(),
            arena.inv(),
            part(bins, *old(arena), *arena, cap@, node, st, st_bm, zoom, current_phrasematch, cs, ti as int, 0),
        decreases \3.len() - ti,
    {
        let \1 = ti;
        let \2 = &\3[ti];
        BODY
        proof { if part(bins, *old(arena), *arena, cap@, node, st, st_bm, zoom, current_phrasematch, cs, ti as int, bins[ti as int].phrasematches@.len() as int) { part_row(bins, *old(arena), *arena, cap@, node, st, st_bm, zoom, current_phrasematch, cs, ti as int); } }
        ti += 1;
    }
    proof { if part(bins, *old(arena), *arena, cap@, node, st, st_bm, zoom, current_phrasematch, cs, bins.len() as int, 0) { part_end(bins, *old(arena), *arena, cap@, node, st, st_bm, zoom, current_phrasematch, cs); } }
== block!
for (\w+) in (\w+)\.phrasematches\.iter\(\)\s*\{
=>
let mut pi: usize = 0;
        while pi < \2.phrasematches.len()
            invariant
                ti < bins.len(), type_idx == ti, *\2 == bins[ti as int],
                bins == binned_phrasematches@, bins_ok(bins), cap@ ==> bins_exact(bins) && exact_relev(st.relev, st.start), relev_ok(st.relev, st.start),
                st == (St { mask, idx, relev: relev_so_far, start: start_type_idx as int }),
                start_type_idx <= ti,
                arena.inv(),
                pi <= \2.phrasematches@.len(),
                part(bins, *old(arena), *arena, cap@, node, st, st_bm, zoom, current_phrasematch, cs, ti as int, pi as int),
            decreases \2.phrasematches.len() - pi,
        {
            let ghost c = (ti as int, pi as int);
            let ghost a1 = *arena;
            let ghost n1 = node;
            let \1 = &\2.phrasematches[pi];
            pi += 1;
            broadcast use {fl_add, fl_specs, fl_cmp};
            assert(forall|a: u32, b: u32| #[trigger] (a | b) == b | a) by (bit_vector);
            proof { part_skip(bins, *old(arena), a1, cap@, n1, st, st_bm, zoom, current_phrasematch, cs, c); }
            BODY
            proof {
                if node.children@.len() > n1.children@.len() {
                    if added(bins, a1, *arena, cap@, n1, node, st, st_bm, c) { part_add(bins, *old(arena), a1, *arena, cap@, n1, node, st, st_bm, zoom, current_phrasematch, cs, c); }
                    cs = cs.push(c);
                }
            }
        }
== subst-re
\w+\.phrasematches\.sort(?:_unstable)?_by_key\(\|\w+\| [^|;]*\);
=>
v.phrasematches = reordered(v.phrasematches);
== inline!
let mut (\w+)(?:: [^=;]*)? =\s*(\w+)\s*\.into_iter\(\)\s*\.map\(\|\((\w+), mut (\w+)\)\| \{
=>
let ghost m_all = \2@;
    let mut left = \2.into_sorted();
    let ghost all = left@;
    let mut \1: Vec<PhrasematchBin<'a, T>> = {
        let mut out: Vec<PhrasematchBin<'a, T>> = Vec::new();
        while left.len() > 0
            invariant
                listing(all, m_all), forall|ty: u16| #[trigger] m_all.dom().contains(ty) ==> bin_of(ps, ps.len() as int, ty, m_all[ty]),
                all == unread(out@.len() as int, all, left@), out@.len() + left@.len() == all.len(),
                forall|t: int| 0 <= t < out@.len() ==> shuffled(all[t].1, #[trigger] out@[t]),
            decreases left.len(),
        {
            let ghost t = out@.len() as int;
            let (\3, mut \4) = left.remove(0);
            let w = BODY;
            out.push(w);
        }
        Done(out)
    }
== subst-re!
&mut arena,(\s*)\)
=>
&mut arena, Ghost(cap)\1)
== block!
let mut (\w+) = 0\.0;\s*for (\w+) in (\w+)\.iter_mut\(\)\.rev\(\)\s*\{
=>
let mut \1: f64 = 0.0;
    let ghost bins0 = \3@;
    let ghost ts = bin_types(all, bins0);
    let mut ri = \3.len();
    proof {
        if listing(all, m_all) && bins0.len() == all.len() && (forall|t: int| 0 <= t < all.len() ==> shuffled(all[t].1, #[trigger] bins0[t])) && (forall|ty: u16| #[trigger] m_all.dom().contains(ty) ==> bin_of(ps, ps.len() as int, ty, m_all[ty])) { all_fine(ps, all, m_all, bins0); }
        stack_literals();
        fl_int(0);
        assert(parts(\1, 0));
    }
    while ri > 0
        invariant
            ri <= \3@.len(), \3@.len() <= 65536,
            bins0.len() == \3@.len(),
            forall|t: int| 0 <= t < bins0.len() ==> same_bin(bins0[t], #[trigger] \3@[t]),
            forall|t: int| 0 <= t < bins0.len() ==> best_of(#[trigger] bins0[t], exact(ps)),
            relev_ok(\1, bins0.len() - ri),
            exact(ps) ==> exact_relev(\1, bins0.len() - ri) && val(\1) == rest(bins0, ri as int),
            exact(ps) ==> forall|t: int| ri <= t < bins0.len() ==> exact_relev((#[trigger] \3@[t]).max_relev_after_this.0, bins0.len() - t - 1) && val(\3@[t].max_relev_after_this.0) == rest(bins0, t + 1),
        decreases ri,
    {
        ri -= 1;
        broadcast use {fl_add, fl_specs, fl_cmp};
        proof {
            assert(same_bin(bins0[ri as int], \3@[ri as int]));
            assert(best_of(bins0[ri as int], exact(ps)));
            fl_sum(\1, bins0[ri as int].max_relev.0, bins0.len() - ri - 1);
            fl_add(\1, bins0[ri as int].max_relev.0);
            if exact(ps) { fl_exact_sum(\1, bins0[ri as int].max_relev.0, bins0.len() - ri - 1, 1); }
        }
        let \2 = &mut \3[ri];
        BODY
    }
    let ghost bins = \3@;
    let ghost cap = count(bins, start(), 0, 0) > 2000;
    let ghost arena0 = arena;
    proof {
        if (forall|t: int| 0 <= t < bins0.len() ==> same_bin(bins0[t], #[trigger] bins[t])) && bins0.len() == bins.len() && bins.len() <= 65536
            && (forall|t: int| 0 <= t < bins0.len() ==> best_of(#[trigger] bins0[t], exact(ps)))
            && (exact(ps) ==> forall|t: int| 0 <= t < bins0.len() ==> exact_relev((#[trigger] bins[t]).max_relev_after_this.0, bins0.len() - t - 1) && val(bins[t].max_relev_after_this.0) == rest(bins0, t + 1)) {
            bins_fine(ps, bins0, bins);
        }
        assert(binned(ps, ts, bins0) ==> binned(ps, ts, bins));
        assert(exact_relev(0.0, 0)) by { stack_literals(); assert(parts(0.0, 0)); }
        assert forall|b: ArenaManager<'a, T>, n: StackableNode<'a, T>| b.inv() && #[trigger] searched(bins, arena0, b, cap, n, start(), Set::empty(), 0, None) implies stacked(bins, StackableTree { root: n, arena: b }) by {
            if arena0.inv() && arena0.nodes() == Map::<ArenaIndex, StackableNode<'a, T>>::empty() && arena0.arena.issued() == Set::<ArenaIndex>::empty() && arena0.total_leaves == 0 && arena0.soft_max == 2000 { whole(bins, arena0, b, cap, n); }
        }
    }
== floats stack_literals
== take struct PhrasematchBin
== take struct StackableTree
== text
pub struct Done<V>(Vec<V>);
impl<V> Done<V> {
    fn collect(self) -> (r: Vec<V>) ensures r == self.0 { self.0 }
}
/// std's sorting: the same elements; the order within a bin is not looked at
#[verifier::external_body]
fn reordered<V>(v: Vec<V>) -> (r: Vec<V>)
    ensures r@.to_multiset() == v@.to_multiset()
{ unimplemented!() }
// ---- assumed: BTreeMap of std -----------------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { t: Vec<(K, V)> }
impl<V> BTreeMap<u16, V> {
    pub uninterp spec fn view(&self) -> Map<u16, V>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Map::<u16, V>::empty()
    { unimplemented!() }
    fn entry(&mut self, k: u16) -> (r: BtSlot<'_, V>)
        ensures r.k == k, *r.m == *old(self), *final(r.m) == *final(self),
    { BtSlot { m: self, k } }
    #[verifier::external_body]
    fn into_sorted(self) -> (r: Vec<(u16, V)>)
        ensures listing(r@, self@)
    { unimplemented!() }
}
struct BtSlot<'a, V> { m: &'a mut BTreeMap<u16, V>, k: u16 }
impl<'a, V> BtSlot<'a, V> {
    #[verifier::external_body]
    fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self.m)@.dom().contains(self.k) { old(self.m)@[self.k] } else { v }), final(self.m)@ == old(self.m)@.insert(self.k, *final(r)),
    { unimplemented!() }
}
/// the entries of the map by ascending key
spec fn listing<V>(s: Seq<(u16, V)>, m: Map<u16, V>) -> bool {
    &&& s.len() <= 65536
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: u16| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
spec fn unread<V>(n: int, all: Seq<(u16, V)>, left: Seq<(u16, V)>) -> Seq<(u16, V)> { all.take(n) + left }
// ---- the bins ------------------------------------------------------------------------------------------------------------------------
/// the first n subqueries of one type
spec fn of_type<'a, T: HasStore>(ps: Seq<Pm<T>>, n: int, ty: u16) -> Seq<&'a Pm<T>>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if ps[n - 1].store.gs().type_id == ty { of_type::<T>(ps, n - 1, ty).push(&ps[n - 1]) } else { of_type(ps, n - 1, ty) }
}
spec fn exact<T: HasStore>(ps: Seq<Pm<T>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> exact_relev((#[trigger] ps[i]).weight, 1) }
spec fn bin_of<'a, T: HasStore>(ps: Seq<Pm<T>>, n: int, ty: u16, b: PhrasematchBin<'a, T>) -> bool {
    &&& b.phrasematches@ == of_type(ps, n, ty)
    &&& best_of(b, exact(ps))
}
/// every weight is fine and the greatest is known
spec fn best_of<'a, T: HasStore>(b: PhrasematchBin<'a, T>, ex: bool) -> bool {
    &&& weight_ok(b.max_relev.0) && (ex ==> exact_relev(b.max_relev.0, 1))
    &&& forall|p: &'a Pm<T>| #[trigger] b.phrasematches@.contains(p) ==> weight_ok(p.weight) && val(p.weight) <= val(b.max_relev.0) && (ex ==> exact_relev(p.weight, 1))
}
spec fn shuffled<'a, T: HasStore>(b: PhrasematchBin<'a, T>, c: PhrasematchBin<'a, T>) -> bool { c.phrasematches@.to_multiset() == b.phrasematches@.to_multiset() && c.max_relev == b.max_relev }
spec fn same_bin<'a, T: HasStore>(b: PhrasematchBin<'a, T>, c: PhrasematchBin<'a, T>) -> bool { c.phrasematches == b.phrasematches && c.max_relev == b.max_relev }
/// one bin per type, ascending, with the subqueries of that type in some order
spec fn binned<'a, T: HasStore>(ps: Seq<Pm<T>>, ts: Seq<u16>, bins: Seq<PhrasematchBin<'a, T>>) -> bool {
    &&& ts.len() == bins.len()
    &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> #[trigger] ts[i] < #[trigger] ts[j]
    &&& forall|t: int| 0 <= t < ts.len() ==> (#[trigger] bins[t]).phrasematches@.to_multiset() == of_type::<T>(ps, ps.len() as int, ts[t]).to_multiset()
    &&& forall|i: int| 0 <= i < ps.len() ==> ts.contains((#[trigger] ps[i]).store.gs().type_id)
}
spec fn start() -> St { St { mask: 0, idx: 129, relev: 0.0, start: 0 } }
type Pm<T> = PhrasematchSubquery<T>;
// ---- possible stacks -----------------------------------------------------------------------------------------------------------
ghost struct St { mask: u32, idx: u16, relev: f64, start: int }
spec fn has_cand<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, c: (int, int)) -> bool { 0 <= c.0 < bins.len() && 0 <= c.1 < bins[c.0].phrasematches@.len() }
spec fn cand<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, c: (int, int)) -> Pm<T> { *bins[c.0].phrasematches@[c.1] }
/// the subquery can come next: a later type, disjoint masks, and it does not exclude the index right before it
spec fn may<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, c: (int, int)) -> bool {
    has_cand(bins, c) && c.0 >= st.start && st.mask & cand(bins, c).mask == 0 && !cand(bins, c).non_overlapping_indexes@.contains(st.idx as nat)
}
spec fn next<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, c: (int, int)) -> St {
    St { mask: cand(bins, c).mask | st.mask, idx: cand(bins, c).idx, relev: plus(st.relev, cand(bins, c).weight), start: c.0 + 1 }
}
spec fn possible<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, path: Seq<(int, int)>) -> bool
    decreases path.len(),
{
    path.len() == 0 || may(bins, st, path[0]) && possible(bins, next(bins, st, path[0]), path.drop_first())
}
/// the weights added up
spec fn weight<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, path: Seq<(int, int)>) -> f64
    decreases path.len(),
{
    if path.len() == 0 { st.relev } else { weight(bins, next(bins, st, path[0]), path.drop_first()) }
}
spec fn bounded<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, x: real) -> bool { forall|path: Seq<(int, int)>| #[trigger] possible(bins, st, path) ==> val(weight(bins, st, path)) <= x }
spec fn below<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, x: real) -> bool { forall|path: Seq<(int, int)>| #[trigger] possible(bins, st, path) ==> val(weight(bins, st, path)) < x }
spec fn reached<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, x: real) -> bool { exists|path: Seq<(int, int)>| #[trigger] possible(bins, st, path) && val(weight(bins, st, path)) == x }
spec fn one(n: nat) -> nat { if n == 0 { 1 } else { n } }
/// how many complete stacks go on with a candidate from (t, p) on
spec fn count<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, t: int, p: int) -> nat
    decreases bins.len() - t, (if 0 <= t < bins.len() { bins[t].phrasematches@.len() - p } else { 0 }),
{
    if t < 0 || t >= bins.len() || p < 0 { 0 }
    else if p >= bins[t].phrasematches@.len() { count(bins, st, t + 1, 0) }
    else { (if may(bins, st, (t, p)) { one(count(bins, next(bins, st, (t, p)), t + 1, 0)) } else { 0 }) + count(bins, st, t, p + 1) }
}
// ---- weights --------------------------------------------------------------------------------------------------------------------
spec fn fine(x: real) -> bool { x == 0real || x * 65536real >= 1real }
spec fn weight_ok(w: f64) -> bool { fin(w) && fine(val(w)) && val(w) <= 1000000real }
spec fn relev_ok(r: f64, k: int) -> bool { fin(r) && fine(val(r)) && 0 <= k <= 65536 && val(r) <= (1000000 * k) as real }
spec fn bins_ok<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>) -> bool { bins.len() <= 65536 && forall|c: (int, int)| has_cand(bins, c) ==> weight_ok((#[trigger] cand(bins, c)).weight) }
spec fn parts(w: f64, n: int) -> bool { val(w) == n as real / 65536real }
/// a multiple of 1/65536
spec fn exact_relev(w: f64, k: int) -> bool { fin(w) && exists|n: int| 0 <= n <= 65536000000 * k && #[trigger] parts(w, n) }
spec fn rest<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, t: int) -> real
    decreases bins.len() - t,
{
    if t < 0 || t >= bins.len() { 0real } else { val(bins[t].max_relev.0) + rest(bins, t + 1) }
}
/// sums of weights are exact, and the bins know the greatest weight they and the later ones could add
spec fn bins_exact<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>) -> bool {
    &&& forall|c: (int, int)| has_cand(bins, c) ==> exact_relev((#[trigger] cand(bins, c)).weight, 1) && val(cand(bins, c).weight) <= val(bins[c.0].max_relev.0)
    &&& forall|t: int| 0 <= t < bins.len() ==> exact_relev((#[trigger] bins[t]).max_relev.0, 1) && exact_relev(bins[t].max_relev_after_this.0, bins.len() - t - 1) && val(bins[t].max_relev_after_this.0) == rest(bins, t + 1)
}
spec fn plus(a: f64, b: f64) -> f64 { a.add_spec(b) }
proof fn fl_sum(r: f64, w: f64, k: int)
    requires relev_ok(r, k), weight_ok(w), k < 65536,
    ensures relev_ok(plus(r, w), k + 1), val(plus(r, w)) >= val(r), val(plus(r, w)) == rnd(val(r) + val(w)),
{
    broadcast use {fl_add, fl_exact};
    let x = val(r) + val(w);
    assert(x == 0real || x * 65536real >= 1real);
    assert(mid(x));
    fl_int(1000000 * (k + 1));
    fl_monotone(x, (1000000 * (k + 1)) as real);
    fl_monotone(val(r), x);
    fl_dyadic(1, 65536);
    fl_int(0);
    if x > 0real { fl_monotone(1real / 65536real, x); } else { assert(rnd(x) == 0real); }
}
proof fn fl_exact_sum(r: f64, w: f64, k: int, j: int)
    requires exact_relev(r, k), exact_relev(w, j), 0 <= k, 0 <= j, k + j <= 65536,
    ensures exact_relev(plus(r, w), k + j), val(plus(r, w)) == val(r) + val(w),
{
    broadcast use fl_add;
    let a = choose|n: int| 0 <= n <= 65536000000 * k && #[trigger] parts(r, n);
    let b = choose|n: int| 0 <= n <= 65536000000 * j && #[trigger] parts(w, n);
    let x = val(r) + val(w);
    assert(x == (a + b) as real / 65536real) by (nonlinear_arith)
        requires val(r) == a as real / 65536real, val(w) == b as real / 65536real, x == val(r) + val(w);
    fl_dyadic(a + b, 65536);
    assert(mid(x)) by {
        if a + b >= 1 { assert(x * 65536real >= 1real) by (nonlinear_arith) requires x == (a + b) as real / 65536real, a + b >= 1; }
        assert(x <= 4294967296000000real / 1real) by (nonlinear_arith) requires x == (a + b) as real / 65536real, 0 <= a + b <= 65536000000 * 65536;
    }
    assert(parts(plus(r, w), a + b));
}
proof fn rest_falls<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, s: int, t: int)
    requires bins_exact(bins), 0 <= s <= t <= bins.len(),
    ensures rest(bins, s) >= rest(bins, t), rest(bins, t) >= 0real,
    decreases bins.len() - s,
{
    if s < bins.len() {
        assert(exact_relev(bins[s].max_relev.0, 1));
        let n = choose|n: int| 0 <= n <= 65536000000 * 1 && #[trigger] parts(bins[s].max_relev.0, n);
        assert(val(bins[s].max_relev.0) >= 0real) by (nonlinear_arith) requires val(bins[s].max_relev.0) == n as real / 65536real, n >= 0;
        if s < t { rest_falls(bins, s + 1, t); } else { rest_falls(bins, s + 1, s + 1); }
    }
}
/// no stack weighs more than what it has and the best of each later type
proof fn under_rest<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, path: Seq<(int, int)>)
    requires bins_exact(bins), bins.len() <= 65536, possible(bins, st, path), exact_relev(st.relev, st.start), 0 <= st.start <= bins.len(),
    ensures val(weight(bins, st, path)) <= val(st.relev) + rest(bins, st.start),
    decreases path.len(),
{
    rest_falls(bins, st.start, st.start);
    if path.len() > 0 {
        let c = path[0];
        let w = cand(bins, c).weight;
        exact_more(st.relev, st.start, c.0);
        fl_exact_sum(st.relev, w, c.0, 1);
        under_rest(bins, next(bins, st, c), path.drop_first());
        rest_falls(bins, st.start, c.0);
    }
}
proof fn exact_more(w: f64, k: int, j: int)
    requires exact_relev(w, k), k <= j,
    ensures exact_relev(w, j),
{
    let n = choose|n: int| 0 <= n <= 65536000000 * k && #[trigger] parts(w, n);
    assert(parts(w, n));
}
/// what could follow (t, p) cannot reach the least kept
proof fn hopeless<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, c: (int, int), least: f64)
    requires bins_exact(bins), bins_ok(bins), exact_relev(st.relev, st.start), 0 <= st.start <= bins.len(), may(bins, st, c), fin(least),
    ensures ({
        let m = plus(next(bins, st, c).relev, bins[c.0].max_relev_after_this.0);
        fin(m) && (val(m) < val(least) ==> below(bins, next(bins, st, c), val(least)))
    }),
{
    let n = next(bins, st, c);
    exact_more(st.relev, st.start, c.0);
    fl_exact_sum(st.relev, cand(bins, c).weight, c.0, 1);
    fl_exact_sum(n.relev, bins[c.0].max_relev_after_this.0, c.0 + 1, bins.len() - c.0 - 1);
    let m = plus(n.relev, bins[c.0].max_relev_after_this.0);
    if val(m) < val(least) {
        let t = c.0;
        assert(val(bins[t].max_relev_after_this.0) == rest(bins, t + 1));
        assert forall|path: Seq<(int, int)>| #[trigger] possible(bins, n, path) implies val(weight(bins, n, path)) < val(least) by {
            under_rest(bins, n, path);
            assert(val(weight(bins, n, path)) <= val(n.relev) + rest(bins, c.0 + 1));
        }
    }
}
// ---- the tree ---------------------------------------------------------------------------------------------------------------------
spec fn earlier(c: (int, int), t: int, p: int) -> bool { c.0 < t || c.0 == t && c.1 < p }
/// the candidate has its child, or (if the arena may be full) all stacks with it are worse than all kept
spec fn settled<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, cap: bool, ch: Seq<ArenaIndex>, st: St, cs: Seq<(int, int)>, c: (int, int)) -> bool {
    ||| exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == c && a.nodes().dom().contains(ch[k])
    ||| cap && a.full() && below(bins, next(bins, st, c), a.least())
}
spec fn listed(cs: Seq<(int, int)>) -> bool { true }
/// the node stands for the stacks that go on from st: its children are for distinct candidates, and every candidate is settled
spec fn tree_ok<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>) -> bool
    decreases bins.len() - st.start, 1int,
{
    &&& n.mask == st.mask && n.idx == st.idx && n.bmask@ == bm && n.zoom == z && n.phrasematch == who
    &&& 0 <= st.start <= bins.len()
    &&& exists|cs: Seq<(int, int)>| #[trigger] listed(cs) && made(bins, a, cap, n.children@, st, bm, cs, bins.len() as int, 0)
}
spec fn made<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, cap: bool, ch: Seq<ArenaIndex>, st: St, bm: Set<nat>, cs: Seq<(int, int)>, t: int, p: int) -> bool
    decreases bins.len() - st.start, 0int,
{
    &&& cs.len() == ch.len() && cs.no_duplicates() && ch.no_duplicates()
    &&& 0 <= st.start <= bins.len()
    &&& forall|k: int| 0 <= k < cs.len() ==> {
        let c = #[trigger] cs[k];
        &&& may(bins, st, c) && earlier(c, t, p)
        &&& a.arena.issued().contains(ch[k])
        &&& a.nodes().dom().contains(ch[k]) ==> {
            let m = a.nodes()[ch[k]];
            &&& c.0 < bins.len() && c.0 >= st.start
            &&& tree_ok(bins, a, cap, m, next(bins, st, c), bm.union(cand(bins, c).non_overlapping_indexes@), cand(bins, c).store.gs().zoom, Some(bins[c.0].phrasematches@[c.1]))
            &&& bounded(bins, next(bins, st, c), relev(m)) && reached(bins, next(bins, st, c), relev(m))
        }
    }
    &&& forall|c: (int, int)| #[trigger] may(bins, st, c) && earlier(c, t, p) ==> settled(bins, a, cap, ch, st, cs, c)
}
spec fn grown<'a, T: HasStore>(a: ArenaManager<'a, T>, b: ArenaManager<'a, T>, cap: bool) -> bool {
    ArenaManager::grew(a, b) && (!cap ==> a.nodes().dom().subset_of(b.nodes().dom()))
}
proof fn grown_twice<'a, T: HasStore>(a: ArenaManager<'a, T>, b: ArenaManager<'a, T>, c: ArenaManager<'a, T>, cap: bool)
    requires a.inv(), grown(a, b, cap), grown(b, c, cap),
    ensures grown(a, c, cap),
{
    assert forall|i: ArenaIndex| #[trigger] a.arena.issued().contains(i) implies c.arena.issued().contains(i) && (c.nodes().dom().contains(i) ==> a.nodes().dom().contains(i) && c.nodes()[i] == a.nodes()[i]) by { assert(b.arena.issued().contains(i)); }
    assert forall|i: ArenaIndex| #[trigger] a.nodes().dom().contains(i) implies c.nodes().dom().contains(i) || c.full() && relev(a.nodes()[i]) < c.least() by {
        if b.nodes().dom().contains(i) { }
    }
    assert forall|r: real| #[trigger] a.holds_relev(r) implies c.holds_relev(r) || c.full() && r < c.least() by { if b.holds_relev(r) { } }
    if !cap { assert forall|i: ArenaIndex| #[trigger] a.nodes().dom().contains(i) implies c.nodes().dom().contains(i) by { assert(b.nodes().dom().contains(i)); } }
}
/// what more nodes and dropped ones do to a tree
proof fn stays<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, b: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>)
    requires a.inv(), b.inv(), grown(a, b, cap), tree_ok(bins, a, cap, n, st, bm, z, who),
    ensures tree_ok(bins, b, cap, n, st, bm, z, who),
    decreases bins.len() - st.start, 1int,
{
    let cs = choose|cs: Seq<(int, int)>| #[trigger] listed(cs) && made(bins, a, cap, n.children@, st, bm, cs, bins.len() as int, 0);
    stays_made(bins, a, b, cap, n.children@, st, bm, cs, bins.len() as int, 0);
    assert(listed(cs));
}
proof fn stays_made<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, b: ArenaManager<'a, T>, cap: bool, ch: Seq<ArenaIndex>, st: St, bm: Set<nat>, cs: Seq<(int, int)>, t: int, p: int)
    requires a.inv(), b.inv(), grown(a, b, cap), made(bins, a, cap, ch, st, bm, cs, t, p),
    ensures made(bins, b, cap, ch, st, bm, cs, t, p),
    decreases bins.len() - st.start, 0int,
{
    assert forall|k: int| 0 <= k < cs.len() implies {
        let c = #[trigger] cs[k];
        &&& may(bins, st, c) && earlier(c, t, p)
        &&& b.arena.issued().contains(ch[k])
        &&& b.nodes().dom().contains(ch[k]) ==> {
            let m = b.nodes()[ch[k]];
            &&& c.0 < bins.len() && c.0 >= st.start
            &&& tree_ok(bins, b, cap, m, next(bins, st, c), bm.union(cand(bins, c).non_overlapping_indexes@), cand(bins, c).store.gs().zoom, Some(bins[c.0].phrasematches@[c.1]))
            &&& bounded(bins, next(bins, st, c), relev(m)) && reached(bins, next(bins, st, c), relev(m))
        }
    } by {
        let c = cs[k];
        assert(a.arena.issued().contains(ch[k]));
        if b.nodes().dom().contains(ch[k]) {
            assert(a.nodes().dom().contains(ch[k]) && b.nodes()[ch[k]] == a.nodes()[ch[k]]);
            stays(bins, a, b, cap, a.nodes()[ch[k]], next(bins, st, c), bm.union(cand(bins, c).non_overlapping_indexes@), cand(bins, c).store.gs().zoom, Some(bins[c.0].phrasematches@[c.1]));
        }
    }
    assert forall|c: (int, int)| #[trigger] may(bins, st, c) && earlier(c, t, p) implies settled(bins, b, cap, ch, st, cs, c) by {
        assert(settled(bins, a, cap, ch, st, cs, c));
        if exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == c && a.nodes().dom().contains(ch[k]) {
            let k = choose|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == c && a.nodes().dom().contains(ch[k]);
            if !b.nodes().dom().contains(ch[k]) {
                assert(cap && b.full() && relev(a.nodes()[ch[k]]) < b.least());
                assert(bounded(bins, next(bins, st, c), relev(a.nodes()[ch[k]])));
                assert(below(bins, next(bins, st, c), b.least()));
            }
        } else {
            assert(below(bins, next(bins, st, c), b.least()));
        }
    }
}
/// no stack weighs more than x, unless all are worse than all kept
spec fn within<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, cap: bool, st: St, x: real) -> bool {
    bounded(bins, st, x) || cap && a.full() && below(bins, st, a.least())
}
// every kept node hangs below
spec fn chain<'a, T: HasStore>(a: ArenaManager<'a, T>, n: StackableNode<'a, T>, is: Seq<ArenaIndex>, i: ArenaIndex) -> bool {
    &&& is.len() > 0 && is.last() == i && n.children@.contains(is[0])
    &&& forall|k: int| 0 <= k < is.len() ==> a.nodes().dom().contains(#[trigger] is[k]) && relev(a.nodes()[is[k]]) >= relev(a.nodes()[i])
    &&& forall|j: int, k: int| 0 <= j && k == j + 1 && k < is.len() ==> a.nodes()[#[trigger] is[j]].children@.contains(#[trigger] is[k])
}
spec fn under<'a, T: HasStore>(a: ArenaManager<'a, T>, n: StackableNode<'a, T>, i: ArenaIndex) -> bool { relev(a.nodes()[i]) <= relev(n) && exists|is: Seq<ArenaIndex>| #[trigger] chain(a, n, is, i) }
/// the nodes that came since a0 hang below n
spec fn spread<'a, T: HasStore>(a0: ArenaManager<'a, T>, a: ArenaManager<'a, T>, n: StackableNode<'a, T>) -> bool {
    forall|i: ArenaIndex| #[trigger] a.nodes().dom().contains(i) && !a0.arena.issued().contains(i) ==> under(a, n, i)
}
proof fn chain_stays<'a, T: HasStore>(a: ArenaManager<'a, T>, b: ArenaManager<'a, T>, n: StackableNode<'a, T>, i: ArenaIndex)
    requires a.inv(), b.inv(), ArenaManager::grew(a, b), a.nodes().dom().contains(i), b.nodes().dom().contains(i), under(a, n, i),
    ensures under(b, n, i),
{
    let is = choose|is: Seq<ArenaIndex>| #[trigger] chain(a, n, is, i);
    assert(a.arena.issued().contains(i));
    assert(b.nodes()[i] == a.nodes()[i]);
    assert(b.relev_map@.dom().contains(relev(b.nodes()[i])));
    assert forall|k: int| 0 <= k < is.len() implies b.nodes().dom().contains(#[trigger] is[k]) && b.nodes()[is[k]] == a.nodes()[is[k]] by {
        assert(a.nodes().dom().contains(is[k]));
        assert(a.arena.issued().contains(is[k]));
    }
    assert forall|j: int, k: int| 0 <= j && k == j + 1 && k < is.len() implies b.nodes()[#[trigger] is[j]].children@.contains(#[trigger] is[k]) by { assert(b.nodes().dom().contains(is[j])); }
    assert(chain(b, n, is, i));
}
/// more of what a node has below it when it gets another child
proof fn spread_add<'a, T: HasStore>(a0: ArenaManager<'a, T>, a1: ArenaManager<'a, T>, a: ArenaManager<'a, T>, n1: StackableNode<'a, T>, n: StackableNode<'a, T>, c: ArenaIndex)
    requires
        a0.inv(), a1.inv(), a.inv(), ArenaManager::grew(a0, a1), ArenaManager::grew(a1, a), spread(a0, a1, n1), below_child(a1, a, c), a.nodes().dom().contains(c),
        n.children@ == n1.children@.push(c), relev(n) >= relev(n1), relev(n) >= relev(a.nodes()[c]),
    ensures spread(a0, a, n),
{
    assert(n.children@[n1.children@.len() as int] == c);
    assert forall|i: ArenaIndex| #[trigger] a.nodes().dom().contains(i) && !a0.arena.issued().contains(i) implies under(a, n, i) by {
        if a1.arena.issued().contains(i) {
            assert(a1.nodes().dom().contains(i));
            chain_stays(a1, a, n1, i);
            let is = choose|is: Seq<ArenaIndex>| #[trigger] chain(a, n1, is, i);
            let k = n1.children@.index_of(is[0]);
            assert(n.children@[k] == is[0]);
            assert(chain(a, n, is, i));
        } else if i == c {
            let is = seq![c];
            assert(chain(a, n, is, i));
        } else {
            let m = a.nodes()[c];
            let is = choose|is: Seq<ArenaIndex>| #[trigger] chain(a, m, is, i);
            let js = seq![c] + is;
            assert forall|k: int| 0 <= k < js.len() implies a.nodes().dom().contains(#[trigger] js[k]) && relev(a.nodes()[js[k]]) >= relev(a.nodes()[i]) by { if k > 0 { assert(js[k] == is[k - 1]); } }
            assert forall|j: int, k: int| 0 <= j && k == j + 1 && k < js.len() implies a.nodes()[#[trigger] js[j]].children@.contains(#[trigger] js[k]) by { assert(js[k] == is[k - 1]); if k > 1 { assert(js[j] == is[j - 1]); } }
            assert(js.last() == i);
            assert(chain(a, n, js, i));
        }
    }
}
spec fn below_child<'a, T: HasStore>(a1: ArenaManager<'a, T>, a: ArenaManager<'a, T>, c: ArenaIndex) -> bool {
    forall|i: ArenaIndex| #[trigger] a.nodes().dom().contains(i) && !a1.arena.issued().contains(i) && i != c ==> under(a, a.nodes()[c], i)
}
/// the result of the search from st
spec fn searched<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a0: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>) -> bool {
    &&& grown(a0, a, cap)
    &&& tree_ok(bins, a, cap, n, st, bm, z, who)
    &&& usable(n.max_relev)
    &&& within(bins, a, cap, st, relev(n)) && reached(bins, st, relev(n))
    &&& if is_leaf(n) { a == a0 } else { a.holds_relev(relev(n)) }
    &&& spread(a0, a, n)
    &&& !cap || !a.full() ==> a.total_leaves == a0.total_leaves + count(bins, st, st.start, 0) && (is_leaf(n) <==> count(bins, st, st.start, 0) == 0)
}
/// the search when the candidates before (t, p) have been gone through
#[verifier::opaque]
spec fn part<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a0: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>, cs: Seq<(int, int)>, t: int, p: int) -> bool {
    &&& a0.inv() && grown(a0, a, cap)
    &&& n.mask == st.mask && n.idx == st.idx && n.bmask@ == bm && n.zoom == z && n.phrasematch == who
    &&& made(bins, a, cap, n.children@, st, bm, cs, t, p)
    &&& usable(n.max_relev)
    &&& val(st.relev) <= relev(n) && reached(bins, st, relev(n)) && (is_leaf(n) ==> n.max_relev == st.relev)
    &&& forall|c: (int, int)| #[trigger] may(bins, st, c) && earlier(c, t, p) ==> within(bins, a, cap, next(bins, st, c), relev(n))
    &&& if is_leaf(n) { a == a0 } else { a.holds_relev(relev(n)) }
    &&& spread(a0, a, n)
    &&& !cap || !a.full() ==> a.total_leaves + count(bins, st, t, p) == a0.total_leaves + count(bins, st, st.start, 0) && (is_leaf(n) <==> a.total_leaves == a0.total_leaves) && a0.total_leaves <= a.total_leaves
    &&& !cap ==> a0.total_leaves + count(bins, st, st.start, 0) <= a0.soft_max
}
proof fn part_start<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>)
    requires
        a.inv(), 0 <= st.start <= bins.len(), relev_ok(st.relev, st.start),
        n.mask == st.mask && n.idx == st.idx && n.bmask@ == bm && n.zoom == z && n.phrasematch == who && n.max_relev == st.relev, n.children@.len() == 0,
        !cap ==> a.total_leaves + count(bins, st, st.start, 0) <= a.soft_max,
    ensures part(bins, a, a, cap, n, st, bm, z, who, Seq::empty(), st.start, 0),
{
    reveal(part);
    assert(possible(bins, st, Seq::empty()));
    assert(weight(bins, st, Seq::empty()) == st.relev);
    assert(usable(n.max_relev)) by { assert(1000000 * st.start <= 65536000000) by (nonlinear_arith) requires st.start <= 65536; }
}
proof fn path_one<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, st: St, c: (int, int), x: real)
    requires may(bins, st, c), reached(bins, next(bins, st, c), x),
    ensures reached(bins, st, x),
{
    let p = choose|path: Seq<(int, int)>| #[trigger] possible(bins, next(bins, st, c), path) && val(weight(bins, next(bins, st, c), path)) == x;
    let q = seq![c] + p;
    assert(q.drop_first() =~= p);
    assert(possible(bins, st, q));
}
proof fn part_row<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a0: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>, cs: Seq<(int, int)>, t: int)
    requires 0 <= t < bins.len(), part(bins, a0, a, cap, n, st, bm, z, who, cs, t, bins[t].phrasematches@.len() as int),
    ensures part(bins, a0, a, cap, n, st, bm, z, who, cs, t + 1, 0),
{
    reveal(part);
    assert(forall|c: (int, int)| #[trigger] may(bins, st, c) ==> (earlier(c, t, bins[t].phrasematches@.len() as int) <==> earlier(c, t + 1, 0)));
}
proof fn part_end<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a0: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>, cs: Seq<(int, int)>)
    requires part(bins, a0, a, cap, n, st, bm, z, who, cs, bins.len() as int, 0),
    ensures searched(bins, a0, a, cap, n, st, bm, z, who),
{
    reveal(part);
    assert(listed(cs));
    let x = relev(n);
    if forall|c: (int, int)| #[trigger] may(bins, st, c) ==> bounded(bins, next(bins, st, c), x) {
        assert forall|path: Seq<(int, int)>| #[trigger] possible(bins, st, path) implies val(weight(bins, st, path)) <= x by {
            if path.len() > 0 { assert(may(bins, st, path[0])); assert(possible(bins, next(bins, st, path[0]), path.drop_first())); }
        }
    } else if x < a.least() {
        assert forall|path: Seq<(int, int)>| #[trigger] possible(bins, st, path) implies val(weight(bins, st, path)) < a.least() by {
            if path.len() > 0 { assert(may(bins, st, path[0])); assert(within(bins, a, cap, next(bins, st, path[0]), x)); assert(possible(bins, next(bins, st, path[0]), path.drop_first())); }
        }
    } else {
        assert forall|path: Seq<(int, int)>| #[trigger] possible(bins, st, path) implies val(weight(bins, st, path)) <= x by {
            if path.len() > 0 { assert(may(bins, st, path[0])); assert(within(bins, a, cap, next(bins, st, path[0]), x)); assert(possible(bins, next(bins, st, path[0]), path.drop_first())); }
        }
    }
}
spec fn compared(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(if val(a) < val(b) { Ordering::Less } else if val(a) == val(b) { Ordering::Equal } else { Ordering::Greater }) }
proof fn part_skip<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a0: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>, cs: Seq<(int, int)>, c: (int, int))
    requires
        a.inv(), bins_ok(bins), has_cand(bins, c), st.start <= c.0, part(bins, a0, a, cap, n, st, bm, z, who, cs, c.0, c.1), relev_ok(st.relev, st.start),
        cap ==> bins_exact(bins) && exact_relev(st.relev, st.start),
    ensures
        n.mask == st.mask && n.idx == st.idx && n.bmask@ == bm && fin(n.max_relev),
        0 <= st.start <= bins.len(),
        may(bins, st, c) ==> relev_ok(next(bins, st, c).relev, c.0 + 1),
        may(bins, st, c) && cap ==> exact_relev(next(bins, st, c).relev, c.0 + 1),
        next(bins, st, c).relev.add_req(bins[c.0].max_relev_after_this.0),
        may(bins, st, c) && cap ==> ({
            let m = plus(next(bins, st, c).relev, bins[c.0].max_relev_after_this.0);
            compared(m, a.min_relev.0) && compared(a.min_relev.0, m) && fin(m) && (val(m) < a.least() ==> below(bins, next(bins, st, c), a.least()))
        }),
        may(bins, st, c) && !cap ==> !a.full() && a.total_leaves + one(count(bins, next(bins, st, c), c.0 + 1, 0)) <= a.soft_max,
        (may(bins, st, c) ==> cap && a.full() && below(bins, next(bins, st, c), a.least())) ==> part(bins, a0, a, cap, n, st, bm, z, who, cs, c.0, c.1 + 1),
{
    reveal(part);
    fl_add(next(bins, st, c).relev, bins[c.0].max_relev_after_this.0);
    if may(bins, st, c) {
        fl_sum(st.relev, cand(bins, c).weight, st.start);
        if cap {
            hopeless(bins, st, c, a.min_relev.0);
            let m = plus(next(bins, st, c).relev, bins[c.0].max_relev_after_this.0);
            fl_cmp(m, a.min_relev.0);
            fl_cmp(a.min_relev.0, m);
            exact_more(st.relev, st.start, c.0);
            fl_exact_sum(st.relev, cand(bins, c).weight, c.0, 1);
        }
    }
    assert(forall|d: (int, int)| #[trigger] earlier(d, c.0, c.1 + 1) ==> earlier(d, c.0, c.1) || d == c);
    assert(forall|d: (int, int)| #[trigger] earlier(d, c.0, c.1) ==> earlier(d, c.0, c.1 + 1));
    if may(bins, st, c) ==> cap && a.full() && below(bins, next(bins, st, c), a.least()) {
        assert(made(bins, a, cap, n.children@, st, bm, cs, c.0, c.1 + 1)) by {
            assert forall|d: (int, int)| #[trigger] may(bins, st, d) && earlier(d, c.0, c.1 + 1) implies settled(bins, a, cap, n.children@, st, cs, d) by { }
        }
    }
}
/// a child was added for the candidate
spec fn added<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a1: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, n1: StackableNode<'a, T>, n: StackableNode<'a, T>, st: St, bm: Set<nat>, c: (int, int)) -> bool {
    let i = n.children@.last();
    let m = a.nodes()[i];
    &&& a.inv() && grown(a1, a, cap) && may(bins, st, c)
    &&& n.mask == n1.mask && n.idx == n1.idx && n.bmask@ == n1.bmask@ && n.zoom == n1.zoom && n.phrasematch == n1.phrasematch
    &&& n.children@ == n1.children@.push(i)
    &&& child_in(bins, a1, a, cap, i, next(bins, st, c), bm.union(cand(bins, c).non_overlapping_indexes@), cand(bins, c).store.gs().zoom, Some(bins[c.0].phrasematches@[c.1]))
    &&& (n.max_relev == m.max_relev || n.max_relev == n1.max_relev) && relev(n) >= relev(m) && relev(n) >= relev(n1)
}
spec fn child_in<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a1: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, i: ArenaIndex, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>) -> bool {
    let m = a.nodes()[i];
    &&& !a1.arena.issued().contains(i) && a.nodes().dom().contains(i)
    &&& tree_ok(bins, a, cap, m, st, bm, z, who)
    &&& bounded(bins, st, relev(m)) && reached(bins, st, relev(m))
    &&& a.holds_relev(relev(m))
    &&& below_child(a1, a, i)
    &&& !cap || !a.full() ==> a.total_leaves == a1.total_leaves + one(count(bins, st, st.start, 0))
}
proof fn part_add<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a0: ArenaManager<'a, T>, a1: ArenaManager<'a, T>, a: ArenaManager<'a, T>, cap: bool, n1: StackableNode<'a, T>, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>, cs: Seq<(int, int)>, c: (int, int))
    requires a1.inv(), bins_ok(bins), relev_ok(st.relev, st.start), part(bins, a0, a1, cap, n1, st, bm, z, who, cs, c.0, c.1), added(bins, a1, a, cap, n1, n, st, bm, c),
    ensures part(bins, a0, a, cap, n, st, bm, z, who, cs.push(c), c.0, c.1 + 1),
{
    reveal(part);
    let ch1 = n1.children@;
    let ch = n.children@;
    let i = ch.last();
    let ds = cs.push(c);
    let m = a.nodes()[i];
    stays_made(bins, a1, a, cap, ch1, st, bm, cs, c.0, c.1);
    assert(forall|d: (int, int)| #[trigger] earlier(d, c.0, c.1 + 1) ==> earlier(d, c.0, c.1) || d == c);
    assert(!cs.contains(c)) by { if cs.contains(c) { let k = cs.index_of(c); assert(earlier(cs[k], c.0, c.1)); } }
    assert(!ch1.contains(i)) by { if ch1.contains(i) { let k = ch1.index_of(i); assert(may(bins, st, cs[k])); assert(a1.arena.issued().contains(ch1[k])); } }
    assert(ds.no_duplicates());
    assert(ch.no_duplicates());
    assert(made(bins, a, cap, ch, st, bm, ds, c.0, c.1 + 1)) by {
        assert forall|k: int| 0 <= k < ds.len() implies {
            let d = #[trigger] ds[k];
            &&& may(bins, st, d) && earlier(d, c.0, c.1 + 1)
            &&& a.arena.issued().contains(ch[k])
            &&& a.nodes().dom().contains(ch[k]) ==> {
                let m = a.nodes()[ch[k]];
                &&& d.0 < bins.len() && d.0 >= st.start
                &&& tree_ok(bins, a, cap, m, next(bins, st, d), bm.union(cand(bins, d).non_overlapping_indexes@), cand(bins, d).store.gs().zoom, Some(bins[d.0].phrasematches@[d.1]))
                &&& bounded(bins, next(bins, st, d), relev(m)) && reached(bins, next(bins, st, d), relev(m))
            }
        } by {
            if k < cs.len() { assert(ds[k] == cs[k] && ch[k] == ch1[k]); }
        }
        assert forall|d: (int, int)| #[trigger] may(bins, st, d) && earlier(d, c.0, c.1 + 1) implies settled(bins, a, cap, ch, st, ds, d) by {
            if d == c { assert(ds[cs.len() as int] == c); } else {
                assert(settled(bins, a, cap, ch1, st, cs, d));
                if exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == d && a.nodes().dom().contains(ch1[k]) {
                    let k = choose|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == d && a.nodes().dom().contains(ch1[k]);
                    assert(ds[k] == d && ch[k] == ch1[k]);
                }
            }
        }
    }
    assert(reached(bins, st, relev(n))) by { path_one(bins, st, c, relev(m)); }
    assert(usable(n.max_relev));
    assert forall|d: (int, int)| #[trigger] may(bins, st, d) && earlier(d, c.0, c.1 + 1) implies within(bins, a, cap, next(bins, st, d), relev(n)) by {
        if d != c { assert(within(bins, a1, cap, next(bins, st, d), relev(n1))); }
    }
    assert(a.holds_relev(relev(n))) by {
        assert(possible(bins, next(bins, st, c), Seq::empty()));
        assert(val(weight(bins, next(bins, st, c), Seq::empty())) <= relev(m));
        fl_sum(st.relev, cand(bins, c).weight, st.start);
        assert(a.holds_relev(relev(m)));
        assert(a.relev_map@.dom().contains(relev(m)));
        assert(relev(n) == relev(m) || relev(n) == relev(n1));
        assert(relev(m) >= val(st.relev));
        if is_leaf(n1) { assert(relev(n1) == val(st.relev)); assert(relev(n) == relev(m)); }
        if relev(m) <= relev(n1) && !is_leaf(n1) { assert(a1.holds_relev(relev(n1))); assert(a.least() <= relev(m)); }
    }
    grown_twice(a0, a1, a, cap);
    spread_add(a0, a1, a, n1, n, i);
    assert(val(st.relev) <= relev(n));
    assert(!is_leaf(n));
    assert(!cap || !a.full() ==> a.total_leaves + count(bins, st, c.0, c.1 + 1) == a0.total_leaves + count(bins, st, st.start, 0));
    assert(!cap || !a.full() ==> a.total_leaves > a0.total_leaves);
}
== exported
fn add_child<'a, T: HasStore>(arena: &mut ArenaManager<'a, T>, n: StackableNode<'a, T>, bins: Ghost<Seq<PhrasematchBin<'a, T>>>, a1: Ghost<ArenaManager<'a, T>>, cap: Ghost<bool>, st: Ghost<St>, bm: Ghost<Set<nat>>, z: Ghost<u16>, who: Ghost<Option<&'a Pm<T>>>) -> (r: Option<ArenaIndex>)
    requires
        a1@.inv(), old(arena).inv(), searched(bins@, a1@, *old(arena), cap@, n, st@, bm@, z@, who@),
        !cap@ ==> !a1@.full() && a1@.total_leaves + one(count(bins@, st@, st@.start, 0)) <= a1@.soft_max,
    ensures
        final(arena).inv(),
        grown(a1@, *final(arena), cap@),
        r is None ==> *final(arena) == a1@ && cap@ && a1@.full() && below(bins@, st@, a1@.least()),
        r matches Some(i) ==> final(arena).nodes()[i] == n && child_in(bins@, a1@, *final(arena), cap@, i, st@, bm@, z@, who@),
{
    let ghost a2 = *arena;
    let r = arena.add(n);
    proof {
        let ghost a = *arena;
        if r is Some {
            stays(bins@, a2, a, cap@, n, st@, bm@, z@, who@);
            assert(forall|j: ArenaIndex| a.nodes().dom().contains(j) ==> #[trigger] a.arena.issued().contains(j));
            assert forall|i: ArenaIndex| #[trigger] a.nodes().dom().contains(i) && !a1@.arena.issued().contains(i) && i != r.unwrap() implies under(a, n, i) by { chain_stays(a2, a, n, i); }
            assert(bounded(bins@, st@, relev(n))) by {
                if !bounded(bins@, st@, relev(n)) {
                    let p = choose|path: Seq<(int, int)>| #[trigger] possible(bins@, st@, path) && val(weight(bins@, st@, path)) == relev(n);
                    assert(possible(bins@, st@, p));
                    assert(a.holds_relev(relev(n)));
                }
            }
        }
    }
    r
}
proof fn with_push<A>()
    ensures forall|s: Seq<A>, x: A, y: A| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y,
{
    assert forall|s: Seq<A>, x: A, y: A| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y by {
        let t = s.push(x);
        if s.contains(y) { let k = s.index_of(y); assert(t[k] == y); }
        if x == y { assert(t[s.len() as int] == y); }
        if t.contains(y) && x != y { let k = t.index_of(y); assert(s[k] == y); }
    }
}
proof fn of_type_all<'a, T: HasStore>(ps: Seq<Pm<T>>, n: int, ty: u16)
    requires 0 <= n <= ps.len(),
    ensures
        forall|i: int| 0 <= i < n && (#[trigger] ps[i]).store.gs().type_id == ty ==> of_type::<T>(ps, n, ty).len() > 0,
        (forall|i: int| 0 <= i < n ==> (#[trigger] ps[i]).store.gs().type_id != ty) ==> of_type::<T>(ps, n, ty).len() == 0,
    decreases n,
{
    if n > 0 { of_type_all(ps, n - 1, ty); }
}
spec fn bin_types<'a, T: HasStore>(all: Seq<(u16, PhrasematchBin<'a, T>)>, bins: Seq<PhrasematchBin<'a, T>>) -> Seq<u16> { Seq::new(all.len(), |t: int| all[t].0) }
proof fn all_fine<'a, T: HasStore>(ps: Seq<Pm<T>>, all: Seq<(u16, PhrasematchBin<'a, T>)>, m: Map<u16, PhrasematchBin<'a, T>>, bins: Seq<PhrasematchBin<'a, T>>)
    requires
        listing(all, m), bins.len() == all.len(), forall|t: int| 0 <= t < all.len() ==> shuffled(all[t].1, #[trigger] bins[t]),
        forall|ty: u16| #[trigger] m.dom().contains(ty) ==> bin_of(ps, ps.len() as int, ty, m[ty]),
    ensures
        forall|t: int| 0 <= t < bins.len() ==> best_of(#[trigger] bins[t], exact(ps)),
        (forall|i: int| 0 <= i < ps.len() ==> m.dom().contains((#[trigger] ps[i]).store.gs().type_id)) ==> binned(ps, bin_types(all, bins), bins),
{
    let ts = bin_types(all, bins);
    assert forall|t: int| 0 <= t < bins.len() implies best_of(#[trigger] bins[t], exact(ps)) && bins[t].phrasematches@.to_multiset() == of_type::<T>(ps, ps.len() as int, ts[t]).to_multiset() by {
        let b = m[all[t].0];
        assert(shuffled(b, bins[t]));
        assert forall|p: &'a Pm<T>| #[trigger] bins[t].phrasematches@.contains(p) implies b.phrasematches@.contains(p) by {
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert(bins[t].phrasematches@.to_multiset().contains(p));
        }
    }
    if forall|i: int| 0 <= i < ps.len() ==> m.dom().contains((#[trigger] ps[i]).store.gs().type_id) {
        assert forall|i: int| 0 <= i < ps.len() implies ts.contains((#[trigger] ps[i]).store.gs().type_id) by {
            let k = ps[i].store.gs().type_id;
            assert(m.dom().contains(k));
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == k;
            assert(ts[j] == k);
        }
    }
}
proof fn bins_fine<'a, T: HasStore>(ps: Seq<Pm<T>>, b0: Seq<PhrasematchBin<'a, T>>, bins: Seq<PhrasematchBin<'a, T>>)
    requires
        b0.len() == bins.len(), bins.len() <= 65536,
        forall|t: int| 0 <= t < b0.len() ==> same_bin(b0[t], #[trigger] bins[t]),
        forall|t: int| 0 <= t < b0.len() ==> best_of(#[trigger] b0[t], exact(ps)),
        exact(ps) ==> forall|t: int| 0 <= t < b0.len() ==> exact_relev((#[trigger] bins[t]).max_relev_after_this.0, b0.len() - t - 1) && val(bins[t].max_relev_after_this.0) == rest(b0, t + 1),
    ensures bins_ok(bins), exact(ps) ==> bins_exact(bins),
{
    assert forall|c: (int, int)| has_cand(bins, c) implies weight_ok((#[trigger] cand(bins, c)).weight) && val(cand(bins, c).weight) <= val(bins[c.0].max_relev.0) && (exact(ps) ==> exact_relev(cand(bins, c).weight, 1)) by {
        assert(same_bin(b0[c.0], bins[c.0]));
        assert(best_of(b0[c.0], exact(ps)));
        assert(b0[c.0].phrasematches@.contains(b0[c.0].phrasematches@[c.1]));
    }
    if exact(ps) {
        assert forall|t: int| 0 <= t < bins.len() implies exact_relev((#[trigger] bins[t]).max_relev.0, 1) && exact_relev(bins[t].max_relev_after_this.0, bins.len() - t - 1) && val(bins[t].max_relev_after_this.0) == rest(bins, t + 1) by {
            assert(same_bin(b0[t], bins[t]));
            assert(best_of(b0[t], exact(ps)));
            same_rest(b0, bins, t + 1);
        }
    }
}
proof fn same_rest<'a, T: HasStore>(b0: Seq<PhrasematchBin<'a, T>>, bins: Seq<PhrasematchBin<'a, T>>, t: int)
    requires b0.len() == bins.len(), forall|t: int| 0 <= t < b0.len() ==> same_bin(b0[t], #[trigger] bins[t]), 0 <= t,
    ensures rest(b0, t) == rest(bins, t),
    decreases bins.len() - t,
{
    if t < bins.len() { assert(same_bin(b0[t], bins[t])); same_rest(b0, bins, t + 1); }
}
/// no more complete stacks than the cap
spec fn few<'a, T: HasStore>(ps: Seq<Pm<T>>) -> bool { forall|ts: Seq<u16>, bins: Seq<PhrasematchBin<'a, T>>| #[trigger] binned(ps, ts, bins) ==> count(bins, start(), 0, 0) <= 2000 }
/// the path is in the tree
spec fn on_tree<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, n: StackableNode<'a, T>, path: Seq<(int, int)>) -> bool
    decreases path.len(),
{
    path.len() == 0 || exists|k: int| 0 <= k < n.children@.len() && a.nodes().dom().contains(#[trigger] n.children@[k])
        && a.nodes()[n.children@[k]].phrasematch == Some(bins[path[0].0].phrasematches@[path[0].1]) && on_tree(bins, a, a.nodes()[n.children@[k]], path.drop_first())
}
/// a possible stack is in the tree, or the arena is full and it is worse than all kept
proof fn there<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>, path: Seq<(int, int)>)
    requires a.inv(), tree_ok(bins, a, cap, n, st, bm, z, who), possible(bins, st, path), !cap || !a.full() || val(weight(bins, st, path)) >= a.least(),
    ensures on_tree(bins, a, n, path),
    decreases path.len(),
{
    if path.len() > 0 {
        let c = path[0];
        let cs = choose|cs: Seq<(int, int)>| #[trigger] listed(cs) && made(bins, a, cap, n.children@, st, bm, cs, bins.len() as int, 0);
        assert(earlier(c, bins.len() as int, 0));
        assert(settled(bins, a, cap, n.children@, st, cs, c));
        assert(possible(bins, next(bins, st, c), path.drop_first()));
        let k = choose|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == c && a.nodes().dom().contains(n.children@[k]);
        there(bins, a, cap, a.nodes()[n.children@[k]], next(bins, st, c), bm.union(cand(bins, c).non_overlapping_indexes@), cand(bins, c).store.gs().zoom, Some(bins[c.0].phrasematches@[c.1]), path.drop_first());
    }
}
/// a leaf that is kept is a stack that nothing can be added to
proof fn complete_leaf<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>, st: St, bm: Set<nat>, z: u16, who: Option<&'a Pm<T>>, c: (int, int))
    requires
        a.inv(), bins_ok(bins), relev_ok(st.relev, st.start), tree_ok(bins, a, cap, n, st, bm, z, who), is_leaf(n), reached(bins, st, relev(n)),
        !cap || !a.full() || relev(n) >= a.least(),
    ensures !may(bins, st, c),
{
    let cs = choose|cs: Seq<(int, int)>| #[trigger] listed(cs) && made(bins, a, cap, n.children@, st, bm, cs, bins.len() as int, 0);
    let p = choose|path: Seq<(int, int)>| #[trigger] possible(bins, st, path) && val(weight(bins, st, path)) == relev(n);
    if p.len() > 0 {
        assert(may(bins, st, p[0]) && earlier(p[0], bins.len() as int, 0));
        assert(settled(bins, a, cap, n.children@, st, cs, p[0]));
        assert(possible(bins, next(bins, st, p[0]), p.drop_first()));
    }
    if may(bins, st, c) {
        assert(earlier(c, bins.len() as int, 0));
        assert(settled(bins, a, cap, n.children@, st, cs, c));
        assert(possible(bins, next(bins, st, c), Seq::empty()));
        fl_sum(st.relev, cand(bins, c).weight, st.start);
        assert(val(weight(bins, next(bins, st, c), Seq::empty())) < a.least());
    }
}
/// what the tree holds
spec fn stacked<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, r: StackableTree<'a, T>) -> bool {
    let all = count(bins, start(), 0, 0);
    let cap = all > 2000;
    &&& r.arena.inv() && r.arena.soft_max == 2000
    // the paths are the possible stacks, or the others are worse than all kept
    &&& tree_ok(bins, r.arena, cap, r.root, start(), Set::empty(), 0, None)
    &&& forall|path: Seq<(int, int)>| #[trigger] possible(bins, start(), path) && (!cap || val(weight(bins, start(), path)) >= r.arena.least()) ==> on_tree(bins, r.arena, r.root, path)
    // the root has the best weight
    &&& bounded(bins, start(), relev(r.root)) && reached(bins, start(), relev(r.root))
    // every node kept hangs below the root
    &&& forall|i: ArenaIndex| #[trigger] r.arena.nodes().dom().contains(i) ==> under(r.arena, r.root, i)
    &&& !cap ==> r.arena.total_leaves == all && (all == 0 <==> is_leaf(r.root))
    &&& cap ==> r.arena.total_leaves >= 2000
}
proof fn whole<'a, T: HasStore>(bins: Seq<PhrasematchBin<'a, T>>, a: ArenaManager<'a, T>, b: ArenaManager<'a, T>, cap: bool, n: StackableNode<'a, T>)
    requires
        a.inv(), a.nodes() == Map::<ArenaIndex, StackableNode<'a, T>>::empty(), a.arena.issued() == Set::<ArenaIndex>::empty(), a.total_leaves == 0, a.soft_max == 2000,
        b.inv(), searched(bins, a, b, cap, n, start(), Set::empty(), 0, None), cap == (count(bins, start(), 0, 0) > 2000),
    ensures stacked(bins, StackableTree { root: n, arena: b }),
{
    let x = relev(n);
    assert forall|path: Seq<(int, int)>| #[trigger] possible(bins, start(), path) && (!cap || val(weight(bins, start(), path)) >= b.least()) implies on_tree(bins, b, n, path) by { there(bins, b, cap, n, start(), Set::empty(), 0, None, path); }
    if !bounded(bins, start(), x) {
        let p = choose|path: Seq<(int, int)>| #[trigger] possible(bins, start(), path) && val(weight(bins, start(), path)) == x;
        assert(possible(bins, start(), p));
        assert(b.holds_relev(x));
        assert(false);
    }
}
== take fn stackable
== take fn binned_stackable
== fn stackable
-- ret r
requires
    forall|i: int| 0 <= i < phrasematches@.len() ==> weight_ok((#[trigger] phrasematches@[i]).weight),
    // more stacks than the cap: no rounding
    few(phrasematches@) || exact(phrasematches@),
ensures
    exists|ts: Seq<u16>, bins: Seq<PhrasematchBin<'a, T>>| #[trigger] binned(phrasematches@, ts, bins) && stacked(bins, r),
-- start
let ghost ps = phrasematches@;
proof { stack_literals(); }
broadcast use {fl_add, fl_specs, fl_cmp};
-- loop 0 for iter=it
invariant
    it.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *it.seq()[i] == ps[i],
    forall|i: int| 0 <= i < ps.len() ==> weight_ok((#[trigger] ps[i]).weight),
    forall|ty: u16| #[trigger] binned_phrasematches@.dom().contains(ty) ==> bin_of(ps, it.index@, ty, binned_phrasematches@[ty]) && binned_phrasematches@[ty].phrasematches@.len() > 0,
    forall|i: int| 0 <= i < it.index@ ==> binned_phrasematches@.dom().contains((#[trigger] ps[i]).store.gs().type_id),
-- loop 0 start
broadcast use {fl_add, fl_specs, fl_cmp};
proof {
    stack_literals();
    fl_int(0);
    assert(parts(0.0, 0));
    let i = it.index@;
    let ty = ps[i].store.gs().type_id;
    of_type_all(ps, i, ty);
    if !binned_phrasematches@.dom().contains(ty) { assert(of_type::<T>(ps, i, ty) =~= Seq::empty()); }
    with_push::<&'a Pm<T>>();
    assert(of_type::<T>(ps, i + 1, ty) == of_type::<T>(ps, i, ty).push(&ps[i]));
    assert(forall|u: u16| u != ty ==> #[trigger] of_type::<T>(ps, i + 1, u) == of_type::<T>(ps, i, u));
    assert(exact(ps) ==> exact_relev(ps[i].weight, 1));
    fl_cmp(phrasematch.weight, 0.0);
    let was = binned_phrasematches@;
    let top0: f64 = if was.dom().contains(ty) { was[ty].max_relev.0 } else { 0.0 };
    assert forall|b: PhrasematchBin<'a, T>| b.phrasematches@ == of_type::<T>(ps, i, ty).push(&ps[i]) && b.max_relev.0 == (if val(ps[i].weight) > val(top0) { ps[i].weight } else { top0 }) implies #[trigger] bin_of(ps, i + 1, ty, b) by {
        if was.dom().contains(ty) { assert(bin_of(ps, i, ty, was[ty])); } else { assert(of_type::<T>(ps, i, ty).len() == 0); }
    }
    assert forall|b: PhrasematchBin<'a, T>| best_of(b, false) implies compared(phrasematch.weight, (#[trigger] b.max_relev).0) && compared(b.max_relev.0, phrasematch.weight) by { fl_cmp(phrasematch.weight, b.max_relev.0); fl_cmp(b.max_relev.0, phrasematch.weight); }
}
== fn binned_stackable
-- ret r
-- attr #[verifier::rlimit(60)]
requires
    old(arena).inv(),
    bins_ok(binned_phrasematches@), relev_ok(relev_so_far, start_type_idx as int), start_type_idx <= binned_phrasematches@.len(),
    cap@ ==> bins_exact(binned_phrasematches@) && exact_relev(relev_so_far, start_type_idx as int),
    !cap@ ==> old(arena).total_leaves + count(binned_phrasematches@, St { mask, idx, relev: relev_so_far, start: start_type_idx as int }, start_type_idx as int, 0) <= old(arena).soft_max,
ensures
    final(arena).inv(),
    searched(binned_phrasematches@, *old(arena), *final(arena), cap@, r, St { mask, idx, relev: relev_so_far, start: start_type_idx as int }, bmask@, zoom, current_phrasematch),
decreases binned_phrasematches@.len() - start_type_idx,
-- start
let ghost bins = binned_phrasematches@;
let ghost st = St { mask, idx, relev: relev_so_far, start: start_type_idx as int };
let ghost st_bm = bmask@;
let ghost mut cs: Seq<(int, int)> = Seq::empty();
