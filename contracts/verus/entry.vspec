# C17-C19: what lookups hand to coalescing, and the entry entry_of of a match
== import lookup
== source common.rs
== subst
T: Borrow<GridStore> + Clone + Debug
=>
T: HasStore
== subst
T: Borrow<GridStore> + Clone
=>
T: HasStore
== text
#[verifier::external_body]
pub struct FixedBitSet { b: () }
trait HasStore: Sized {
    spec fn gs(&self) -> GridStore;
    fn borrow(&self) -> (r: &GridStore)
        ensures *r == self.gs();
}
== take const MAX_CONTEXTS
== take const MAX_GRIDS_PER_PHRASE
== take struct MatchKeyWithId
== take struct PhrasematchSubquery
== take struct CoalesceEntry
== take struct CoalesceContext
== text
// derived Clone, written out
impl CoalesceEntry {
    fn clone(&self) -> (r: CoalesceEntry)
        ensures r == *self,
    { CoalesceEntry { grid_entry: GridEntry { relev: self.grid_entry.relev, score: self.grid_entry.score, x: self.grid_entry.x, y: self.grid_entry.y, id: self.grid_entry.id, source_phrase_hash: self.grid_entry.source_phrase_hash }, matches_language: self.matches_language, idx: self.idx, tmp_id: self.tmp_id, mask: self.mask, distance: self.distance, scoredist: self.scoredist, phrasematch_id: self.phrasematch_id } }
}
// ---- assumed: OrderedFloat's order of finite numbers is theirs; Reverse and tuples compare as documented ------------------------
trait Keyed: Sized {
    spec fn lt(self, o: Self) -> bool;
    spec fn ok(self) -> bool;
}
impl Keyed for OrderedFloat<f64> {
    spec fn lt(self, o: Self) -> bool { val(self.0) < val(o.0) }
    spec fn ok(self) -> bool { fin(self.0) }
}
impl Keyed for u16 {
    spec fn lt(self, o: Self) -> bool { self < o }
    spec fn ok(self) -> bool { true }
}
impl Keyed for u32 {
    spec fn lt(self, o: Self) -> bool { self < o }
    spec fn ok(self) -> bool { true }
}
pub struct Reverse<K>(pub K);
impl<K: Keyed> Keyed for Reverse<K> {
    spec fn lt(self, o: Self) -> bool { o.0.lt(self.0) }
    spec fn ok(self) -> bool { self.0.ok() }
}
spec fn then<A: Keyed>(a: A, b: A, rest: bool) -> bool { a.lt(b) || !b.lt(a) && rest }
impl<A: Keyed, B: Keyed> Keyed for (A, B) {
    spec fn lt(self, o: Self) -> bool { then(self.0, o.0, self.1.lt(o.1)) }
    spec fn ok(self) -> bool { self.0.ok() && self.1.ok() }
}
impl<A: Keyed, B: Keyed, C: Keyed, D: Keyed, E: Keyed> Keyed for (A, B, C, D, E) {
    spec fn lt(self, o: Self) -> bool { then(self.0, o.0, then(self.1, o.1, then(self.2, o.2, then(self.3, o.3, self.4.lt(o.4))))) }
    spec fn ok(self) -> bool { self.0.ok() && self.1.ok() && self.2.ok() && self.3.ok() && self.4.ok() }
}
impl<A: Keyed, B: Keyed, C: Keyed, D: Keyed, E: Keyed, F: Keyed> Keyed for (A, B, C, D, E, F) {
    spec fn lt(self, o: Self) -> bool { then(self.0, o.0, then(self.1, o.1, then(self.2, o.2, then(self.3, o.3, then(self.4, o.4, self.5.lt(o.5)))))) }
    spec fn ok(self) -> bool { self.0.ok() && self.1.ok() && self.2.ok() && self.3.ok() && self.4.ok() && self.5.ok() }
}
/// no later element has the lesser key
spec fn by_keys<A, K: Keyed, F: Fn(&A) -> K>(s: Seq<A>, f: F, ks: Seq<K>) -> bool {
    &&& ks.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((&s[i],), #[trigger] ks[i])
    &&& (forall|i: int| 0 <= i < s.len() ==> (#[trigger] ks[i]).ok()) ==> forall|i: int, j: int| 0 <= i <= j < s.len() ==> !(#[trigger] ks[j]).lt(#[trigger] ks[i])
}
/// slice::sort_by_key
trait SortByKey<A> {
    spec fn list(&self) -> Seq<A>;
    fn sort_by_key<K: Keyed, F: Fn(&A) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).list().len() ==> f.requires((&#[trigger] old(self).list()[i],)),
        ensures
            final(self).list().to_multiset() == old(self).list().to_multiset(), final(self).list().len() == old(self).list().len(),
            exists|ks: Seq<K>| #[trigger] by_keys(final(self).list(), f, ks);
}
impl<A> SortByKey<A> for Vec<A> {
    spec fn list(&self) -> Seq<A> { self@ }
    #[verifier::external_body]
    fn sort_by_key<K: Keyed, F: Fn(&A) -> K>(&mut self, f: F) { unimplemented!() }
}
// ---- a lookup's answer (unit lookup) -----------------------------------------------------------------------------------------------
spec fn answers(s: Seq<MatchEntry>, g: GridStore, k: MatchKey, o: MatchOpts, max: int) -> bool {
    &&& s.len() <= usize::MAX
    &&& readings(s).subset_of(matching(g, k, o))
    &&& forall|i: int| 0 <= i < s.len() ==> sane(#[trigger] s[i]) && plausible(read(s[i]))
    &&& matching(g, k, o).len() <= max ==> readings(s) == matching(g, k, o)
    &&& o.proximity is None ==> best_first(s) && best_kept(s, matching(g, k, o), max)
}
== exported
impl GridStore {
fn streaming_get_matching(&self, match_key: &MatchKey, match_opts: &MatchOpts, max_values: usize) -> (r: Result<It<MatchEntry>, Error>)
    requires ready(*self, *match_opts), max_values >= 1,
    ensures r matches Ok(it) ==> answers(it.seq(), *self, *match_key, *match_opts, max_values as int),
{
    let v = self.all_matches(match_key, match_opts, max_values);
    let _ = v.len();
    Ok(It::of_(v))
}
}
== text
// ---- what is claimed ---------------------------------------------------------------------------------------------------------------
type Pm<T> = PhrasematchSubquery<T>;
spec fn weight_ok(w: f64) -> bool { fin(w) && 0real <= val(w) <= 1000000real && (val(w) == 0real || val(w) * 65536real >= 1real) }
spec fn sub_ok<T: HasStore>(s: Pm<T>) -> bool { s.idx < 128 && weight_ok(s.weight) }
/// relevance with the weight applied
spec fn rel(m: MatchEntry, w: f64) -> real { rnd(val(m.grid_entry.relev) * val(w)) }
/// the entry says what the match says, in the name of the subquery
spec fn entry_of<T: HasStore>(e: CoalesceEntry, m: MatchEntry, s: Pm<T>, kid: u32) -> bool {
    let g = m.grid_entry;
    &&& fin(e.grid_entry.relev) && val(e.grid_entry.relev) == rel(m, s.weight)
    &&& e.grid_entry.score == g.score && e.grid_entry.x == g.x && e.grid_entry.y == g.y && e.grid_entry.id == g.id && e.grid_entry.source_phrase_hash == g.source_phrase_hash
    &&& e.matches_language == m.matches_language && e.distance == m.distance && e.scoredist == m.scoredist
    &&& e.idx == s.idx && e.mask == s.mask && e.phrasematch_id == kid
    &&& e.tmp_id == s.idx * 33554432 + g.id
}
proof fn weighing(m: MatchEntry, w: f64)
    requires sane(m), plausible(read(m)), weight_ok(w),
    ensures
        mid(val(m.grid_entry.relev) * val(w)), rel(m, w) >= 0real, rel(m, w) <= 1000001real,
        val(w) > 0real ==> rel(m, w) * 200000real >= 1real,
{
    let (a, b) = (val(m.grid_entry.relev), val(w));
    let x = a * b;
    assert(0real <= x && x <= 1000000real) by (nonlinear_arith) requires 0.37real <= a, a <= 1real, 0real <= b, b <= 1000000real, x == a * b;
    if b != 0real { assert(x * 177200real >= 1real) by (nonlinear_arith) requires 0.37real <= a, b * 65536real >= 1real, x == a * b; } else { assert(x == 0real) by (nonlinear_arith) requires x == a * b, b == 0real; }
    fl_round(x); fl_int(0);
    assert(0int as real == 0real);
    if x > 0real { assert(x * ulp() <= x * 0.000001real) by (nonlinear_arith) requires x > 0real, ulp() == 1real / 9007199254740992real; }
}
== source coalesce.rs
== take fn grid_to_coalesce_entry
== fn grid_to_coalesce_entry
-- ret r
requires
    match_opts.zoom == subquery.store.gs().zoom, sane(*grid), plausible(read(*grid)), sub_ok(*subquery),
ensures
    entry_of(r, *grid, *subquery, phrasematch_id),
-- start
proof {
    broadcast use {fl_mul, fl_specs};
    weighing(*grid, subquery.weight);
    fl_mul(grid.grid_entry.relev, subquery.weight);
    assert(grid.grid_entry.relev.mul_req(subquery.weight));
    let i = subquery.idx;
    assert(i < 128 ==> (i as u32) << 25 == i * 33554432) by (bit_vector);
}
