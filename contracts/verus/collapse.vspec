# C20: grouping equal subqueries
== source common.rs
== subst
T: Borrow<GridStore> + Clone + Debug
=>
T
== subst
T: Borrow<GridStore> + Clone
=>
T
== subst-re!
\.match_keys\.extend\((\w+)\.match_keys\)
=>
.match_keys.extend_(\1.match_keys)
== prelude
use vstd::std_specs::iter::*;
#[verifier::external_body]
pub struct FixedBitSet { b: () }
// ---- assumed: Vec::extend by a vector (std) -----------------------------------------------------------------------
trait Extend_<T> { fn extend_(&mut self, more: Vec<T>); }
impl<T> Extend_<T> for Vec<T> {
    #[verifier::external_body]
    fn extend_(&mut self, more: Vec<T>)
        ensures final(self)@ == old(self)@ + more@
    { unimplemented!() }
}
// ---- assumed: OrderedFloat's equality is an equivalence (crate ordered_float); it need not be that of the bits --------
pub uninterp spec fn weight_class(w: f64) -> int;
pub struct OrderedFloat(pub f64);
// ---- assumed: IndexMap (crate indexmap) keeps its entries in order of insertion, one per key ---------------------------
/// a key as the map tells it apart
pub type Kind = (int, u16, u32);
pub open spec fn kind(k: (OrderedFloat, u16, u32)) -> Kind { (weight_class(k.0.0), k.1, k.2) }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<V> { t: Vec<V> }
impl<V> IndexMap<V> {
    pub uninterp spec fn view(&self) -> Seq<(Kind, V)>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@.len() == 0
    { unimplemented!() }
    #[verifier::external_body]
    fn find(&self, k: &(OrderedFloat, u16, u32)) -> (r: Option<usize>)
        ensures
            match r {
                Some(i) => i < self@.len() && self@[i as int].0 == kind(*k),
                None => forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).0 != kind(*k),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn at(&mut self, i: usize) -> (r: &mut V)
        requires i < old(self)@.len(),
        ensures *r == old(self)@[i as int].1, final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, *final(r))),
    { unimplemented!() }
    #[verifier::external_body]
    fn add(&mut self, k: (OrderedFloat, u16, u32), v: V) -> (r: &mut V)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] old(self)@[i]).0 != kind(k),
        ensures *r == v, final(self)@ == old(self)@.push((kind(k), *final(r))),
    { unimplemented!() }
    fn entry(&mut self, k: (OrderedFloat, u16, u32)) -> (r: IndexMapEntry<'_, V>)
        ensures
            match r {
                IndexMapEntry::Occupied(e) => e.i < old(self)@.len() && old(self)@[e.i as int].0 == kind(k) && *e.m == *old(self) && *final(e.m) == *final(self),
                IndexMapEntry::Vacant(e) => (forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] old(self)@[i]).0 != kind(k)) && e.k == k && *e.m == *old(self) && *final(e.m) == *final(self),
            },
    {
        match self.find(&k) {
            Some(i) => IndexMapEntry::Occupied(OccupiedEntry { m: self, i }),
            None => IndexMapEntry::Vacant(VacantEntry { m: self, k }),
        }
    }
}
enum IndexMapEntry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
struct OccupiedEntry<'a, V> { m: &'a mut IndexMap<V>, i: usize }
struct VacantEntry<'a, V> { m: &'a mut IndexMap<V>, k: (OrderedFloat, u16, u32) }
impl<'a, V> OccupiedEntry<'a, V> {
    fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).i < old(self).m@.len(),
        ensures
            *r == old(self).m@[old(self).i as int].1,
            final(self).i == old(self).i,
            final(self).m@ == old(self).m@.update(old(self).i as int, (old(self).m@[old(self).i as int].0, *final(r))),
            *final(final(self).m) == *final(old(self).m),
    { self.m.at(self.i) }
}
impl<'a, V> VacantEntry<'a, V> {
    fn insert(self, v: V) -> (r: &'a mut V)
        requires forall|i: int| 0 <= i < old(self.m)@.len() ==> (#[trigger] old(self.m)@[i]).0 != kind(self.k),
        ensures *r == v, final(self.m)@ == old(self.m)@.push((kind(self.k), *final(r))),
    { self.m.add(self.k, v) }
}
impl<V> IntoIterator for IndexMap<V> {
    type Item = (Kind_, V);
    type IntoIter = std::vec::IntoIter<(Kind_, V)>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<(Kind_, V)>)
        ensures
            IteratorSpec::remaining(&r).len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> (#[trigger] IteratorSpec::remaining(&r)[i]).1 == self@[i].1,
            IteratorSpec::obeys_prophetic_iter_laws(&r),
            IteratorSpec::will_return_none(&r),
            IteratorSpec::decrease(&r).is_some(),
    { unimplemented!() }
}
pub type Kind_ = (OrderedFloat, u16, u32);
== take enum MatchPhrase
== take struct MatchKey
== take struct MatchKeyWithId
== take struct PhrasematchSubquery
== text
// ---- what is claimed ------------------------------------------------------------------------------------------------
type Pm<T> = PhrasematchSubquery<T>;
spec fn pk<T>(p: Pm<T>) -> Kind { (weight_class(p.weight), p.idx, p.mask) }
/// the kinds in order of first appearance
spec fn kinds<T>(s: Seq<Pm<T>>) -> Seq<Kind>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let k = kinds(s.drop_last());
        if k.contains(pk(s.last())) { k } else { k.push(pk(s.last())) }
    }
}
/// all match keys of the subqueries of one kind, in order
spec fn keys_of<T>(s: Seq<Pm<T>>, k: Kind) -> Seq<MatchKeyWithId>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if pk(s.last()) == k { keys_of(s.drop_last(), k) + s.last().match_keys@ } else { keys_of(s.drop_last(), k) }
}
/// `p` stands for the subqueries of kind `k`: it is the first of them, with the match keys of all
spec fn stands_for<T>(p: Pm<T>, s: Seq<Pm<T>>, k: Kind) -> bool {
    &&& pk(p) == k
    &&& p.match_keys@ == keys_of(s, k)
    &&& exists|f: int| #[trigger] first(s, k, f) && p.store == s[f].store && p.weight == s[f].weight && p.non_overlapping_indexes == s[f].non_overlapping_indexes
}
spec fn seen<T>(s: Seq<Pm<T>>, k: Kind) -> bool { exists|j: int| 0 <= j < s.len() && pk(#[trigger] s[j]) == k }
spec fn first<T>(s: Seq<Pm<T>>, k: Kind, f: int) -> bool { 0 <= f < s.len() && pk(s[f]) == k && forall|j: int| 0 <= j < f ==> pk(#[trigger] s[j]) != k }
spec fn grouped<T>(m: Seq<(Kind, Pm<T>)>, s: Seq<Pm<T>>) -> bool {
    &&& m.len() == kinds(s).len()
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 == kinds(s)[i] && stands_for(m[i].1, s, m[i].0)
}
// ---- lemmas -----------------------------------------------------------------------------------------------------------
proof fn kinds_are<T>(s: Seq<Pm<T>>)
    ensures
        kinds(s).no_duplicates(),
        forall|k: Kind| #[trigger] kinds(s).contains(k) <==> seen(s, k),
        forall|k: Kind| !kinds(s).contains(k) ==> (#[trigger] keys_of(s, k)).len() == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_last();
        let l = pk(s.last());
        kinds_are(r);
        assert(s[s.len() - 1] == s.last());
        assert forall|k: Kind| #[trigger] kinds(s).contains(k) == (kinds(r).contains(k) || k == l) by {
            if !kinds(r).contains(l) {
                assert(kinds(s) == kinds(r).push(l));
                if kinds(r).contains(k) { let i = kinds(r).index_of(k); assert(kinds(s)[i] == k); }
                if k == l { assert(kinds(s)[kinds(r).len() as int] == l); }
                if kinds(s).contains(k) && k != l { let i = kinds(s).index_of(k); assert(kinds(r)[i] == k); }
            }
        }
        assert forall|k: Kind| #[trigger] kinds(s).contains(k) <==> seen(s, k) by {
            if seen(r, k) { let j = choose|j: int| 0 <= j < r.len() && pk(#[trigger] r[j]) == k; assert(s[j] == r[j]); }
            if seen(s, k) && k != l { let j = choose|j: int| 0 <= j < s.len() && pk(#[trigger] s[j]) == k; assert(s[j] == r[j]); }
        }
        assert forall|k: Kind| !kinds(s).contains(k) implies (#[trigger] keys_of(s, k)).len() == 0 by {
            assert(k != l);
            assert(!kinds(r).contains(k));
            assert(keys_of(r, k).len() == 0);
            assert(keys_of(s, k) == keys_of(r, k));
        }
    }
}
spec fn merged<T>(q: Pm<T>, p: Pm<T>, q2: Pm<T>) -> bool {
    q2.match_keys@ == q.match_keys@ + p.match_keys@ && q2.store == q.store && q2.weight == q.weight && q2.idx == q.idx && q2.mask == q.mask && q2.non_overlapping_indexes == q.non_overlapping_indexes
}
/// one more subquery of a kind seen before, or of a new kind
proof fn one_more<T>(s: Seq<Pm<T>>, p: Pm<T>)
    ensures
        ({
            let t = s.push(p);
            &&& forall|k: Kind, q: Pm<T>| k != pk(p) && #[trigger] stands_for(q, s, k) ==> stands_for(q, t, k)
            &&& forall|q: Pm<T>, q2: Pm<T>| stands_for(q, s, pk(p)) && #[trigger] merged(q, p, q2) ==> stands_for(q2, t, pk(p))
            &&& !kinds(s).contains(pk(p)) ==> stands_for(p, t, pk(p)) && kinds(t) == kinds(s).push(pk(p))
            &&& kinds(s).contains(pk(p)) ==> kinds(t) == kinds(s)
        }),
{
    let t = s.push(p);
    assert(t.drop_last() =~= s);
    assert(t.last() == p);
    kinds_are(s);
    assert forall|k: Kind, f: int| #[trigger] first(s, k, f) implies first(t, k, f) && t[f] == s[f] by {
        assert forall|j: int| 0 <= j < f implies pk(#[trigger] t[j]) != k by { assert(s[j] == t[j]); }
    }
    if !kinds(s).contains(pk(p)) {
        assert(first(t, pk(p), s.len() as int)) by {
            assert forall|j: int| 0 <= j < s.len() implies pk(#[trigger] t[j]) != pk(p) by { assert(s[j] == t[j]); }
        }
        assert(keys_of(s, pk(p)).len() == 0);
        assert(keys_of(t, pk(p)) == keys_of(s, pk(p)) + p.match_keys@);
        assert(keys_of(t, pk(p)) =~= p.match_keys@);
        assert(t[s.len() as int] == p);
    }
}
== source coalesce.rs
== take fn collapse_phrasematches
== fn collapse_phrasematches
-- ret r
ensures
    // one for each kind, in order of first appearance, each with the match keys of all it stands for
    kinds(phrasematches@).no_duplicates(),
    r@.len() == kinds(phrasematches@).len(),
    forall|i: int| 0 <= i < r@.len() ==> stands_for(#[trigger] r@[i], phrasematches@, kinds(phrasematches@)[i]),
-- start
let ghost s = phrasematches@;
proof { kinds_are(s); }
-- loop 0 for iter=it
invariant
    it.seq() == s,
    grouped(phrasematch_map@, s.take(it.index@)),
-- loop 0 start
proof {
    assert(s.take(it.index@ + 1) =~= s.take(it.index@).push(phrasematch));
    one_more(s.take(it.index@), phrasematch);
    kinds_are(s.take(it.index@));
}
let ghost was = phrasematch_map@;
-- loop 0 end
proof {
    if kinds(s.take(it.index@)).contains(pk(phrasematch)) {
        assert(kinds(s.take(it.index@))[kinds(s.take(it.index@)).index_of(pk(phrasematch))] == pk(phrasematch));
        assert(was[kinds(s.take(it.index@)).index_of(pk(phrasematch))].0 == pk(phrasematch));
        assert(was.len() == phrasematch_map@.len());
        let j = choose|j: int| 0 <= j < was.len() && #[trigger] was[j].0 == pk(phrasematch);
        assert(was[j].0 == pk(phrasematch));
        assert(phrasematch_map@[j].1.match_keys@ == was[j].1.match_keys@ + phrasematch.match_keys@);
        assert(merged(was[j].1, phrasematch, phrasematch_map@[j].1));
        let k = choose|k: int| 0 <= k < was.len() && #[trigger] was[k].0 == pk(phrasematch) && merged(was[k].1, phrasematch, phrasematch_map@[k].1);
        assert(0 <= k < was.len());
    }
    assert(grouped(phrasematch_map@, s.take(it.index@ + 1)));
}
-- before for\s*\(
proof { assert(s.take(s.len() as int) =~= s); }
-- loop 1 for iter=it
invariant
    it.seq().len() == kinds(s).len(),
    forall|i: int| 0 <= i < it.seq().len() ==> stands_for((#[trigger] it.seq()[i]).1, s, kinds(s)[i]),
    phrasematch_results@.len() == it.index@,
    forall|i: int| 0 <= i < phrasematch_results@.len() ==> #[trigger] phrasematch_results@[i] == it.seq()[i].1,
