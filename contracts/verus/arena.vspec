# C16: what the arena keeps of the nodes added to it
== import float
== source store.rs
== subst
T: Borrow<GridStore> + Clone + Debug
=>
T: HasStore
== subst
T: Borrow<GridStore> + Clone
=>
T: HasStore
== subst-re
\bstd::f64::MAX\b
=>
f64_max()
== subst-re
\.map\(\|(\w+)\| \*\1\)
=>
.copied()
== subst
OrderedFloat<f64>
=>
OrderedFloat
== prelude
use core::cmp::Ordering;
// assumed: FixedBitSet (crate fixedbitset) is a set of numbers
#[verifier::external_body]
pub struct FixedBitSet { b: () }
impl FixedBitSet {
    pub uninterp spec fn view(&self) -> Set<nat>;
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Set::<nat>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, i: usize) -> (r: bool)
        ensures r == self@.contains(i as nat)
    { unimplemented!() }
    #[verifier::external_body]
    fn union_with(&mut self, o: &FixedBitSet)
        ensures final(self)@ == old(self)@.union(o@)
    { unimplemented!() }
}
impl Clone for FixedBitSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@
    { unimplemented!() }
}
#[verifier::external_body]
pub struct DB { d: () }
#[verifier::external_body]
pub struct PathBuf { p: () }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { v: Vec<T> }
== take struct GridStore
== text
/// Borrow<GridStore>, read as: always gives the same store
pub trait HasStore: Sized {
    spec fn gs(&self) -> GridStore;
    fn borrow(&self) -> (r: &GridStore)
        ensures *r == self.gs();
}
// ---- assumed: OrderedFloat orders finite numbers as the reals they are (crate ordered_float) -------------------------------
pub struct OrderedFloat(pub f64);
impl Clone for OrderedFloat { fn clone(&self) -> (r: Self) ensures r == *self { OrderedFloat(self.0) } }
impl Copy for OrderedFloat {}
pub open spec fn num(x: OrderedFloat) -> real { val(x.0) }
pub open spec fn by_num(a: OrderedFloat, b: OrderedFloat) -> Ordering { if num(a) < num(b) { Ordering::Less } else if num(a) == num(b) { Ordering::Equal } else { Ordering::Greater } }
impl PartialEq for OrderedFloat {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl PartialOrd for OrderedFloat {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() }
}
impl PartialEqSpecImpl for OrderedFloat {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { fin(self.0) && fin(o.0) && num(*self) == num(*o) }
}
impl PartialOrdSpecImpl for OrderedFloat {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { if fin(self.0) && fin(o.0) { Some(by_num(*self, *o)) } else { None } }
}
pub assume_specification<'a, T: Copy>[ <Option<&'a T>>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None::<T> },
;
spec fn top() -> real { 1000000000000000000000000000000real }
#[verifier::external_body]
fn f64_max() -> (r: f64)
    ensures fin(r), val(r) > top()
{ unimplemented!() }
// ---- assumed: HashMap of std, keys told apart as numbers -----------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { t: Vec<(K, V)> }
impl<V> HashMap<OrderedFloat, V> {
    pub uninterp spec fn view(&self) -> Map<real, V>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Map::<real, V>::empty()
    { unimplemented!() }
    fn entry(&mut self, k: OrderedFloat) -> (r: Slot<'_, V>)
        ensures r.k == k, *r.m == *old(self), *final(r.m) == *final(self),
    { Slot { m: self, k } }
    #[verifier::external_body]
    fn get(&self, k: &OrderedFloat) -> (r: Option<&V>)
        ensures r.is_some() == self@.dom().contains(num(*k)), r matches Some(v) ==> *v == self@[num(*k)]
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &OrderedFloat) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(num(*k)), r.is_some() == old(self)@.dom().contains(num(*k)), r matches Some(o) ==> o == old(self)@[num(*k)],
    { unimplemented!() }
    #[verifier::external_body]
    fn keys(&self) -> (r: Keys<'_>)
        ensures r.nums() == self@.dom()
    { unimplemented!() }
}
struct Slot<'a, V> { m: &'a mut HashMap<OrderedFloat, V>, k: OrderedFloat }
impl<'a, V> Slot<'a, V> {
    #[verifier::external_body]
    fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self.m)@.dom().contains(num(self.k)) { old(self.m)@[num(self.k)] } else { v }), final(self.m)@ == old(self.m)@.insert(num(self.k), *final(r)),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Keys<'a> { k: &'a () }
impl<'a> Keys<'a> {
    uninterp spec fn nums(&self) -> Set<real>;
    #[verifier::external_body]
    fn min(self) -> (r: Option<&'a OrderedFloat>)
        ensures
            r.is_none() == (self.nums().len() == 0),
            r matches Some(m) ==> fin(m.0) && self.nums().contains(num(*m)) && forall|x: real| #[trigger] self.nums().contains(x) ==> num(*m) <= x,
    { unimplemented!() }
    #[verifier::external_body]
    fn max(self) -> (r: Option<&'a OrderedFloat>)
        ensures
            r.is_none() == (self.nums().len() == 0),
            r matches Some(m) ==> fin(m.0) && self.nums().contains(num(*m)) && forall|x: real| #[trigger] self.nums().contains(x) ==> num(*m) >= x,
    { unimplemented!() }
}
// ---- assumed: Arena (crate generational_arena) is a map under indexes it has never given out before -------------------------
#[verifier::external_body]
pub struct ArenaIndex { i: () }
impl Clone for ArenaIndex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ArenaIndex {}
#[verifier::external_body]
#[verifier::accept_recursive_types(N)]
pub struct Arena<N> { v: Vec<N> }
impl<N> Arena<N> {
    pub uninterp spec fn view(&self) -> Map<ArenaIndex, N>;
    pub uninterp spec fn issued(&self) -> Set<ArenaIndex>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Map::<ArenaIndex, N>::empty(), r.issued() == Set::<ArenaIndex>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, n: N) -> (r: ArenaIndex)
        ensures !old(self).issued().contains(r), final(self).issued() == old(self).issued().insert(r), final(self)@ == old(self)@.insert(r, n), final(self)@.dom().len() <= usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, i: ArenaIndex) -> (r: Option<N>)
        ensures final(self).issued() == old(self).issued(), final(self)@ == old(self)@.remove(i)
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, i: ArenaIndex) -> (r: Option<&N>)
        ensures r.is_some() == self@.dom().contains(i), r matches Some(n) ==> *n == self@[i]
    { unimplemented!() }
}
== source common.rs
== take enum MatchPhrase
== take struct MatchKey
== take struct MatchKeyWithId
== take struct PhrasematchSubquery
== source stackable.rs
== take struct StackableNode
== take const LEAF_SOFT_MAX
== take struct ArenaManager
== text
// ---- what the arena keeps ---------------------------------------------------------------------------------------------------
spec fn relev<T: HasStore>(n: StackableNode<T>) -> real { val(n.max_relev) }
spec fn is_leaf<T: HasStore>(n: StackableNode<T>) -> bool { n.children@.len() == 0 }
spec fn usable(w: f64) -> bool { fin(w) && -top() <= val(w) <= top() }
spec fn leaves<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>) -> Set<ArenaIndex> { m.dom().filter(|i: ArenaIndex| is_leaf(m[i])) }
spec fn leaves_at<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, r: real) -> Set<ArenaIndex> { m.dom().filter(|i: ArenaIndex| is_leaf(m[i]) && relev(m[i]) == r) }
/// the nodes of one relevance, and how many of them are leaves
spec fn bucket_ok<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, r: real, b: (usize, Vec<ArenaIndex>)) -> bool {
    &&& forall|i: ArenaIndex| #[trigger] b.1@.contains(i) <==> m.dom().contains(i) && relev(m[i]) == r
    &&& b.0 == leaves_at(m, r).len()
    &&& b.0 >= 1
}
impl<'a, T: HasStore> ArenaManager<'a, T> {
    spec fn nodes(&self) -> Map<ArenaIndex, StackableNode<'a, T>> { self.arena@ }
    spec fn full(&self) -> bool { self.total_leaves >= self.soft_max }
    spec fn least(&self) -> real { num(self.min_relev) }
    /// some node has this relevance
    spec fn holds_relev(&self, r: real) -> bool { self.relev_map@.dom().contains(r) }
    spec fn inv(&self) -> bool {
        &&& self.soft_max > 0
        &&& fin(self.min_relev.0)
        &&& forall|i: ArenaIndex| #[trigger] self.nodes().dom().contains(i) ==> self.arena.issued().contains(i) && usable(self.nodes()[i].max_relev) && self.relev_map@.dom().contains(relev(self.nodes()[i]))
        &&& forall|r: real| #[trigger] self.relev_map@.dom().contains(r) ==> bucket_ok(self.nodes(), r, self.relev_map@[r]) && self.least() <= r <= top()
        &&& self.relev_map@.dom().len() > 0 ==> self.relev_map@.dom().contains(self.least())
        &&& self.relev_map@.dom().len() == 0 ==> self.least() > top()
        &&& self.total_leaves == leaves(self.nodes()).len()
    }
    /// what became of a when nodes were added: only nodes less relevant than all kept were dropped, and only from a full arena
    spec fn grew(a: Self, b: Self) -> bool {
        &&& b.soft_max == a.soft_max
        &&& forall|i: ArenaIndex| #[trigger] a.arena.issued().contains(i) ==> b.arena.issued().contains(i) && (b.nodes().dom().contains(i) ==> a.nodes().dom().contains(i) && b.nodes()[i] == a.nodes()[i])
        &&& forall|i: ArenaIndex| #[trigger] a.nodes().dom().contains(i) ==> b.nodes().dom().contains(i) || b.full() && relev(a.nodes()[i]) < b.least()
        &&& forall|r: real| #[trigger] a.holds_relev(r) ==> b.holds_relev(r) || b.full() && r < b.least()
        &&& a.full() ==> b.full() && a.least() <= b.least()
    }
}
proof fn without_len<A>(s: Set<A>, t: Set<A>)
    requires t.subset_of(s),
    ensures s.difference(t).len() + t.len() == s.len(),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(t =~= Set::empty());
        assert(s.difference(t) =~= s);
    } else {
        let x = t.choose();
        without_len(s.remove(x), t.remove(x));
        assert(s.remove(x).difference(t.remove(x)) =~= s.difference(t));
    }
}
proof fn put_node<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, i: ArenaIndex, n: StackableNode<T>)
    requires !m.dom().contains(i),
    ensures
        leaves(m.insert(i, n)).len() == leaves(m).len() + if is_leaf(n) { 1int } else { 0 },
        forall|r: real| #[trigger] leaves_at(m.insert(i, n), r).len() == leaves_at(m, r).len() + if is_leaf(n) && r == relev(n) { 1int } else { 0 },
        leaves(m.insert(i, n)).len() <= m.insert(i, n).dom().len(),
        forall|r: real| #[trigger] leaves_at(m.insert(i, n), r).len() <= m.insert(i, n).dom().len(),
{
    let k = m.insert(i, n);
    if is_leaf(n) { assert(leaves(k) =~= leaves(m).insert(i)); } else { assert(leaves(k) =~= leaves(m)); }
    assert forall|r: real| #[trigger] leaves_at(k, r).len() == leaves_at(m, r).len() + if is_leaf(n) && r == relev(n) { 1int } else { 0 } by {
        if is_leaf(n) && r == relev(n) { assert(leaves_at(k, r) =~= leaves_at(m, r).insert(i)); } else { assert(leaves_at(k, r) =~= leaves_at(m, r)); }
    }
    without_len(k.dom(), leaves(k));
    assert forall|r: real| #[trigger] leaves_at(k, r).len() <= k.dom().len() by { without_len(k.dom(), leaves_at(k, r)); }
}
/// the same for whatever index the arena gives out
proof fn put_any<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, n: StackableNode<T>)
    ensures
        forall|i: ArenaIndex| !m.dom().contains(i) ==> leaves(#[trigger] m.insert(i, n)).len() == leaves(m).len() + (if is_leaf(n) { 1int } else { 0 }) && leaves(m.insert(i, n)).len() <= m.insert(i, n).dom().len(),
        forall|i: ArenaIndex, r: real| !m.dom().contains(i) ==> #[trigger] leaves_at(m.insert(i, n), r).len() == leaves_at(m, r).len() + (if is_leaf(n) && r == relev(n) { 1int } else { 0 }) && leaves_at(m.insert(i, n), r).len() <= leaves(m.insert(i, n)).len(),
        forall|r: real| #[trigger] leaves_at(m, r).len() <= leaves(m).len(),
        forall|r: real| !(exists|i: ArenaIndex| m.dom().contains(i) && relev(#[trigger] m[i]) == r) ==> #[trigger] leaves_at(m, r).len() == 0,
{
    assert forall|r: real| #[trigger] leaves_at(m, r).len() <= leaves(m).len() by { without_len(leaves(m), leaves_at(m, r)); }
    assert forall|r: real| !(exists|i: ArenaIndex| m.dom().contains(i) && relev(#[trigger] m[i]) == r) implies #[trigger] leaves_at(m, r).len() == 0 by { assert(leaves_at(m, r) =~= Set::empty()); }
    assert forall|i: ArenaIndex| !m.dom().contains(i) implies leaves(#[trigger] m.insert(i, n)).len() == leaves(m).len() + (if is_leaf(n) { 1int } else { 0 }) && leaves(m.insert(i, n)).len() <= m.insert(i, n).dom().len() by { put_node(m, i, n); }
    assert forall|i: ArenaIndex, r: real| !m.dom().contains(i) implies #[trigger] leaves_at(m.insert(i, n), r).len() == leaves_at(m, r).len() + (if is_leaf(n) && r == relev(n) { 1int } else { 0 }) && leaves_at(m.insert(i, n), r).len() <= leaves(m.insert(i, n)).len() by { put_node(m, i, n); without_len(leaves(m.insert(i, n)), leaves_at(m.insert(i, n), r)); }
}
proof fn pushed()
    ensures forall|s: Seq<ArenaIndex>, i: ArenaIndex, j: ArenaIndex| #[trigger] s.push(i).contains(j) <==> s.contains(j) || i == j,
{
    assert forall|s: Seq<ArenaIndex>, i: ArenaIndex, j: ArenaIndex| #[trigger] s.push(i).contains(j) <==> s.contains(j) || i == j by {
        let t = s.push(i);
        if s.contains(j) { let k = s.index_of(j); assert(t[k] == j); }
        if i == j { assert(t[s.len() as int] == j); }
        if t.contains(j) && i != j { let k = t.index_of(j); assert(s[k] == j); }
    }
}
/// what is left when the first k of a list are dropped
spec fn without<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, l: Seq<ArenaIndex>, k: int) -> Map<ArenaIndex, StackableNode<T>> {
    m.restrict(m.dom().filter(|i: ArenaIndex| !l.take(k).contains(i)))
}
proof fn without_one<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, l: Seq<ArenaIndex>, k: int)
    requires 0 <= k < l.len(),
    ensures without(m, l, k + 1) == without(m, l, k).remove(l[k]),
{
    pushed();
    assert(l.take(k + 1) =~= l.take(k).push(l[k]));
    assert(without(m, l, k + 1) =~= without(m, l, k).remove(l[k]));
}
/// the nodes of one relevance are dropped
spec fn dropped<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, r: real) -> Map<ArenaIndex, StackableNode<T>> {
    m.restrict(m.dom().filter(|i: ArenaIndex| relev(m[i]) != r))
}
proof fn drop_nodes<T: HasStore>(m: Map<ArenaIndex, StackableNode<T>>, r: real)
    ensures
        leaves(dropped(m, r)).len() + leaves_at(m, r).len() == leaves(m).len(),
        forall|q: real| q != r ==> #[trigger] leaves_at(dropped(m, r), q) == leaves_at(m, q),
{
    let k = dropped(m, r);
    without_len(leaves(m), leaves_at(m, r));
    assert(leaves(k) =~= leaves(m).difference(leaves_at(m, r)));
    assert forall|q: real| q != r implies #[trigger] leaves_at(k, q) == leaves_at(m, q) by { assert(leaves_at(k, q) =~= leaves_at(m, q)); }
}
== take impl ArenaManager | new is_full add cull_min get
== fn ArenaManager::new
-- ret r
ensures r.inv(), r.nodes() == Map::<ArenaIndex, StackableNode<T>>::empty(), r.arena.issued() == Set::<ArenaIndex>::empty(), r.total_leaves == 0, r.soft_max == 2000,
-- start
proof { assert(leaves(Map::<ArenaIndex, StackableNode<'a, T>>::empty()) =~= Set::empty()); }
== fn ArenaManager::is_full
-- ret r
ensures r == self.full(),
== fn ArenaManager::get
-- ret r
ensures r.is_some() == self.nodes().dom().contains(index), r matches Some(n) ==> *n == self.nodes()[index],
== fn ArenaManager::add
-- ret r
requires
    old(self).inv(), usable(node.max_relev),
    // a node with children has the relevance of a leaf
    !is_leaf(node) ==> old(self).holds_relev(relev(node)),
ensures
    final(self).inv(),
    ArenaManager::grew(*old(self), *final(self)),
    r.is_none() ==> *final(self) == *old(self) && old(self).full() && relev(node) < old(self).least(),
    r matches Some(i) ==> final(self).arena.issued() == old(self).arena.issued().insert(i) && !old(self).arena.issued().contains(i) && final(self).nodes().dom().contains(i) && final(self).nodes()[i] == node && final(self).holds_relev(relev(node)),
    // nothing is dropped unless enough leaves are left without it
    r.is_some() ==> final(self).total_leaves == old(self).total_leaves + (if is_leaf(node) { 1int } else { 0 }) || final(self).full(),
    r.is_some() && old(self).total_leaves + (if is_leaf(node) { 1int } else { 0 }) <= old(self).soft_max ==> final(self).nodes().dom() == old(self).nodes().dom().insert(r.unwrap()) && final(self).total_leaves == old(self).total_leaves + (if is_leaf(node) { 1int } else { 0 }),
-- start
let ghost m0 = self.nodes();
let ghost n = node;
proof { put_any(m0, n); pushed(); }
== fn ArenaManager::cull_min
requires
    old(self).inv(), old(self).relev_map@.dom().contains(old(self).least()),
    old(self).total_leaves - old(self).relev_map@[old(self).least()].0 >= old(self).soft_max,
ensures
    final(self).inv(), final(self).full(), final(self).soft_max == old(self).soft_max,
    final(self).arena.issued() == old(self).arena.issued(),
    final(self).nodes() == dropped(old(self).nodes(), old(self).least()),
    final(self).relev_map@ == old(self).relev_map@.remove(old(self).least()),
    final(self).least() > old(self).least(),
-- start
let ghost m0 = self.nodes();
let ghost low = self.least();
proof {
    drop_nodes(m0, low);
    put_any(m0, arbitrary());
    let l = self.relev_map@[low].1@;
    assert(l.take(l.len() as int) =~= l);
    assert(without(m0, l, 0) =~= m0);
    assert(without(m0, l, l.len() as int) =~= dropped(m0, low));
}
-- loop 0 for iter=it
invariant
    self.soft_max == old(self).soft_max, self.min_relev == old(self).min_relev,
    self.arena.issued() == old(self).arena.issued(),
    self.relev_map@ == old(self).relev_map@.remove(low),
    self.total_leaves == old(self).total_leaves - old(self).relev_map@[low].0,
    it.seq() == old(self).relev_map@[low].1@,
    self.nodes() == without(m0, it.seq(), it.index@),
-- loop 0 start
proof { without_one(m0, it.seq(), it.index@); }
