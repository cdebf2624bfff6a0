# C19: what coalescing a tree of stacks does at each of its nodes
== import single
== import piles
== import nearby
== prelude
use std::sync::Arc;
use vstd::multiset::*;
use vstd::arithmetic::div_mod::lemma_div_denominator;
use vstd::seq_lib::to_multiset_contains;
== subst
T: Borrow<GridStore> + Clone + Debug + Send + Sync
=>
T: HasStore
== subst
T: Borrow<GridStore> + Clone + Debug
=>
T: HasStore
== subst
T: Borrow<GridStore> + Clone
=>
T: HasStore
== subst
MinMaxHeap
=>
Heap
== subst
FxHashSet::default()
=>
HashSet::new()
== subst-re!
([\w.]*relev\w*) ([-+])= ([\w.\[\]]+)
=>
\1 = \1 \2 \3
== block!
for (\w+) in contexts\.iter\(\) \{
=>
for ci in 0..contexts.len()
            invariant
                forall|i: int| 0 <= i < contexts@.len() ==> (#[trigger] contexts@[i]).entries@.len() > 0,
                builder.pts().len() == ci, forall|i: int| 0 <= i < ci ==> led_by(contexts@[i], #[trigger] builder.pts()[i]),
        {
            let \1 = &contexts[ci];
            BODY
        }
== block!
for (\w+) in coalesced \{
=>
let ghost singles = coalesced.seq();
                    let got = listing_of(coalesced);
                    for \1 in it: got
                        invariant
                            it.seq() == singles, step_contexts.max_size == 40, step_contexts@.len() <= 40,
                            keyed_as(key_step, t@, o@, ki, kk), key_step.is_single, tree_ok(t@, o@), one_each(singles, all, key_step.subquery, key_step.key_id),
                            answers(all, key_step.subquery.store.gs(), key_step.key, key_step.match_opts, 80),
                            all_reported(step_contexts@, t@, o@),
                    {
                        let ghost (q0, e0) = (step_contexts@, \1);
                        proof { alone(\1, it.index@ as int, singles, all, key_step, t@, o@, ki, kk); }
                        BODY
                        proof { if reported(e0, t@, o@) { still(q0, step_contexts@, e0, 40, t@, o@); } }
                    }
== subst-re!
let coalesced = tree_coalesce_single\(
=>
let ghost all = grids.seq();
                    let coalesced = tree_coalesce_single(
== subst-re!
Ok\(KeyFetchResult::Multi\(\(key_step\.key_id, (\w+)\)\)\)
=>
proof { if all_given(\1@, key_step.subquery, key_at(t@, ki, kk), o@) { same_key(\1@, key_step, t@, o@, ki, kk); } }
                    Ok(KeyFetchResult::Multi((key_step.key_id, \1)))
== inline!
key_step\s*\.subquery\s*\.store\s*\.borrow\(\)\s*\.streaming_get_matching\(([^()]*)\)\?\s*\.take\((\w+)\)\s*\.filter\(\|(\w+)\| \{
=>
Some_({
                        let got = key_step.subquery.store.borrow().streaming_get_matching(\1)?;
                        let ghost all = got.seq();
                        let got = taken(got, \2);
                        let mut out: Vec<MatchEntry> = Vec::new();
                        for g in it: got
                            invariant
                                it.seq().len() <= all.len(), it.seq() == all.take(it.seq().len() as int),
                                keyed_as(key_step, t@, o@, ki, kk), tree_ok(t@, o@),
                                answers(all, key_step.subquery.store.gs(), key_step.key, key_step.match_opts, 100000),
                                all_given(out@, key_step.subquery, key_at(t@, ki, kk), o@),
                        {
                            let keep = { let \3 = &g; BODY };
                            proof { if 0 <= it.index@ < all.len() && g == all[it.index@] { to_cache(g, it.index@ as int, all, key_step, t@, o@, ki, kk); } }
                            if keep { out.push(g); }
                        }
                        out
                    })
== text
trait AnyOf<A> {
    /// iter().any(..), whatever it says
    fn any_<F: Fn(&A) -> bool>(&self, f: F) -> (r: bool)
        requires forall|a: A| f.requires((&a,));
}
impl<A> AnyOf<A> for Vec<A> {
    #[verifier::external_body]
    fn any_<F: Fn(&A) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
}
impl<K> HashSet<K> {
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Set::<K>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (r: bool)
        ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k)
    { unimplemented!() }
}
// ---- assumed: Arena (crate generational_arena) is a map (unit arena) ---------------------------------------------------------------
#[verifier::external_body]
pub struct ArenaIndex { i: () }
impl Clone for ArenaIndex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ArenaIndex {}
#[verifier::external_body]
#[verifier::accept_recursive_types(N)]
pub struct Arena<N> { v: Vec<N> }
impl<N> Arena<N> {
    pub uninterp spec fn view(&self) -> Map<ArenaIndex, N>;
    #[verifier::external_body]
    fn get(&self, i: ArenaIndex) -> (r: Option<&N>)
        ensures r.is_some() == self@.dom().contains(i), r matches Some(n) ==> *n == self@[i]
    { unimplemented!() }
}
// ---- the queue, by its contract (unit queue): what a push can do to its elements ---------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Elements<A> { v: Vec<A> }
pub struct ConstrainedPriorityQueue<A> { pub max_size: usize, heap: Elements<A> }
/// there is room, or there is not and the worst leaves (which may be the new one)
spec fn offered(a: Multiset<CoalesceContext>, b: Multiset<CoalesceContext>, e: CoalesceContext, max: int) -> bool {
    if a.len() < max { b == a.insert(e) } else { b == a || exists|m: CoalesceContext| a.contains(m) && b == #[trigger] a.remove(m).insert(e) }
}
impl ConstrainedPriorityQueue<CoalesceContext> {
    uninterp spec fn view(&self) -> Multiset<CoalesceContext>;
    #[verifier::external_body]
    fn new(max_size: usize) -> (r: Self)
        ensures r.max_size == max_size, r@ == Multiset::<CoalesceContext>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, e: CoalesceContext) -> (r: bool)
        requires e.entries@.len() > 0, old(self)@.len() <= old(self).max_size,
        ensures
            final(self).max_size == old(self).max_size, final(self)@.len() <= final(self).max_size,
            offered(old(self)@, final(self)@, e, old(self).max_size as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek_min(&self) -> (r: Option<&CoalesceContext>)
        ensures r.is_none() == (self@.len() == 0), r matches Some(m) ==> self@.contains(*m),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek_max(&self) -> (r: Option<&CoalesceContext>)
        ensures r.is_none() == (self@.len() == 0), r matches Some(m) ==> self@.contains(*m),
    { unimplemented!() }
    /// into_iter: all of them, in any order
    #[verifier::external_body]
    fn listed(self) -> (r: Vec<CoalesceContext>)
        ensures r@.to_multiset() == self@,
    { unimplemented!() }
    /// the order of CoalesceContext: relevance, then distance score (then what else is told apart)
    #[verifier::external_body]
    fn into_vec_desc(self) -> (r: Vec<CoalesceContext>)
        ensures r@.to_multiset() == self@, (forall|c: CoalesceContext| #[trigger] self@.contains(c) ==> ctx_ok(c)) ==> descending(r@),
    { unimplemented!() }
}
// ---- assumed: the k-d tree (crate static_bushes) finds what was put in at the point ------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct KDBush<A> { v: Vec<A> }
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct KDBushBuilder<A> { v: Vec<A> }
impl KDBushBuilder<u16> {
    uninterp spec fn pts(&self) -> Seq<[u16; 2]>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r.pts() == Seq::<[u16; 2]>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn add(&mut self, p: &[u16; 2])
        ensures final(self).pts() == old(self).pts().push(*p),
    { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: KDBush<u16>)
        ensures r.pts() == self.pts(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Found { v: Vec<usize> }
impl Found {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<usize>) { unimplemented!() }
}
impl KDBush<u16> {
    uninterp spec fn pts(&self) -> Seq<[u16; 2]>;
    #[verifier::external_body]
    fn exact_as_vec(&self, x: u16, y: u16) -> (r: Vec<usize>)
        ensures forall|k: int| 0 <= k < r@.len() ==> 0 <= #[trigger] r@[k] < self.pts().len() && self.pts()[r@[k] as int][0] == x && self.pts()[r@[k] as int][1] == y,
    { unimplemented!() }
    #[verifier::external_body]
    fn search_range(&self, a: u16, b: u16, c: u16, d: u16) -> (r: Found) { unimplemented!() }
}
// derive(Clone)
impl CoalesceContext {
    #[verifier::external_body]
    fn clone(&self) -> (r: CoalesceContext)
        ensures r == *self,
    { unimplemented!() }
}
== source stackable.rs
== take struct StackableNode
== take struct ArenaManager
== take struct StackableTree
== take impl StackableNode | is_leaf
== fn StackableNode::is_leaf
-- ret r
ensures r == (self.children@.len() == 0),
== take impl ArenaManager | get
== fn ArenaManager::get
-- ret r
ensures r.is_some() == self.arena@.dom().contains(index), r matches Some(n) ==> *n == self.arena@[index],
== source coalesce.rs
== take struct TreeCoalesceState
== take struct CoalesceStep
== take struct KeyFetchStep
== take enum KeyFetchResult
== text
struct Boxes(Vec<[u16; 4]>);
impl Boxes {
    fn collect(self) -> (r: Vec<[u16; 4]>)
        ensures r == self.0
    { self.0 }
}
struct Some_(Vec<MatchEntry>);
impl Some_ {
    fn collect(self) -> (r: Vec<MatchEntry>)
        ensures r == self.0
    { self.0 }
}
/// all that an iterator gives
#[verifier::external_body]
fn listing_of<A>(a: It<A>) -> (r: Vec<A>)
    ensures r@ == a.seq(),
{ unimplemented!() }
// ---- what is claimed --------------------------------------------------------------------------------------------------------------
type Tree<'a, T> = StackableTree<'a, T>;
spec fn nodes<'a, T: HasStore>(t: Tree<'a, T>) -> Map<ArenaIndex, StackableNode<'a, T>> { t.arena.arena@ }
spec fn pm<'a, T: HasStore>(n: StackableNode<'a, T>) -> Pm<T> { *n.phrasematch.unwrap() }
spec fn pm_at<'a, T: HasStore>(t: Tree<'a, T>, i: ArenaIndex) -> Pm<T> { pm(nodes(t)[i]) }
/// the options for a key: for the zoom, and near the point only if that is what the key says
spec fn tuned(o: MatchOpts, o2: MatchOpts, near: bool) -> bool { exists|o1: MatchOpts| #[trigger] retuned(o, o1) && if near { narrowed(o1, o2) } else { o2 == o1 } }
spec fn narrowed(a: MatchOpts, b: MatchOpts) -> bool {
    &&& b.zoom == a.zoom && b.proximity == a.proximity
    &&& a.proximity is None ==> b.bbox == a.bbox
    &&& a.proximity is Some ==> b.bbox is Some && boxed(a.proximity->0, a.zoom, a.bbox, b.bbox->0)
}
/// a stored match of the key of the subquery
spec fn given_at<T: HasStore>(m: MatchEntry, s: Pm<T>, key: MatchKeyWithId, o: MatchOpts, o2: MatchOpts) -> bool {
    &&& tuned(o, o2, key.nearby_only) && o2.zoom == zoom_of(s)
    &&& sane(m) && plausible(read(m)) && matching(s.store.gs(), key.key, o2).count(read(m)) > 0
}
spec fn given<T: HasStore>(m: MatchEntry, s: Pm<T>, key: MatchKeyWithId, o: MatchOpts) -> bool { exists|o2: MatchOpts| #[trigger] given_at(m, s, key, o, o2) }
/// the match of a key of the subquery, weighted
spec fn from_key<T: HasStore>(e: CoalesceEntry, s: Pm<T>, o: MatchOpts, k: int, m: MatchEntry) -> bool {
    0 <= k < s.match_keys@.len() && given(m, s, s.match_keys@[k], o) && entry_of(e, m, s, s.match_keys@[k].id)
}
spec fn from_sub<T: HasStore>(e: CoalesceEntry, s: Pm<T>, o: MatchOpts) -> bool { exists|k: int, m: MatchEntry| #[trigger] from_key(e, s, o, k, m) }
/// from a node up to a child of the root
spec fn on_path<'a, T: HasStore>(t: Tree<'a, T>, is: Seq<ArenaIndex>) -> bool {
    &&& is.len() > 0
    &&& t.root.children@.contains(is.last())
    &&& forall|k: int| 0 <= k < is.len() ==> nodes(t).dom().contains(#[trigger] is[k])
    &&& forall|k: int| 0 <= k < is.len() - 1 ==> nodes(t)[is[k + 1]].children@.contains(#[trigger] is[k])
}
spec fn masks(es: Seq<CoalesceEntry>) -> u32
    decreases es.len(),
{
    if es.len() == 0 { 0u32 } else { es[0].mask | masks(es.drop_first()) }
}
/// no two masks have a bit in common
spec fn disjoint(es: Seq<CoalesceEntry>) -> bool
    decreases es.len(),
{
    es.len() == 0 || disjoint(es.drop_first()) && es[0].mask & masks(es.drop_first()) == 0 && es[0].mask != 0
}
spec fn sum_relev(es: Seq<CoalesceEntry>) -> real
    decreases es.len(),
{
    if es.len() == 0 { 0real } else { val(es[0].grid_entry.relev) + sum_relev(es.drop_first()) }
}
spec fn matched_at<'a, T: HasStore>(e: CoalesceEntry, lead: CoalesceEntry, t: Tree<'a, T>, i: ArenaIndex, i0: ArenaIndex, o: MatchOpts) -> bool {
    &&& from_sub(e, pm_at(t, i), o) && fair_relev(e.grid_entry.relev) && fin(e.scoredist)
    &&& over_xy(lead.grid_entry.x, lead.grid_entry.y, zoom_of(pm_at(t, i0)), e.grid_entry.x, e.grid_entry.y, zoom_of(pm_at(t, i)))
}
/// matches of the subqueries on the path: the first's tile in all others' tiles, no mask bit twice
spec fn heaped<'a, T: HasStore>(es: Seq<CoalesceEntry>, mask: u32, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts) -> bool {
    &&& es.len() == is.len() && es.len() > 0
    &&& forall|k: int| 0 <= k < es.len() ==> matched_at(#[trigger] es[k], es[0], t, is[k], is[0], o)
    &&& disjoint(es) && mask == masks(es) && mask == nodes(t)[is[0]].mask
}
/// the subquery stands by itself: nothing stacks on it
spec fn by_itself<'a, T: HasStore>(t: Tree<'a, T>, is: Seq<ArenaIndex>) -> bool { is.len() == 1 && nodes(t)[is[0]].children@.len() == 0 }
spec fn reported_as<'a, T: HasStore>(c: CoalesceContext, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts) -> bool {
    &&& on_path(t, is) && heaped(c.entries@, c.mask, t, is, o)
    &&& nearly(c.relev, sum_relev(c.entries@) - if out_of_order(c.entries@) && !by_itself(t, is) { 0.01real } else { 0real })
}
spec fn reported<'a, T: HasStore>(c: CoalesceContext, t: Tree<'a, T>, o: MatchOpts) -> bool { exists|is: Seq<ArenaIndex>| #[trigger] reported_as(c, t, is, o) }
spec fn all_reported<'a, T: HasStore>(cs: Multiset<CoalesceContext>, t: Tree<'a, T>, o: MatchOpts) -> bool { forall|c: CoalesceContext| #[trigger] cs.contains(c) ==> reported(c, t, o) }
/// nothing else gets in by a push
proof fn still<'a, T: HasStore>(a: Multiset<CoalesceContext>, b: Multiset<CoalesceContext>, e: CoalesceContext, max: int, t: Tree<'a, T>, o: MatchOpts)
    requires all_reported(a, t, o), reported(e, t, o), offered(a, b, e, max),
    ensures all_reported(b, t, o),
{
    assert forall|c: CoalesceContext| #[trigger] b.contains(c) implies reported(c, t, o) by {
        if c != e && !a.contains(c) { assert(false); }
    }
}
spec fn each_reported<'a, T: HasStore>(cs: Seq<CoalesceContext>, t: Tree<'a, T>, o: MatchOpts) -> bool { forall|i: int| 0 <= i < cs.len() ==> reported(#[trigger] cs[i], t, o) }
// ---- what is asked of the tree -----------------------------------------------------------------------------------------------------
spec fn key_at<'a, T: HasStore>(t: Tree<'a, T>, i: ArenaIndex, k: int) -> MatchKeyWithId { pm_at(t, i).match_keys@[k] }
spec fn has_key<'a, T: HasStore>(t: Tree<'a, T>, i: ArenaIndex, k: int) -> bool { nodes(t).dom().contains(i) && 0 <= k < pm_at(t, i).match_keys@.len() }
spec fn bounds_ok(k: MatchKey) -> bool { k.match_phrase matches MatchPhrase::Range { start, end } ==> start <= end }
spec fn fits_node<T: HasStore>(s: Pm<T>, o: MatchOpts) -> bool {
    &&& sub_ok(s) && val(s.weight) <= 1real && s.mask != 0 && zoom_of(s) <= 16
    &&& forall|o2: MatchOpts, near: bool| #[trigger] tuned(o, o2, near) && o2.zoom == zoom_of(s) ==> ready(s.store.gs(), o2)
    &&& forall|k: int| 0 <= k < s.match_keys@.len() ==> bounds_ok((#[trigger] s.match_keys@[k]).key)
    &&& forall|b: int| 0 <= b < s.store.gs().bboxes@.len() ==> box_at(#[trigger] s.store.gs().bboxes@[b], zoom_of(s))
}
/// a node below one with this mask and zoom
spec fn branch<'a, T: HasStore>(mask: u32, z: u16, n: StackableNode<'a, T>) -> bool { pm(n).mask & mask == 0 && n.mask == pm(n).mask | mask && z <= zoom_of(pm(n)) }
spec fn tree_ok<'a, T: HasStore>(t: Tree<'a, T>, o: MatchOpts) -> bool {
    &&& o.zoom <= 16 && (o.bbox matches Some(b) ==> box_at(b, o.zoom)) && (o.proximity matches Some(p) ==> tile_at(p[0], o.zoom) && tile_at(p[1], o.zoom))
    &&& forall|i: ArenaIndex| #[trigger] nodes(t).dom().contains(i) ==> nodes(t)[i].phrasematch is Some && fits_node(pm_at(t, i), o)
    &&& forall|i: ArenaIndex| #[trigger] t.root.children@.contains(i) && nodes(t).dom().contains(i) ==> branch(0, 0, nodes(t)[i])
    &&& forall|i: ArenaIndex, j: ArenaIndex| nodes(t).dom().contains(i) && #[trigger] nodes(t)[i].children@.contains(j) && nodes(t).dom().contains(j) ==> branch(nodes(t)[i].mask, zoom_of(pm_at(t, i)), nodes(t)[j])
    &&& forall|i: ArenaIndex, k: int, j: ArenaIndex, l: int| #[trigger] has_key(t, i, k) && #[trigger] has_key(t, j, l) && key_at(t, i, k).id == key_at(t, j, l).id ==>
        key_at(t, i, k) == key_at(t, j, l) && pm_at(t, i).store.gs() == pm_at(t, j).store.gs()
}
// ---- on the way there --------------------------------------------------------------------------------------------------------------
spec fn near_sum(r: f64, es: Seq<CoalesceEntry>) -> bool { fin(r) && rabs(val(r) - sum_relev(es)) * 9007199254740992real <= es.len() as real * 45real }
/// combined, without a penalty
spec fn standing<'a, T: HasStore>(c: CoalesceContext, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts) -> bool { heaped(c.entries@, c.mask, t, is, o) && near_sum(c.relev, c.entries@) }
spec fn all_standing<'a, T: HasStore>(cs: Seq<CoalesceContext>, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts) -> bool { forall|i: int| 0 <= i < cs.len() ==> standing(#[trigger] cs[i], t, is, o) }
spec fn led_by(c: CoalesceContext, p: [u16; 2]) -> bool { c.entries@.len() > 0 && p[0] == c.entries@[0].grid_entry.x && p[1] == c.entries@[0].grid_entry.y }
impl TreeCoalesceState {
    spec fn inv(&self) -> bool { self.bush.pts().len() == self.contexts@.len() && forall|i: int| 0 <= i < self.contexts@.len() ==> led_by(self.contexts@[i], #[trigger] self.bush.pts()[i]) }
}
spec fn at_step<'a, T: HasStore>(s: CoalesceStep<'a, T>, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts) -> bool {
    &&& on_path(t, is) && nodes(t)[is[0]] == *s.node
    &&& retuned(o, s.match_opts) && s.match_opts.zoom == zoom_of(pm(*s.node))
    &&& match s.prev_state {
        None => is.len() == 1 && s.prev_zoom == 0,
        Some(st) => is.len() >= 2 && s.prev_zoom == zoom_of(pm_at(t, is[1])) && st.inv() && all_standing(st.contexts@, t, is.drop_first(), o),
    }
}
spec fn step_ok<'a, T: HasStore>(s: CoalesceStep<'a, T>, t: Tree<'a, T>, o: MatchOpts) -> bool { exists|is: Seq<ArenaIndex>| #[trigger] at_step(s, t, is, o) }
spec fn steps_ok<'a, T: HasStore>(ss: Seq<CoalesceStep<'a, T>>, t: Tree<'a, T>, o: MatchOpts) -> bool { forall|i: int| 0 <= i < ss.len() ==> step_ok(#[trigger] ss[i], t, o) }
/// data: matches of the key with this number
spec fn cached<'a, T: HasStore>(data: Seq<MatchEntry>, t: Tree<'a, T>, o: MatchOpts, id: u32) -> bool {
    forall|i: ArenaIndex, k: int, j: int| #[trigger] has_key(t, i, k) && key_at(t, i, k).id == id && 0 <= j < data.len() ==> given(#[trigger] data[j], pm_at(t, i), key_at(t, i, k), o)
}
spec fn cache_ok<'a, T: HasStore>(m: Map<u32, Vec<MatchEntry>>, t: Tree<'a, T>, o: MatchOpts) -> bool { forall|id: u32| #[trigger] m.dom().contains(id) ==> cached(m[id]@, t, o, id) }
spec fn keyed_as<'a, T: HasStore>(q: KeyFetchStep<T>, t: Tree<'a, T>, o: MatchOpts, i: ArenaIndex, k: int) -> bool {
    &&& has_key(t, i, k) && q.subquery == pm_at(t, i) && q.key == key_at(t, i, k).key && q.key_id == key_at(t, i, k).id
    &&& tuned(o, q.match_opts, key_at(t, i, k).nearby_only) && q.match_opts.zoom == zoom_of(q.subquery)
    &&& q.is_single ==> t.root.children@.contains(i) && nodes(t)[i].children@.len() == 0
}
spec fn sought<'a, T: HasStore>(q: KeyFetchStep<T>, t: Tree<'a, T>, o: MatchOpts) -> bool { exists|i: ArenaIndex, k: int| #[trigger] keyed_as(q, t, o, i, k) }
spec fn fetched<'a, T: HasStore>(r: KeyFetchResult, t: Tree<'a, T>, o: MatchOpts) -> bool {
    match r {
        KeyFetchResult::Single(q) => all_reported(q@, t, o),
        KeyFetchResult::Multi(d) => cached(d.1@, t, o, d.0),
    }
}
spec fn all_given<T: HasStore>(data: Seq<MatchEntry>, s: Pm<T>, key: MatchKeyWithId, o: MatchOpts) -> bool { forall|j: int| 0 <= j < data.len() ==> given(#[trigger] data[j], s, key, o) }
/// what a key's lookup gives is a match of the key
proof fn to_cache<'a, T: HasStore>(m: MatchEntry, n: int, all: Seq<MatchEntry>, q: KeyFetchStep<T>, t: Tree<'a, T>, o: MatchOpts, i: ArenaIndex, k: int)
    requires keyed_as(q, t, o, i, k), tree_ok(t, o), answers(all, q.subquery.store.gs(), q.key, q.match_opts, 100000) || answers(all, q.subquery.store.gs(), q.key, q.match_opts, 80), 0 <= n < all.len(), m == all[n],
    ensures given(m, q.subquery, key_at(t, i, k), o), sane(m), plausible(read(m)),
{
    let max = if answers(all, q.subquery.store.gs(), q.key, q.match_opts, 80) { 80 } else { 100000int };
    assert(fits_node(pm_at(t, i), o));
    answered_by(all, n, q.subquery, q.key, q.match_opts, max);
    assert(given_at(m, q.subquery, key_at(t, i, k), o, q.match_opts));
}
/// a match of a child of the root, by itself
proof fn first_one<'a, T: HasStore>(e: CoalesceEntry, t: Tree<'a, T>, i: ArenaIndex, o: MatchOpts)
    requires tree_ok(t, o), nodes(t).dom().contains(i), t.root.children@.contains(i), from_sub(e, pm_at(t, i), o),
    ensures
        on_path(t, seq![i]), heaped(seq![e], pm_at(t, i).mask, t, seq![i], o), fair_relev(e.grid_entry.relev), fin(e.scoredist),
        near_sum(e.grid_entry.relev, seq![e]), sum_relev(seq![e]) == val(e.grid_entry.relev),
{
    let s = pm_at(t, i);
    assert(fits_node(s, o) && branch(0, 0, nodes(t)[i]));
    let (k, m) = choose|k: int, m: MatchEntry| #[trigger] from_key(e, s, o, k, m);
    let o2 = choose|o2: MatchOpts| #[trigger] given_at(m, s, s.match_keys@[k], o, o2);
    weighed_fair(m, s);
    lemma2_to64();
    let (es, is) = (seq![e], seq![i]);
    assert(e.grid_entry.x as int / 1 == e.grid_entry.x && e.grid_entry.y as int / 1 == e.grid_entry.y);
    assert(matched_at(e, e, t, i, i, o));
    let d = es.drop_first();
    assert(d.len() == 0);
    assert(masks(d) == 0 && disjoint(d) && sum_relev(d) == 0real);
    let mk = s.mask;
    assert(mk | 0u32 == mk && mk & 0u32 == 0) by (bit_vector);
}
proof fn alone<'a, T: HasStore>(c: CoalesceContext, n: int, cs: Seq<CoalesceContext>, all: Seq<MatchEntry>, q: KeyFetchStep<T>, t: Tree<'a, T>, o: MatchOpts, i: ArenaIndex, k: int)
    requires
        keyed_as(q, t, o, i, k), q.is_single, tree_ok(t, o), one_each(cs, all, q.subquery, q.key_id), answers(all, q.subquery.store.gs(), q.key, q.match_opts, 80), 0 <= n < cs.len(), c == cs[n],
    ensures reported(c, t, o), c.entries@.len() > 0,
{
    let e = c.entries@[0];
    assert(lone(cs[n], e) && of_match(e, all, q.subquery, q.key_id, all.len() as int));
    let j = choose|j: int| 0 <= j < all.len() && #[trigger] entry_of(e, all[j], q.subquery, q.key_id);
    to_cache(all[j], j, all, q, t, o, i, k);
    assert(from_key(e, pm_at(t, i), o, k, all[j]));
    first_one(e, t, i, o);
    let is = seq![i];
    assert(c.entries@ =~= seq![e]);
    assert(reported_as(c, t, is, o));
}
proof fn same_key<'a, T: HasStore>(data: Seq<MatchEntry>, q: KeyFetchStep<T>, t: Tree<'a, T>, o: MatchOpts, i: ArenaIndex, k: int)
    requires keyed_as(q, t, o, i, k), tree_ok(t, o), all_given(data, q.subquery, key_at(t, i, k), o),
    ensures cached(data, t, o, q.key_id),
{
    assert forall|i2: ArenaIndex, k2: int, j: int| #[trigger] has_key(t, i2, k2) && key_at(t, i2, k2).id == q.key_id && 0 <= j < data.len() implies given(#[trigger] data[j], pm_at(t, i2), key_at(t, i2, k2), o) by {
        assert(has_key(t, i, k));
        assert(given(data[j], q.subquery, key_at(t, i, k), o));
        let o2 = choose|o2: MatchOpts| #[trigger] given_at(data[j], q.subquery, key_at(t, i, k), o, o2);
        assert(given_at(data[j], pm_at(t, i2), key_at(t, i2, k2), o, o2));
    }
}
== floats tree_literals
== text
proof fn penny()
    ensures fin(0.01f64), rabs(val(0.01f64) - 0.01real) <= 0.0001real, fin(0.0f64), val(0.0f64) == 0real,
{
    tree_literals(); fl_int(0);
    assert(0int as real == 0real);
}
== take impl TreeCoalesceState
== fn TreeCoalesceState::new
-- ret r
requires forall|i: int| 0 <= i < contexts@.len() ==> (#[trigger] contexts@[i]).entries@.len() > 0,
ensures r.contexts == contexts, r.inv(),
== take impl CoalesceStep | new
== fn CoalesceStep::new
-- ret r
requires
    node.phrasematch is Some, zoom_of(pm(*node)) <= 16,
    match_opts.zoom <= 16,
    match_opts.bbox matches Some(b) ==> box_at(b, match_opts.zoom),
    match_opts.proximity matches Some(p) ==> tile_at(p[0], match_opts.zoom) && tile_at(p[1], match_opts.zoom),
ensures
    r.node == node, r.prev_state == prev_state, r.prev_zoom == prev_zoom, retuned(*match_opts, r.match_opts), r.match_opts.zoom == zoom_of(pm(*node)),
-- start
let ghost o = *match_opts;
== take fn penalize_multi_context
== fn penalize_multi_context
requires
    old(context).entries@.len() > 0,
ensures
    final(context).entries == old(context).entries, final(context).mask == old(context).mask,
    final(context).relev == if out_of_order(old(context).entries@) { minus(old(context).relev, 0.01f64) } else { old(context).relev },
-- start
proof { broadcast use {fl_sub, fl_specs}; assert(old(context).relev.sub_req(0.01f64)); assert(<f64 as SubSpec<f64>>::obeys_sub_spec()); }
== closure-exported tree_coalesce \.map\(\|key_step\| \{
fn fetch_key<'a, T: HasStore>(key_step: KeyFetchStep<T>, t: Ghost<Tree<'a, T>>, o: Ghost<MatchOpts>) -> (r: Result<KeyFetchResult, Error>)
    requires
        tree_ok(t@, o@), sought(key_step, t@, o@),
    ensures
        r matches Ok(f) ==> fetched(f, t@, o@),
BODY
-- start
let ghost (ki, kk) = choose|i: ArenaIndex, k: int| #[trigger] keyed_as(key_step, t@, o@, i, k);
proof { assert(fits_node(pm_at(t@, ki), o@)); }
== text
// ---- phase 2: what is stacked on what ---------------------------------------------------------------------------------------------
proof fn few_masks(es: Seq<CoalesceEntry>)
    requires disjoint(es),
    ensures es.len() <= bits(masks(es)), bits(masks(es)) <= 32,
    decreases es.len(),
{
    lemma2_to64();
    bits_max(masks(es), 32);
    bits_pos(masks(es));
    if es.len() > 0 {
        let d = es.drop_first();
        let (a, b) = (es[0].mask, masks(d));
        few_masks(d); bits_add(a, b); bits_pos(a);
    }
}
proof fn sum_bounds(es: Seq<CoalesceEntry>)
    requires forall|k: int| 0 <= k < es.len() ==> fair_relev((#[trigger] es[k]).grid_entry.relev),
    ensures 0real <= sum_relev(es) <= es.len() as real,
    decreases es.len(),
{
    if es.len() > 0 { let d = es.drop_first(); assert forall|k: int| 0 <= k < d.len() implies fair_relev((#[trigger] d[k]).grid_entry.relev) by { assert(d[k] == es[k + 1]); } sum_bounds(d); assert(fair_relev(es[0].grid_entry.relev)); }
}
/// a match of the step's subquery, weighted
proof fn heads_up<'a, T: HasStore>(e: CoalesceEntry, m: MatchEntry, t: Tree<'a, T>, i: ArenaIndex, k: int, o: MatchOpts)
    requires tree_ok(t, o), nodes(t).dom().contains(i), 0 <= k < pm_at(t, i).match_keys@.len(), given(m, pm_at(t, i), key_at(t, i, k), o), entry_of(e, m, pm_at(t, i), key_at(t, i, k).id),
    ensures from_sub(e, pm_at(t, i), o), fair_relev(e.grid_entry.relev), fin(e.scoredist), e.mask == pm_at(t, i).mask, e.mask != 0,
{
    let s = pm_at(t, i);
    assert(fits_node(s, o));
    let o2 = choose|o2: MatchOpts| #[trigger] given_at(m, s, key_at(t, i, k), o, o2);
    weighed_fair(m, s);
    assert(from_key(e, s, o, k, m));
}
proof fn seen_ok<T: HasStore>(m: MatchEntry, s: Pm<T>, key: MatchKeyWithId, o: MatchOpts)
    requires given(m, s, key, o),
    ensures sane(m), plausible(read(m)),
{
    let o2 = choose|o2: MatchOpts| #[trigger] given_at(m, s, key, o, o2);
}
/// the combination is of a tile (of zoom z2) that has the match's tile (of zoom z) in it
spec fn over(p: CoalesceContext, e: CoalesceEntry, z: u16, z2: u16) -> bool {
    p.entries@.len() > 0 && over_xy(e.grid_entry.x, e.grid_entry.y, z, p.entries@[0].grid_entry.x, p.entries@[0].grid_entry.y, z2)
}
spec fn put_on(c: CoalesceContext, p: CoalesceContext, e: CoalesceEntry) -> bool {
    &&& c.entries@ == p.entries@.insert(0, e)
    &&& c.mask == p.mask | e.mask || c.mask == e.mask | p.mask
    &&& c.relev == plus(p.relev, e.grid_entry.relev) || c.relev == plus(e.grid_entry.relev, p.relev)
}
proof fn grown<'a, T: HasStore>(p: CoalesceContext, e: CoalesceEntry, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts)
    requires
        tree_ok(t, o), on_path(t, is), is.len() >= 2, standing(p, t, is.drop_first(), o),
        from_sub(e, pm_at(t, is[0]), o), fair_relev(e.grid_entry.relev), fin(e.scoredist), e.mask == pm_at(t, is[0]).mask, e.mask != 0,
        over(p, e, zoom_of(pm_at(t, is[0])), zoom_of(pm_at(t, is[1]))),
    ensures forall|c: CoalesceContext| put_on(c, p, e) ==> #[trigger] standing(c, t, is, o),
{
    assert forall|c: CoalesceContext| put_on(c, p, e) implies #[trigger] standing(c, t, is, o) by { grow_by(p, c, e, t, is, o); }
}
/// nothing below it
proof fn begins<'a, T: HasStore>(e: CoalesceEntry, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts)
    requires tree_ok(t, o), on_path(t, is), is.len() == 1, from_sub(e, pm_at(t, is[0]), o),
    ensures forall|c: CoalesceContext| c.entries@ == seq![e] && c.mask == e.mask && c.relev == e.grid_entry.relev && e.mask == pm_at(t, is[0]).mask ==> #[trigger] standing(c, t, is, o),
{
    assert(nodes(t).dom().contains(is[0]));
    first_one(e, t, is[0], o);
    assert(is =~= seq![is[0]]);
    assert(branch(0, 0, nodes(t)[is[0]]));
    let m = pm_at(t, is[0]).mask;
    assert(m | 0u32 == m) by (bit_vector);
}
/// a match whose tile is in a combination's tile, on top of that combination
proof fn grow_by<'a, T: HasStore>(p: CoalesceContext, c: CoalesceContext, e: CoalesceEntry, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts)
    requires
        tree_ok(t, o), on_path(t, is), is.len() >= 2, standing(p, t, is.drop_first(), o),
        from_sub(e, pm_at(t, is[0]), o), fair_relev(e.grid_entry.relev), fin(e.scoredist), e.mask == pm_at(t, is[0]).mask, e.mask != 0,
        over(p, e, zoom_of(pm_at(t, is[0])), zoom_of(pm_at(t, is[1]))), put_on(c, p, e),
    ensures standing(c, t, is, o),
{
    let (es, up, ns, z0, z1) = (p.entries@, is.drop_first(), c.entries@, zoom_of(pm_at(t, is[0])), zoom_of(pm_at(t, is[1])));
    assert(up[0] == is[1]);
    assert(matched_at(es[0], es[0], t, up[0], up[0], o));
    assert(ns.drop_first() =~= es);
    assert(ns[0] == e);
    let (a, b) = (e.mask, p.mask);
    assert(nodes(t)[is[1]].children@.contains(is[0 as int]));
    assert(nodes(t).dom().contains(is[1]) && nodes(t).dom().contains(is[0]));
    assert(branch(nodes(t)[is[1]].mask, z1, nodes(t)[is[0]]));
    assert(b | a == a | b) by (bit_vector);
    lemma2_to64();
    assert(e.grid_entry.x as int / 1 == e.grid_entry.x && e.grid_entry.y as int / 1 == e.grid_entry.y);
    assert forall|k: int| 0 <= k < ns.len() implies matched_at(#[trigger] ns[k], ns[0], t, is[k], is[0], o) by {
        if k > 0 {
            assert(ns[k] == es[k - 1] && is[k] == up[k - 1]);
            assert(matched_at(es[k - 1], es[0], t, up[k - 1], up[0], o));
            let z2 = zoom_of(pm_at(t, is[k]));
            let (g, h) = (pow2((z0 - z1) as nat) as int, pow2((z1 - z2) as nat) as int);
            lemma_pow2_pos((z0 - z1) as nat); lemma_pow2_pos((z1 - z2) as nat);
            lemma_pow2_adds((z0 - z1) as nat, (z1 - z2) as nat);
            lemma_div_denominator(e.grid_entry.x as int, g, h); lemma_div_denominator(e.grid_entry.y as int, g, h);
        }
    }
    few_masks(es);
    assert forall|k: int| 0 <= k < es.len() implies fair_relev((#[trigger] es[k]).grid_entry.relev) by { assert(matched_at(es[k], es[0], t, up[k], up[0], o)); }
    sum_bounds(es);
    assert(rabs(val(p.relev) - sum_relev(es)) <= 1real);
    fl_add(p.relev, e.grid_entry.relev);
    fl_add(e.grid_entry.relev, p.relev);
    fl_round_small(val(p.relev) + val(e.grid_entry.relev));
}
/// what is reported of it
proof fn report<'a, T: HasStore>(c: CoalesceContext, r: f64, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts)
    requires
        tree_ok(t, o), on_path(t, is), standing(c, t, is, o), !by_itself(t, is),
        r == if out_of_order(c.entries@) { minus(c.relev, 0.01f64) } else { c.relev },
    ensures forall|d: CoalesceContext| d.entries@ == c.entries@ && d.mask == c.mask && d.relev == r ==> #[trigger] reported(d, t, o), c.entries@.len() > 0,
{
    let es = c.entries@;
    few_masks(es);
    assert forall|k: int| 0 <= k < es.len() implies fair_relev((#[trigger] es[k]).grid_entry.relev) by { assert(matched_at(es[k], es[0], t, is[k], is[0], o)); }
    sum_bounds(es);
    penny();
    assert(rabs(val(c.relev) - sum_relev(es)) <= 0.0006real);
    fl_sub(c.relev, 0.01f64);
    fl_round_small(val(c.relev) - val(0.01f64));
    assert forall|d: CoalesceContext| d.entries@ == c.entries@ && d.mask == c.mask && d.relev == r implies #[trigger] reported(d, t, o) by {
        assert(reported_as(d, t, is, o));
    }
}
proof fn path_zooms<'a, T: HasStore>(t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts)
    requires tree_ok(t, o), on_path(t, is),
    ensures is.len() >= 2 ==> zoom_of(pm_at(t, is[1])) <= zoom_of(pm_at(t, is[0])), nodes(t).dom().contains(is[0]),
{
    if is.len() >= 2 {
        assert(nodes(t)[is[1]].children@.contains(is[0]));
        assert(nodes(t).dom().contains(is[1]) && nodes(t).dom().contains(is[0]));
        assert(branch(nodes(t)[is[1]].mask, zoom_of(pm_at(t, is[1])), nodes(t)[is[0]]));
    }
}
proof fn child_fits<'a, T: HasStore>(t: Tree<'a, T>, i: ArenaIndex, o: MatchOpts)
    requires tree_ok(t, o),
    ensures
        o.zoom <= 16 && (o.bbox matches Some(b) ==> box_at(b, o.zoom)) && (o.proximity matches Some(p) ==> tile_at(p[0], o.zoom) && tile_at(p[1], o.zoom)),
        nodes(t).dom().contains(i) ==> nodes(t)[i].phrasematch is Some && sub_ok(pm_at(t, i)) && zoom_of(pm_at(t, i)) <= 16
            && forall|b: int| 0 <= b < pm_at(t, i).store.gs().bboxes@.len() ==> box_at(#[trigger] pm_at(t, i).store.gs().bboxes@[b], zoom_of(pm_at(t, i))),
{
    if nodes(t).dom().contains(i) { assert(fits_node(pm_at(t, i), o)); }
}
proof fn all_listed<'a, T: HasStore>(more: Seq<CoalesceContext>, had: Seq<CoalesceContext>, q: Multiset<CoalesceContext>, t: Tree<'a, T>, o: MatchOpts)
    requires each_reported(had, t, o), all_reported(q, t, o), more.to_multiset() == q,
    ensures each_reported(had + more, t, o),
{
    let both = had + more;
    broadcast use to_multiset_contains;
    assert forall|i: int| 0 <= i < both.len() implies reported(#[trigger] both[i], t, o) by {
        if i >= had.len() { let j = i - had.len(); assert(both[i] == more[j]); assert(more.contains(more[j])); assert(q.contains(more[j])); } else { assert(both[i] == had[i]); }
    }
}
spec fn follows<'a, T: HasStore>(s: CoalesceStep<'a, T>, st: Arc<TreeCoalesceState>, i: ArenaIndex, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts) -> bool {
    &&& nodes(t)[is[0]].children@.contains(i) && nodes(t).dom().contains(i) && *s.node == nodes(t)[i]
    &&& s.prev_state is Some && s.prev_state->0 == st && s.prev_zoom == zoom_of(pm_at(t, is[0]))
    &&& retuned(o, s.match_opts) && s.match_opts.zoom == zoom_of(pm(*s.node))
}
proof fn next_one<'a, T: HasStore>(s: CoalesceStep<'a, T>, st: Arc<TreeCoalesceState>, i: ArenaIndex, t: Tree<'a, T>, is: Seq<ArenaIndex>, o: MatchOpts)
    requires tree_ok(t, o), on_path(t, is), st.inv(), all_standing(st.contexts@, t, is, o), follows(s, st, i, t, is, o),
    ensures step_ok(s, t, o),
{
    let js = seq![i] + is;
    assert(js.drop_first() =~= is);
    assert(js.last() == is.last());
    assert forall|k: int| 0 <= k < js.len() implies nodes(t).dom().contains(#[trigger] js[k]) by { if k > 0 { assert(js[k] == is[k - 1]); } }
    assert forall|k: int| 0 <= k < js.len() - 1 implies nodes(t)[js[k + 1]].children@.contains(#[trigger] js[k]) by { if k > 0 { assert(js[k] == is[k - 1] && js[k + 1] == is[k]); } else { assert(js[1] == is[0]); } }
    assert(at_step(s, t, js, o));
}
== inline!
child_store\s*\.bboxes\s*\.iter\(\)\s*\.map\(\|(\w+)\| \{
=>
Boxes({
                                    let mut out: Vec<[u16; 4]> = Vec::new();
                                    for bi in 0..child_store.bboxes.len()
                                        invariant child_zoom <= 16, current_zoom <= 16, forall|b: int| 0 <= b < child_store.bboxes@.len() ==> box_at(#[trigger] child_store.bboxes@[b], child_zoom),
                                    {
                                        let \1 = &child_store.bboxes[bi];
                                        proof { assert(box_at(child_store.bboxes@[bi as int], child_zoom)); }
                                        let b = BODY;
                                        out.push(b);
                                    }
                                    out
                                })
== inline!
(\w*bboxes)\.iter\(\)\s*\.any\(\|(\w+)\| \{
=>
\1.any_(|\2: &[u16; 4]| -> (b: bool) BODY)
== subst-re!
(\w+)\.extend\((\w+)\.into_iter\(\)\);
=>
let ghost had = \1@;
                        let ghost q = \2@;
                        let more = \2.listed();
                        proof { if each_reported(had, *stack_tree, *match_opts) && all_reported(q, *stack_tree, *match_opts) { all_listed(more@, had, q, *stack_tree, *match_opts); } }
                        extend_list(&mut \1, more);
== block!
for (\w+) in subquery\.match_keys\.iter\(\) \{
=>
let mut gi: usize = 0;
                    while gi < subquery.match_keys.len()
                        invariant
                            tree_ok(*stack_tree, *match_opts), at_step(step, *stack_tree, is, *match_opts), cache_ok(data_cache@, *stack_tree, *match_opts), sub_ok(sq), zoom_of(sq) <= 16,
                            step.prev_state is Some || step.node.children@.len() > 0,
                            **subquery == pm(*step.node), sq == **subquery, nodes(*stack_tree).dom().contains(is[0]), pm_at(*stack_tree, is[0]) == sq,
                            step.prev_zoom <= zoom_of(sq) <= 16, scale_factor == pow2((zoom_of(sq) - step.prev_zoom) as nat), 1 <= scale_factor <= 65536,
                            each_reported(phrasematch_contexts@, *stack_tree, *match_opts), all_standing(state_contexts@, *stack_tree, is, *match_opts),
                        decreases subquery.match_keys.len() - gi,
                    {
                        let \1 = &subquery.match_keys[gi];
                        let ghost kk = gi as int;
                        gi = gi + 1;
                        proof { assert(has_key(*stack_tree, is[0], kk)); assert(data_cache@.dom().contains(key_group.id) ==> all_given(data_cache@[key_group.id]@, sq, *key_group, *match_opts)); }
                        BODY
                    }
== block!
for (\w+) in grids\.iter\(\) \{
=>
for ei in 0..grids.len()
                                invariant
                                    tree_ok(*stack_tree, *match_opts), at_step(step, *stack_tree, is, *match_opts), sub_ok(sq), zoom_of(sq) <= 16,
                                    **subquery == pm(*step.node), sq == **subquery, nodes(*stack_tree).dom().contains(is[0]), pm_at(*stack_tree, is[0]) == sq,
                                    step.prev_zoom <= zoom_of(sq) <= 16, scale_factor == pow2((zoom_of(sq) - step.prev_zoom) as nat), 1 <= scale_factor <= 65536,
                                    0 <= kk < sq.match_keys@.len(), *key_group == key_at(*stack_tree, is[0], kk), all_given(grids@, sq, *key_group, *match_opts),
                                    step.prev_state is Some, *prev_state == step.prev_state->0,
                                    step_contexts.max_size == 40, step_contexts@.len() <= 40, all_reported(step_contexts@, *stack_tree, *match_opts), all_standing(state_contexts@, *stack_tree, is, *match_opts),
                            {
                                let \1 = &grids[ei];
                                proof { assert(given(grids@[ei as int], sq, *key_group, *match_opts)); seen_ok(*\1, sq, *key_group, *match_opts); scaling(\1.grid_entry.x, zoom_of(sq), step.prev_zoom); scaling(\1.grid_entry.y, zoom_of(sq), step.prev_zoom); }
                                BODY
                            }
== block!
for (\w+) in grids\.iter\(\) \{
=>
for ei in 0..grids.len()
                                invariant
                                    tree_ok(*stack_tree, *match_opts), at_step(step, *stack_tree, is, *match_opts), sub_ok(sq), zoom_of(sq) <= 16,
                                    **subquery == pm(*step.node), sq == **subquery, nodes(*stack_tree).dom().contains(is[0]), pm_at(*stack_tree, is[0]) == sq,
                                    0 <= kk < sq.match_keys@.len(), *key_group == key_at(*stack_tree, is[0], kk), all_given(grids@, sq, *key_group, *match_opts),
                                    step.prev_state is None, step.node.children@.len() > 0,
                                    step_contexts.max_size == 40, step_contexts@.len() <= 40, all_reported(step_contexts@, *stack_tree, *match_opts), all_standing(state_contexts@, *stack_tree, is, *match_opts),
                            {
                                let \1 = &grids[ei];
                                proof { assert(given(grids@[ei as int], sq, *key_group, *match_opts)); seen_ok(*\1, sq, *key_group, *match_opts); }
                                broadcast use {fl_cmp, fl_specs};
                                BODY
                            }
== block!
for (\w+) in already_coalesced \{
=>
let ghost ids = already_coalesced@;
                                proof {
                                    if entry_of(entry, *grid, sq, key_group.id) { heads_up(entry, *grid, *stack_tree, is[0], kk, *match_opts); }
                                }
                                for \1 in it: already_coalesced
                                    invariant
                                        it.seq() == ids, tree_ok(*stack_tree, *match_opts), at_step(step, *stack_tree, is, *match_opts), **subquery == pm(*step.node), sq == **subquery, pm_at(*stack_tree, is[0]) == sq,
                                        step.prev_state is Some, *prev_state == step.prev_state->0,
                                        from_sub(entry, sq, *match_opts), fair_relev(entry.grid_entry.relev), fin(entry.scoredist), entry.mask == sq.mask, entry.mask != 0,
                                        forall|k: int| 0 <= k < ids.len() ==> 0 <= #[trigger] ids[k] < prev_state.contexts@.len() && over(prev_state.contexts@[ids[k] as int], entry, zoom_of(sq), step.prev_zoom),
                                        step_contexts.max_size == 40, step_contexts@.len() <= 40, all_reported(step_contexts@, *stack_tree, *match_opts), all_standing(state_contexts@, *stack_tree, is, *match_opts),
                                {
                                    broadcast use {fl_add, fl_cmp, fl_specs};
                                    proof {
                                        assert(ids[it.index@ as int] == \1);
                                        assert(over(prev_state.contexts@[\1 as int], entry, zoom_of(sq), step.prev_zoom));
                                        assert(standing(prev_state.contexts@[\1 as int], *stack_tree, is.drop_first(), *match_opts));
                                        grown(prev_state.contexts@[\1 as int], entry, *stack_tree, is, *match_opts);
                                    }
                                    BODY
                                }
== block!
for (\w+) in step\.node\.children\.iter\(\) \{
=>
let mut ci: usize = 0;
                        while ci < step.node.children.len()
                            invariant
                                tree_ok(*stack_tree, *match_opts), at_step(step, *stack_tree, is, *match_opts), **subquery == pm(*step.node), sq == **subquery, nodes(*stack_tree).dom().contains(is[0]), pm_at(*stack_tree, is[0]) == sq,
                                current_zoom == zoom_of(sq), current_zoom <= 16,
                                state.inv(), all_standing(state.contexts@, *stack_tree, is, *match_opts), steps_ok(next_steps@, *stack_tree, *match_opts),
                            decreases step.node.children.len() - ci,
                        {
                            let \1 = &step.node.children[ci];
                            proof { assert(step.node.children@.contains(*\1)); }
                            ci = ci + 1;
                            let ghost steps0 = next_steps@;
                            broadcast use {fl_add, fl_specs};
                            proof { child_fits(*stack_tree, *\1, *match_opts); }
                            BODY
                            proof {
                                if next_steps@.len() > 0 && follows(next_steps@.last(), state, *\1, *stack_tree, is, *match_opts) { next_one(next_steps@.last(), state, *\1, *stack_tree, is, *match_opts); }
                                assert(next_steps@ == steps0 || next_steps@ == steps0.push(next_steps@.last()));
                            }
                        }
== subst-re!
penalize_multi_context\(&mut (\w+)\);
=>
let ghost c0 = \1;
                                    proof {
                                        if step.prev_state is None && entry_of(entry, *grid, sq, key_group.id) { heads_up(entry, *grid, *stack_tree, is[0], kk, *match_opts); begins(entry, *stack_tree, is, *match_opts); }
                                        assert(c0.entries@ =~= seq![entry] || c0.entries@.len() != 1); if standing(c0, *stack_tree, is, *match_opts) { report(c0, if out_of_order(c0.entries@) { minus(c0.relev, 0.01f64) } else { c0.relev }, *stack_tree, is, *match_opts); } }
                                    penalize_multi_context(&mut \1);
== subst-re!
step_contexts\.push\((\w+)\);
=>
let ghost (q0, x0) = (step_contexts@, \1);
                                    step_contexts.push(\1);
                                    proof { if reported(x0, *stack_tree, *match_opts) { still(q0, step_contexts@, x0, 40, *stack_tree, *match_opts); } }
== subst-re!
let mut (\w+) = 0\.0;
=>
let mut \1: f64 = 0.0;
== closure-exported tree_coalesce \.map\(\|step\| \{
fn stack_on<'a, T: HasStore>(step: CoalesceStep<'a, T>, data_cache: &HashMap<u32, Vec<MatchEntry>>, stack_tree: &'a StackableTree<'a, T>, match_opts: &MatchOpts) -> (r: Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'a, T>>), Error>)
    requires
        tree_ok(*stack_tree, *match_opts), step_ok(step, *stack_tree, *match_opts), cache_ok(data_cache@, *stack_tree, *match_opts),
        step.prev_state is Some || step.node.children@.len() > 0,
    ensures
        r matches Ok(x) ==> each_reported(x.0@, *stack_tree, *match_opts) && steps_ok(x.1@, *stack_tree, *match_opts),
BODY
-- start
hide(tree_ok); hide(on_path); hide(fits_node);
broadcast use {fl_add, fl_cmp, fl_specs};
let ghost sq = pm(*step.node);
let ghost is = choose|is: Seq<ArenaIndex>| #[trigger] at_step(step, *stack_tree, is, *match_opts);
proof { path_zooms(*stack_tree, is, *match_opts); child_fits(*stack_tree, is[0], *match_opts); scaling(0, zoom_of(sq), step.prev_zoom); }
