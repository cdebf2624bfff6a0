# C19: coalescing a tree of stacks, node by node
== import tree
== subst
T: Borrow<GridStore> + Clone + Debug + Send + Sync
=>
T: HasStore
== subst-re
MinMaxHeap(?=[<:])
=>
Heap
== text
pub assume_specification [u32::count_ones](x: u32) -> u32;
// derive(Clone)
impl<T: HasStore> Clone for PhrasematchSubquery<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
// ---- assumed: MinMaxHeap (crate min_max_heap) holds what was pushed and gives up one of it at a time; which one does not matter here
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
struct Heap<A> { v: Vec<A> }
impl<'a, T: HasStore> Heap<CoalesceStep<'a, T>> {
    uninterp spec fn view(&self) -> Multiset<CoalesceStep<'a, T>>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Multiset::<CoalesceStep<'a, T>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, e: CoalesceStep<'a, T>)
        ensures final(self)@ == old(self)@.insert(e),
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_max(&mut self) -> (r: Option<CoalesceStep<'a, T>>)
        ensures match r { Some(s) => old(self)@.contains(s) && final(self)@ == old(self)@.remove(s), None => final(self)@ == old(self)@ && old(self)@.len() == 0 },
    { unimplemented!() }
}
impl<V> HashMap<u32, V> {
    fn contains_key(&self, k: &u32) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { self.has(k) }
}
trait RelevOr { fn relev_or_0(self) -> f64; }
impl<'b> RelevOr for Option<&'b CoalesceContext> { fn relev_or_0(self) -> f64 { match self { Some(c) => c.relev, None => 0.0 } } }
struct Fetched(Vec<Result<KeyFetchResult, Error>>);
impl Fetched {
    fn collect(self) -> (r: Vec<Result<KeyFetchResult, Error>>)
        ensures r == self.0
    { self.0 }
}
struct StackedOn<'a, T: HasStore>(Vec<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'a, T>>), Error>>);
impl<'a, T: HasStore> StackedOn<'a, T> {
    fn collect(self) -> (r: Vec<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'a, T>>), Error>>)
        ensures r == self.0
    { self.0 }
}
spec fn all_steps<'a, T: HasStore>(ss: Multiset<CoalesceStep<'a, T>>, t: Tree<'a, T>, o: MatchOpts) -> bool { forall|s: CoalesceStep<'a, T>| #[trigger] ss.contains(s) ==> step_ok(s, t, o) }
spec fn keys_ok<'a, T: HasStore>(ks: Seq<KeyFetchStep<T>>, t: Tree<'a, T>, o: MatchOpts) -> bool { forall|i: int| 0 <= i < ks.len() ==> sought(#[trigger] ks[i], t, o) }
/// something stacks on it, or it is stacked on something
spec fn busy<'a, T: HasStore>(s: CoalesceStep<'a, T>) -> bool { s.prev_state is Some || s.node.children@.len() > 0 }
spec fn all_busy<'a, T: HasStore>(ss: Seq<CoalesceStep<'a, T>>) -> bool { forall|i: int| 0 <= i < ss.len() ==> busy(#[trigger] ss[i]) }
spec fn each_fetched<'a, T: HasStore>(rs: Seq<Result<KeyFetchResult, Error>>, t: Tree<'a, T>, o: MatchOpts) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i] matches Ok(f) ==> fetched(f, t, o)) }
spec fn each_stacked<'a, T: HasStore>(rs: Seq<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'a, T>>), Error>>, t: Tree<'a, T>, o: MatchOpts) -> bool {
    forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i] matches Ok(x) ==> each_reported(x.0@, t, o) && steps_ok(x.1@, t, o))
}
proof fn one_more<'a, T: HasStore>(a: Multiset<CoalesceStep<'a, T>>, e: CoalesceStep<'a, T>, t: Tree<'a, T>, o: MatchOpts)
    requires all_steps(a, t, o), step_ok(e, t, o),
    ensures all_steps(a.insert(e), t, o),
{
    assert forall|c: CoalesceStep<'a, T>| #[trigger] a.insert(e).contains(c) implies step_ok(c, t, o) by { if c != e { assert(a.contains(c)); } }
}
proof fn one_less<'a, T: HasStore>(a: Multiset<CoalesceStep<'a, T>>, e: CoalesceStep<'a, T>, t: Tree<'a, T>, o: MatchOpts)
    requires all_steps(a, t, o), a.contains(e),
    ensures all_steps(a.remove(e), t, o), step_ok(e, t, o),
{
    assert forall|c: CoalesceStep<'a, T>| #[trigger] a.remove(e).contains(c) implies step_ok(c, t, o) by { assert(a.contains(c)); }
}
proof fn first_step<'a, T: HasStore>(s: CoalesceStep<'a, T>, i: ArenaIndex, t: Tree<'a, T>, o: MatchOpts)
    requires
        t.root.children@.contains(i), nodes(t).dom().contains(i), *s.node == nodes(t)[i], s.prev_state is None, s.prev_zoom == 0,
        retuned(o, s.match_opts), s.match_opts.zoom == zoom_of(pm(*s.node)),
    ensures step_ok(s, t, o),
{
    assert(at_step(s, t, seq![i], o));
}
proof fn listed_all<'a, T: HasStore>(more: Seq<CoalesceContext>, q: Multiset<CoalesceContext>, t: Tree<'a, T>, o: MatchOpts)
    requires all_reported(q, t, o), more.to_multiset() == q,
    ensures each_reported(more, t, o),
{
    let none = Seq::<CoalesceContext>::empty();
    all_listed(more, none, q, t, o);
    assert(none + more =~= more);
}
/// a key to fetch
proof fn seeks<'a, T: HasStore>(s: CoalesceStep<'a, T>, k: int, t: Tree<'a, T>, o: MatchOpts, single: bool)
    requires
        tree_ok(t, o), step_ok(s, t, o), 0 <= k < pm(*s.node).match_keys@.len(), single == (s.prev_state is None && s.node.children@.len() == 0),
    ensures
        s.node.phrasematch is Some, bounds_ok(pm(*s.node).match_keys@[k].key), s.match_opts.zoom <= 16,
        forall|q: KeyFetchStep<T>| {
            &&& q.subquery == pm(*s.node) && q.key == pm(*s.node).match_keys@[k].key && q.key_id == pm(*s.node).match_keys@[k].id && q.is_single == single
            &&& if pm(*s.node).match_keys@[k].nearby_only { narrowed(s.match_opts, q.match_opts) } else { q.match_opts == s.match_opts }
        } ==> #[trigger] sought(q, t, o),
{
    let is = choose|is: Seq<ArenaIndex>| #[trigger] at_step(s, t, is, o);
    let i = is[0];
    assert(nodes(t).dom().contains(i));
    assert(fits_node(pm_at(t, i), o));
    assert forall|q: KeyFetchStep<T>| {
            &&& q.subquery == pm(*s.node) && q.key == pm(*s.node).match_keys@[k].key && q.key_id == pm(*s.node).match_keys@[k].id && q.is_single == single
            &&& if pm(*s.node).match_keys@[k].nearby_only { narrowed(s.match_opts, q.match_opts) } else { q.match_opts == s.match_opts }
        } implies #[trigger] sought(q, t, o) by {
        assert(retuned(o, s.match_opts));
        assert(keyed_as(q, t, o, i, k));
    }
}
proof fn stepping<'a, T: HasStore>(s: CoalesceStep<'a, T>, t: Tree<'a, T>, o: MatchOpts)
    requires tree_ok(t, o), step_ok(s, t, o),
    ensures s.node.phrasematch is Some,
{
    let is = choose|is: Seq<ArenaIndex>| #[trigger] at_step(s, t, is, o);
    assert(nodes(t).dom().contains(is[0]));
    assert(fits_node(pm_at(t, is[0]), o));
}
proof fn all_ctx_ok<'a, T: HasStore>(cs: Multiset<CoalesceContext>, t: Tree<'a, T>, o: MatchOpts)
    requires all_reported(cs, t, o),
    ensures forall|c: CoalesceContext| #[trigger] cs.contains(c) ==> ctx_ok(c),
{
    assert forall|c: CoalesceContext| #[trigger] cs.contains(c) implies ctx_ok(c) by {
        let is = choose|is: Seq<ArenaIndex>| #[trigger] reported_as(c, t, is, o);
        assert(matched_at(c.entries@[0], c.entries@[0], t, is[0], is[0], o));
    }
}
proof fn some_entry<'a, T: HasStore>(c: CoalesceContext, t: Tree<'a, T>, o: MatchOpts)
    requires reported(c, t, o),
    ensures c.entries@.len() > 0,
{
    let is = choose|is: Seq<ArenaIndex>| #[trigger] reported_as(c, t, is, o);
}
== subst-re!
\.map_or\(0\.0, \|(\w+)\| \1\.relev\)
=>
.relev_or_0()
== block!
for (\w+) in &stack_tree\.root\.children \{
=>
for ri in 0..stack_tree.root.children.len()
        invariant tree_ok(*stack_tree, *match_opts), all_steps(steps@, *stack_tree, *match_opts),
    {
        let \1 = &stack_tree.root.children[ri];
        proof { assert(stack_tree.root.children@.contains(*\1)); child_fits(*stack_tree, *\1, *match_opts); }
        let ghost steps0 = steps@;
        BODY
        proof {
            assert forall|s: CoalesceStep<T>| #[trigger] steps@.contains(s) implies step_ok(s, *stack_tree, *match_opts) by {
                if !steps0.contains(s) { first_step(s, *\1, *stack_tree, *match_opts); }
            }
        }
    }
== block!
while steps\.len\(\) > 0 && !complete \{
=>
while steps.len() > 0 && !complete
        invariant
            tree_ok(*stack_tree, *match_opts), all_steps(steps@, *stack_tree, *match_opts), cache_ok(data_cache@, *stack_tree, *match_opts),
            contexts.max_size == 800, contexts@.len() <= 800, all_reported(contexts@, *stack_tree, *match_opts),
    {
        broadcast use {fl_mul, fl_cmp, fl_specs};
        BODY
    }
== block!
while added_in_this_chunk < COALESCE_CHUNK_SIZE \{
=>
while added_in_this_chunk < COALESCE_CHUNK_SIZE
            invariant
                tree_ok(*stack_tree, *match_opts), all_steps(steps@, *stack_tree, *match_opts),
                contexts.max_size == 800, contexts@.len() <= 800, all_reported(contexts@, *stack_tree, *match_opts),
                keys_ok(keys@, *stack_tree, *match_opts), steps_ok(step_chunk@, *stack_tree, *match_opts), all_busy(step_chunk@),
        {
            broadcast use {fl_mul, fl_cmp, fl_specs};
            BODY
        }
== block!
if let Some\(step\) = steps\.pop_max\(\) \{
=>
let ghost steps0 = steps@;
            if let Some(step) = steps.pop_max() {
                proof { one_less(steps0, step, *stack_tree, *match_opts); stepping(step, *stack_tree, *match_opts); }
                BODY
            }
== block!
for (\w+) in subquery\.match_keys\.iter\(\) \{
=>
let mut gi: usize = 0;
                while gi < subquery.match_keys.len()
                    invariant
                        tree_ok(*stack_tree, *match_opts), step_ok(step, *stack_tree, *match_opts), **subquery == pm(*step.node),
                        is_single == (step.prev_state is None && step.node.children@.len() == 0),
                        contexts.max_size == 800, contexts@.len() <= 800,
                        keys_ok(keys@, *stack_tree, *match_opts),
                    decreases subquery.match_keys.len() - gi,
                {
                    broadcast use {fl_mul, fl_cmp, fl_specs};
                    let \1 = &subquery.match_keys[gi];
                    proof { seeks(step, gi as int, *stack_tree, *match_opts, is_single); }
                    gi = gi + 1;
                    BODY
                }
== inline!
keys\s*\.into_par_iter\(\)\s*\.map\(\|key_step\| \{
=>
Fetched({
                let mut out: Vec<Result<KeyFetchResult, Error>> = Vec::new();
                for key_step in it: keys
                    invariant tree_ok(*stack_tree, *match_opts), keys_ok(it.seq(), *stack_tree, *match_opts), each_fetched(out@, *stack_tree, *match_opts),
                {
                    proof { assert(it.seq()[it.index@ as int] == key_step); }
                    let r = fetch_key(key_step, Ghost(*stack_tree), Ghost(*match_opts));
                    out.push(r);
                }
                out
            })
== inline!
step_chunk\s*\.into_par_iter\(\)\s*\.map\(\|step\| \{
=>
StackedOn({
                    let mut out: Vec<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'_, T>>), Error>> = Vec::new();
                    for step in it: step_chunk
                        invariant
                            tree_ok(*stack_tree, *match_opts), steps_ok(it.seq(), *stack_tree, *match_opts), all_busy(it.seq()), cache_ok(data_cache@, *stack_tree, *match_opts),
                            each_stacked(out@, *stack_tree, *match_opts),
                    {
                        proof { assert(it.seq()[it.index@ as int] == step); assert(busy(step)); }
                        let r = stack_on(step, &data_cache, stack_tree, match_opts);
                        out.push(r);
                    }
                    out
                })
== block!
for (\w+) in key_data \{
=>
for \1 in it: key_data
            invariant
                tree_ok(*stack_tree, *match_opts), each_fetched(it.seq(), *stack_tree, *match_opts), cache_ok(data_cache@, *stack_tree, *match_opts),
                contexts.max_size == 800, contexts@.len() <= 800, all_reported(contexts@, *stack_tree, *match_opts),
        {
            proof { assert(it.seq()[it.index@ as int] == \1); }
            BODY
        }
== block!
for (\w+) in phrasematch_contexts \{
=>
let ghost pq = phrasematch_contexts@;
                    let got = phrasematch_contexts.listed();
                    proof { if all_reported(pq, *stack_tree, *match_opts) { listed_all(got@, pq, *stack_tree, *match_opts); } }
                    for \1 in jt: got
                        invariant
                            each_reported(jt.seq(), *stack_tree, *match_opts), contexts.max_size == 800, contexts@.len() <= 800, all_reported(contexts@, *stack_tree, *match_opts),
                    {
                        let ghost (q0, x0) = (contexts@, \1);
                        proof { assert(jt.seq()[jt.index@ as int] == \1); some_entry(\1, *stack_tree, *match_opts); }
                        BODY
                        proof { still(q0, contexts@, x0, 800, *stack_tree, *match_opts); }
                    }
== block!
for (\w+) in chunk_results \{
=>
for \1 in it: chunk_results
            invariant
                tree_ok(*stack_tree, *match_opts), each_stacked(it.seq(), *stack_tree, *match_opts), all_steps(steps@, *stack_tree, *match_opts),
                contexts.max_size == 800, contexts@.len() <= 800, all_reported(contexts@, *stack_tree, *match_opts),
        {
            proof { assert(it.seq()[it.index@ as int] == \1); }
            BODY
        }
== block!
for (\w+) in phrasematch_contexts \{
=>
for \1 in jt: phrasematch_contexts
                invariant
                    each_reported(jt.seq(), *stack_tree, *match_opts), contexts.max_size == 800, contexts@.len() <= 800, all_reported(contexts@, *stack_tree, *match_opts),
            {
                let ghost (q0, x0) = (contexts@, \1);
                proof { assert(jt.seq()[jt.index@ as int] == \1); some_entry(\1, *stack_tree, *match_opts); }
                BODY
                proof { still(q0, contexts@, x0, 800, *stack_tree, *match_opts); }
            }
== block!
for (\w+) in next_steps \{
=>
for \1 in jt: next_steps
                invariant steps_ok(jt.seq(), *stack_tree, *match_opts), all_steps(steps@, *stack_tree, *match_opts),
            {
                proof { assert(jt.seq()[jt.index@ as int] == \1); if step_ok(\1, *stack_tree, *match_opts) { one_more(steps@, \1, *stack_tree, *match_opts); } }
                BODY
            }
== subst-re!
Ok\(contexts\.into_vec_desc\(\)\)
=>
proof { all_ctx_ok(contexts@, *stack_tree, *match_opts); }
    let ghost last = contexts@;
    let out = contexts.into_vec_desc();
    proof { if all_reported(last, *stack_tree, *match_opts) && out@.to_multiset() == last { listed_all(out@, last, *stack_tree, *match_opts); out@.to_multiset_ensures(); } }
    Ok(out)
== source coalesce.rs
== take const COALESCE_CHUNK_SIZE
== take const ONE_LETTER_RANGE_QUOTA
== take const ONE_WORD_HIGH_ZOOM_RANGE_QUOTA
== take const ONE_WORD_RANGE_QUOTA
== take const ALL_HIGH_ZOOM_RANGE_QUOTA
== take const ALL_HIGH_ZOOM_QUOTA
== source store.rs
== take impl GridStore | might_be_slow
== fn GridStore::might_be_slow
-- ret r
ensures r == (self.zoom >= 14),
== source coalesce.rs
== floats walk_literals
== take fn tree_coalesce
== fn tree_coalesce
-- attr #[verifier::exec_allows_no_decreases_clause]
-- ret r
requires
    tree_ok(*stack_tree, *match_opts), stack_tree.root.phrasematch is None,
ensures
    r matches Ok(cs) ==> cs@.len() <= 800 && descending(cs@) && each_reported(cs@, *stack_tree, *match_opts),
-- start
hide(tree_ok); hide(step_ok); hide(sought); hide(reported); hide(given);
broadcast use {fl_mul, fl_cmp, fl_specs};
