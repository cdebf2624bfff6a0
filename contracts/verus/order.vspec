# C18, C19: the order combinations of matches are ranked by
== import single
== text
type ContextKey = (OrderedFloat<f64>, OrderedFloat<f64>, Reverse<u16>, u16, u16, u32);
/// the derived order of tuples (over `Keyed`, unit entry)
spec fn order_c(a: ContextKey, b: ContextKey) -> Ordering { if a.lt(b) { Ordering::Less } else if b.lt(a) { Ordering::Greater } else { Ordering::Equal } }
#[verifier::external_body]
fn cmp6c(a: ContextKey, b: ContextKey) -> (r: Ordering)
    ensures r == order_c(a, b),
{ unimplemented!() }
#[verifier::external_body]
fn eq6c(a: ContextKey, b: ContextKey) -> (r: bool)
    ensures r == (order_c(a, b) == Ordering::Equal),
{ unimplemented!() }
/// `entries[0]`: panics if there is none, and so need only say what it is when it returns
trait FirstOf { fn first_(&self) -> &CoalesceEntry; }
impl FirstOf for Vec<CoalesceEntry> {
    #[verifier::external_body]
    fn first_(&self) -> (r: &CoalesceEntry)
        ensures *r == self@[0],
    { unimplemented!() }
}
spec fn key_of_c(c: CoalesceContext) -> ContextKey {
    let e = c.entries@[0];
    (OrderedFloat(c.relev), OrderedFloat(e.scoredist), Reverse(e.idx), e.grid_entry.x, e.grid_entry.y, e.grid_entry.id)
}
// ---- what is claimed --------------------------------------------------------------------------------------------------------------
/// of two that have an entry, the one that is not less is as relevant, and of as good a distance score if as relevant
proof fn ranks(a: CoalesceContext, b: CoalesceContext)
    requires ctx_ok(a), ctx_ok(b),
    ensures
        order_c(key_of_c(a), key_of_c(b)) != Ordering::Less ==> ranked(a, b),
        order_c(key_of_c(a), key_of_c(b)) != Ordering::Greater ==> ranked(b, a),
{}
/// it is a total order of them, up to the parts compared
proof fn is_an_order(a: CoalesceContext, b: CoalesceContext, c: CoalesceContext)
    requires ctx_ok(a), ctx_ok(b), ctx_ok(c),
    ensures
        order_c(key_of_c(a), key_of_c(a)) == Ordering::Equal,
        (order_c(key_of_c(a), key_of_c(b)) == Ordering::Less) == (order_c(key_of_c(b), key_of_c(a)) == Ordering::Greater),
        order_c(key_of_c(a), key_of_c(b)) != Ordering::Greater && order_c(key_of_c(b), key_of_c(c)) != Ordering::Greater ==> order_c(key_of_c(a), key_of_c(c)) != Ordering::Greater,
{}
/// what the queue hands out in descending order of these keys is best first
proof fn ordered_first(cs: Seq<CoalesceContext>)
    requires
        forall|i: int| 0 <= i < cs.len() ==> ctx_ok(#[trigger] cs[i]),
        forall|i: int, j: int| 0 <= i <= j < cs.len() ==> order_c(key_of_c(#[trigger] cs[i]), key_of_c(#[trigger] cs[j])) != Ordering::Less,
    ensures descending(cs),
{
    assert forall|i: int, j: int| 0 <= i <= j < cs.len() implies ranked(#[trigger] cs[i], #[trigger] cs[j]) by { ranks(cs[i], cs[j]); }
}
impl OrdSpecImpl for CoalesceContext {
    open spec fn obeys_cmp_spec() -> bool { true }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { order_c(key_of_c(*self), key_of_c(*other)) }
}
impl PartialOrdSpecImpl for CoalesceContext {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(order_c(key_of_c(*self), key_of_c(*other))) }
}
impl PartialEqSpecImpl for CoalesceContext {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &Self) -> bool { order_c(key_of_c(*self), key_of_c(*other)) == Ordering::Equal }
}
impl Eq for CoalesceContext {}
== subst-re
\.entries\[0\]
=>
.entries.first_()
== subst
self.sort_key().cmp(&other.sort_key())
=>
cmp6c(self.sort_key(), other.sort_key())
== subst
self.sort_key() == other.sort_key()
=>
eq6c(self.sort_key(), other.sort_key())
== source common.rs
== take impl CoalesceContext
== fn CoalesceContext::sort_key
-- ret r
ensures r == key_of_c(*self),
== take impl Ord for CoalesceContext
== fn Ord for CoalesceContext::cmp
== take impl PartialOrd for CoalesceContext
== fn PartialOrd for CoalesceContext::partial_cmp
== take impl PartialEq for CoalesceContext
== fn PartialEq for CoalesceContext::eq
