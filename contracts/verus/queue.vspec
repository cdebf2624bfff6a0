# C13: the bounded priority queue
== source common.rs
== prelude
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use vstd::laws_cmp::{obeys_cmp, obeys_cmp_ord, obeys_cmp_partial_ord, obeys_partial_cmp_spec_properties};
use vstd::laws_eq::obeys_eq_spec_properties;
// ---- the order of the elements --------------------------------------------------------------------------------
// at most as good
spec fn le<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) != Ordering::Greater }
spec fn smallest<T: Ord>(s: Multiset<T>, m: T) -> bool { s.contains(m) && forall|x: T| #[trigger] s.contains(x) ==> le(m, x) }
spec fn greatest<T: Ord>(s: Multiset<T>, m: T) -> bool { s.contains(m) && forall|x: T| #[trigger] s.contains(x) ==> le(x, m) }
spec fn descending<T: Ord>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] s[j], #[trigger] s[i]) }
/// core::cmp::Ordering (and an Option of it) compares as its values (derived in std): assumed
#[verifier::external_body]
proof fn ordering_eq()
    ensures
        <Ordering as PartialEqSpec<Ordering>>::obeys_eq_spec(), forall|a: Ordering, b: Ordering| #[trigger] <Ordering as PartialEqSpec<Ordering>>::eq_spec(&a, &b) <==> a == b,
        <Option<Ordering> as PartialEqSpec<Option<Ordering>>>::obeys_eq_spec(), forall|a: Option<Ordering>, b: Option<Ordering>| #[trigger] <Option<Ordering> as PartialEqSpec<Option<Ordering>>>::eq_spec(&a, &b) <==> a == b,
{}
proof fn order<T: Ord>()
    requires obeys_cmp::<T>(),
    ensures
        forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c),
        forall|a: T, b: T| #[trigger] le(a, b) || le(b, a),
        forall|a: T| #[trigger] le(a, a),
        forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Greater)) == !le(a, b),
        forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Ordering::Greater ==> le(b, a),
        T::obeys_partial_cmp_spec(), T::obeys_cmp_spec(),
        forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Less)) == !le(b, a),
        forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b)),
        forall|a: T, b: T| #![trigger a.cmp_spec(&b)] (a.cmp_spec(&b) == Ordering::Greater) == !le(a, b) && (a.cmp_spec(&b) == Ordering::Less) == !le(b, a),
{
    reveal(obeys_cmp_ord); reveal(obeys_cmp_partial_ord);
    reveal(obeys_partial_cmp_spec_properties); reveal(obeys_eq_spec_properties);
    assert forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) implies le(a, c) by {
        assert(a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b)));
        assert(b.partial_cmp_spec(&c) == Some(b.cmp_spec(&c)));
        assert(a.partial_cmp_spec(&c) == Some(a.cmp_spec(&c)));
        assert(c.partial_cmp_spec(&b) == Some(c.cmp_spec(&b)));
        assert(b.partial_cmp_spec(&a) == Some(b.cmp_spec(&a)));
        assert(c.partial_cmp_spec(&a) == Some(c.cmp_spec(&a)));
    }
    assert forall|a: T, b: T| #[trigger] le(a, b) || le(b, a) by {
        assert(a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b)));
        assert(b.partial_cmp_spec(&a) == Some(b.cmp_spec(&a)));
    }
    assert forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Less)) == !le(b, a) by {
        assert(a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b)));
        assert(b.partial_cmp_spec(&a) == Some(b.cmp_spec(&a)));
    }
    assert forall|a: T, b: T| #![trigger a.cmp_spec(&b)] (a.cmp_spec(&b) == Ordering::Greater) == !le(a, b) && (a.cmp_spec(&b) == Ordering::Less) == !le(b, a) by {
        assert(a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b)));
        assert(b.partial_cmp_spec(&a) == Some(b.cmp_spec(&a)));
    }
    assert forall|a: T| #[trigger] le(a, a) by {
        assert(a.partial_cmp_spec(&a) == Some(a.cmp_spec(&a)));
    }
}
// ---- what is claimed ------------------------------------------------------------------------------------------
// `held` are n of the elements `given` (all of them, if there are no more), and none left out is better
spec fn best_of<T: Ord>(held: Multiset<T>, given: Multiset<T>, n: nat) -> bool {
    &&& held.subset_of(given)
    &&& held.len() == (if given.len() <= n { given.len() } else { n })
    &&& forall|x: T, y: T| #[trigger] held.contains(x) && given.count(y) > held.count(y) ==> #[trigger] le(y, x)
}
spec fn pushed<T: Ord>(old: Multiset<T>, n: nat, e: T, new: Multiset<T>, kept: bool) -> bool {
    if old.len() < n {
        kept && new == old.insert(e)
    } else if kept {
        exists|m: T| #[trigger] smallest(old, m) && !le(e, m) && new == old.remove(m).insert(e)
    } else {
        new == old && forall|m: T| #[trigger] smallest(old, m) ==> le(e, m)
    }
}
// after any sequence of pushes the queue holds the best: `best_of` is kept up by every push
proof fn push_keeps_best<T: Ord>(old: Multiset<T>, given: Multiset<T>, n: nat, e: T, new: Multiset<T>, kept: bool)
    requires obeys_cmp::<T>(), best_of(old, given, n), pushed(old, n, e, new, kept),
    ensures best_of(new, given.insert(e), n),
{
    order::<T>();
    let g = given.insert(e);
    assert(forall|y: T| given.count(y) >= old.count(y));
    if old.len() < n {
        if given.len() > n { assert(false); }
        assert forall|x: T, y: T| #[trigger] new.contains(x) && g.count(y) > new.count(y) implies #[trigger] le(y, x) by {
            // everything given is held
            assert(given.count(y) > old.count(y));
            nothing_out(old, given, y);
        }
        assert(new.subset_of(g));
    } else if kept {
        let m = choose|m: T| #[trigger] smallest(old, m) && !le(e, m) && new == old.remove(m).insert(e);
        assert(old.len() >= 1) by { nonempty(old, m); }
        assert(new.len() == n);
        assert forall|x: T| new.contains(x) implies le(m, x) by {
            if x != e { assert(old.contains(x)); }
        }
        assert forall|x: T, y: T| #[trigger] new.contains(x) && g.count(y) > new.count(y) implies #[trigger] le(y, x) by {
            assert(le(m, x));
            if y == m {
            } else {
                assert(given.count(y) > old.count(y));
                assert(le(y, m));
            }
        }
        assert(new.subset_of(g));
    } else {
        assert forall|x: T, y: T| #[trigger] new.contains(x) && g.count(y) > new.count(y) implies #[trigger] le(y, x) by {
            if given.count(y) > old.count(y) {
                assert(le(y, x));
            } else {
                assert(y == e);
                nonempty(old, x);
                has_smallest(old);
                let m = choose|m: T| smallest(old, m);
                assert(le(e, m));
                assert(le(m, x));
            }
        }
        assert(new.subset_of(g));
    }
}
proof fn nonempty<T>(s: Multiset<T>, x: T)
    requires s.contains(x),
    ensures s.len() >= 1,
{
    assert(s =~= s.remove(x).insert(x));
}
proof fn has_smallest<T: Ord>(s: Multiset<T>)
    requires obeys_cmp::<T>(), s.len() > 0,
    ensures exists|m: T| smallest(s, m),
    decreases s.len(),
{
    order::<T>();
    let c = s.choose();
    assert(s.contains(c));
    let rest = s.remove(c);
    assert(s =~= rest.insert(c));
    if rest.len() > 0 {
        has_smallest(rest);
        let m = choose|m: T| smallest(rest, m);
        let k = if le(c, m) { c } else { m };
        assert(smallest(s, k)) by {
            assert forall|x: T| #[trigger] s.contains(x) implies le(k, x) by {
                if x != c { assert(rest.contains(x)); }
            }
        }
    } else {
        assert(smallest(s, c)) by {
            assert forall|x: T| #[trigger] s.contains(x) implies le(c, x) by {
                if x != c { assert(rest.contains(x)); nonempty(rest, x); }
            }
        }
    }
}
proof fn nothing_out<T>(held: Multiset<T>, given: Multiset<T>, y: T)
    requires held.subset_of(given), held.len() == given.len(), given.count(y) > held.count(y),
    ensures false,
{
    let out = given.sub(held);
    assert(out.contains(y));
    nonempty(out, y);
    assert(given =~= held.add(out));
}
// ---- the heap (crate min_max_heap, outside the repository): assumed ---------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct MinMaxHeap<T> { t: Vec<T> }
impl<T: Ord> MinMaxHeap<T> {
    uninterp spec fn view(&self) -> Multiset<T>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Multiset::<T>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, element: T)
        requires obeys_cmp::<T>()
        ensures final(self)@ == old(self)@.insert(element)
    { unimplemented!() }
    #[verifier::external_body]
    fn peek_min(&self) -> (r: Option<&T>)
        requires obeys_cmp::<T>()
        ensures r.is_none() == (self@.len() == 0), r matches Some(m) ==> smallest(self@, *m)
    { unimplemented!() }
    #[verifier::external_body]
    fn peek_max(&self) -> (r: Option<&T>)
        requires obeys_cmp::<T>()
        ensures r.is_none() == (self@.len() == 0), r matches Some(m) ==> greatest(self@, *m)
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_max(&mut self) -> (r: Option<T>)
        requires obeys_cmp::<T>()
        ensures
            r.is_none() == (old(self)@.len() == 0),
            r.is_none() ==> final(self)@ == old(self)@,
            r matches Some(m) ==> greatest(old(self)@, m) && final(self)@ == old(self)@.remove(m),
    { unimplemented!() }
    #[verifier::external_body]
    fn replace_min(&mut self, element: T) -> (r: Option<T>)
        requires obeys_cmp::<T>()
        ensures
            r.is_none() == (old(self)@.len() == 0),
            r.is_none() ==> final(self)@ == old(self)@.insert(element),
            r matches Some(m) ==> smallest(old(self)@, m) && final(self)@ == old(self)@.remove(m).insert(element),
    { unimplemented!() }
    #[verifier::external_body]
    fn into_vec_desc(self) -> (r: Vec<T>)
        requires obeys_cmp::<T>()
        ensures r@.to_multiset() == self@, descending(r@)
    { unimplemented!() }
}
== take struct ConstrainedPriorityQueue
== text
// ghost
impl<T: Ord> ConstrainedPriorityQueue<T> {
    spec fn view(&self) -> Multiset<T> { self.heap@ }
    spec fn wf(&self) -> bool { self@.len() <= self.max_size }
}
== take impl ConstrainedPriorityQueue
== fn ConstrainedPriorityQueue::new
-- ret r
ensures r.wf(), r.max_size == max_size, r@ == Multiset::<T>::empty(), best_of(r@, Multiset::<T>::empty(), max_size as nat),
== fn ConstrainedPriorityQueue::push
-- ret r
requires obeys_cmp::<T>(), old(self).wf(),
ensures
    final(self).wf(),
    final(self).max_size == old(self).max_size,
    pushed(old(self)@, old(self).max_size as nat, element, final(self)@, r),
    forall|given: Multiset<T>| #[trigger] best_of(old(self)@, given, old(self).max_size as nat)
        ==> best_of(final(self)@, given.insert(element), old(self).max_size as nat),
-- start
proof { order::<T>(); ordering_eq(); }
let ghost was = self@;
let ghost elem = element;
proof {
    assert forall|given: Multiset<T>, new: Multiset<T>, kept: bool|
        #![trigger best_of(was, given, self.max_size as nat), pushed(was, self.max_size as nat, elem, new, kept)]
        best_of(was, given, self.max_size as nat) && pushed(was, self.max_size as nat, elem, new, kept)
        implies best_of(new, given.insert(elem), self.max_size as nat) by {
        push_keeps_best(was, given, self.max_size as nat, elem, new, kept);
    }
}
== fn ConstrainedPriorityQueue::pop_max
-- ret r
requires obeys_cmp::<T>(), old(self).wf(),
ensures
    final(self).wf(),
    final(self).max_size == old(self).max_size,
    r.is_none() == (old(self)@.len() == 0),
    r.is_none() ==> final(self)@ == old(self)@,
    r matches Some(m) ==> greatest(old(self)@, m) && final(self)@ == old(self)@.remove(m),
-- start
proof { if self@.len() > 0 { assert forall|m: T| self@.contains(m) implies #[trigger] self@.remove(m).len() < self@.len() by { nonempty(self@, m); } } }
== fn ConstrainedPriorityQueue::peek_min
-- ret r
requires obeys_cmp::<T>(),
ensures r.is_none() == (self@.len() == 0), r matches Some(m) ==> smallest(self@, *m),
== fn ConstrainedPriorityQueue::peek_max
-- ret r
requires obeys_cmp::<T>(),
ensures r.is_none() == (self@.len() == 0), r matches Some(m) ==> greatest(self@, *m),
== fn ConstrainedPriorityQueue::len
-- ret r
ensures r == self@.len(),
== fn ConstrainedPriorityQueue::into_vec_desc
-- ret r
requires obeys_cmp::<T>(),
ensures r@.to_multiset() == self@, descending(r@),
