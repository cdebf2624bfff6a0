# C14: splitting a sequence into its runs, whatever the key function says (it may keep state)
== source common.rs
== import entries
== prelude
use vstd::std_specs::cmp::*;
== subst-re!
\(\*key\)\((&\w+)\)
=>
(*key).call_(\1)
== text
/// a key function that may keep state (an FnMut): what it was asked about and said so far
trait KeyFn<X, K>: Sized {
    spec fn log(&self) -> Seq<(X, K)>;
    /// it can be asked about these, in turn
    spec fn takes(&self, xs: Seq<X>) -> bool;
    /// what stays of it
    type Fixed;
    spec fn fixed(&self) -> Self::Fixed;
    /// what is true of it between calls
    spec fn inv(&self) -> bool;
    fn call_(&mut self, x: &X) -> (k: K)
        requires old(self).inv(), exists|xs: Seq<X>| #[trigger] old(self).takes(xs) && xs.len() > 0 && xs[0] == *x,
        ensures
            final(self).inv(),
            final(self).fixed() == old(self).fixed(),
            final(self).log() == old(self).log().push((*x, k)),
            forall|xs: Seq<X>| #[trigger] old(self).takes(xs) && xs.len() > 0 && xs[0] == *x ==> final(self).takes(xs.drop_first());
}
// ---- what is claimed --------------------------------------------------------------------------------------------
/// the items asked about in turns a to b are a group under key k: what was said first, and == to all said after
spec fn is_group<X, K: PartialEq>(log: Seq<(X, K)>, a: int, b: int, k: K, g: Seq<X>) -> bool {
    &&& 0 <= a < b <= log.len() && g.len() == b - a && k == log[a].1
    &&& forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] == log[a + i].0
    &&& forall|i: int| a < i < b ==> k.eq_spec(&(#[trigger] log[i]).1)
}
/// what is held back
spec fn pending<X, K: PartialEq>(log: Seq<(X, K)>, key: Option<K>, run: Seq<X>) -> bool {
    match key {
        None => run.len() == 0 && log.len() == 0,
        Some(k) => is_group(log, log.len() - run.len(), log.len() as int, k, run),
    }
}
/// groups of what was said, cut at these turns
spec fn groups_at<X, K: PartialEq>(log: Seq<(X, K)>, cuts: Seq<int>, g: Seq<(K, Vec<X>)>) -> bool {
    &&& cuts.len() == g.len() + 1 && cuts[0] == 0
    &&& forall|j: int| 0 <= j < g.len() ==> is_group(log, cuts[j], cuts[j + 1], (#[trigger] g[j]).0, g[j].1@)
    &&& forall|j: int| 0 <= j < g.len() - 1 ==> !(#[trigger] g[j]).0.eq_spec(&g[j + 1].0)
}
spec fn questioned<X, K>(log: Seq<(X, K)>) -> Seq<X> { log.map_values(|p: (X, K)| p.0) }
/// the calls of one step: onto those before, about the next items
spec fn went_on<X, K>(was: Seq<(X, K)>, now: Seq<(X, K)>, was_left: Seq<X>, left: Seq<X>) -> bool {
    &&& was.len() <= now.len() && forall|i: int| 0 <= i < was.len() ==> #[trigger] now[i] == was[i]
    &&& questioned(now) + left == questioned(was) + was_left
}
proof fn log_grows<X, K>(log: Seq<(X, K)>, x: X, k: K, left: Seq<X>)
    requires left.len() > 0, left[0] == x,
    ensures questioned(log.push((x, k))) + left.drop_first() == questioned(log) + left,
{
    assert(questioned(log.push((x, k))) =~= questioned(log).push(x));
    assert(questioned(log).push(x) + left.drop_first() =~= questioned(log) + left);
}
proof fn goes_further<X, K>(first: Seq<(X, K)>, log: Seq<(X, K)>, left0: Seq<X>, left: Seq<X>)
    ensures left.len() > 0 && went_on(first, log, left0, left) ==> forall|k: K| went_on(first, #[trigger] log.push((left[0], k)), left0, left.drop_first()),
{
    if left.len() > 0 && went_on(first, log, left0, left) {
        assert forall|k: K| went_on(first, #[trigger] log.push((left[0], k)), left0, left.drop_first()) by {
            log_grows(log, left[0], k, left);
        }
    }
}
proof fn group_stays<X, K: PartialEq>(was: Seq<(X, K)>, now: Seq<(X, K)>, a: int, b: int, k: K, g: Seq<X>)
    requires is_group(was, a, b, k, g), was.len() <= now.len(), forall|i: int| 0 <= i < was.len() ==> #[trigger] now[i] == was[i],
    ensures is_group(now, a, b, k, g),
{}
== lift somewhat_eager_groupby
from_fn(move || {BODY})
=>
#[verifier::exec_allows_no_decreases_clause]
fn NAME<T: Iterator, F: KeyFn<T::Item, K>, K: Sized + Copy + PartialEq>(it: &mut T, key: &mut F, curr_key: &mut Option<K>, running_group: &mut Vec<T::Item>, done: &mut bool) -> (r: Option<(K, Vec<T::Item>)>)
    requires
        obeys(*old(it)),
        K::obeys_eq_spec(),
        old(key).inv(),
        old(key).takes(rem(*old(it))),
        *old(done) || pending(old(key).log(), *old(curr_key), old(running_group)@),
    ensures
        obeys(*final(it)),
        final(key).inv(),
        final(key).fixed() == old(key).fixed(),
        final(key).takes(rem(*final(it))),
        went_on(old(key).log(), final(key).log(), rem(*old(it)), rem(*final(it))),
        *old(done) ==> *final(done) && r.is_none() && final(key).log() == old(key).log(),
        !*old(done) ==> match r {
            // nothing left: the same answer ever after
            None => {
                &&& old(curr_key).is_none() && rem(*old(it)).len() == 0 && rem(*final(it)).len() == 0
                &&& !*final(done) && final(curr_key).is_none() && final(key).log() == old(key).log() && final(running_group)@.len() == 0
            },
            Some((k, g)) => {
                let a = old(key).log().len() - old(running_group)@.len();
                let log = final(key).log();
                &&& *final(done) ==> rem(*final(it)).len() == 0 && is_group(log, a, log.len() as int, k, g@)
                &&& !*final(done) ==> {
                    &&& final(curr_key).is_some() && pending(log, *final(curr_key), final(running_group)@)
                    &&& is_group(log, a, log.len() - final(running_group)@.len(), k, g@)
                    &&& !k.eq_spec(&final(curr_key).unwrap())
                }
            },
        },
{
    BODY
}
fn NAME_start<T: Iterator, F: KeyFn<T::Item, K>, K: Sized + Copy + PartialEq>(it: T, key: F) -> (r: (T, F, Option<K>, Vec<T::Item>, bool))
    requires key.log().len() == 0,
    ensures r.0 == it, r.1 == key, !r.4, pending(key.log(), r.2, r.3@), r.2.is_none(),
{
    PRE
    (it, key, curr_key, running_group, done)
}
-- vars it key curr_key running_group done
-- loop 0 loop
invariant
    obeys(*it),
    K::obeys_eq_spec(),
    key.inv(),
    key.fixed() == old(key).fixed(),
    key.takes(rem(*it)),
    !*done,
    !*old(done),
    pending(key.log(), *curr_key, running_group@),
    went_on(old(key).log(), key.log(), rem(*old(it)), rem(*it)),
    pending(old(key).log(), *old(curr_key), old(running_group)@),
    old(curr_key).is_some() ==> curr_key.is_some(),
    curr_key.is_none() ==> key.log() == old(key).log() && rem(*it) == rem(*old(it)),
    curr_key.is_some() ==> key.log().len() - running_group@.len() == old(key).log().len() - old(running_group)@.len(),
-- loop 0 start
proof { goes_further(old(key).log(), key.log(), rem(*old(it)), rem(*it)); }
== exported
/// what the iterator yields until it first says None
#[verifier::exec_allows_no_decreases_clause]
fn all_groups<T: Iterator, F: KeyFn<T::Item, K>, K: Sized + Copy + PartialEq>(items: T, f: F) -> (r: (Vec<(K, Vec<T::Item>)>, F, Ghost<Seq<int>>))
    requires
        obeys(items),
        K::obeys_eq_spec(),
        f.inv(), f.log().len() == 0, f.takes(rem(items)),
    ensures
        r.1.inv(),
        r.1.fixed() == f.fixed(),
        questioned(r.1.log()) == rem(items),
        groups_at(r.1.log(), r.2@, r.0@),
        r.2@.last() == r.1.log().len(),
{
    let (mut it, mut key, mut curr_key, mut running_group, mut done) = somewhat_eager_groupby_step_start(items, f);
    let mut out: Vec<(K, Vec<T::Item>)> = Vec::new();
    let ghost mut cuts: Seq<int> = seq![0int];
    let ghost mut last: Option<K> = None;
    proof { assert(questioned(key.log()) + rem(it) =~= rem(items)); }
    loop
        invariant
            obeys(it), K::obeys_eq_spec(),
            key.inv(), key.takes(rem(it)), key.fixed() == f.fixed(),
            questioned(key.log()) + rem(it) == rem(items),
            groups_at(key.log(), cuts, out@),
            !done ==> pending(key.log(), curr_key, running_group@),
            !done ==> cuts.last() == key.log().len() - running_group@.len(),
            !done && out@.len() > 0 ==> curr_key.is_some() && !out@.last().0.eq_spec(&curr_key.unwrap()),
            done ==> rem(it).len() == 0 && cuts.last() == key.log().len(),
    {
        let ghost was = out@;
        let ghost log = key.log();
        let ghost before = curr_key;
        let ghost a = key.log().len() - running_group@.len();
        let ghost ended = done;
        match somewhat_eager_groupby_step(&mut it, &mut key, &mut curr_key, &mut running_group, &mut done) {
            None => {
                proof { assert(questioned(key.log()) + rem(it) =~= questioned(key.log())); }
                return (out, key, Ghost(cuts));
            }
            Some(g) => {
                out.push(g);
                proof {
                    assert(!ended);
                    let b = if done { key.log().len() as int } else { key.log().len() - running_group@.len() };
                    assert forall|j: int| 0 <= j < was.len() implies is_group(key.log(), cuts[j], cuts[j + 1], (#[trigger] was[j]).0, was[j].1@) by {
                        group_stays(log, key.log(), cuts[j], cuts[j + 1], was[j].0, was[j].1@);
                    }
                    if was.len() > 0 {
                        assert(before.is_some() && g.0 == before.unwrap())
                    }
                    let c = cuts.push(b);
                    assert forall|j: int| 0 <= j < out@.len() implies is_group(key.log(), c[j], c[j + 1], (#[trigger] out@[j]).0, out@[j].1@) by {
                        if j < was.len() { assert(out@[j] == was[j]); }
                    }
                    assert forall|j: int| 0 <= j < out@.len() - 1 implies !(#[trigger] out@[j]).0.eq_spec(&out@[j + 1].0) by {
                        assert(out@[j] == was[j]);
                        if j + 1 < was.len() { assert(out@[j + 1] == was[j + 1]); }
                    }
                    cuts = c;
                }
            }
        }
    }
}
== text
proof fn cuts_flat<X, K: PartialEq>(log: Seq<(X, K)>, cuts: Seq<int>, g: Seq<(K, Vec<X>)>)
    requires groups_at(log, cuts, g),
    ensures flat(g) == questioned(log).take(cuts.last()), 0 <= cuts.last() <= log.len(),
    decreases g.len(),
{
    if g.len() > 0 {
        let (c, h) = (cuts.drop_last(), g.drop_last());
        assert forall|j: int| 0 <= j < h.len() implies is_group(log, c[j], c[j + 1], (#[trigger] h[j]).0, h[j].1@) by { assert(h[j] == g[j]); }
        assert forall|j: int| 0 <= j < h.len() - 1 implies !(#[trigger] h[j]).0.eq_spec(&h[j + 1].0) by { assert(h[j] == g[j]); assert(h[j + 1] == g[j + 1]); }
        cuts_flat(log, c, h);
        let n = g.len() - 1;
        assert(g.last() == g[n]);
        assert(is_group(log, cuts[n], cuts[n + 1], g[n].0, g[n].1@));
        assert(flat(g) =~= questioned(log).take(cuts.last()));
    } else {
        assert(flat(g) =~= questioned(log).take(0));
    }
}
spec fn flat<X, K>(g: Seq<(K, Vec<X>)>) -> Seq<X>
    decreases g.len(),
{
    if g.len() == 0 { Seq::empty() } else { flat(g.drop_last()) + g.last().1@ }
}
// ---- a key function without state --------------------------------------------------------------------------------
spec fn keyed<X, K, F: Fn(&X) -> K>(f: F, x: X, k: K) -> bool { f.ensures((&x,), k) }
spec fn all_keyed<X, K, F: Fn(&X) -> K>(f: F, s: Seq<X>, k: K) -> bool { forall|i: int| 0 <= i < s.len() ==> keyed(f, #[trigger] s[i], k) }
spec fn takes<X, K, F: Fn(&X) -> K>(d: Ghost<spec_fn(X) -> bool>, f: F, s: Seq<X>) -> bool { forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)) && d@(s[i]) }
/// equality of the keys it gives (to things `d` is true of) is what == says
spec fn key_law<X, K: PartialEq, F: Fn(&X) -> K>(d: Ghost<spec_fn(X) -> bool>, f: F) -> bool {
    K::obeys_eq_spec() && forall|x: X, y: X, a: K, b: K| d@(x) && d@(y) && #[trigger] keyed(f, x, a) && #[trigger] keyed(f, y, b) ==> (a.eq_spec(&b) <==> a == b)
}
/// groups: none empty, one key in each, neighbours differ
spec fn runs<X, K, F: Fn(&X) -> K>(f: F, g: Seq<(K, Vec<X>)>) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).1@.len() > 0 && all_keyed(f, g[i].1@, g[i].0)
    &&& forall|i: int| 0 <= i < g.len() - 1 ==> (#[trigger] g[i]).0 != g[i + 1].0
}
struct Pure<X, K, F> { f: F, log: Ghost<Seq<(X, K)>> }
impl<X, K, F: Fn(&X) -> K> KeyFn<X, K> for Pure<X, K, F> {
    spec fn log(&self) -> Seq<(X, K)> { self.log@ }
    spec fn takes(&self, xs: Seq<X>) -> bool { forall|i: int| 0 <= i < xs.len() ==> self.f.requires((&#[trigger] xs[i],)) }
    type Fixed = F;
    spec fn fixed(&self) -> F { self.f }
    spec fn inv(&self) -> bool { forall|i: int| 0 <= i < self.log@.len() ==> keyed(self.f, (#[trigger] self.log@[i]).0, self.log@[i].1) }
    fn call_(&mut self, x: &X) -> (k: K) {
        let k = (self.f)(x);
        self.log = Ghost(self.log@.push((*x, k)));
        k
    }
}
== exported
/// C14 for a key function without state whose keys are equal when == says so
fn pure_groups<T: Iterator, K: Copy + PartialEq, F: Fn(&T::Item) -> K>(d: Ghost<spec_fn(T::Item) -> bool>, items: T, f: F) -> (r: Vec<(K, Vec<T::Item>)>)
    requires obeys(items), key_law(d, f), takes(d, f, rem(items)),
    ensures flat(r@) == rem(items), runs(f, r@),
{
    let (g, p, Ghost(cuts)) = all_groups(items, Pure { f, log: Ghost(Seq::empty()) });
    proof {
        let log = p.log();
        cuts_flat(log, cuts, g@);
        assert(flat(g@) =~= questioned(log));
        assert forall|i: int| 0 <= i < log.len() implies d@((#[trigger] log[i]).0) && keyed(f, log[i].0, log[i].1) by { assert(questioned(log)[i] == log[i].0); }
        assert forall|j: int| 0 <= j < g@.len() implies (#[trigger] g@[j]).1@.len() > 0 && all_keyed(f, g@[j].1@, g@[j].0) by {
            let a = cuts[j];
            assert forall|i: int| 0 <= i < g@[j].1@.len() implies keyed(f, #[trigger] g@[j].1@[i], g@[j].0) by {
                assert(g@[j].1@[i] == log[a + i].0);
                assert(keyed(f, log[a].0, log[a].1) && keyed(f, log[a + i].0, log[a + i].1));
            }
        }
        assert forall|j: int| 0 <= j < g@.len() - 1 implies (#[trigger] g@[j]).0 != g@[j + 1].0 by {
            let (a, b) = (cuts[j], cuts[j + 1]);
            assert(is_group(log, a, b, g@[j].0, g@[j].1@));
            assert(is_group(log, b, cuts[j + 2], g@[j + 1].0, g@[j + 1].1@));
            assert(log[a].1 == g@[j].0 && log[b].1 == g@[j + 1].0);
            assert(d@(log[a].0) && keyed(f, log[a].0, log[a].1));
            assert(keyed(f, log[a].0, log[a].1) && keyed(f, log[b].0, log[b].1));
        }
    }
    g
}
// ---- a key function that says these keys, in turn ----------------------------------------------------------------
struct Told<X, K> { keys: Vec<K>, at: usize, log: Ghost<Seq<(X, K)>> }
impl<X, K: Copy> KeyFn<X, K> for Told<X, K> {
    spec fn log(&self) -> Seq<(X, K)> { self.log@ }
    spec fn takes(&self, xs: Seq<X>) -> bool { self.at + xs.len() <= self.keys@.len() }
    type Fixed = Seq<K>;
    spec fn fixed(&self) -> Seq<K> { self.keys@ }
    spec fn inv(&self) -> bool { self.log@.len() == self.at && self.at <= self.keys@.len() && forall|i: int| 0 <= i < self.at ==> (#[trigger] self.log@[i]).1 == self.keys@[i] }
    fn call_(&mut self, x: &X) -> (k: K) {
        let k = self.keys[self.at];
        let n = self.keys.len();
        self.at = self.at + 1;
        self.log = Ghost(self.log@.push((*x, k)));
        k
    }
}
/// where the groups start and end
spec fn cut_at<X, K>(cuts: Seq<int>, items: Seq<X>, keys: Seq<K>, g: Seq<(K, Vec<X>)>) -> bool {
    &&& cuts.len() == g.len() + 1 && cuts[0] == 0 && cuts.last() == items.len()
    &&& forall|j: int| 0 <= j < g.len() ==> 0 <= #[trigger] cuts[j] < cuts[j + 1] <= items.len() && g[j].1@ == items.subrange(cuts[j], cuts[j + 1])
    &&& forall|j: int, i: int| 0 <= j < g.len() && cuts[j] <= i < cuts[j + 1] ==> #[trigger] keys[i] == (#[trigger] g[j]).0
    &&& forall|j: int| 0 <= j < g.len() - 1 ==> (#[trigger] g[j]).0 != g[j + 1].0
}
/// Vec::into_iter ends
#[verifier::external_body]
fn list_iter<X>(v: Vec<X>) -> (r: std::vec::IntoIter<X>)
    ensures rem(r) == v@, laws(r),
{ unimplemented!() }
fn told_groups<X, K: Copy + PartialEq>(items: Vec<X>, keys: Vec<K>) -> (r: (std::vec::IntoIter<(K, Vec<X>)>, Ghost<(Seq<int>, Seq<(K, Vec<X>)>)>))
    requires items@.len() == keys@.len(), K::obeys_eq_spec(), forall|a: K, b: K| #[trigger] a.eq_spec(&b) <==> a == b,
    ensures rem(r.0) == r.1@.1, cut_at(r.1@.0, items@, keys@, r.1@.1), laws(r.0),
{
    let ghost (its, ks) = (items@, keys@);
    let (g, p, Ghost(cuts)) = all_groups(items.into_iter(), Told { keys, at: 0, log: Ghost(Seq::empty()) });
    let ghost gs = g@;
    proof {
        let log = p.log();
        cuts_flat(log, cuts, gs);
        assert(questioned(log).len() == its.len());
        assert forall|i: int| 0 <= i < its.len() implies (#[trigger] log[i]).0 == its[i] && log[i].1 == ks[i] by { assert(questioned(log)[i] == its[i]); }
        assert forall|j: int| 0 <= j < gs.len() implies 0 <= #[trigger] cuts[j] < cuts[j + 1] <= its.len() && gs[j].1@ == its.subrange(cuts[j], cuts[j + 1]) by {
            assert(is_group(log, cuts[j], cuts[j + 1], gs[j].0, gs[j].1@));
            assert(gs[j].1@ =~= its.subrange(cuts[j], cuts[j + 1]));
        }
        assert forall|j: int, i: int| 0 <= j < gs.len() && cuts[j] <= i < cuts[j + 1] implies #[trigger] ks[i] == (#[trigger] gs[j]).0 by {
            assert(is_group(log, cuts[j], cuts[j + 1], gs[j].0, gs[j].1@));
            assert(log[i].1 == ks[i]);
        }
        assert forall|j: int| 0 <= j < gs.len() - 1 implies (#[trigger] gs[j]).0 != gs[j + 1].0 by {}
    }
    (list_iter(g), Ghost(gs_parts(cuts, gs)))
}
spec fn gs_parts<X, K>(cuts: Seq<int>, gs: Seq<(K, Vec<X>)>) -> (Seq<int>, Seq<(K, Vec<X>)>) { (cuts, gs) }
