# C11: a lookup yields what its keys contribute, best first
== import db
== import matching
== source store.rs
== subst
<T: Iterator<Item = MatchEntry>>
=>

== subst
QueueElement<T>
=>
QueueElement
== subst
QueueElement<_>
=>
QueueElement
== subst
entry_iter: T
=>
entry_iter: It<MatchEntry>
== text
pub struct OrderedFloat<T>(pub T);
type Key = (OrderedFloat<f64>, OrderedFloat<f64>, bool, u16, u16, u32);
/// the derived order of tuples over ordered_float's order (assumed: of finite numbers it is their order)
uninterp spec fn order(a: Key, b: Key) -> Ordering;
#[verifier::external_body]
fn cmp6(a: Key, b: Key) -> (r: Ordering)
    ensures r == order(a, b),
{ unimplemented!() }
#[verifier::external_body]
fn eq6(a: Key, b: Key) -> (r: bool)
    ensures r == (order(a, b) == Ordering::Equal),
{ unimplemented!() }
#[verifier::external_body]
proof fn order_is(a: Key, b: Key)
    requires fin(a.0.0), fin(a.1.0), fin(b.0.0), fin(b.1.0),
    ensures
        order(a, b) != Ordering::Less ==> val(a.0.0) > val(b.0.0) || val(a.0.0) == val(b.0.0) && val(a.1.0) >= val(b.1.0),
        order(a, b) != Ordering::Greater ==> val(b.0.0) > val(a.0.0) || val(a.0.0) == val(b.0.0) && val(b.1.0) >= val(a.1.0),
{}
== take struct QueueElement
== text
spec fn key_of_q(q: QueueElement) -> Key {
    let e = q.next_entry;
    (OrderedFloat(e.grid_entry.relev), OrderedFloat(e.scoredist), e.matches_language, e.grid_entry.x, e.grid_entry.y, e.grid_entry.id)
}
impl OrdSpecImpl for QueueElement {
    open spec fn obeys_cmp_spec() -> bool { true }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { order(key_of_q(*self), key_of_q(*other)) }
}
impl PartialOrdSpecImpl for QueueElement {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(order(key_of_q(*self), key_of_q(*other))) }
}
impl PartialEqSpecImpl for QueueElement {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &Self) -> bool { order(key_of_q(*self), key_of_q(*other)) == Ordering::Equal }
}
impl Eq for QueueElement {}
== subst
self.sort_key().cmp(&other.sort_key())
=>
cmp6(self.sort_key(), other.sort_key())
== subst
self.sort_key() == other.sort_key()
=>
eq6(self.sort_key(), other.sort_key())
== take impl QueueElement
== fn QueueElement::sort_key
-- ret r
ensures r == key_of_q(*self),
== take impl Ord for QueueElement
== fn Ord for QueueElement::cmp
== take impl PartialOrd for QueueElement
== fn PartialOrd for QueueElement::partial_cmp
== take impl PartialEq for QueueElement
== fn PartialEq for QueueElement::eq
== text
// ---- min_max_heap (assumed): a sequence in no particular order; least and greatest by the order of the elements -----------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MinMaxHeap<T> { v: Vec<T> }
pub struct PeekMaxMut<'a> { heap: &'a mut MinMaxHeap<QueueElement>, k: Ghost<int> }
spec fn not_above(a: QueueElement, b: QueueElement) -> bool { order(key_of_q(a), key_of_q(b)) != Ordering::Greater }
spec fn least_at(s: Seq<QueueElement>, k: int) -> bool { 0 <= k < s.len() && forall|j: int| 0 <= j < s.len() ==> not_above(s[k], #[trigger] s[j]) }
spec fn greatest_at(s: Seq<QueueElement>, k: int) -> bool { 0 <= k < s.len() && forall|j: int| 0 <= j < s.len() ==> not_above(#[trigger] s[j], s[k]) }
impl MinMaxHeap<QueueElement> {
    pub uninterp spec fn view(&self) -> Seq<QueueElement>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, e: QueueElement)
        ensures final(self)@ == old(self)@.push(e),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek_min(&self) -> (r: Option<&QueueElement>)
        ensures
            r is None <==> self@.len() == 0,
            r matches Some(e) ==> exists|k: int| #[trigger] least_at(self@, k) && *e == self@[k],
    { unimplemented!() }
    #[verifier::external_body]
    fn replace_min(&mut self, e: QueueElement) -> (r: Option<QueueElement>)
        ensures
            old(self)@.len() == 0 ==> final(self)@ == seq![e],
            old(self)@.len() > 0 ==> exists|k: int| #[trigger] least_at(old(self)@, k) && final(self)@ == old(self)@.update(k, e),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek_max_mut<'a>(&'a mut self) -> (r: Option<PeekMaxMut<'a>>)
        ensures
            r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@,
            r matches Some(p) ==> greatest_at(old(self)@, p.k@) && p.heap@ == old(self)@ && final(p.heap)@ == final(self)@,
    { unimplemented!() }
}
impl<'a> PeekMaxMut<'a> {
    #[verifier::external_body]
    fn get_mut(&mut self) -> (r: &mut QueueElement)
        requires 0 <= old(self).k@ < old(self).heap@.len(),
        ensures
            *r == old(self).heap@[old(self).k@],
            final(self).heap@ == old(self).heap@.update(old(self).k@, *final(r)),
            final(self).k@ == old(self).k@,
            final(final(self).heap)@ == final(old(self).heap)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn pop(self) -> (r: QueueElement)
        requires 0 <= self.k@ < self.heap@.len(),
        ensures r == old(self.heap)@[self.k@], final(self.heap)@ == old(self.heap)@.remove(self.k@),
    { unimplemented!() }
}
// ---- what is claimed ---------------------------------------------------------------------------------------------------------------
/// the record under a key, its groups and coordinates in the order they are written
spec fn orderly(d: Seq<u8>, w: Record) -> bool {
    held(d, w) && tidy(w) && forall|i: int, j: int| 0 <= i < j < w.rs.len() ==> (#[trigger] w.rs[i]).relev_score > (#[trigger] w.rs[j]).relev_score
}
spec fn record_of(d: Seq<u8>) -> Record { choose|w: Record| orderly(d, w) }
spec fn has_records(p: Seq<(Box<[u8]>, Box<[u8]>)>) -> bool { forall|i: int| 0 <= i < p.len() && kind(key_of(#[trigger] p[i])) <= 1 ==> orderly(p[i].1@, record_of(p[i].1@)) }
spec fn ready(g: GridStore, o: MatchOpts) -> bool { stored(g.db.pairs()) && has_records(g.db.pairs()) && opts_ok(o, g.coalesce_radius) }
/// prefix bins for a range between bin boundaries
spec fn fetch(g: GridStore, m: MatchPhrase) -> u8 {
    match m { MatchPhrase::Exact(_) => 0, MatchPhrase::Range { start, end } => if g.bin_boundaries@.contains(start) && g.bin_boundaries@.contains(end) { 1 } else { 0 } }
}
/// what a pair of the database contributes
spec fn contrib(g: GridStore, k: MatchKey, o: MatchOpts) -> spec_fn((Box<[u8]>, Box<[u8]>)) -> Multiset<Seen> {
    |p: (Box<[u8]>, Box<[u8]>)| bag(record_of(p.1@).rs, of_group(p.1@, o, val(g.coalesce_radius), speaks(k.lang_set, key_of(p))))
}
spec fn selects(g: GridStore, k: MatchKey) -> spec_fn((Box<[u8]>, Box<[u8]>)) -> bool { |p: (Box<[u8]>, Box<[u8]>)| asked(fetch(g, k.match_phrase), k.match_phrase, key_of(p)) }
/// what all selected keys contribute
spec fn matching(g: GridStore, k: MatchKey, o: MatchOpts) -> Multiset<Seen> { bag(g.db.pairs().filter(selects(g, k)), contrib(g, k, o)) }
// ---- on the way there ----------------------------------------------------------------------------------------------------------------
type Q = Seq<QueueElement>;
spec fn stream(q: QueueElement) -> Seq<MatchEntry> { seq![q.next_entry] + q.entry_iter.seq() }
spec fn readings(s: Seq<MatchEntry>) -> Multiset<Seen> { s.map_values(as_seen()).to_multiset() }
spec fn mine() -> spec_fn(QueueElement) -> Multiset<Seen> { |q: QueueElement| readings(stream(q)) }
spec fn good(sorted: bool, q: QueueElement) -> bool { (forall|i: int| 0 <= i < stream(q).len() ==> sane(#[trigger] stream(q)[i])) && (sorted ==> best_first(stream(q))) }
spec fn fair(sorted: bool, total: Multiset<Seen>, q: Q, max: int, lost: Seq<MatchEntry>) -> bool {
    &&& total == bag(q, mine()).add(readings(lost))
    &&& forall|i: int| 0 <= i < q.len() ==> good(sorted, #[trigger] q[i])
    &&& q.len() <= max && (lost.len() > 0 ==> q.len() == max)
    &&& forall|j: int| 0 <= j < lost.len() ==> sane(#[trigger] lost[j])
    &&& sorted ==> forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < lost.len() ==> ahead((#[trigger] q[i]).next_entry, #[trigger] lost[j])
}
#[verifier::opaque]
spec fn is_fair(sorted: bool, total: Multiset<Seen>, q: Q, max: int) -> bool { exists|lost: Seq<MatchEntry>| fair(sorted, total, q, max, lost) }
proof fn readings_add(a: Seq<MatchEntry>, b: Seq<MatchEntry>)
    ensures readings(a + b) == readings(a).add(readings(b)),
{
    assert((a + b).map_values(as_seen()) =~= a.map_values(as_seen()) + b.map_values(as_seen()));
    ms_add(a.map_values(as_seen()), b.map_values(as_seen()));
}
proof fn readings_none(a: Seq<MatchEntry>)
    requires a.len() == 0,
    ensures readings(a) == Multiset::<Seen>::empty(),
{
    a.map_values(as_seen()).to_multiset_ensures();
    assert(a.map_values(as_seen()).to_multiset() =~= Multiset::<Seen>::empty());
}
proof fn bag_at<A, B>(s: Seq<A>, k: int, f: spec_fn(A) -> Multiset<B>)
    requires 0 <= k < s.len(),
    ensures bag(s, f) == bag(s.remove(k), f).add(f(s[k])),
{
    let (a, b) = (s.take(k), s.skip(k + 1));
    assert(s =~= a + seq![s[k]] + b);
    assert(s.remove(k) =~= a + b);
    bag_add(a + seq![s[k]], b, f); bag_add(a, seq![s[k]], f); bag_one(s[k], f); bag_add(a, b, f);
    assert(bag(s, f) =~= bag(s.remove(k), f).add(f(s[k])));
}
proof fn above(a: QueueElement, b: QueueElement)
    requires sane(a.next_entry), sane(b.next_entry),
    ensures not_above(a, b) ==> ahead(b.next_entry, a.next_entry), !not_above(a, b) ==> ahead(a.next_entry, b.next_entry), order(key_of_q(a), key_of_q(b)) != Ordering::Less ==> ahead(a.next_entry, b.next_entry),
{
    order_is(key_of_q(a), key_of_q(b));
}
proof fn ahead_trans(a: MatchEntry, b: MatchEntry, c: MatchEntry)
    requires ahead(a, b), ahead(b, c),
    ensures ahead(a, c),
{
}
proof fn head_leads(sorted: bool, q: QueueElement)
    requires good(sorted, q), sorted,
    ensures sane(q.next_entry), forall|i: int| 0 <= i < stream(q).len() ==> ahead(q.next_entry, #[trigger] stream(q)[i]),
{
    assert(stream(q)[0] == q.next_entry);
}
proof fn keep(sorted: bool, total: Multiset<Seen>, q: Q, max: int, e: QueueElement)
    requires is_fair(sorted, total, q, max), q.len() < max, good(sorted, e),
    ensures is_fair(sorted, total.add(mine()(e)), q.push(e), max),
{
    reveal(is_fair);
    let lost = choose|lost: Seq<MatchEntry>| fair(sorted, total, q, max, lost);
    assert(q.push(e).drop_last() =~= q);
    assert(total.add(mine()(e)) =~= bag(q.push(e), mine()).add(readings(lost)));
    assert(fair(sorted, total.add(mine()(e)), q.push(e), max, lost));
}
proof fn skip_it(sorted: bool, total: Multiset<Seen>, q: Q, max: int, e: QueueElement, k: int)
    requires is_fair(sorted, total, q, max), q.len() == max, good(sorted, e), least_at(q, k), order(key_of_q(q[k]), key_of_q(e)) != Ordering::Less,
    ensures is_fair(sorted, total.add(mine()(e)), q, max),
{
    reveal(is_fair);
    let lost = choose|lost: Seq<MatchEntry>| fair(sorted, total, q, max, lost);
    let now = lost + stream(e);
    readings_add(lost, stream(e));
    assert(total.add(mine()(e)) =~= bag(q, mine()).add(readings(now)));
    if sorted {
        head_leads(sorted, e);
        assert(good(sorted, q[k])); head_leads(sorted, q[k]);
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < now.len() implies ahead((#[trigger] q[i]).next_entry, #[trigger] now[j]) by {
            if j < lost.len() { assert(now[j] == lost[j]); } else {
                assert(now[j] == stream(e)[j - lost.len()]);
                assert(good(sorted, q[i])); head_leads(sorted, q[i]);
                above(q[k], q[i]); above(q[k], e);
            }
        }
    }
    assert(fair(sorted, total.add(mine()(e)), q, max, now));
}
proof fn replace(sorted: bool, total: Multiset<Seen>, q: Q, max: int, e: QueueElement, k: int, m: int)
    requires is_fair(sorted, total, q, max), q.len() == max, good(sorted, e), least_at(q, k), least_at(q, m), order(key_of_q(q[m]), key_of_q(e)) != Ordering::Greater,
    ensures is_fair(sorted, total.add(mine()(e)), q.update(k, e), max),
{
    reveal(is_fair);
    let lost = choose|lost: Seq<MatchEntry>| fair(sorted, total, q, max, lost);
    let now = lost + stream(q[k]);
    let n = q.update(k, e);
    readings_add(lost, stream(q[k]));
    bag_at(q, k, mine()); bag_at(n, k, mine());
    assert(n.remove(k) =~= q.remove(k));
    assert(total.add(mine()(e)) =~= bag(n, mine()).add(readings(now)));
    if sorted {
        assert(good(sorted, q[k])); head_leads(sorted, q[k]); head_leads(sorted, e);
        assert(good(sorted, q[m])); head_leads(sorted, q[m]);
        assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < now.len() implies ahead((#[trigger] n[i]).next_entry, #[trigger] now[j]) by {
            above(q[k], q[m]); above(q[m], e);
            if i != k { assert(n[i] == q[i]); assert(good(sorted, q[i])); head_leads(sorted, q[i]); above(q[k], q[i]); }
            if j < lost.len() { assert(now[j] == lost[j]); assert(ahead(q[k].next_entry, lost[j])); } else { assert(now[j] == stream(q[k])[j - lost.len()]); }
        }
    }
    assert(fair(sorted, total.add(mine()(e)), n, max, now));
}
proof fn filter_run<A>(s: Seq<A>, p: spec_fn(A) -> bool, b: int, n: int)
    requires 0 <= b, 0 <= n, b + n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (p(#[trigger] s[i]) <==> b <= i < b + n),
    ensures s.filter(p) == s.subrange(b, b + n),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        let last = s.len() - 1;
        assert(p(s[last]) <==> b <= last < b + n);
        assert forall|i: int| 0 <= i < t.len() implies (p(#[trigger] t[i]) <==> b <= i < b + n) by { assert(t[i] == s[i]); }
        if p(s.last()) {
            filter_run(t, p, b, n - 1);
            assert(s.subrange(b, b + n) =~= t.subrange(b, b + n - 1).push(s.last()));
        } else {
            if n == 0 && b == s.len() { filter_run(t, p, b - 1, 0); assert(s.subrange(b, b + n) =~= t.subrange(b - 1, b - 1)); }
            else { filter_run(t, p, b, n); assert(s.subrange(b, b + n) =~= t.subrange(b, b + n)); }
        }
    } else {
        assert(s.filter(p) =~= s.subrange(b, b + n));
    }
}
proof fn best_after(sorted: bool, q: QueueElement, n: QueueElement)
    requires good(sorted, q), q.entry_iter.seq().len() > 0, n.next_entry == q.entry_iter.seq()[0], n.entry_iter.seq() == q.entry_iter.seq().drop_first(),
    ensures good(sorted, n), stream(q) == seq![q.next_entry] + stream(n), sorted ==> ahead(q.next_entry, n.next_entry),
{
    assert(stream(q) =~= seq![q.next_entry] + stream(n));
    assert forall|i: int| 0 <= i < stream(n).len() implies stream(n)[i] == #[trigger] stream(q)[i + 1] by {}
    assert forall|i: int| 0 <= i < stream(n).len() implies sane(#[trigger] stream(n)[i]) by { assert(sane(stream(q)[i + 1])); }
    if sorted {
        assert forall|i: int, j: int| 0 <= i <= j < stream(n).len() implies ahead(#[trigger] stream(n)[i], #[trigger] stream(n)[j]) by { assert(ahead(stream(q)[i + 1], stream(q)[j + 1])); }
        assert(ahead(stream(q)[0], stream(q)[1]));
    }
}
broadcast proof fn heads(sorted: bool, e: QueueElement, s: Seq<MatchEntry>, m: Multiset<Seen>)
    requires s.len() > 0, e.next_entry == s[0], e.entry_iter.seq() == s.drop_first(), forall|i: int| 0 <= i < s.len() ==> sane(#[trigger] s[i]), sorted ==> best_first(s),
    ensures #![trigger fits(sorted, e, m), s.drop_first()] fits(sorted, e, m) == (m == readings(s)),
{
    assert(stream(e) =~= s);
    reveal(fits);
}
// ---- everything it yields ----------------------------------------------------------------------------------------------------------
spec fn no_worse(a: Seen, b: Seen) -> bool { a.relev > b.relev || a.relev == b.relev && a.scoredist >= b.scoredist }
/// the first `max` of the answer are the best of all matching entries
spec fn best_kept(r: Seq<MatchEntry>, all: Multiset<Seen>, max: int) -> bool {
    &&& r.len() >= max || r.len() == all.len()
    &&& forall|x: Seen, i: int| 0 <= i < r.len() && i < max && #[trigger] all.count(x) > readings(r.take(if r.len() < max { r.len() as int } else { max })).count(x) ==> no_worse(read(#[trigger] r[i]), x)
}
spec fn leads(q: QueueElement, lost: Seq<MatchEntry>) -> bool { forall|j: int| 0 <= j < lost.len() ==> ahead(q.next_entry, #[trigger] lost[j]) }
spec fn leading(q: Q, lost: Seq<MatchEntry>) -> nat
    decreases q.len(),
{
    if q.len() == 0 { 0 } else { leading(q.drop_last(), lost) + if leads(q.last(), lost) { 1nat } else { 0 } }
}
spec fn yielded(sorted: bool, total: Multiset<Seen>, q: Q, max: int, lost: Seq<MatchEntry>, out: Seq<MatchEntry>) -> bool {
    &&& total == readings(out).add(bag(q, mine())).add(readings(lost))
    &&& lost.len() > 0 ==> total.len() > max
    &&& forall|i: int| 0 <= i < q.len() ==> good(sorted, #[trigger] q[i])
    &&& forall|i: int| 0 <= i < out.len() ==> sane(#[trigger] out[i])
    &&& sorted ==> {
        &&& best_first(out)
        &&& out.len() > 0 ==> forall|i: int| 0 <= i < q.len() ==> ahead(out.last(), (#[trigger] q[i]).next_entry)
        &&& lost.len() > 0 ==> leading(q, lost) + out.len() >= max
        &&& forall|i: int, j: int| 0 <= i < out.len() && i < max && 0 <= j < lost.len() ==> ahead(#[trigger] out[i], #[trigger] lost[j])
    }
}
proof fn leading_add(a: Q, b: Q, lost: Seq<MatchEntry>)
    ensures leading(a + b, lost) == leading(a, lost) + leading(b, lost),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        leading_add(a, b.drop_last(), lost);
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn leading_one(a: QueueElement, lost: Seq<MatchEntry>)
    ensures leading(seq![a], lost) == if leads(a, lost) { 1nat } else { 0 },
{
    assert(seq![a].drop_last() =~= Seq::<QueueElement>::empty());
    assert(leading(Seq::<QueueElement>::empty(), lost) == 0);
}
proof fn leading_at(q: Q, k: int, lost: Seq<MatchEntry>)
    requires 0 <= k < q.len(),
    ensures leading(q, lost) == leading(q.remove(k), lost) + if leads(q[k], lost) { 1nat } else { 0 },
{
    let (a, b) = (q.take(k), q.skip(k + 1));
    assert(q =~= a + seq![q[k]] + b);
    assert(q.remove(k) =~= a + b);
    leading_add(a + seq![q[k]], b, lost); leading_add(a, seq![q[k]], lost); leading_add(a, b, lost); leading_one(q[k], lost);
}
proof fn some_leads(q: Q, lost: Seq<MatchEntry>) -> (k: int)
    requires leading(q, lost) > 0,
    ensures 0 <= k < q.len(), leads(q[k], lost),
    decreases q.len(),
{
    if leads(q.last(), lost) { q.len() - 1 } else { some_leads(q.drop_last(), lost) }
}
proof fn all_lead(q: Q, lost: Seq<MatchEntry>)
    requires forall|i: int| 0 <= i < q.len() ==> leads(#[trigger] q[i], lost),
    ensures leading(q, lost) == q.len(),
    decreases q.len(),
{
    if q.len() > 0 { assert(leads(q[q.len() - 1], lost)); all_lead(q.drop_last(), lost); }
}
proof fn bag_size(q: Q)
    ensures bag(q, mine()).len() >= q.len(),
    decreases q.len(),
{
    if q.len() > 0 {
        bag_size(q.drop_last());
        stream(q.last()).map_values(as_seen()).to_multiset_ensures();
        assert(mine()(q.last()).len() >= 1);
    }
}
proof fn opening(sorted: bool, total: Multiset<Seen>, q: Q, max: int, lost: Seq<MatchEntry>)
    requires fair(sorted, total, q, max, lost),
    ensures yielded(sorted, total, q, max, lost, Seq::empty()),
{
    readings_none(Seq::empty());
    assert(total =~= readings(Seq::empty()).add(bag(q, mine())).add(readings(lost)));
    if lost.len() > 0 {
        bag_size(q);
        lost.map_values(as_seen()).to_multiset_ensures();
    }
    if sorted {
        assert forall|i: int| 0 <= i < q.len() implies leads(#[trigger] q[i], lost) by {}
        all_lead(q, lost);
    }
}
proof fn onward(sorted: bool, total: Multiset<Seen>, q: Q, max: int, lost: Seq<MatchEntry>, out: Seq<MatchEntry>, k: int, n: Q)
    requires yielded(sorted, total, q, max, lost, out), greatest_at(q, k), advanced(q, k, n),
    ensures yielded(sorted, total, n, max, lost, out.push(q[k].next_entry)), bag(n, mine()).len() < bag(q, mine()).len(),
{
    let m = q[k].next_entry;
    let rest = q[k].entry_iter.seq();
    let now = out.push(m);
    assert(good(sorted, q[k]));
    assert(now =~= out + seq![m]);
    readings_add(out, seq![m]);
    bag_at(q, k, mine());
    leading_at(q, k, lost);
    if rest.len() == 0 {
        assert(stream(q[k]) =~= seq![m]);
        assert forall|i: int| 0 <= i < n.len() implies good(sorted, #[trigger] n[i]) by { assert(n[i] == q[if i < k { i } else { i + 1 }]); }
    } else {
        best_after(sorted, q[k], n[k]);
        readings_add(seq![m], stream(n[k]));
        bag_at(n, k, mine());
        assert(n.remove(k) =~= q.remove(k));
        leading_at(n, k, lost);
        assert forall|i: int| 0 <= i < n.len() implies good(sorted, #[trigger] n[i]) by { if i != k { assert(n[i] == q[i]); } }
    }
    assert(bag(q, mine()) =~= readings(seq![m]).add(bag(n, mine())));
    seq![m].map_values(as_seen()).to_multiset_ensures();
    assert(readings(seq![m]).len() == 1);
    assert(total =~= readings(now).add(bag(n, mine())).add(readings(lost)));
    assert(good(sorted, q[k]) && stream(q[k])[0] == q[k].next_entry && sane(stream(q[k])[0]));
    assert forall|i: int| 0 <= i < out.push(q[k].next_entry).len() implies sane(#[trigger] out.push(q[k].next_entry)[i]) by { if i < out.len() { assert(sane(out[i])); } }
    if sorted {
        head_leads(sorted, q[k]);
        assert forall|i: int| 0 <= i < q.len() implies ahead(m, (#[trigger] q[i]).next_entry) by { assert(good(sorted, q[i])); head_leads(sorted, q[i]); above(q[i], q[k]); }
        assert forall|i: int| 0 <= i < n.len() implies ahead(now.last(), (#[trigger] n[i]).next_entry) by {
            if rest.len() == 0 { assert(n[i] == q[if i < k { i } else { i + 1 }]); } else if i != k { assert(n[i] == q[i]); }
        }
        assert forall|i: int, j: int| 0 <= i <= j < now.len() implies ahead(#[trigger] now[i], #[trigger] now[j]) by {
            if j < out.len() { assert(now[i] == out[i] && now[j] == out[j]); } else if i < out.len() {
                assert(now[i] == out[i]);
                assert(ahead(out[i], out[out.len() - 1]));
                assert(ahead(out.last(), q[k].next_entry));
            }
        }
        assert forall|i: int, j: int| 0 <= i < now.len() && i < max && 0 <= j < lost.len() implies ahead(#[trigger] now[i], #[trigger] lost[j]) by {
            if i < out.len() { assert(now[i] == out[i]); } else {
                let w = some_leads(q, lost);
                assert(ahead(m, q[w].next_entry));
                assert(ahead(q[w].next_entry, lost[j]));
            }
        }
    }
}
proof fn closing(sorted: bool, total: Multiset<Seen>, q: Q, max: int, lost: Seq<MatchEntry>, out: Seq<MatchEntry>)
    requires yielded(sorted, total, q, max, lost, out), q.len() == 0, max >= 1,
    ensures
        readings(out).subset_of(total), total.len() <= max ==> readings(out) == total,
        sorted ==> best_first(out) && best_kept(out, total, max),
{
    if lost.len() == 0 { readings_none(lost); assert(total =~= readings(out)); }
    out.map_values(as_seen()).to_multiset_ensures();
    if sorted {
        assert(leading(q, lost) == 0);
        let c = if out.len() < max { out.len() as int } else { max };
        let (a, b) = (out.take(c), out.skip(c));
        assert(out =~= a + b);
        readings_add(a, b);
        assert forall|x: Seen, i: int| 0 <= i < out.len() && i < max && #[trigger] total.count(x) > readings(a).count(x) implies no_worse(read(#[trigger] out[i]), x) by {
            assert(total.count(x) == readings(a).count(x) + readings(b).count(x) + readings(lost).count(x));
            ms_has(b.map_values(as_seen())); ms_has(lost.map_values(as_seen()));
            if readings(lost).count(x) > 0 {
                let j = lost.map_values(as_seen()).index_of(x);
                assert(x == read(lost[j]));
                assert(ahead(out[i], lost[j]));
            } else {
                assert(readings(b).count(x) > 0);
                let j = b.map_values(as_seen()).index_of(x);
                assert(x == read(b[j]) && b[j] == out[c + j]);
                assert(ahead(out[i], out[c + j]));
            }
        }
    }
}
== subst-re!
(let \w+ = self\s*\.db\s*\.iterator\([^;]*?)\.take_while\(\|\((\w+), _\)\| ([^;]*)\);
=>
\1.take_while_(|kv: &(Box<[u8]>, Box<[u8]>)| -> (o: bool) requires kv.0@.len() >= 5 ensures o == asked(fetch(*self, match_key.match_phrase), match_key.match_phrase, kv.0@) { let (\2, _) = kv; \3 });
== subst
IteratorMode::From(&db_key, Direction::Forward)
=>
IteratorMode::From(db_key.as_slice(), Direction::Forward)
== subst-re!
for \((\w+), (\w+)\) in it: (\w+)\b([\s\S]*?)/\*HEAD\*/
=>
let mut src = \3; let ghost all = src.seq(); proof { scan_seen(*self, *match_key, all, from); assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); none_yet(sorted, pri_queue@, max); } loop\4 let ghost (was, n, q0) = (src.seq(), all.len() - src.seq().len(), pri_queue@); let (\1, \2) = match src.next() { Some(kv) => kv, None => break }; proof { next_seen(sorted, f, all, n, q0, max); assert(all[n] == was[0] && src.seq() =~= all.skip(n + 1)); }
== subst-re!
decode_matching_value\((\w+), ([^;]*)\);
=>
decode_matching_value(\1, \2, Ghost(record_of(\1@)));
== subst-re
MinMaxHeap::<QueueElement<_>>::new\(\)
=>
MinMaxHeap::new()
== subst-re
\b(\w+)\.entry_iter\.next\(\)
=>
\1.get_mut().entry_iter.next()
== subst-re
std::mem::swap\(&mut (\w+), &mut \((\w+)\.next_entry\)\)
=>
std::mem::swap(&mut \1, &mut \2.get_mut().next_entry)
== text
proof fn none_yet(sorted: bool, q: Q, max: int)
    requires q.len() == 0, max >= 1,
    ensures is_fair(sorted, Multiset::empty(), q, max),
{
    reveal(is_fair);
    readings_none(Seq::empty());
    assert(Multiset::<Seen>::empty() =~= bag(q, mine()).add(readings(Seq::empty())));
    assert(fair(sorted, Multiset::empty(), q, max, Seq::empty()));
}
proof fn scan_seen(g: GridStore, k: MatchKey, all: Seq<(Box<[u8]>, Box<[u8]>)>, from: int)
    requires
        stored(g.db.pairs()), from == not_before(g.db.pairs(), start_key(fetch(g, k.match_phrase), from_phrase(k.match_phrase))),
        all.len() <= g.db.pairs().skip(from).len(), all == g.db.pairs().skip(from).take(all.len() as int),
        forall|i: int| 0 <= i < all.len() ==> asked(fetch(g, k.match_phrase), k.match_phrase, key_of(#[trigger] g.db.pairs().skip(from)[i])),
        all.len() < g.db.pairs().skip(from).len() ==> !asked(fetch(g, k.match_phrase), k.match_phrase, key_of(g.db.pairs().skip(from)[all.len() as int])),
    ensures
        all == g.db.pairs().filter(selects(g, k)),
        forall|i: int| 0 <= i < all.len() ==> kind(key_of(#[trigger] all[i])) <= 1 && 5 <= key_of(all[i]).len() <= 21 && (has_records(g.db.pairs()) ==> orderly(all[i].1@, record_of(all[i].1@))),
{
    let p = g.db.pairs();
    let ty = fetch(g, k.match_phrase);
    let n = all.len() as int;
    not_before_is(p, start_key(ty, from_phrase(k.match_phrase)));
    assert forall|i: int| from <= i < from + n implies asked(ty, k.match_phrase, key_of(#[trigger] p[i])) by { assert(p.skip(from)[i - from] == p[i]); }
    if from + n < p.len() { assert(p.skip(from)[n] == p[from + n]); }
    scanned(p, ty, k.match_phrase, n);
    assert forall|i: int| 0 <= i < p.len() implies (selects(g, k)(#[trigger] p[i]) <==> from <= i < from + n) by { assert(asked(ty, k.match_phrase, key_of(p[i])) <==> from <= i < from + n); }
    filter_run(p, selects(g, k), from, n);
    assert(all =~= p.subrange(from, from + n));
    assert forall|i: int| 0 <= i < all.len() implies kind(key_of(#[trigger] all[i])) <= 1 && 5 <= key_of(all[i]).len() <= 21 && (has_records(g.db.pairs()) ==> orderly(all[i].1@, record_of(all[i].1@))) by { assert(all[i] == p[from + i]); }
}
#[verifier::opaque]
spec fn fits(sorted: bool, e: QueueElement, m: Multiset<Seen>) -> bool { good(sorted, e) && mine()(e) == m }
proof fn next_seen(sorted: bool, f: spec_fn((Box<[u8]>, Box<[u8]>)) -> Multiset<Seen>, all: Seq<(Box<[u8]>, Box<[u8]>)>, n: int, q: Q, max: int)
    requires 0 <= n < all.len(), is_fair(sorted, bag(all.take(n), f), q, max),
    ensures
        f(all[n]) == Multiset::<Seen>::empty() ==> is_fair(sorted, bag(all.take(n + 1), f), q, max),
        forall|e: QueueElement| q.len() < max && fits(sorted, e, f(all[n])) ==> is_fair(sorted, bag(all.take(n + 1), f), #[trigger] q.push(e), max),
        forall|e: QueueElement, k: int| q.len() >= max && least_at(q, k) && fits(sorted, e, f(all[n])) && #[trigger] order(key_of_q(q[k]), key_of_q(e)) != Ordering::Less ==> is_fair(sorted, bag(all.take(n + 1), f), q, max),
        forall|e: QueueElement, k: int, m: int| q.len() >= max && least_at(q, k) && least_at(q, m) && fits(sorted, e, f(all[n])) && #[trigger] order(key_of_q(q[m]), key_of_q(e)) != Ordering::Greater ==> is_fair(sorted, bag(all.take(n + 1), f), #[trigger] q.update(k, e), max),
        q.len() <= max,
{
    reveal(fits);
    let (t, t2) = (bag(all.take(n), f), bag(all.take(n + 1), f));
    assert(all.take(n + 1).drop_last() =~= all.take(n));
    assert(t2 =~= t.add(f(all[n])));
    assert(q.len() <= max) by { reveal(is_fair); }
    if f(all[n]) == Multiset::<Seen>::empty() { assert(t2 =~= t); }
    assert forall|e: QueueElement| q.len() < max && fits(sorted, e, f(all[n])) implies is_fair(sorted, t2, #[trigger] q.push(e), max) by { keep(sorted, t, q, max, e); }
    assert forall|e: QueueElement, k: int| q.len() >= max && least_at(q, k) && fits(sorted, e, f(all[n])) && #[trigger] order(key_of_q(q[k]), key_of_q(e)) != Ordering::Less implies is_fair(sorted, t2, q, max) by { skip_it(sorted, t, q, max, e, k); }
    assert forall|e: QueueElement, k: int, m: int| q.len() >= max && least_at(q, k) && least_at(q, m) && fits(sorted, e, f(all[n])) && #[trigger] order(key_of_q(q[m]), key_of_q(e)) != Ordering::Greater implies is_fair(sorted, t2, #[trigger] q.update(k, e), max) by { replace(sorted, t, q, max, e, k, m); }
}
broadcast proof fn no_heads(s: Seq<MatchEntry>)
    requires s.len() == 0,
    ensures (#[trigger] s.map_values(as_seen())).to_multiset() == Multiset::<Seen>::empty(),
{
    readings_none(s);
}
== text
broadcast proof fn put_twice<A>(s: Seq<A>, k: int, x: A, y: A)
    requires 0 <= k < s.len(),
    ensures #[trigger] s.update(k, x).update(k, y) == s.update(k, y),
{
    assert(s.update(k, x).update(k, y) =~= s.update(k, y));
}
broadcast proof fn put_then_removed<A>(s: Seq<A>, k: int, x: A)
    requires 0 <= k < s.len(),
    ensures #[trigger] s.update(k, x).remove(k) == s.remove(k),
{
    assert(s.update(k, x).remove(k) =~= s.remove(k));
}
spec fn advanced(q: Q, k: int, n: Q) -> bool {
    let rest = q[k].entry_iter.seq();
    if rest.len() == 0 { n == q.remove(k) } else { n.len() == q.len() && n == q.update(k, n[k]) && n[k].next_entry == rest[0] && n[k].entry_iter.seq() == rest.drop_first() }
}
proof fn readings_have(s: Seq<MatchEntry>, i: int)
    requires 0 <= i < s.len(),
    ensures readings(s).count(read(s[i])) > 0,
{
    ms_has(s.map_values(as_seen()));
    assert(s.map_values(as_seen())[i] == read(s[i]));
}
/// what a stored entry can be
spec fn plausible(x: Seen) -> bool { 0.37real <= x.relev <= 1real && x.id < 16777216 }
proof fn bag_has<A, B>(s: Seq<A>, f: spec_fn(A) -> Multiset<B>, x: B) -> (i: int)
    requires bag(s, f).count(x) > 0,
    ensures 0 <= i < s.len(), f(s[i]).count(x) > 0,
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if f(s.last()).count(x) > 0 { s.len() - 1 } else { bag_has(s.drop_last(), f, x) }
}
proof fn all_plausible(g: GridStore, k: MatchKey, o: MatchOpts)
    ensures forall|x: Seen| #[trigger] matching(g, k, o).count(x) > 0 ==> plausible(x),
{
    assert forall|x: Seen| #[trigger] matching(g, k, o).count(x) > 0 implies plausible(x) by {
        let ps = g.db.pairs().filter(selects(g, k));
        let i1 = bag_has(ps, contrib(g, k, o), x);
        let p = ps[i1];
        let (d, lang, radius) = (p.1@, speaks(k.lang_set, key_of(p)), val(g.coalesce_radius));
        let rss = record_of(d).rs;
        let i2 = bag_has(rss, of_group(d, o, radius, lang), x);
        let rs = rss[i2];
        let (relev, score) = (val(relev_of(rs.relev_score >> 4)), rs.relev_score & 15);
        let cs = wanted(o, cs_at(d, rs));
        let i3 = bag_has(cs, of_coord(d, o, radius, lang, relev, score), x);
        let c = cs[i3];
        let xs = ids_at(d, c).map_values(seen(o, radius, lang, relev, score, c));
        ms_has(xs);
        let i = xs.index_of(x);
        let id = ids_at(d, c)[i];
        assert(x == seen(o, radius, lang, relev, score, c)(id));
        assert(id >> 8 < 16777216) by (bit_vector);
        relevs_apart(rs.relev_score >> 4, rs.relev_score >> 4);
        weighed_near(relev);
        assert(0.959real * relev >= 0.37real) by (nonlinear_arith) requires relev >= 0.39real;
        assert(0.961real * relev <= 1real) by (nonlinear_arith) requires relev <= 1real;
    }
}
== lift GridStore::streaming_get_matching
from_fn(move || {BODY})
=>
fn NAME(pri_queue: &mut MinMaxHeap<QueueElement>) -> (r: Option<MatchEntry>)
    ensures
        match r {
            None => old(pri_queue)@.len() == 0 && final(pri_queue)@.len() == 0,
            Some(m) => exists|k: int| #[trigger] greatest_at(old(pri_queue)@, k) && m == old(pri_queue)@[k].next_entry && advanced(old(pri_queue)@, k, final(pri_queue)@),
        },
{
    broadcast use {put_twice, put_then_removed};
    BODY
}
impl GridStore {
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
fn NAME_start(&self, match_key: &MatchKey, match_opts: &MatchOpts, max_values: usize) -> (r: Result<MinMaxHeap<QueueElement>, Error>)
    requires ready(*self, *match_opts), max_values >= 1,
    ensures r matches Ok(q) && is_fair(match_opts.proximity is None, matching(*self, *match_key, *match_opts), q@, max_values as int),
{
    broadcast use {heads, no_heads};
    let ghost (o0, sorted, max, ty) = (*match_opts, match_opts.proximity is None, max_values as int, fetch(*self, match_key.match_phrase));
    let ghost (pairs, from) = (self.db.pairs(), not_before(self.db.pairs(), start_key(ty, from_phrase(match_key.match_phrase))));
    proof { not_before_is(pairs, start_key(ty, from_phrase(match_key.match_phrase))); }
    let ghost f = contrib(*self, *match_key, *match_opts);
    PRE
    proof { assert(all.take(all.len() as int) =~= all); }
    Ok(pri_queue)
}
}
-- vars pri_queue
-- pre
-- loop 0 for iter=it
invariant
    src.seq().len() <= all.len(), src.seq() == all.skip(all.len() - src.seq().len()),
    is_fair(sorted, bag(all.take(all.len() - src.seq().len()), f), pri_queue@, max),

decreases src.seq().len(),
-- loop 0 start
/*HEAD*/
== exported
/// everything the iterator yields
impl GridStore {
fn all_matches(&self, match_key: &MatchKey, match_opts: &MatchOpts, max_values: usize) -> (r: Vec<MatchEntry>)
    requires ready(*self, *match_opts), max_values >= 1,
    ensures
        readings(r@).subset_of(matching(*self, *match_key, *match_opts)),
        forall|i: int| 0 <= i < r@.len() ==> sane(#[trigger] r@[i]) && plausible(read(r@[i])),
        matching(*self, *match_key, *match_opts).len() <= max_values ==> readings(r@) == matching(*self, *match_key, *match_opts),
        match_opts.proximity is None ==> best_first(r@) && best_kept(r@, matching(*self, *match_key, *match_opts), max_values as int),
{
    let ghost (total, sorted, max) = (matching(*self, *match_key, *match_opts), match_opts.proximity is None, max_values as int);
    let mut pri_queue = match self.streaming_get_matching_step_start(match_key, match_opts, max_values) { Ok(q) => q, Err(_) => { assert(false); return Vec::new(); } };
    let ghost lost = { reveal(is_fair); choose|lost: Seq<MatchEntry>| fair(sorted, total, pri_queue@, max, lost) };
    let mut out: Vec<MatchEntry> = Vec::new();
    proof { reveal(is_fair); opening(sorted, total, pri_queue@, max, lost); }
    loop
        invariant yielded(sorted, total, pri_queue@, max, lost, out@),
        ensures yielded(sorted, total, pri_queue@, max, lost, out@), pri_queue@.len() == 0,
        decreases bag(pri_queue@, mine()).len(),
    {
        let ghost (q0, out0) = (pri_queue@, out@);
        match streaming_get_matching_step(&mut pri_queue) {
            None => { assert(pri_queue@ =~= q0); break; }
            Some(m) => {
                out.push(m);
                proof {
                    let k = choose|k: int| #[trigger] greatest_at(q0, k) && m == q0[k].next_entry && advanced(q0, k, pri_queue@);
                    onward(sorted, total, q0, max, lost, out0, k, pri_queue@);
                }
            }
        }
    }
    proof {
        closing(sorted, total, pri_queue@, max, lost, out@);
        all_plausible(*self, *match_key, *match_opts);
        assert forall|i: int| 0 <= i < out@.len() implies plausible(read(#[trigger] out@[i])) by {
            readings_have(out@, i);
            assert(readings(out@).count(read(out@[i])) <= total.count(read(out@[i])));
        }
    }
    out
}
}
