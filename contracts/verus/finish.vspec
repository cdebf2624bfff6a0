# C10 (and C02, C08, C09): what finish writes: phrases, prefix bins, boundaries
== source builder.rs
== import builder
== import encode
== import bytes
== include bounds.inc
== subst-re!
self\.bin_boundaries\.iter\(\)\.(cloned|copied)\(\)\.peekable\(\)
=>
peek_(&self.bin_boundaries)
== subst-re
\.map_or\(false, \|(\w+)\| (key\.phrase_id\s*\S+\s*\w+)\)
=>
.map_or_(false, |\1: u32| -> (o: bool) ensures o == (\2) { \2 })
== inline!
let (\w+)\s*=\s*somewhat_eager_groupby\(self\.data\.into_iter\(\), \|\((\w+), (_\w*)\)\| \{
=>
let items = collect_(self.data.into_iter());
    let ghost its = items@;
    proof { key_order_is(); assert(ordered(its)); assert(items_fit(its, bs)); }
    let mut called: Vec<Option<u32>> = Vec::new();
    let ghost mut n: int = 0;
    assert(bs.skip(0) =~= bs);
    for i in it: 0..items.len()
        invariant
            ordered(its), its == items@, ascending(bs),
            called@.len() == i,
            forall|j: int| 0 <= j < i ==> #[trigger] called@[j] == bin_of(bs, its[j].0.phrase_id),
            at_bin(bs, n, bin_seq.rest(), current_bin, next_boundary),
            n > 0 ==> i > 0 && bs[n - 1] <= its[i - 1].0.phrase_id,
    {
        let (\2, \3) = (&items[i].0, &items[i].1);
        proof { if i > 0 { assert(gridkey_lt(its[i - 1].0, its[i as int].0)); } }
        let k = BODY;
        proof { if (n > 0 ==> bs[n - 1] <= its[i as int].0.phrase_id) && (n < bs.len() ==> bs[n] > its[i as int].0.phrase_id) { bin_is(bs, n, its[i as int].0.phrase_id); } }
        called.push(k);
    }
    let ghost ks = called@;
    let (\1, Ghost(parts)) = told_groups(items, called);
    let ghost cuts = parts.0;
    let ghost gs = parts.1;
    proof { reveal(phrases_in); reveal(bins_in); reveal(nothing_else); }
== subst!
let db = DB::open(
=>
let mut db = DB::open(
== subst-re!
DB::open\((&\w+), (&self\.path)\)
=>
DB::open(\1, \2, base)
== subst-re
\|\| BuilderEntry::new\(\)
=>
|| -> (m: BuilderEntry) ensures m@ == Map::<u8, HashMap<u32, Vec<u32>>>::empty() { BuilderEntry::new() }
== subst-re
\.to_le_bytes\(\)
=>
.to_le_bytes_()
== subst!
finish(self)
=>
finish(self, base: Ghost<Map<Seq<u8>, Seq<u8>>>, out: &mut Ghost<Map<Seq<u8>, Seq<u8>>>)
== source common.rs
== take const MAX_KEY_LENGTH
== derived-order GridKey
== text
// ---- assumed ----------------------------------------------------------------------------------------------------------------------
/// derive(PartialOrd, Ord)
#[verifier::external_body]
proof fn key_order_is()
    ensures forall|a: GridKey, b: GridKey| #[trigger] before(a, b) == gridkey_lt(a, b),
{}
/// Peekable over the copied elements of a slice
#[verifier::external_body]
struct Peek { s: Vec<u32> }
impl Peek {
    uninterp spec fn rest(&self) -> Seq<u32>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<u32>)
        ensures
            old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&u32>)
        ensures
            final(self).rest() == old(self).rest(),
            r.is_some() == (old(self).rest().len() > 0),
            r matches Some(x) ==> *x == old(self).rest()[0],
    { unimplemented!() }
}
#[verifier::external_body]
fn peek_(s: &Vec<u32>) -> (r: Peek)
    ensures r.rest() == s@
{ unimplemented!() }
trait MapOr<T> {
    spec fn opt(self) -> Option<T>;
    fn map_or_<F: Fn(T) -> bool>(self, d: bool, f: F) -> (r: bool)
        requires self.opt() matches Some(x) ==> f.requires((x,)),
        ensures match self.opt() { None => r == d, Some(x) => f.ensures((x,), r) };
}
impl<T> MapOr<T> for Option<T> {
    spec fn opt(self) -> Option<T> { self }
    fn map_or_<F: Fn(T) -> bool>(self, d: bool, f: F) -> (r: bool) { match self { None => d, Some(x) => f(x) } }
}
fn drop<T>(x: T) {}
#[verifier::external_body]
struct Options { o: () }
impl Options {
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn set_disable_auto_compactions(&mut self, b: bool) { unimplemented!() }
    #[verifier::external_body]
    fn create_if_missing(&mut self, b: bool) { unimplemented!() }
}
/// rocksdb while it is written: a map from keys to values
#[verifier::external_body]
struct DB { d: () }
impl DB {
    uninterp spec fn map(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body]
    fn open(o: &Options, p: &PathBuf, base: Ghost<Map<Seq<u8>, Seq<u8>>>) -> (r: Result<DB, Error>)
        ensures r matches Ok(d) ==> d.map() == base@
    { unimplemented!() }
    #[verifier::external_body]
    fn put<K: Bytes + ?Sized, V: Bytes + ?Sized>(&mut self, k: &K, v: &V) -> (r: Result<(), Error>)
        ensures r.is_ok() ==> final(self).map() == old(self).map().insert(k.bytes(), v.bytes())
    { unimplemented!() }
    #[verifier::external_body]
    fn compact_range<A, B>(&self, a: Option<A>, b: Option<B>) { unimplemented!() }
}
// ---- what a finished store holds ----------------------------------------------------------------------------------------------------
spec fn ordered(items: Seq<(GridKey, BuilderEntry)>) -> bool { forall|i: int, j: int| 0 <= i < j < items.len() ==> gridkey_lt((#[trigger] items[i]).0, (#[trigger] items[j]).0) }
spec fn ascending(bs: Seq<u32>) -> bool { (bs.len() > 0 ==> bs[0] == 0) && forall|i: int, j: int| 0 <= i < j < bs.len() ==> bs[i] <= bs[j] }
/// the bin of a phrase: the greatest boundary not above it
spec fn bin_of(bs: Seq<u32>, p: u32) -> Option<u32>
    decreases bs.len(),
{
    if bs.len() == 0 { None } else if bs.last() <= p { Some(bs.last()) } else { bin_of(bs.drop_last(), p) }
}
/// after n boundaries
spec fn at_bin(bs: Seq<u32>, n: int, rest: Seq<u32>, current: Option<u32>, next: Option<u32>) -> bool {
    &&& 0 <= n <= bs.len() && rest == bs.skip(n)
    &&& current == if n > 0 { Some(bs[n - 1]) } else { None }
    &&& if n < bs.len() { next == Some(bs[n]) } else if bs.len() > 0 { next.is_none() } else { next.is_none() || next == Some(0u32) }
}
proof fn bin_is(bs: Seq<u32>, n: int, p: u32)
    requires ascending(bs), 0 <= n <= bs.len(), n > 0 ==> bs[n - 1] <= p, n < bs.len() ==> bs[n] > p,
    ensures bin_of(bs, p) == if n > 0 { Some(bs[n - 1]) } else { None },
    decreases bs.len(),
{
    if n < bs.len() { bin_is(bs.drop_last(), n, p); }
}
spec fn pk(k: GridKey) -> Seq<u8> { enc(0, k.phrase_id, k.lang_set) }
spec fn bk(b: u32, l: u128) -> Seq<u8> { enc(1, b, l) }
/// the item lies in the bin b and has the language set l
spec fn of_bin(x: (GridKey, BuilderEntry), bs: Seq<u32>, b: u32, l: u128) -> bool { bin_of(bs, x.0.phrase_id) == Some(b) && x.0.lang_set == l }
/// an entry of some item of the bin and language set
spec fn in_bin(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, b: u32, l: u128, t: (u8, u32, u32)) -> bool {
    exists|i: int| 0 <= i < items.len() && of_bin(#[trigger] items[i], bs, b, l) && in_entry(items[i].1@, t)
}
/// a record with exactly these entries
spec fn bin_value(d: Seq<u8>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, b: u32, l: u128) -> bool {
    exists|e: Map<u8, HashMap<u32, Vec<u32>>>| #[trigger] written(d, e) && forall|t: (u8, u32, u32)| #[trigger] in_entry(e, t) <==> in_bin(items, bs, b, l, t)
}
#[verifier::opaque]
spec fn phrases_in(m: Map<Seq<u8>, Seq<u8>>, items: Seq<(GridKey, BuilderEntry)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> m.dom().contains(pk((#[trigger] items[i]).0)) && written(m[pk(items[i].0)], items[i].1@)
}
spec fn bin_in(m: Map<Seq<u8>, Seq<u8>>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, b: u32, l: u128) -> bool {
    m.dom().contains(bk(b, l)) && bin_value(m[bk(b, l)], items, bs, b, l)
}
#[verifier::opaque]
spec fn bins_in(m: Map<Seq<u8>, Seq<u8>>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, n: int) -> bool {
    forall|i: int, b: u32, l: u128| 0 <= i < n && #[trigger] of_bin(items[i], bs, b, l) ==> bin_in(m, items, bs, b, l)
}
spec fn a_phrase(x: Seq<u8>, items: Seq<(GridKey, BuilderEntry)>, n: int) -> bool { exists|i: int| 0 <= i < n && x == pk((#[trigger] items[i]).0) }
spec fn a_bin(x: Seq<u8>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, n: int) -> bool { exists|i: int, b: u32, l: u128| 0 <= i < n && #[trigger] of_bin(items[i], bs, b, l) && x == bk(b, l) }
#[verifier::opaque]
spec fn nothing_else(m: Map<Seq<u8>, Seq<u8>>, base: Map<Seq<u8>, Seq<u8>>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, n: int, nb: int) -> bool {
    forall|x: Seq<u8>| #[trigger] m.dom().contains(x) ==> base.dom().contains(x) || a_phrase(x, items, n) || a_bin(x, items, bs, nb)
}
spec fn lang_total(items: Seq<(GridKey, BuilderEntry)>, a: int, b: int, l: u128) -> nat
    decreases b - a,
{
    if b <= a { 0 } else { lang_total(items, a, b - 1, l) + if items[b - 1].0.lang_set == l { size(items[b - 1].1@) } else { 0 } }
}
spec fn one_bin(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, a: int, b: int) -> bool {
    0 <= a <= b <= items.len() && forall|i: int, j: int| a <= i < b && a <= j < b ==> bin_of(bs, (#[trigger] items[i]).0.phrase_id) == bin_of(bs, (#[trigger] items[j]).0.phrase_id)
}
/// the record of each phrase and the joined record of a bin and language set fit into u32 offsets
spec fn fits(data: Map<GridKey, BuilderEntry>, bs: Seq<u32>) -> bool {
    forall|items: Seq<(GridKey, BuilderEntry)>| #[trigger] lists(items, data) && ordered(items) ==> items_fit(items, bs)
}
spec fn items_fit(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> size((#[trigger] items[i]).1@) <= u32::MAX
    &&& forall|a: int, b: int, l: u128| one_bin(items, bs, a, b) ==> 9 + #[trigger] lang_total(items, a, b, l) <= u32::MAX
}
/// C10, C09: the store holds each phrase with its entries, each bin with those of its phrases, the boundaries, and nothing else
spec fn finished(m: Map<Seq<u8>, Seq<u8>>, base: Map<Seq<u8>, Seq<u8>>, data: Map<GridKey, BuilderEntry>, bs: Seq<u32>) -> bool {
    &&& forall|k: GridKey| #[trigger] data.dom().contains(k) ==> m.dom().contains(pk(k)) && written(m[pk(k)], data[k]@)
    &&& forall|k: GridKey, b: u32| data.dom().contains(k) && #[trigger] bin_of(bs, k.phrase_id) == Some(b) ==> m.dom().contains(#[trigger] bk(b, k.lang_set)) && joined_value(m[bk(b, k.lang_set)], data, bs, b, k.lang_set)
    &&& m.dom().contains(bounds_key()) && m[bounds_key()] == le_all(bs)
    &&& forall|x: Seq<u8>| #[trigger] m.dom().contains(x) ==> base.dom().contains(x) || x == bounds_key() || is_phrase(x, data) || is_bin(x, data, bs)
}
spec fn is_phrase(x: Seq<u8>, data: Map<GridKey, BuilderEntry>) -> bool { exists|k: GridKey| #[trigger] data.dom().contains(k) && x == pk(k) }
spec fn is_bin(x: Seq<u8>, data: Map<GridKey, BuilderEntry>, bs: Seq<u32>) -> bool { exists|k: GridKey, b: u32| #[trigger] data.dom().contains(k) && bin_of(bs, k.phrase_id) == Some(b) && x == #[trigger] bk(b, k.lang_set) }
spec fn in_joined(data: Map<GridKey, BuilderEntry>, bs: Seq<u32>, b: u32, l: u128, t: (u8, u32, u32)) -> bool {
    exists|k: GridKey| #[trigger] data.dom().contains(k) && bin_of(bs, k.phrase_id) == Some(b) && k.lang_set == l && in_entry(data[k]@, t)
}
spec fn joined_value(d: Seq<u8>, data: Map<GridKey, BuilderEntry>, bs: Seq<u32>, b: u32, l: u128) -> bool {
    exists|e: Map<u8, HashMap<u32, Vec<u32>>>| #[trigger] written(d, e) && forall|t: (u8, u32, u32)| #[trigger] in_entry(e, t) <==> in_joined(data, bs, b, l, t)
}
// ---- lemmas -----------------------------------------------------------------------------------------------------------------------------
proof fn pk_apart(k: GridKey, j: GridKey)
    requires pk(k) == pk(j),
    ensures k == j,
{
    key_unique(0, k.phrase_id, k.lang_set, 0, j.phrase_id, j.lang_set);
}
proof fn kinds_apart(k: GridKey, b: u32, l: u128)
    ensures pk(k) != bk(b, l),
{
    assert(pk(k)[0] == 0 && bk(b, l)[0] == 1);
}
proof fn bounds_apart(ty: u8, p: u32, l: u128)
    requires ty <= 1,
    ensures enc(ty, p, l) != bounds_key(),
{
    reveal_strlit("~BOUNDS");
    assert(bounds_key()[0] == 126);
    assert(enc(ty, p, l)[0] == ty);
}
proof fn put_phrase(m: Map<Seq<u8>, Seq<u8>>, base: Map<Seq<u8>, Seq<u8>>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, n: int, nb: int, d: Seq<u8>)
    requires ordered(items), 0 <= n < items.len(), phrases_in(m, items, n), bins_in(m, items, bs, nb), nothing_else(m, base, items, bs, n, nb), written(d, items[n].1@),
    ensures ({ let r = m.insert(pk(items[n].0), d); phrases_in(r, items, n + 1) && bins_in(r, items, bs, nb) && nothing_else(r, base, items, bs, n + 1, nb) }),
{
    reveal(phrases_in); reveal(bins_in); reveal(nothing_else);
    let r = m.insert(pk(items[n].0), d);
    assert forall|i: int| 0 <= i < n + 1 implies r.dom().contains(pk((#[trigger] items[i]).0)) && written(r[pk(items[i].0)], items[i].1@) by {
        if i < n && pk(items[i].0) == pk(items[n].0) { pk_apart(items[i].0, items[n].0); assert(gridkey_lt(items[i].0, items[n].0)); }
    }
    assert forall|i: int, b: u32, l: u128| 0 <= i < nb && #[trigger] of_bin(items[i], bs, b, l) implies bin_in(r, items, bs, b, l) by { kinds_apart(items[n].0, b, l); assert(bin_in(m, items, bs, b, l)); }
    assert forall|x: Seq<u8>| #[trigger] r.dom().contains(x) implies base.dom().contains(x) || a_phrase(x, items, n + 1) || a_bin(x, items, bs, nb) by {
        if x == pk(items[n].0) { } else { assert(m.dom().contains(x)); if a_phrase(x, items, n) { let i = choose|i: int| 0 <= i < n && x == pk((#[trigger] items[i]).0); assert(x == pk(items[i].0)); } }
    }
}
proof fn put_bin(m: Map<Seq<u8>, Seq<u8>>, base: Map<Seq<u8>, Seq<u8>>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, n: int, nb: int, w: int, b: u32, l: u128, d: Seq<u8>)
    requires phrases_in(m, items, n), n <= items.len(), bins_in(m, items, bs, nb), nothing_else(m, base, items, bs, n, n), bin_value(d, items, bs, b, l), 0 <= w < n, of_bin(items[w], bs, b, l),
    ensures ({
        let r = m.insert(bk(b, l), d);
        &&& phrases_in(r, items, n) && bins_in(r, items, bs, nb) && nothing_else(r, base, items, bs, n, n) && bin_in(r, items, bs, b, l)
        &&& forall|b2: u32, l2: u128| bin_in(m, items, bs, b2, l2) ==> #[trigger] bin_in(r, items, bs, b2, l2)
    }),
{
    reveal(phrases_in); reveal(bins_in); reveal(nothing_else);
    let r = m.insert(bk(b, l), d);
    assert forall|b2: u32, l2: u128| bin_in(m, items, bs, b2, l2) implies #[trigger] bin_in(r, items, bs, b2, l2) by {
        if bk(b2, l2) == bk(b, l) { key_unique(1, b, l, 1, b2, l2); }
    }
    assert forall|i: int| 0 <= i < n implies r.dom().contains(pk((#[trigger] items[i]).0)) && written(r[pk(items[i].0)], items[i].1@) by { kinds_apart(items[i].0, b, l); }
    assert forall|x: Seq<u8>| #[trigger] r.dom().contains(x) implies base.dom().contains(x) || a_phrase(x, items, n) || a_bin(x, items, bs, n) by {
        if x == bk(b, l) { assert(of_bin(items[w], bs, b, l)); } else { assert(m.dom().contains(x)); }
    }
}
proof fn bin_monotone(bs: Seq<u32>, p: u32, q: u32)
    requires ascending(bs), p <= q,
    ensures bin_of(bs, p).is_none() == (bs.len() == 0), bin_of(bs, q).is_none() == (bs.len() == 0), bs.len() > 0 ==> bin_of(bs, p).unwrap() <= bin_of(bs, q).unwrap() <= bs.last(),
    decreases bs.len(),
{
    if bs.len() > 1 { bin_monotone(bs.drop_last(), p, q); }
}
/// a group has all items of its bin
proof fn whole_bin(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, keys: Seq<Option<u32>>, g: Seq<(Option<u32>, Vec<(GridKey, BuilderEntry)>)>, cuts: Seq<int>, j: int, i: int)
    requires
        ordered(items), ascending(bs), keys.len() == items.len(), forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == bin_of(bs, items[i].0.phrase_id),
        cut_at(cuts, items, keys, g), 0 <= j < g.len(), 0 <= i < items.len(), keys[i] == g[j].0,
    ensures cuts[j] <= i < cuts[j + 1],
{
    if i < cuts[j] { later_bin(items, bs, keys, g, cuts, i, j); }
    if i >= cuts[j + 1] { earlier_bin(items, bs, keys, g, cuts, i, j); }
}
proof fn later_bin(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, keys: Seq<Option<u32>>, g: Seq<(Option<u32>, Vec<(GridKey, BuilderEntry)>)>, cuts: Seq<int>, i: int, j: int)
    requires
        ordered(items), ascending(bs), keys.len() == items.len(), forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == bin_of(bs, items[i].0.phrase_id),
        cut_at(cuts, items, keys, g), 0 <= j < g.len(), 0 <= i < cuts[j],
    ensures keys[i] != g[j].0,
{
    // the item before the group has another key, and keys never decrease
    assert(j > 0);
    let p = cuts[j] - 1;
    assert(cuts[j - 1] <= p < cuts[j - 1 + 1]);
    assert(keys[p] == g[j - 1].0 && keys[cuts[j]] == g[j].0 && g[j - 1].0 != g[j - 1 + 1].0);
    step_up(items, bs, keys, i, p);
    step_up(items, bs, keys, p, cuts[j]);
}
proof fn earlier_bin(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, keys: Seq<Option<u32>>, g: Seq<(Option<u32>, Vec<(GridKey, BuilderEntry)>)>, cuts: Seq<int>, i: int, j: int)
    requires
        ordered(items), ascending(bs), keys.len() == items.len(), forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == bin_of(bs, items[i].0.phrase_id),
        cut_at(cuts, items, keys, g), 0 <= j < g.len(), cuts[j + 1] <= i < items.len(),
    ensures keys[i] != g[j].0,
{
    assert(j + 1 < g.len());
    let p = cuts[j + 1];
    assert(cuts[j] < cuts[j + 1] && p < cuts[j + 2]) by { assert(cuts[j + 1] < cuts[(j + 1) + 1]); }
    assert(keys[p] == g[j + 1].0 && keys[p - 1] == g[j].0 && g[j].0 != g[j + 1].0);
    step_up(items, bs, keys, p - 1, p);
    step_up(items, bs, keys, p, i);
}
proof fn step_up(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, keys: Seq<Option<u32>>, i: int, j: int)
    requires ordered(items), ascending(bs), keys.len() == items.len(), forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == bin_of(bs, items[i].0.phrase_id), 0 <= i <= j < items.len(),
    ensures keys[i].is_none() == (bs.len() == 0), keys[j].is_none() == (bs.len() == 0), bs.len() > 0 ==> keys[i].unwrap() <= keys[j].unwrap(),
{
    if i < j { assert(gridkey_lt(items[i].0, items[j].0)); }
    bin_monotone(bs, items[i].0.phrase_id, items[j].0.phrase_id);
}
proof fn all_finished(m: Map<Seq<u8>, Seq<u8>>, base: Map<Seq<u8>, Seq<u8>>, items: Seq<(GridKey, BuilderEntry)>, data: Map<GridKey, BuilderEntry>, bs: Seq<u32>)
    requires lists(items, data), phrases_in(m, items, items.len() as int), bins_in(m, items, bs, items.len() as int), nothing_else(m, base, items, bs, items.len() as int, items.len() as int),
    ensures finished(m.insert(bounds_key(), le_all(bs)), base, data, bs),
{
    reveal(phrases_in); reveal(bins_in); reveal(nothing_else);
    let r = m.insert(bounds_key(), le_all(bs));
    assert forall|k: GridKey| #[trigger] data.dom().contains(k) implies r.dom().contains(pk(k)) && written(r[pk(k)], data[k]@) by {
        let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == k;
        bounds_apart(0, k.phrase_id, k.lang_set);
    }
    assert forall|b: u32, l: u128, t: (u8, u32, u32)| #[trigger] in_bin(items, bs, b, l, t) <==> in_joined(data, bs, b, l, t) by {
        if in_bin(items, bs, b, l, t) { let i = choose|i: int| 0 <= i < items.len() && of_bin(#[trigger] items[i], bs, b, l) && in_entry(items[i].1@, t); assert(data.dom().contains(items[i].0)); }
        if in_joined(data, bs, b, l, t) {
            let k = choose|k: GridKey| #[trigger] data.dom().contains(k) && bin_of(bs, k.phrase_id) == Some(b) && k.lang_set == l && in_entry(data[k]@, t);
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == k;
            assert(of_bin(items[i], bs, b, l));
        }
    }
    assert forall|k: GridKey, b: u32| data.dom().contains(k) && #[trigger] bin_of(bs, k.phrase_id) == Some(b) implies r.dom().contains(#[trigger] bk(b, k.lang_set)) && joined_value(r[bk(b, k.lang_set)], data, bs, b, k.lang_set) by {
        let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == k;
        assert(of_bin(items[i], bs, b, k.lang_set));
        assert(bin_in(m, items, bs, b, k.lang_set));
        bounds_apart(1, b, k.lang_set);
        let d = m[bk(b, k.lang_set)];
        let e = choose|e: Map<u8, HashMap<u32, Vec<u32>>>| #[trigger] written(d, e) && forall|t: (u8, u32, u32)| #[trigger] in_entry(e, t) <==> in_bin(items, bs, b, k.lang_set, t);
        assert(written(d, e));
        assert forall|t: (u8, u32, u32)| #[trigger] in_entry(e, t) <==> in_joined(data, bs, b, k.lang_set, t) by { assert(in_bin(items, bs, b, k.lang_set, t) <==> in_joined(data, bs, b, k.lang_set, t)); }
    }
    assert forall|x: Seq<u8>| #[trigger] r.dom().contains(x) implies base.dom().contains(x) || x == bounds_key() || is_phrase(x, data) || is_bin(x, data, bs) by {
        if x != bounds_key() {
            assert(m.dom().contains(x));
            if a_phrase(x, items, items.len() as int) { let i = choose|i: int| 0 <= i < items.len() && x == pk((#[trigger] items[i]).0); assert(data.dom().contains(items[i].0)); }
            if a_bin(x, items, bs, items.len() as int) {
                let (i, b, l) = choose|i: int, b: u32, l: u128| 0 <= i < items.len() && #[trigger] of_bin(items[i], bs, b, l) && x == bk(b, l);
                assert(data.dom().contains(items[i].0));
                assert(bk(b, items[i].0.lang_set) == x);
            }
        }
    }
}
/// entries of the items [a, b) with the language set
spec fn in_part(items: Seq<(GridKey, BuilderEntry)>, a: int, b: int, l: u128, t: (u8, u32, u32)) -> bool {
    exists|i: int| a <= i < b && (#[trigger] items[i]).0.lang_set == l && in_entry(items[i].1@, t)
}
spec fn has_lang(items: Seq<(GridKey, BuilderEntry)>, a: int, b: int, l: u128) -> bool { exists|i: int| a <= i < b && (#[trigger] items[i]).0.lang_set == l }
/// what has been gathered of the items [a, b), by language set
#[verifier::opaque]
spec fn gathered(lm: Map<u128, BuilderEntry>, items: Seq<(GridKey, BuilderEntry)>, a: int, b: int) -> bool {
    &&& forall|l: u128| #[trigger] lm.dom().contains(l) <==> has_lang(items, a, b, l)
    &&& forall|l: u128, t: (u8, u32, u32)| lm.dom().contains(l) ==> (#[trigger] in_entry(lm[l]@, t) <==> in_part(items, a, b, l, t))
    &&& forall|l: u128| lm.dom().contains(l) ==> size((#[trigger] lm[l])@) <= 9 + lang_total(items, a, b, l)
}
/// e is what was gathered for the item's language set, and the item's entries
spec fn gathers(lm: Map<u128, BuilderEntry>, x: (GridKey, BuilderEntry), e: BuilderEntry) -> bool {
    let was = if lm.dom().contains(x.0.lang_set) { lm[x.0.lang_set]@ } else { Map::empty() };
    &&& forall|t: (u8, u32, u32)| #[trigger] in_entry(e@, t) <==> in_entry(was, t) || in_entry(x.1@, t)
    &&& size(e@) <= size(was) + size(x.1@)
}
proof fn gather_more(lm: Map<u128, BuilderEntry>, items: Seq<(GridKey, BuilderEntry)>, a: int, b: int, e: BuilderEntry)
    requires
        0 <= a <= b < items.len(), gathered(lm, items, a, b), gathers(lm, items[b], e),
    ensures gathered(lm.insert(items[b].0.lang_set, e), items, a, b + 1),
{
    reveal(gathered);
    let l0 = items[b].0.lang_set;
    let r = lm.insert(l0, e);
    total_empty::<u8, HashMap<u32, Vec<u32>>>(group_size());
    assert forall|l: u128| #[trigger] r.dom().contains(l) <==> has_lang(items, a, b + 1, l) by {
        assert(lm.dom().contains(l) <==> has_lang(items, a, b, l));
        if has_lang(items, a, b, l) { let i = choose|i: int| a <= i < b && (#[trigger] items[i]).0.lang_set == l; assert(items[i].0.lang_set == l); }
        if has_lang(items, a, b + 1, l) && l != l0 { let i = choose|i: int| a <= i < b + 1 && (#[trigger] items[i]).0.lang_set == l; assert(has_lang(items, a, b, l)); }
    }
    assert forall|l: u128, t: (u8, u32, u32)| r.dom().contains(l) implies (#[trigger] in_entry(r[l]@, t) <==> in_part(items, a, b + 1, l, t)) by {
        assert(in_part(items, a, b + 1, l, t) <==> in_part(items, a, b, l, t) || l == l0 && in_entry(items[b].1@, t)) by {
            if in_part(items, a, b, l, t) { let i = choose|i: int| a <= i < b && (#[trigger] items[i]).0.lang_set == l && in_entry(items[i].1@, t); assert(items[i].0.lang_set == l); }
        }
        if l != l0 {
            assert(lm.dom().contains(l));
            assert(in_entry(lm[l]@, t) <==> in_part(items, a, b, l, t));
        } else if lm.dom().contains(l) {
            assert(in_entry(lm[l]@, t) <==> in_part(items, a, b, l, t));
        } else {
            assert(!has_lang(items, a, b, l));
        }
    }
    assert forall|l: u128| r.dom().contains(l) implies size((#[trigger] r[l])@) <= 9 + lang_total(items, a, b + 1, l) by {
        if l != l0 { assert(lm.dom().contains(l)); assert(size(lm[l]@) <= 9 + lang_total(items, a, b, l)); }
        else if lm.dom().contains(l) { assert(size(lm[l]@) <= 9 + lang_total(items, a, b, l)); }
    }
}
proof fn more_bins(items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, a: int, z: int)
    requires a <= z,
    ensures forall|x: Seq<u8>| #[trigger] a_bin(x, items, bs, a) ==> a_bin(x, items, bs, z),
{
    assert forall|x: Seq<u8>| #[trigger] a_bin(x, items, bs, a) implies a_bin(x, items, bs, z) by {
        let (i, b, l) = choose|i: int, b: u32, l: u128| 0 <= i < a && #[trigger] of_bin(items[i], bs, b, l) && x == bk(b, l);
        assert(of_bin(items[i], bs, b, l));
    }
}
/// what has been gathered of a whole group is what the bin has
proof fn part_is_bin(lm: Map<u128, BuilderEntry>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, keys: Seq<Option<u32>>, g: Seq<(Option<u32>, Vec<(GridKey, BuilderEntry)>)>, cuts: Seq<int>, j: int, b: u32, l: u128)
    requires
        ordered(items), ascending(bs), keys.len() == items.len(), forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == bin_of(bs, items[i].0.phrase_id),
        cut_at(cuts, items, keys, g), 0 <= j < g.len(), g[j].0 == Some(b), gathered(lm, items, cuts[j], cuts[j + 1]), lm.dom().contains(l),
    ensures forall|t: (u8, u32, u32)| #[trigger] in_entry(lm[l]@, t) <==> in_bin(items, bs, b, l, t),
{
    reveal(gathered);
    let (a, z) = (cuts[j], cuts[j + 1]);
    assert forall|t: (u8, u32, u32)| #[trigger] in_entry(lm[l]@, t) <==> in_bin(items, bs, b, l, t) by {
        assert(in_entry(lm[l]@, t) <==> in_part(items, a, z, l, t));
        if in_part(items, a, z, l, t) {
            let i = choose|i: int| a <= i < z && (#[trigger] items[i]).0.lang_set == l && in_entry(items[i].1@, t);
            assert(keys[i] == g[j].0);
            assert(of_bin(items[i], bs, b, l));
        }
        if in_bin(items, bs, b, l, t) {
            let i = choose|i: int| 0 <= i < items.len() && of_bin(#[trigger] items[i], bs, b, l) && in_entry(items[i].1@, t);
            assert(keys[i] == g[j].0);
            whole_bin(items, bs, keys, g, cuts, j, i);
        }
    }
}
/// all of a group's bins are there
proof fn bin_done(m: Map<Seq<u8>, Seq<u8>>, lm: Map<u128, BuilderEntry>, items: Seq<(GridKey, BuilderEntry)>, bs: Seq<u32>, keys: Seq<Option<u32>>, g: Seq<(Option<u32>, Vec<(GridKey, BuilderEntry)>)>, cuts: Seq<int>, j: int, b: u32)
    requires
        keys.len() == items.len(), forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == bin_of(bs, items[i].0.phrase_id),
        cut_at(cuts, items, keys, g), 0 <= j < g.len(), g[j].0 == Some(b), gathered(lm, items, cuts[j], cuts[j + 1]), bins_in(m, items, bs, cuts[j]),
        forall|l: u128| #[trigger] lm.dom().contains(l) ==> bin_in(m, items, bs, b, l),
    ensures bins_in(m, items, bs, cuts[j + 1]),
{
    reveal(bins_in); reveal(gathered);
    let (a, z) = (cuts[j], cuts[j + 1]);
    assert forall|i: int, b2: u32, l: u128| 0 <= i < z && #[trigger] of_bin(items[i], bs, b2, l) implies bin_in(m, items, bs, b2, l) by {
        if i >= a {
            assert(keys[i] == g[j].0);
            assert(items[i].0.lang_set == l);
            assert(has_lang(items, a, z, l));
            assert(lm.dom().contains(l));
        }
    }
}
/// C10: for boundaries s and e, the bins from s up to e have the phrases from s up to e
proof fn bin_range(bs: Seq<u32>, p: u32, s: u32, e: u32)
    requires ascending(bs), bs.contains(s), bs.contains(e),
    ensures bin_of(bs, p) matches Some(b) && (s <= b < e <==> s <= p < e),
    decreases bs.len(),
{
    bin_greatest(bs, p, s);
    bin_greatest(bs, p, e);
}
proof fn bin_greatest(bs: Seq<u32>, p: u32, s: u32)
    requires ascending(bs), bs.contains(s),
    ensures bin_of(bs, p) matches Some(b) && b <= p && (s <= p ==> s <= b),
    decreases bs.len(),
{
    let k = bs.index_of(s);
    if bs.last() > p {
        assert(bs.len() > 1) by { if bs.len() == 1 { assert(bs.last() == 0); } }
        let d = bs.drop_last();
        if s <= p { assert(k < d.len()); assert(d[k] == s); bin_greatest(d, p, s); } else { assert(d[0] == 0); assert(d.contains(0u32)); bin_greatest(d, p, 0); }
    } else {
        assert(bs[k] <= bs[bs.len() - 1]);
    }
}
/// C10: under every language set, the bins of a range of phrases between two boundaries have the entries of its phrases
proof fn bins_are_phrases(data: Map<GridKey, BuilderEntry>, bs: Seq<u32>, s: u32, e: u32, l: u128, t: (u8, u32, u32))
    requires ascending(bs), bs.contains(s), bs.contains(e),
    ensures
        (exists|b: u32| s <= b < e && #[trigger] in_joined(data, bs, b, l, t))
            <==> (exists|k: GridKey| #[trigger] data.dom().contains(k) && s <= k.phrase_id < e && k.lang_set == l && in_entry(data[k]@, t)),
{
    if exists|b: u32| s <= b < e && #[trigger] in_joined(data, bs, b, l, t) {
        let b = choose|b: u32| s <= b < e && #[trigger] in_joined(data, bs, b, l, t);
        let k = choose|k: GridKey| #[trigger] data.dom().contains(k) && bin_of(bs, k.phrase_id) == Some(b) && k.lang_set == l && in_entry(data[k]@, t);
        bin_range(bs, k.phrase_id, s, e);
    }
    if exists|k: GridKey| #[trigger] data.dom().contains(k) && s <= k.phrase_id < e && k.lang_set == l && in_entry(data[k]@, t) {
        let k = choose|k: GridKey| #[trigger] data.dom().contains(k) && s <= k.phrase_id < e && k.lang_set == l && in_entry(data[k]@, t);
        bin_range(bs, k.phrase_id, s, e);
        let b = bin_of(bs, k.phrase_id).unwrap();
        assert(in_joined(data, bs, b, l, t));
    }
}
== source builder.rs
== take impl GridStoreBuilder | finish
== fn GridStoreBuilder::finish
-- ret r
-- attr #[verifier::rlimit(100)]
-- contract
requires
    ascending(self.bin_boundaries@),
    fits(self.data@, self.bin_boundaries@),
    self.bin_boundaries@.len() * 4 <= usize::MAX, // no vector of u32 is longer
ensures
    r.is_ok() ==> finished(final(out)@, base@, self.data@, self.bin_boundaries@),
-- start
let ghost bs = self.bin_boundaries@;
let ghost data = self.data@;
-- loop 0 while
invariant
    ascending(bs), key == &items@[i as int].0,
    at_bin(bs, n, bin_seq.rest(), current_bin, next_boundary),
    n > 0 ==> bs[n - 1] <= key.phrase_id,
decreases bs.len() - n, if next_boundary.is_some() { 1int } else { 0 },
-- loop 0 start
proof { if n < bs.len() { assert(bs.skip(n).skip(1) =~= bs.skip(n + 1)); } }
-- loop 0 end
proof { if n < bs.len() { n = n + 1; } }
-- loop 1 for iter=it1
invariant
    ordered(its), ascending(bs), lists(its, data), items_fit(its, bs),
    it1.seq() == gs, cut_at(cuts, its, ks, gs),
    ks.len() == its.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == bin_of(bs, its[i].0.phrase_id),
    phrases_in(db.map(), its, cuts[it1.index@]), bins_in(db.map(), its, bs, cuts[it1.index@]), nothing_else(db.map(), base@, its, bs, cuts[it1.index@], cuts[it1.index@]),
-- loop 1 start
let ghost j = it1.index@;
let ghost a = cuts[j];
let ghost z = cuts[j + 1];
assert(gs[j] == (group_id, group_value));
assert(0 <= a < z <= its.len() && group_value@ == its.subrange(a, z));
proof { reveal(gathered); }
-- loop 2 for iter=it2
invariant
    ordered(its), ascending(bs), items_fit(its, bs),
    0 <= a < z <= its.len(),
    it2.seq() == its.subrange(a, z),
    phrases_in(db.map(), its, a + it2.index@), bins_in(db.map(), its, bs, a), nothing_else(db.map(), base@, its, bs, a + it2.index@, a),
    gathered(lang_set_map@, its, a, a + it2.index@),
-- loop 2 start
let ghost q = a + it2.index@;
let ghost lm0 = lang_set_map@;
let ghost m0 = db.map();
assert(it2.seq()[it2.index@] == its[q]);
assert((grid_key, value) == its[q]);
-- loop 2 end
proof {
    if lang_set_map@ == lm0.insert(its[q].0.lang_set, lang_set_map@[its[q].0.lang_set]) && gathers(lm0, its[q], lang_set_map@[its[q].0.lang_set]) {
        gather_more(lm0, its, a, q, lang_set_map@[its[q].0.lang_set]);
    }
    if db_key@ =~= pk(its[q].0) && written(db_data@, its[q].1@) { put_phrase(m0, base@, its, bs, q, a, db_data@); }
}
-- loop 3 before
proof {
    reveal(nothing_else);
    assert(nothing_else(db.map(), base@, its, bs, z, z)) by { more_bins(its, bs, a, z); }
}
let ghost lm = lang_set_map@;
-- loop 3 for iter=it3
invariant
    ordered(its), ascending(bs), items_fit(its, bs),
    0 <= a < z <= its.len(), 0 <= j < gs.len(), a == cuts[j], z == cuts[j + 1], gs[j].0 == Some(group_id),
    cut_at(cuts, its, ks, gs),
    ks.len() == its.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == bin_of(bs, its[i].0.phrase_id),
    gathered(lm, its, a, z),
    lists(it3.seq(), lm),
    phrases_in(db.map(), its, z), bins_in(db.map(), its, bs, a), nothing_else(db.map(), base@, its, bs, z, z),
    forall|i: int| 0 <= i < it3.index@ ==> bin_in(db.map(), its, bs, group_id, (#[trigger] it3.seq()[i]).0),
-- loop 3 start
let ghost m0 = db.map();
let ghost e = builder_entry@;
let ghost w = choose|w: int| a <= w < z && (#[trigger] its[w]).0.lang_set == lang_set;
proof {
    assert(it3.seq()[it3.index@] == (lang_set, builder_entry));
    assert(lm.dom().contains(lang_set));
    assert(has_lang(its, a, z, lang_set)) by { reveal(gathered); }
    assert(ks[w] == gs[j].0);
    assert(of_bin(its[w], bs, group_id, lang_set));
    assert(one_bin(its, bs, a, z)) by {
        assert forall|x: int, y: int| a <= x < z && a <= y < z implies bin_of(bs, (#[trigger] its[x]).0.phrase_id) == bin_of(bs, (#[trigger] its[y]).0.phrase_id) by { assert(ks[x] == gs[j].0 && ks[y] == gs[j].0); }
    }
    assert(size(lm[lang_set]@) <= 9 + lang_total(its, a, z, lang_set)) by { reveal(gathered); }
}
-- loop 3 end
proof {
    part_is_bin(lm, its, bs, ks, gs, cuts, j, group_id, lang_set);
    if db_key@ =~= bk(group_id, lang_set) && written(grouped_db_data@, e) { put_bin(m0, base@, its, bs, z, a, w, group_id, lang_set, grouped_db_data@); }
}
-- loop 3 after
proof { bin_done(db.map(), lm, its, bs, ks, gs, cuts, j, group_id); }
-- loop 1 end
proof {
    if gs[j].0.is_none() {
        assert(bins_in(db.map(), its, bs, z)) by {
            reveal(bins_in);
            assert forall|i: int, b: u32, l: u128| 0 <= i < z && #[trigger] of_bin(its[i], bs, b, l) implies bin_in(db.map(), its, bs, b, l) by { if i >= a { assert(ks[i] == gs[j].0); } }
        }
        assert(nothing_else(db.map(), base@, its, bs, z, z)) by { reveal(nothing_else); more_bins(its, bs, a, z); }
    }
}
-- loop 4 for iter=it4
invariant
    it4.seq() == bs,
    encoded_boundaries@ == le_all(bs.take(it4.index@)),
-- loop 4 start
proof { assert(bs.take(it4.index@ + 1).drop_last() =~= bs.take(it4.index@)); }
-- loop 4 after
proof { assert(bs.take(bs.len() as int) =~= bs); if phrases_in(db.map(), its, its.len() as int) && bins_in(db.map(), its, bs, its.len() as int) { all_finished(db.map(), base@, its, data, bs); } }
-- tail
*out = Ghost(db.map());
