# what the builder keeps under a key: maps of std, and how many bytes a record of it needs
== source builder.rs
== subst!
SmallVec<[u32; 4]>
=>
Vec<u32>
== text
#[verifier::prophetic]
spec fn rem<I: Iterator>(i: I) -> Seq<I::Item> { vstd::std_specs::iter::IteratorSpec::remaining(&i) }
#[verifier::prophetic]
spec fn obeys<I: Iterator>(i: I) -> bool { vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i) }
#[verifier::prophetic]
spec fn laws<I: Iterator>(i: I) -> bool { vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i) && vstd::std_specs::iter::IteratorSpec::will_return_none(&i) && vstd::std_specs::iter::IteratorSpec::decrease(&i).is_some() }
/// assumed: Iterator::collect into a vector
#[verifier::external_body]
fn collect_<X, I: Iterator<Item = X>>(items: I) -> (r: Vec<X>)
    ensures r@ == rem(items)
{ unimplemented!() }
== include maps.inc
== take type BuilderEntry
== text
spec fn in_group(g: Map<u32, Vec<u32>>, z: u32, i: u32) -> bool { g.dom().contains(z) && g[z]@.contains(i) }
spec fn in_entry(e: Map<u8, HashMap<u32, Vec<u32>>>, t: (u8, u32, u32)) -> bool { e.dom().contains(t.0) && in_group(e[t.0]@, t.1, t.2) }
// ---- how many bytes a record needs ------------------------------------------------------------------------------------------
spec fn sum<K, V>(s: Seq<(K, V)>, w: spec_fn(V) -> nat) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { sum(s.drop_last(), w) + w(s.last().1) }
}
spec fn total<K, V>(m: Map<K, V>, w: spec_fn(V) -> nat) -> nat
    decreases m.dom().len(),
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); w(m[k]) + if m.remove(k).dom().len() < m.dom().len() { total(m.remove(k), w) } else { 0 } }
}
proof fn total_without<K, V>(m: Map<K, V>, w: spec_fn(V) -> nat, k: K)
    requires m.dom().contains(k),
    ensures total(m, w) == w(m[k]) + total(m.remove(k), w),
    decreases m.dom().len(),
{
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    assert(m.remove(c).dom() =~= m.dom().remove(c));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    assert(m.dom().len() > 0);
    if c != k {
        total_without(m.remove(c), w, k);
        total_without(m.remove(k), w, c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
        assert(m.remove(c)[k] == m[k]);
        assert(m.remove(k)[c] == m[c]);
    }
}
proof fn sum_is_total<K, V>(s: Seq<(K, V)>, m: Map<K, V>, w: spec_fn(V) -> nat)
    requires lists(s, m),
    ensures sum(s, w) == total(m, w),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(m.dom() =~= Set::empty());
    } else {
        let d = s.drop_last();
        let k = s.last().0;
        let n = m.remove(k);
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < d.len() implies n.dom().contains((#[trigger] d[i]).0) && n[d[i].0] == d[i].1 by { assert(d[i] == s[i]); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(d[i] == s[i] && d[j] == s[j]); }
        assert forall|x: K| #[trigger] n.dom().contains(x) implies exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == x by {
            assert(m.dom().contains(x));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x;
            assert(d[i] == s[i]);
        }
        sum_is_total(d, n, w);
        assert(m.dom() =~= n.dom().insert(k));
        total_without(m, w, k);
    }
}
proof fn sum_upto<K, V>(s: Seq<(K, V)>, w: spec_fn(V) -> nat, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= sum(s.take(n), w) <= sum(s, w), n < s.len() ==> sum(s.take(n + 1), w) == sum(s.take(n), w) + w(s[n].1),
    decreases s.len(),
{
    if n < s.len() {
        sum_upto(s.drop_last(), w, n);
        assert(s.drop_last().take(n) =~= s.take(n));
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        } else {
        assert(s.take(n) =~= s);
        if n > 0 {
            sum_upto(s.drop_last(), w, n - 1);
            assert(s.drop_last().take(n - 1) =~= s.drop_last());
                }
    }
}
/// the bytes of an id list and of its coordinate
spec fn id_size() -> spec_fn(Vec<u32>) -> nat { |v: Vec<u32>| 13 + 4 * v@.len() }
/// the bytes of a group of coordinates and of its relevance and score
spec fn group_size() -> spec_fn(HashMap<u32, Vec<u32>>) -> nat { |g: HashMap<u32, Vec<u32>>| 12 + total(g@, id_size()) }
spec fn size(e: Map<u8, HashMap<u32, Vec<u32>>>) -> nat { 9 + total(e, group_size()) }
proof fn total_insert<K, V>(m: Map<K, V>, w: spec_fn(V) -> nat, k: K, v: V)
    ensures total(m.insert(k, v), w) + (if m.dom().contains(k) { w(m[k]) } else { 0 }) == total(m, w) + w(v),
{
    total_without(m.insert(k, v), w, k);
    if m.dom().contains(k) {
        total_without(m, w, k);
        assert(m.insert(k, v).remove(k) =~= m.remove(k));
    } else {
        assert(m.insert(k, v).remove(k) =~= m);
    }
}
proof fn total_empty<K, V>(w: spec_fn(V) -> nat)
    ensures total(Map::<K, V>::empty(), w) == 0,
{
}
proof fn sums<K, V>(m: Map<K, V>, w: spec_fn(V) -> nat)
    ensures forall|s: Seq<(K, V)>| #[trigger] lists(s, m) ==> sum(s, w) == total(m, w) && s.take(s.len() as int) == s,
{
    assert forall|s: Seq<(K, V)>| #[trigger] lists(s, m) implies sum(s, w) == total(m, w) && s.take(s.len() as int) == s by {
        sum_is_total(s, m, w);
        assert(s.take(s.len() as int) =~= s);
    }
}
