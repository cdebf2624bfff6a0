# C08: what get_encoded_value writes is a record that holds exactly the entries it was given
== source gridstore_format.rs
== import format
== import errors
== import entries
== text
use core::cmp::Ordering;
== source builder.rs
== subst
SmallVec<[u32; 4]>
=>
Vec<u32>
== subst!
HashMap<_, gridstore_format::FixedVecOffset<u32>> = HashMap::new()
=>
IdLists = IdLists::new()
== subst
gridstore_format::
=>

== subst!
value.into_iter().collect()
=>
collect_(value.into_iter())
== subst!
coord_group.into_iter().collect()
=>
collect_(coord_group.into_iter())
== subst-re!
(\w+)\.sort_by\(\|\((\w+), _\), \((\w+), _\)\| (\{?)\s*(\w+)\.cmp\(&?(\w+)\)\s*(\}?)\)
=>
let ghost unsorted = \1@; sort_by_(&mut \1, |a_: &_, b_: &_| -> (o: Ordering) ensures ({ let \2 = a_.0; let \3 = b_.0; (o == Ordering::Less) == (\5 < \6) && (o == Ordering::Equal) == (\5 == \6) }) { let \2 = &a_.0; let \3 = &b_.0; \5.cmp(\6) })
== subst-re!
(\w+)\.sort_by\(\|(\w+), (\w+)\| (\w+)\.cmp\((\w+)\)\)
=>
sort_by_(&mut \1, |\2: &u32, \3: &u32| -> (o: Ordering) ensures (o == Ordering::Less) == (*\4 < *\5) && (o == Ordering::Equal) == (*\4 == *\5) { \4.cmp(\5) })
== subst
encoded_ids.clone()
=>
*encoded_ids
== subst!
ids.dedup()
=>
let ghost sorted = ids@; dedup_(&mut ids); proof { after_dedup(ids0, sorted, ids@); }
== subst-re!
\.or_insert_with\(\|\| ([^|;]*)\);
=>
; let encoded_ids = match encoded_ids { IdEntry::Occupied(e) => e.into_mut(), IdEntry::Vacant(e) => e.insert(\1) };
== text
// ---- assumed: std's Vec::sort_by, Vec::dedup, collect, and a HashMap whose keys are id lists -----------------------------
spec fn permutes<T>(s: Seq<T>, t: Seq<T>, p: Seq<int>) -> bool {
    &&& s.len() == t.len() && p.len() == t.len()
    &&& forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] p[i] < s.len() && t[i] == s[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> p[i] != p[j]
    &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == k
}
spec fn perm<T>(s: Seq<T>, t: Seq<T>) -> bool { exists|p: Seq<int>| permutes(s, t, p) }
spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
spec fn total_order<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: &T, b: &T| #[trigger] f.requires((a, b))
    &&& forall|a: &T, b: &T, o: Ordering, q: Ordering| #[trigger] f.ensures((a, b), o) && #[trigger] f.ensures((b, a), q) ==> q == rev(o)
    &&& forall|a: &T, b: &T, c: &T, o: Ordering, q: Ordering, r: Ordering| #[trigger] f.ensures((a, b), o) && #[trigger] f.ensures((b, c), q) && #[trigger] f.ensures((a, c), r)
        && o != Ordering::Greater && q != Ordering::Greater ==> r != Ordering::Greater
}
spec fn in_order<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && o != Ordering::Greater }
#[verifier::external_body]
fn sort_by_<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires total_order(f),
    ensures perm(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> in_order(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }
spec fn deduped<T>(s: Seq<T>) -> Seq<T>
    decreases s.len(),
{
    if s.len() < 2 { s } else if s.last() == s[s.len() - 2] { deduped(s.drop_last()) } else { deduped(s.drop_last()).push(s.last()) }
}
#[verifier::external_body]
fn dedup_(v: &mut Vec<u32>)
    ensures final(v)@ == deduped(old(v)@),
{ unimplemented!() }
#[verifier::external_body]
struct IdLists { t: () }
enum IdEntry<'a> { Occupied(IdOccupied<'a>), Vacant(IdVacant<'a>) }
struct IdOccupied<'a> { m: &'a mut IdLists, k: Vec<u32> }
struct IdVacant<'a> { m: &'a mut IdLists, k: Vec<u32> }
impl IdLists {
    uninterp spec fn view(&self) -> Map<Seq<u32>, FixedVecOffset<u32>>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Map::<Seq<u32>, FixedVecOffset<u32>>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn entry(&mut self, k: Vec<u32>) -> (r: IdEntry<'_>)
        ensures
            match r {
                IdEntry::Occupied(e) => e.k == k && old(self)@.dom().contains(k@) && *e.m == *old(self) && *final(e.m) == *final(self),
                IdEntry::Vacant(e) => e.k == k && !old(self)@.dom().contains(k@) && *e.m == *old(self) && *final(e.m) == *final(self),
            },
    { unimplemented!() }
}
impl<'a> IdOccupied<'a> {
    #[verifier::external_body]
    fn into_mut(self) -> (r: &'a mut FixedVecOffset<u32>)
        requires old(self.m)@.dom().contains(self.k@),
        ensures *r == old(self.m)@[self.k@], final(self.m)@ == old(self.m)@.insert(self.k@, *final(r)),
    { unimplemented!() }
}
impl<'a> IdVacant<'a> {
    #[verifier::external_body]
    fn insert(self, v: FixedVecOffset<u32>) -> (r: &'a mut FixedVecOffset<u32>)
        requires !old(self.m)@.dom().contains(self.k@),
        ensures *r == v, final(self.m)@ == old(self.m)@.insert(self.k@, *final(r)),
    { unimplemented!() }
}
== text
// ---- what the record must hold ------------------------------------------------------------------------------------------------
spec fn desc(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] > s[j] }
/// the distinct elements of a in descending order
#[verifier::opaque]
spec fn norm(a: Seq<u32>, b: Seq<u32>) -> bool { desc(b) && b.len() <= a.len() && forall|x: u32| #[trigger] b.contains(x) <==> a.contains(x) }
#[verifier::opaque]
spec fn coords_of(g: Map<u32, Vec<u32>>, cs: Seq<Coord>, ids: Seq<Seq<u32>>) -> bool {
    &&& cs.len() == ids.len()
    &&& forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).coord > (#[trigger] cs[j]).coord
    &&& forall|i: int| 0 <= i < cs.len() ==> g.dom().contains((#[trigger] cs[i]).coord) && norm(g[cs[i].coord]@, ids[i])
    &&& forall|z: u32| #[trigger] g.dom().contains(z) ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).coord == z
}
#[verifier::opaque]
spec fn groups_of(e: Map<u8, HashMap<u32, Vec<u32>>>, rs: Seq<RelevScore>, cs: Seq<Seq<Coord>>, ids: Seq<Seq<Seq<u32>>>) -> bool {
    &&& rs.len() == cs.len() == ids.len()
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).relev_score > (#[trigger] rs[j]).relev_score
    &&& forall|i: int| 0 <= i < rs.len() ==> e.dom().contains((#[trigger] rs[i]).relev_score) && coords_of(e[rs[i].relev_score]@, cs[i], ids[i])
    &&& forall|r: u8| #[trigger] e.dom().contains(r) ==> exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).relev_score == r
}
spec fn written(d: Seq<u8>, e: Map<u8, HashMap<u32, Vec<u32>>>) -> bool {
    exists|root: PhraseRecord, rs: Seq<RelevScore>, cs: Seq<Seq<Coord>>, ids: Seq<Seq<Seq<u32>>>| #[trigger] holds(d, root, rs, cs, ids) && groups_of(e, rs, cs, ids)
}

// ---- lemmas --------------------------------------------------------------------------------------------------------------------
proof fn has_grow(d: Seq<u8>, more: Seq<u8>, n: Seq<u8>)
    requires n == d + more,
    ensures forall|a: int, e: Seq<u8>| has(d, a, e) ==> #[trigger] has(n, a, e),
{
    assert forall|a: int, e: Seq<u8>| has(d, a, e) implies #[trigger] has(n, a, e) by { has_append(d, a, e, more); }
}
proof fn dedup_keeps(s: Seq<u32>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] >= s[j],
    ensures norm(s, deduped(s)), s.len() > 0 ==> deduped(s).len() > 0 && deduped(s).last() == s.last(),
    decreases s.len(),
{
    reveal(norm);
    if s.len() >= 2 {
        let d = s.drop_last();
        dedup_keeps(d);
        let r = deduped(d);
        let q = deduped(s);
        assert(d.last() == s[s.len() - 2]);
        assert forall|x: u32| #[trigger] q.contains(x) <==> s.contains(x) by {
            if s.contains(x) {
                let i = s.index_of(x);
                if i < d.len() { assert(d[i] == x); assert(d.contains(x)); assert(r.contains(x)); let k = r.index_of(x); assert(q[k] == x); }
                else if s.last() == s[s.len() - 2] { assert(d[s.len() - 2] == x); assert(d.contains(x)); assert(r.contains(x)); }
                else { assert(q[q.len() - 1] == x); }
            }
            if q.contains(x) {
                let k = q.index_of(x);
                if k < r.len() { assert(r[k] == x); assert(r.contains(x)); assert(d.contains(x)); let i = d.index_of(x); assert(s[i] == x); }
                else { assert(s[s.len() - 1] == x); }
            }
        }
    }
}
proof fn perm_lists<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, m: Map<K, V>)
    requires lists(s, m), perm(s, t),
    ensures lists(t, m),
{
    let p = choose|p: Seq<int>| permutes(s, t, p);
    assert forall|i: int| 0 <= i < t.len() implies m.dom().contains((#[trigger] t[i]).0) && m[t[i].0] == t[i].1 by { assert(t[i] == s[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
        assert(t[i] == s[p[i]] && t[j] == s[p[j]]);
        if p[i] < p[j] { assert(s[p[i]].0 != s[p[j]].0); } else { assert(s[p[j]].0 != s[p[i]].0); }
    }
    assert forall|k: K| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
        let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).0 == k;
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == a;
        assert(t[i].0 == k);
    }
}
proof fn perm_contains(s: Seq<u32>, t: Seq<u32>)
    requires perm(s, t),
    ensures s.len() == t.len(), forall|x: u32| #[trigger] t.contains(x) <==> s.contains(x),
{
    let p = choose|p: Seq<int>| permutes(s, t, p);
    assert forall|x: u32| #[trigger] t.contains(x) <==> s.contains(x) by {
        if t.contains(x) { let i = t.index_of(x); assert(s[p[i]] == x); }
        if s.contains(x) { let k = s.index_of(x); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k; assert(t[i] == x); }
    }
}
proof fn flist_len(s: Seq<u32>)
    requires fall(s),
    ensures flist(s).len() <= 5 + 4 * s.len(),
{
    varint_len(s.len() as u32);
    fcat_at(s, 0);
}
proof fn ulist_len(s: Seq<Coord>)
    requires uall(s),
    ensures ulist(s).len() <= 6 + 8 * s.len(),
{
    varint_len(s.len() as u32);
    if s.len() > 0 {
        recsize_bounds(s);
        ucat_at(s, recsize(s), 0);
        assert(s.len() * recsize(s) <= 8 * s.len()) by (nonlinear_arith) requires recsize(s) <= 8, s.len() >= 0;
    }
}
proof fn vlist_len(s: Seq<RelevScore>)
    requires vall(s),
    ensures vlist(s).len() <= 5 + 6 * s.len(),
{
    varint_len(s.len() as u32);
    vcat_small(s);
}
proof fn vcat_small(s: Seq<RelevScore>)
    ensures vcat(s).len() <= 6 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        vcat_small(s.drop_last());
        varint_len(s.last().coords.addr as u32);
    }
}
proof fn sum_min<K, V>(s: Seq<(K, V)>, w: spec_fn(V) -> nat, c: nat)
    requires forall|v: V| #[trigger] w(v) >= c,
    ensures sum(s, w) >= c * s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        sum_min(s.drop_last(), w, c);
        assert(w(s.last().1) >= c);
        assert(c * s.len() == c * (s.len() - 1) + c) by (nonlinear_arith) requires s.len() > 0;
    } else {
        assert(c * s.len() == 0) by (nonlinear_arith) requires s.len() == 0;
    }
}
#[verifier::opaque]
spec fn lists_ok(d: Seq<u8>, l: Map<Seq<u32>, FixedVecOffset<u32>>) -> bool {
    forall|k: Seq<u32>| #[trigger] l.dom().contains(k) ==> fall(k) && l[k].addr <= d.len() && has(d, l[k].addr as int, flist(k))
}
#[verifier::opaque]
spec fn coords_ok(d: Seq<u8>, cs: Seq<Coord>, ids: Seq<Seq<u32>>) -> bool {
    cs.len() == ids.len() && forall|j: int| 0 <= j < cs.len() ==> fall(ids[j]) && (#[trigger] cs[j]).ids.addr <= d.len() && has(d, cs[j].ids.addr as int, flist(ids[j]))
}
#[verifier::opaque]
spec fn group_ok(d: Seq<u8>, r: RelevScore, cs: Seq<Coord>, ids: Seq<Seq<u32>>) -> bool {
    r.coords.addr <= d.len() && uall(cs) && has(d, r.coords.addr as int, ulist(cs)) && coords_ok(d, cs, ids)
}
#[verifier::opaque]
spec fn groups_ok(d: Seq<u8>, rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>) -> bool {
    rs.len() == css.len() == idss.len() && forall|i: int| 0 <= i < rs.len() ==> group_ok(d, #[trigger] rs[i], css[i], idss[i])
}
/// what is in the record stays in it
proof fn grow(d: Seq<u8>, more: Seq<u8>, n: Seq<u8>)
    requires n == d + more,
    ensures
        forall|l: Map<Seq<u32>, FixedVecOffset<u32>>| lists_ok(d, l) ==> #[trigger] lists_ok(n, l),
        forall|cs: Seq<Coord>, ids: Seq<Seq<u32>>| coords_ok(d, cs, ids) ==> #[trigger] coords_ok(n, cs, ids),
        forall|rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>| groups_ok(d, rs, css, idss) ==> #[trigger] groups_ok(n, rs, css, idss),
{
    reveal(lists_ok); reveal(coords_ok); reveal(group_ok); reveal(groups_ok);
    has_grow(d, more, n);
    assert forall|cs: Seq<Coord>, ids: Seq<Seq<u32>>| coords_ok(d, cs, ids) implies #[trigger] coords_ok(n, cs, ids) by {
        assert forall|j: int| 0 <= j < cs.len() implies fall(ids[j]) && (#[trigger] cs[j]).ids.addr <= n.len() && has(n, cs[j].ids.addr as int, flist(ids[j])) by { assert(has(d, cs[j].ids.addr as int, flist(ids[j]))); }
    }
    assert forall|rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>| groups_ok(d, rs, css, idss) implies #[trigger] groups_ok(n, rs, css, idss) by {
        assert forall|i: int| 0 <= i < rs.len() implies group_ok(n, #[trigger] rs[i], css[i], idss[i]) by { assert(group_ok(d, rs[i], css[i], idss[i])); assert(coords_ok(n, css[i], idss[i])); }
    }
}
spec fn keys_desc_u8<V>(s: Seq<(u8, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 > (#[trigger] s[j]).0 }
spec fn keys_desc<V>(s: Seq<(u32, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 > (#[trigger] s[j]).0 }
/// the first coordinates and their id lists are those of the first entries
#[verifier::opaque]
spec fn same_coords(inner: Seq<(u32, Vec<u32>)>, cs: Seq<Coord>, ids: Seq<Seq<u32>>) -> bool {
    cs.len() == ids.len() && cs.len() <= inner.len() && forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).coord == inner[k].0 && norm(inner[k].1@, ids[k])
}
#[verifier::opaque]
spec fn same_groups(its: Seq<(u8, HashMap<u32, Vec<u32>>)>, rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>) -> bool {
    rs.len() == css.len() == idss.len() && rs.len() <= its.len() && forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).relev_score == its[k].0 && coords_of(its[k].1@, css[k], idss[k])
}
proof fn all_coords(inner: Seq<(u32, Vec<u32>)>, g: Map<u32, Vec<u32>>, cs: Seq<Coord>, ids: Seq<Seq<u32>>)
    requires lists(inner, g), keys_desc(inner), same_coords(inner, cs, ids), cs.len() == inner.len(),
    ensures coords_of(g, cs, ids),
{
    reveal(coords_of); reveal(same_coords);
    assert forall|i: int| 0 <= i < cs.len() implies g.dom().contains((#[trigger] cs[i]).coord) && norm(g[cs[i].coord]@, ids[i]) by { assert(g.dom().contains(inner[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < cs.len() implies (#[trigger] cs[i]).coord > (#[trigger] cs[j]).coord by { assert(inner[i].0 > inner[j].0); }
    assert forall|z: u32| #[trigger] g.dom().contains(z) implies exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).coord == z by {
        let i = choose|i: int| 0 <= i < inner.len() && (#[trigger] inner[i]).0 == z;
        assert(cs[i].coord == z);
    }
}
proof fn every_group(its: Seq<(u8, HashMap<u32, Vec<u32>>)>, e: Map<u8, HashMap<u32, Vec<u32>>>, rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>)
    requires lists(its, e), keys_desc_u8(its), same_groups(its, rs, css, idss), rs.len() == its.len(),
    ensures groups_of(e, rs, css, idss),
{
    reveal(groups_of); reveal(same_groups);
    assert forall|i: int| 0 <= i < rs.len() implies e.dom().contains((#[trigger] rs[i]).relev_score) && coords_of(e[rs[i].relev_score]@, css[i], idss[i]) by { assert(e.dom().contains(its[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < rs.len() implies (#[trigger] rs[i]).relev_score > (#[trigger] rs[j]).relev_score by { assert(its[i].0 > its[j].0); }
    assert forall|z: u8| #[trigger] e.dom().contains(z) implies exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).relev_score == z by {
        let i = choose|i: int| 0 <= i < its.len() && (#[trigger] its[i]).0 == z;
        assert(rs[i].relev_score == z);
    }
}
proof fn after_dedup(ids0: Seq<u32>, sorted: Seq<u32>, r: Seq<u32>)
    requires perm(ids0, sorted), forall|i: int, j: int| 0 <= i < j < sorted.len() ==> sorted[i] >= sorted[j], r == deduped(sorted),
    ensures norm(ids0, r), r.len() <= ids0.len(),
{
    reveal(norm);
    perm_contains(ids0, sorted);
    dedup_keeps(sorted);
}
/// one more coordinate
proof fn coord_done(d0: Seq<u8>, more: Seq<u8>, d: Seq<u8>, l0: Map<Seq<u32>, FixedVecOffset<u32>>, off: FixedVecOffset<u32>, inner: Seq<(u32, Vec<u32>)>,
    cs: Seq<Coord>, ids: Seq<Seq<u32>>, c: Coord, list: Seq<u32>, rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>)
    requires
        groups_ok(d0, rs, css, idss), coords_ok(d0, cs, ids), lists_ok(d0, l0), same_coords(inner, cs, ids),
        cs.len() < inner.len(), c.coord == inner[cs.len() as int].0, norm(inner[cs.len() as int].1@, list), c.ids == off,
        fall(list), d == d0 + more,
        if l0.dom().contains(list) { off == l0[list] && more.len() == 0 } else { off.addr == d0.len() && more == flist(list) },
    ensures
        groups_ok(d, rs, css, idss), coords_ok(d, cs.push(c), ids.push(list)), lists_ok(d, l0.insert(list, off)),
        same_coords(inner, cs.push(c), ids.push(list)),
{
    grow(d0, more, d);
    has_end(d0, more);
    reveal(lists_ok); reveal(coords_ok); reveal(same_coords);
    assert(coords_ok(d, cs, ids));
    assert(lists_ok(d, l0));
    assert(has(d, off.addr as int, flist(list)));
    let (cs1, ids1) = (cs.push(c), ids.push(list));
    assert forall|j: int| 0 <= j < cs1.len() implies fall(ids1[j]) && (#[trigger] cs1[j]).ids.addr <= d.len() && has(d, cs1[j].ids.addr as int, flist(ids1[j])) by {
        if j < cs.len() { assert(cs1[j] == cs[j]); }
    }
    assert forall|k: int| 0 <= k < cs1.len() implies (#[trigger] cs1[k]).coord == inner[k].0 && norm(inner[k].1@, ids1[k]) by { if k < cs.len() { assert(cs1[k] == cs[k]); } }
}
/// one more group
proof fn group_done(d0: Seq<u8>, d: Seq<u8>, l: Map<Seq<u32>, FixedVecOffset<u32>>, its: Seq<(u8, HashMap<u32, Vec<u32>>)>,
    cs: Seq<Coord>, ids: Seq<Seq<u32>>, r: RelevScore, rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>)
    requires
        groups_ok(d0, rs, css, idss), coords_ok(d0, cs, ids), lists_ok(d0, l), same_groups(its, rs, css, idss),
        rs.len() < its.len(), r.relev_score == its[rs.len() as int].0, coords_of(its[rs.len() as int].1@, cs, ids),
        uall(cs), d == d0 + ulist(cs), r.coords.addr == d0.len(),
    ensures
        groups_ok(d, rs.push(r), css.push(cs), idss.push(ids)), lists_ok(d, l), same_groups(its, rs.push(r), css.push(cs), idss.push(ids)),
{
    grow(d0, ulist(cs), d);
    has_end(d0, ulist(cs));
    reveal(groups_ok); reveal(group_ok); reveal(same_groups);
    assert(groups_ok(d, rs, css, idss));
    assert(coords_ok(d, cs, ids));
    let (rs1, css1, idss1) = (rs.push(r), css.push(cs), idss.push(ids));
    assert forall|i: int| 0 <= i < rs1.len() implies group_ok(d, #[trigger] rs1[i], css1[i], idss1[i]) by { if i < rs.len() { assert(rs1[i] == rs[i]); assert(group_ok(d, rs[i], css[i], idss[i])); } }
    assert forall|k: int| 0 <= k < rs1.len() implies (#[trigger] rs1[k]).relev_score == its[k].0 && coords_of(its[k].1@, css1[k], idss1[k]) by { if k < rs.len() { assert(rs1[k] == rs[k]); } }
}
/// the record is complete
proof fn all_done(d0: Seq<u8>, d: Seq<u8>, root: PhraseRecord, e: Map<u8, HashMap<u32, Vec<u32>>>, its: Seq<(u8, HashMap<u32, Vec<u32>>)>,
    rs: Seq<RelevScore>, css: Seq<Seq<Coord>>, idss: Seq<Seq<Seq<u32>>>)
    requires
        groups_ok(d0, rs, css, idss), same_groups(its, rs, css, idss), rs.len() == its.len(), lists(its, e), keys_desc_u8(its),
        vall(rs), root.fok(), root.relev_scores.addr == d0.len(), d == d0 + vlist(rs) + root.fenc(),
    ensures written(d, e),
{
    let d4 = d0 + vlist(rs);
    grow(d0, vlist(rs), d4);
    has_end(d0, vlist(rs));
    grow(d4, root.fenc(), d);
    has_grow(d4, root.fenc(), d);
    has_end(d4, root.fenc());
    root.flaw();
    assert(<PhraseRecord as FixedEncodable>::SIZE == 4);
    reveal(same_groups);
    every_group(its, e, rs, css, idss);
    assert(groups_ok(d, rs, css, idss)) by { assert(groups_ok(d4, rs, css, idss)); }
    assert(holds(d, root, rs, css, idss)) by {
        reveal(groups_ok); reveal(group_ok); reveal(coords_ok);
        assert forall|i: int| 0 <= i < rs.len() implies uall(#[trigger] css[i]) && has(d, rs[i].coords.addr as int, ulist(css[i])) && idss[i].len() == css[i].len() by { assert(group_ok(d, rs[i], css[i], idss[i])); }
        assert forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < css[i].len() implies fall(#[trigger] idss[i][j]) && has(d, css[i][j].ids.addr as int, flist(idss[i][j])) by { assert(group_ok(d, rs[i], css[i], idss[i])); assert(fall(idss[i][j]) && css[i][j].ids.addr <= d.len()); }
    }
}
== take fn get_encoded_value
== fn get_encoded_value
-- ret r
-- attr #[verifier::rlimit(100)]
-- contract
requires size(value@) <= u32::MAX,
ensures r matches Ok(d) && written(d@, value@),
-- start
let ghost m = value@;
-- before for \(
proof {
    perm_lists(unsorted, items@, m);
    assert forall|i: int, j: int| 0 <= i < j < items@.len() implies (#[trigger] items@[i]).0 > (#[trigger] items@[j]).0 by { assert(items@[i].0 != items@[j].0); }
    sum_is_total(items@, m, group_size());
}
let ghost its = items@;
let ghost mut css: Seq<Seq<Coord>> = seq![];
let ghost mut idss: Seq<Seq<Seq<u32>>> = seq![];
proof { reveal(same_groups); reveal(groups_ok); reveal(lists_ok); }
-- loop 0 for iter=it
invariant
    it.seq() == its,
    lists(its, m), keys_desc_u8(its),
    sum(its, group_size()) + 9 <= u32::MAX,
    builder.data@.len() + 6 * it.index@ <= sum(its.take(it.index@), group_size()),
    relevance_scores@.len() == it.index@,
    same_groups(its, relevance_scores@, css, idss),
    groups_ok(builder.data@, relevance_scores@, css, idss),
    lists_ok(builder.data@, id_lists@),
-- loop 0 start
let ghost g = coord_group@;
let ghost d0 = builder.data@;
let ghost rs0 = relevance_scores@;
let ghost i0 = it.index@;
let ghost mut idl: Seq<Seq<u32>> = seq![];
proof {
    assert(its[i0].1 == coord_group);
    sum_upto(its, group_size(), i0);
    sum_upto(its, group_size(), i0 + 1);
}
-- loop 1 before
proof {
    perm_lists(unsorted, inner_items@, g);
    assert forall|i: int, j: int| 0 <= i < j < inner_items@.len() implies (#[trigger] inner_items@[i]).0 > (#[trigger] inner_items@[j]).0 by { assert(inner_items@[i].0 != inner_items@[j].0); }
    sum_is_total(inner_items@, g, id_size());
    sum_min(inner_items@, id_size(), 13);
}
let ghost inner = inner_items@;
proof { reveal(same_coords); reveal(coords_ok); }
-- loop 1 for iter=jt
invariant
    jt.seq() == inner,
    lists(inner, g), keys_desc(inner),
    inner.len() <= u32::MAX,
    d0.len() + 12 + sum(inner, id_size()) <= u32::MAX,
    builder.data@.len() + 8 * jt.index@ <= d0.len() + sum(inner.take(jt.index@), id_size()),
    coords@.len() == jt.index@,
    same_coords(inner, coords@, idl),
    coords_ok(builder.data@, coords@, idl),
    rs0 == relevance_scores@,
    groups_ok(builder.data@, rs0, css, idss),
    lists_ok(builder.data@, id_lists@),
-- loop 1 start
let ghost ids0 = ids@;
let ghost d1 = builder.data@;
let ghost l1 = id_lists@;
let ghost c1 = coords@;
proof {
    sum_upto(inner, id_size(), jt.index@);
    sum_upto(inner, id_size(), jt.index@ + 1);
    assert(inner[jt.index@].1 == ids);
}
-- loop 1 end
proof {
    flist_len(ids@);
    let more = if l1.dom().contains(ids@) { Seq::<u8>::empty() } else { flist(ids@) };
    assert(builder.data@ =~= d1 + more);
    coord_done(d1, more, builder.data@, l1, encoded_coord.ids, inner, c1, idl, encoded_coord, ids@, rs0, css, idss);
    idl = idl.push(ids@);
}
-- loop 1 after
let ghost d2 = builder.data@;
proof {
    assert(inner.take(inner.len() as int) =~= inner);
    all_coords(inner, g, coords@, idl);
    ulist_len(coords@);
}
-- loop 0 end
proof {
    group_done(d2, builder.data@, id_lists@, its, coords@, idl, encoded_relevance_score, rs0, css, idss);
    css = css.push(coords@);
    idss = idss.push(idl);
}
-- before let encoded_relevance_scores
let ghost d3 = builder.data@;
proof {
    assert(its.take(its.len() as int) =~= its);
    reveal(groups_ok);
    reveal(group_ok);
    vlist_len(relevance_scores@);
}
-- tail
proof {
    all_done(d3, builder.data@, record, m, its, relevance_scores@, css, idss);
}
