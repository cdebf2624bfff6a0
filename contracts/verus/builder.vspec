# C09 (and C08): what building operations do to the entries of a key
== source common.rs
== prelude

== include btree.inc
== subst
SmallVec<[u32; 4]>
=>
Vec<u32>
== subst!
SmallVec::new()
=>
Vec::new()
== subst!
smallvec![
=>
vec![
== subst!
&rs_values.into_iter().group_by(
=>
group_by(rs_values.into_iter(),
== subst-re!
zc_values\.map\(\|(\w+)\| ([^;]*)\);
=>
map_(zc_values, |\1: GridEntry| -> (o: u32) ensures o == id_hash(\1) { \2 });
== subst-re!
group_by\(rs_values\.into_iter\(\),\|(\w+)\| (interleave_morton\([^()]*\))\)
=>
group_by(rs_values.into_iter(), |\1: &GridEntry| -> (o: u32) ensures o == morton(\1.x, \1.y) { \2 })
== subst!
id_phrases.collect()
=>
collect_(id_phrases)
== subst!
.extend(id_phrases)
=>
.extend_(id_phrases)
== subst!
zcoord_entry.extend(values.iter().cloned())
=>
zcoord_entry.extend_from_slice(values)
== subst!
|| HashMap::with_capacity(rs_values.len())
=>
|| -> (m: HashMap<u32, Vec<u32>>) ensures m@ == Map::<u32, Vec<u32>>::empty() { HashMap::with_capacity(rs_values.len()) }
== subst!
|| HashMap::with_capacity(coords.len())
=>
|| -> (m: HashMap<u32, Vec<u32>>) ensures m@ == Map::<u32, Vec<u32>>::empty() { HashMap::with_capacity(coords.len()) }
== subst!
|| HashMap::new()
=>
|| -> (m: HashMap<u32, Vec<u32>>) ensures m@ == Map::<u32, Vec<u32>>::empty() { HashMap::new() }
== subst!
|| Vec::new()
=>
|| -> (m: Vec<u32>) ensures m@.len() == 0 { Vec::new() }
== subst!
|| BuilderEntry::new()
=>
|| -> (m: BuilderEntry) ensures m@ == Map::<u8, HashMap<u32, Vec<u32>>>::empty() { BuilderEntry::new() }
== subst!
|| BuilderEntry::with_capacity(1)
=>
|| -> (m: BuilderEntry) ensures m@ == Map::<u8, HashMap<u32, Vec<u32>>>::empty() { BuilderEntry::with_capacity(1) }
== subst-re!
somewhat_eager_groupby\(values\.into_iter\(\), \|(\w+)\| \{
=>
somewhat_eager_groupby(values.into_iter(), |\1: &GridEntry| -> (o: u8) ensures o == rs_of(*\1) {
== subst!
key.to_owned()
=>
key.clone()
== import entries
== import groups
== import errors
== import keys
== import relev
== import morton
== text
spec fn morton(x: u16, y: u16) -> u32 { z(x, y) }
== take struct GridEntry
== text

// ---- assumed: pieces outside the repository or proved elsewhere -----------------------------------------------------------
/// common::somewhat_eager_groupby (unit groups), read as the list of what it yields
fn somewhat_eager_groupby<X, K: Copy + PartialEq, F: Fn(&X) -> K>(items: std::vec::IntoIter<X>, f: F) -> (r: std::vec::IntoIter<(K, Vec<X>)>)
    requires forall|x: &X| #[trigger] f.requires((x,)), obeys(items), K::obeys_eq_spec(), forall|a: K, b: K| #[trigger] a.eq_spec(&b) <==> a == b,
    ensures
        flat(rem(r)) == rem(items),
        forall|i: int| 0 <= i < rem(r).len() ==> all_keyed(f, (#[trigger] rem(r)[i]).1@, rem(r)[i].0),
        laws(r),
{
    list_iter(pure_groups(Ghost(|x: X| true), items, f))
}
/// itertools::group_by, with its groups as vectors
#[verifier::external_body]
fn group_by<X, K, F: Fn(&X) -> K>(items: std::vec::IntoIter<X>, f: F) -> (r: std::vec::IntoIter<(K, Vec<X>)>)
    requires forall|x: &X| #[trigger] f.requires((x,)),
    ensures
        flat(rem(r)) == rem(items),
        forall|i: int| 0 <= i < rem(r).len() ==> all_keyed(f, (#[trigger] rem(r)[i]).1@, rem(r)[i].0),
        laws(r),
{ unimplemented!() }
/// Iterator::map over a group
#[verifier::external_body]
fn map_<X, Y, F: Fn(X) -> Y>(items: Vec<X>, f: F) -> (r: std::vec::IntoIter<Y>)
    requires forall|x: X| #[trigger] f.requires((x,)),
    ensures rem(r).len() == items@.len(), forall|i: int| 0 <= i < items@.len() ==> f.ensures((items@[i],), #[trigger] rem(r)[i]), laws(r),
{ unimplemented!() }
trait Extend_<X> {
    fn extend_<I: Iterator<Item = X>>(&mut self, it: I);
}
impl<X> Extend_<X> for Vec<X> {
    #[verifier::external_body]
    fn extend_<I: Iterator<Item = X>>(&mut self, it: I)
        ensures final(self)@ == old(self)@ + rem(it)
    { unimplemented!() }
}
impl Clone for GridKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- what an entry of a key is in the builder: (relevance and score, z-order coordinate, id and phrase hash) ------------
spec fn id_hash(v: GridEntry) -> u32 { (v.id << 8) | (v.source_phrase_hash as u32) }

spec fn rs_of(v: GridEntry) -> u8 { (relev_int(v.relev) << 4) | v.score }
spec fn item(v: GridEntry) -> (u8, u32, u32) { (rs_of(v), morton(v.x, v.y), id_hash(v)) }
spec fn from(s: Seq<GridEntry>, t: (u8, u32, u32)) -> bool { exists|i: int| 0 <= i < s.len() && item(#[trigger] s[i]) == t }
== source builder.rs
== text
spec fn rs_groups(g: Seq<(u8, Vec<GridEntry>)>) -> bool { forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g[i].1@.len() ==> rs_of(#[trigger] g[i].1@[j]) == g[i].0 }
spec fn z_groups(g: Seq<(u32, Vec<GridEntry>)>) -> bool { forall|i: int, j: int| #![trigger g[i].1@[j]] 0 <= i < g.len() && 0 <= j < g[i].1@.len() ==> morton(g[i].1@[j].x, g[i].1@[j].y) == g[i].0 }
spec fn of_rs(e: Map<u8, HashMap<u32, Vec<u32>>>, rs: u8) -> Map<u32, Vec<u32>> { if e.dom().contains(rs) { e[rs]@ } else { Map::empty() } }
spec fn of_z(g: Map<u32, Vec<u32>>, z: u32) -> Seq<u32> { if g.dom().contains(z) { g[z]@ } else { Seq::empty() } }
spec fn from_z(s: Seq<GridEntry>, z: u32, i: u32) -> bool { exists|k: int| 0 <= k < s.len() && morton((#[trigger] s[k]).x, s[k].y) == z && id_hash(s[k]) == i }
proof fn from_z_more(a: Seq<GridEntry>, b: Seq<GridEntry>)
    ensures forall|z: u32, i: u32| #[trigger] from_z(a + b, z, i) <==> from_z(a, z, i) || from_z(b, z, i),
{
    assert forall|z: u32, i: u32| #[trigger] from_z(a + b, z, i) <==> from_z(a, z, i) || from_z(b, z, i) by {
        let s = a + b;
        if from_z(a, z, i) { let k = choose|k: int| 0 <= k < a.len() && morton((#[trigger] a[k]).x, a[k].y) == z && id_hash(a[k]) == i; assert(s[k] == a[k]); }
        if from_z(b, z, i) { let k = choose|k: int| 0 <= k < b.len() && morton((#[trigger] b[k]).x, b[k].y) == z && id_hash(b[k]) == i; assert(s[a.len() + k] == b[k]); }
        if from_z(s, z, i) {
            let k = choose|k: int| 0 <= k < s.len() && morton((#[trigger] s[k]).x, s[k].y) == z && id_hash(s[k]) == i;
            if k < a.len() { assert(a[k] == s[k]); } else { assert(b[k - a.len()] == s[k]); }
        }
    }
}
proof fn from_more(a: Seq<GridEntry>, b: Seq<GridEntry>)
    ensures forall|t: (u8, u32, u32)| #[trigger] from(a + b, t) <==> from(a, t) || from(b, t),
{
    assert forall|t: (u8, u32, u32)| #[trigger] from(a + b, t) <==> from(a, t) || from(b, t) by {
        let s = a + b;
        if from(a, t) { let i = choose|i: int| 0 <= i < a.len() && item(#[trigger] a[i]) == t; assert(s[i] == a[i]); }
        if from(b, t) { let i = choose|i: int| 0 <= i < b.len() && item(#[trigger] b[i]) == t; assert(s[a.len() + i] == b[i]); }
        if from(s, t) {
            let i = choose|i: int| 0 <= i < s.len() && item(#[trigger] s[i]) == t;
            if i < a.len() { assert(a[i] == s[i]); } else { assert(b[i - a.len()] == s[i]); }
        }
    }
}
spec fn from_list(s: Seq<(u8, HashMap<u32, Vec<u32>>)>, n: int, t: (u8, u32, u32)) -> bool { exists|j: int| 0 <= j < n && j < s.len() && (#[trigger] s[j]).0 == t.0 && in_group(s[j].1@, t.1, t.2) }
spec fn from_zlist(s: Seq<(u32, Vec<u32>)>, n: int, z: u32, i: u32) -> bool { exists|j: int| 0 <= j < n && j < s.len() && (#[trigger] s[j]).0 == z && s[j].1@.contains(i) }
proof fn contains_more<X>(a: Seq<X>, b: Seq<X>)
    ensures forall|x: X| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    assert forall|x: X| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x) by {
        let s = a + b;
        if a.contains(x) { let i = a.index_of(x); assert(s[i] == x); }
        if b.contains(x) { let i = b.index_of(x); assert(s[a.len() + i] == x); }
        if s.contains(x) { let i = s.index_of(x); if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
}
/// the items of the first n groups
spec fn first_groups<X, K>(g: Seq<(K, Vec<X>)>, n: int) -> Seq<X> { if n >= g.len() { flat(g) } else { flat(g.take(n)) } }
proof fn flat_next<X, K>(g: Seq<(K, Vec<X>)>, n: int)
    requires 0 <= n < g.len(),
    ensures first_groups(g, n + 1) == first_groups(g, n) + g[n].1@,
{
    assert(g.take(n + 1).drop_last() =~= g.take(n));
    if n + 1 == g.len() { assert(g.take(n + 1) =~= g); }
}
== take fn extend_entries
== fn extend_entries
-- ret r
ensures
    forall|t: (u8, u32, u32)| #[trigger] in_entry(final(builder_entry)@, t) <==> in_entry(old(builder_entry)@, t) || from(values@, t),
-- loop 0 for iter=it
invariant
    flat(it.seq()) == values@,
    rs_groups(it.seq()),
    forall|t: (u8, u32, u32)| #[trigger] in_entry(builder_entry@, t) <==> in_entry(old(builder_entry)@, t) || from(first_groups(it.seq(), it.index@), t),
-- loop 0 start
let ghost was = builder_entry@;
let ghost was_rs = of_rs(was, rs);
let ghost vals = rs_values@;
proof {
    assert(it.seq()[it.index@] == (rs, rs_values));
    flat_next(it.seq(), it.index@);
    from_more(first_groups(it.seq(), it.index@), vals);
}
-- loop 0 end
proof {
    assert(builder_entry@ == was.insert(rs, *rs_entry));
    assert forall|t: (u8, u32, u32)| #[trigger] in_entry(builder_entry@, t) <==> in_entry(was, t) || from(vals, t) by {
        if t.0 == rs {
            assert(in_entry(builder_entry@, t) == in_group(rs_entry@, t.1, t.2));
            assert(in_entry(was, t) == in_group(was_rs, t.1, t.2));
            if from_z(vals, t.1, t.2) { let i = choose|i: int| 0 <= i < vals.len() && morton((#[trigger] vals[i]).x, vals[i].y) == t.1 && id_hash(vals[i]) == t.2; assert(item(vals[i]) == t); }
            if from(vals, t) { let i = choose|i: int| 0 <= i < vals.len() && item(#[trigger] vals[i]) == t; assert(id_hash(vals[i]) == t.2); }
        } else {
            assert(in_entry(builder_entry@, t) == in_entry(was, t));
            if from(vals, t) { let i = choose|i: int| 0 <= i < vals.len() && item(#[trigger] vals[i]) == t; assert(rs_of(vals[i]) == rs); }
        }
    }
}
-- loop 1 for iter=it2
invariant
    flat(it2.seq()) == vals,
    z_groups(it2.seq()),
    forall|z: u32, i: u32| #[trigger] in_group(rs_entry@, z, i) <==> in_group(was_rs, z, i) || from_z(first_groups(it2.seq(), it2.index@), z, i),
-- loop 1 start
let ghost grp = rs_entry@;
let ghost zvals = zc_values@;
proof {
    assert(it2.seq()[it2.index@] == (zcoord, zc_values));
    flat_next(it2.seq(), it2.index@);
    from_z_more(first_groups(it2.seq(), it2.index@), zvals);
}
-- loop 1 end
proof {
    assert(rs_entry@ == grp.insert(zcoord, rs_entry@[zcoord]));
    let l0 = of_z(grp, zcoord);
    let l = rs_entry@[zcoord]@;
    let ids = zvals.map_values(|v: GridEntry| id_hash(v));
    assert(l.len() == l0.len() + zvals.len());
    assert(forall|j: int| 0 <= j < l0.len() ==> l[j] == l0[j]);
    assert forall|j: int| 0 <= j < zvals.len() implies l[l0.len() + j] == ids[j] by { assert(ids[j] == id_hash(zvals[j])); }
    assert(l =~= l0 + zvals.map_values(|v: GridEntry| id_hash(v)));
    contains_more(l0, zvals.map_values(|v: GridEntry| id_hash(v)));
    assert forall|z: u32, i: u32| #[trigger] in_group(rs_entry@, z, i) <==> in_group(grp, z, i) || from_z(zvals, z, i) by {
        let ids = zvals.map_values(|v: GridEntry| id_hash(v));
        if z == zcoord {
            if ids.contains(i) { let k = ids.index_of(i); assert(morton(zvals[k].x, zvals[k].y) == z); assert(id_hash(zvals[k]) == i); }
            if from_z(zvals, z, i) { let k = choose|k: int| 0 <= k < zvals.len() && morton((#[trigger] zvals[k]).x, zvals[k].y) == z && id_hash(zvals[k]) == i; assert(ids[k] == i); }
        } else {
            if from_z(zvals, z, i) { let k = choose|k: int| 0 <= k < zvals.len() && morton((#[trigger] zvals[k]).x, zvals[k].y) == z && id_hash(zvals[k]) == i; assert(morton(zvals[k].x, zvals[k].y) == zcoord); }
        }
    }
}
== take fn copy_entries
== fn copy_entries
ensures
    forall|t: (u8, u32, u32)| #[trigger] in_entry(final(destination_entry)@, t) <==> in_entry(old(destination_entry)@, t) || in_entry(source_entry@, t),
    size(final(destination_entry)@) <= size(old(destination_entry)@) + size(source_entry@),
-- start
proof { sums(source_entry@, group_size()); }
-- loop 0 for iter=it
invariant
    lists(listed(it.seq()), source_entry@),
    total(destination_entry@, group_size()) <= total(old(destination_entry)@, group_size()) + sum(listed(it.seq()).take(it.index@), group_size()),
    forall|t: (u8, u32, u32)| #[trigger] in_entry(destination_entry@, t) <==> in_entry(old(destination_entry)@, t) || from_list(listed(it.seq()), it.index@, t),
-- loop 0 start
let ghost was = destination_entry@;
let ghost was_rs = of_rs(was, *rs);
let ghost grp_in = values@;
assert(listed(it.seq())[it.index@] == (*rs, *values));
proof { sum_upto(listed(it.seq()), group_size(), it.index@); sums(grp_in, id_size()); total_empty::<u32, Vec<u32>>(id_size()); }
-- loop 0 end
proof {
    assert(destination_entry@ == was.insert(*rs, *rs_entry));
    total_insert(was, group_size(), *rs, *rs_entry);
    assert forall|t: (u8, u32, u32)| #[trigger] in_entry(destination_entry@, t) <==> in_entry(was, t) || (t.0 == *rs && in_group(grp_in, t.1, t.2)) by {
        if t.0 == *rs {
            assert(in_entry(destination_entry@, t) == in_group(rs_entry@, t.1, t.2));
            assert(in_entry(was, t) == in_group(was_rs, t.1, t.2));
        } else {
            assert(in_entry(destination_entry@, t) == in_entry(was, t));
        }
    }
}
-- loop 1 for iter=it2
invariant
    lists(listed(it2.seq()), grp_in),
    total(rs_entry@, id_size()) <= total(was_rs, id_size()) + sum(listed(it2.seq()).take(it2.index@), id_size()),
    forall|z: u32, i: u32| #[trigger] in_group(rs_entry@, z, i) <==> in_group(was_rs, z, i) || from_zlist(listed(it2.seq()), it2.index@, z, i),
-- loop 1 start
let ghost grp = rs_entry@;
assert(listed(it2.seq())[it2.index@] == (*zcoord, *values));
proof { sum_upto(listed(it2.seq()), id_size(), it2.index@); }
-- loop 1 end
proof {
    assert(rs_entry@ == grp.insert(*zcoord, rs_entry@[*zcoord]));
    total_insert(grp, id_size(), *zcoord, rs_entry@[*zcoord]);
    contains_more(of_z(grp, *zcoord), values@);
    assert(rs_entry@[*zcoord]@ =~= of_z(grp, *zcoord) + values@);
    assert forall|z: u32, i: u32| #[trigger] in_group(rs_entry@, z, i) <==> in_group(grp, z, i) || (z == *zcoord && values@.contains(i)) by {
        assert(in_group(rs_entry@, z, i) == of_z(rs_entry@, z).contains(i));
        assert(in_group(grp, z, i) == of_z(grp, z).contains(i));
    }
}
== text
#[verifier::external_body]
pub struct PathBuf { p: () }
enum BuildError { DuplicateRenumberEntry { target_id: u32 }, OutOfBoundsRenumberEntry { tmp_id: u32 } }
impl From<BuildError> for Error {
    #[verifier::external_body]
    fn from(e: BuildError) -> (r: Self) { unimplemented!() }
}
== take struct GridStoreBuilder
== take impl GridStoreBuilder | insert append compact_append renumber load_bin_boundaries
== fn GridStoreBuilder::insert
-- ret r
ensures
    r.is_ok(),
    final(self).others_unchanged(old(self), *key),
    forall|t: (u8, u32, u32)| #[trigger] in_entry(final(self).data@[*key]@, t) <==> from(values@, t),
== fn GridStoreBuilder::append
-- ret r
ensures
    r.is_ok(),
    final(self).others_unchanged(old(self), *key),
    forall|t: (u8, u32, u32)| #[trigger] in_entry(final(self).data@[*key]@, t) <==> old(self).holds(*key, t) || from(values@, t),
== fn GridStoreBuilder::compact_append
-- ret r
ensures
    final(self).others_unchanged(old(self), *key),
    forall|t: (u8, u32, u32)| #[trigger] in_entry(final(self).data@[*key]@, t) <==> old(self).holds(*key, t) || from_compact(relev, score, id, source_phrase_hash, coords@, t),
-- start
let ghost rs = (relev_int(relev) << 4) | score;
let ghost one = (id << 8) | (source_phrase_hash as u32);
let ghost was = of_key(self.data@, *key);
let ghost was_rs = of_rs(was, rs);
-- loop 0 for iter=it
invariant
    id_hash@ =~= seq![one],
    forall|z: u32, i: u32| #[trigger] in_group(relevance_score_entry@, z, i) <==> in_group(was_rs, z, i) || (i == one && some_at(coords@, it.index@, z)),
-- loop 0 start
let ghost grp = relevance_score_entry@;
-- loop 0 end
proof {
    assert(zcoord == morton(coords@[it.index@].0, coords@[it.index@].1));
    contains_more(of_z(grp, zcoord), seq![one]);
    assert(relevance_score_entry@ == grp.insert(zcoord, relevance_score_entry@[zcoord]));
    assert(relevance_score_entry@[zcoord]@ =~= of_z(grp, zcoord) + seq![one]);
    assert(seq![one].contains(one)) by { assert(seq![one][0] == one); }
    assert forall|z: u32, i: u32| #[trigger] in_group(relevance_score_entry@, z, i) <==> in_group(grp, z, i) || (z == zcoord && i == one) by {
        assert(in_group(relevance_score_entry@, z, i) == of_z(relevance_score_entry@, z).contains(i));
        assert(in_group(grp, z, i) == of_z(grp, z).contains(i));
    }
}
-- end
proof {
    assert(in_entry(Map::empty(), (rs, 0, 0)) == false);
    assert forall|t: (u8, u32, u32)| #[trigger] in_entry(self.data@[*key]@, t) <==> in_entry(was, t) || from_compact(relev, score, id, source_phrase_hash, coords@, t) by {
        if t.0 == rs {
            assert(in_entry(self.data@[*key]@, t) == in_group(relevance_score_entry@, t.1, t.2));
            assert(in_entry(was, t) == in_group(was_rs, t.1, t.2));
        } else {
            assert(in_entry(self.data@[*key]@, t) == in_entry(was, t));
        }
    }
}
== fn GridStoreBuilder::renumber
-- ret r
ensures
    // refused exactly when a key has no mapping or two keys become one
    r.is_ok() <==> all_mapped(old(self).data@.dom(), tmp_phrase_ids_to_ids@) && apart(old(self).data@.dom(), tmp_phrase_ids_to_ids@),
    // otherwise every key is moved, with its entries
    r.is_ok() ==> {
        &&& final(self).bin_boundaries == old(self).bin_boundaries
        &&& forall|k: GridKey| #[trigger] old(self).data@.dom().contains(k) ==> final(self).data@.dom().contains(moved(k, tmp_phrase_ids_to_ids@)) && final(self).data@[moved(k, tmp_phrase_ids_to_ids@)] == old(self).data@[k]
        &&& forall|n: GridKey| #[trigger] final(self).data@.dom().contains(n) ==> exists|k: GridKey| old(self).data@.dom().contains(k) && n == #[trigger] moved(k, tmp_phrase_ids_to_ids@)
    },
-- start
let ghost was = self.data@;
let ghost ids = tmp_phrase_ids_to_ids@;
-- before for\b
proof { assert(old_data@ == was); assert(self.data@ == Map::<GridKey, BuilderEntry>::empty()); }
-- loop 0 for iter=it
invariant
    lists(it.seq(), was),
    was == old(self).data@,
    ids == tmp_phrase_ids_to_ids@,
    self.bin_boundaries == old(self).bin_boundaries,
    forall|j: int| 0 <= j < it.index@ ==> (#[trigger] it.seq()[j]).0.phrase_id < ids.len()
        && self.data@.dom().contains(moved(it.seq()[j].0, ids)) && self.data@[moved(it.seq()[j].0, ids)] == it.seq()[j].1,
    forall|n: GridKey| #[trigger] self.data@.dom().contains(n) ==> exists|j: int| 0 <= j < it.index@ && n == moved((#[trigger] it.seq()[j]).0, ids),
    forall|i: int, j: int| 0 <= i < j < it.index@ ==> moved((#[trigger] it.seq()[i]).0, ids) != moved((#[trigger] it.seq()[j]).0, ids),
-- loop 0 start
assert(it.seq()[it.index@] == (key, value));
assert(was.dom().contains(key));
== fn GridStoreBuilder::load_bin_boundaries
-- ret r
ensures
    r.is_ok(), final(self).data == old(self).data, final(self).bin_boundaries == bin_boundaries,
== text
spec fn from_compact(relev: f64, score: u8, id: u32, hash: u8, coords: Seq<(u16, u16)>, t: (u8, u32, u32)) -> bool {
    &&& t.0 == ((relev_int(relev) << 4) | score)
    &&& t.2 == ((id << 8) | (hash as u32))
    &&& some_at(coords, coords.len() as int, t.1)
}
/// the key after renumbering
spec fn moved(k: GridKey, ids: Seq<u32>) -> GridKey { GridKey { phrase_id: ids[k.phrase_id as int], lang_set: k.lang_set } }
spec fn all_mapped(keys: Set<GridKey>, ids: Seq<u32>) -> bool { forall|k: GridKey| #[trigger] keys.contains(k) ==> k.phrase_id < ids.len() }
spec fn apart(keys: Set<GridKey>, ids: Seq<u32>) -> bool { forall|a: GridKey, b: GridKey| #[trigger] keys.contains(a) && #[trigger] keys.contains(b) && a != b ==> moved(a, ids) != moved(b, ids) }
spec fn of_key(d: Map<GridKey, BuilderEntry>, k: GridKey) -> Map<u8, HashMap<u32, Vec<u32>>> { if d.dom().contains(k) { d[k]@ } else { Map::empty() } }
spec fn some_at(coords: Seq<(u16, u16)>, n: int, z: u32) -> bool { exists|i: int| 0 <= i < n && i < coords.len() && morton((#[trigger] coords[i]).0, coords[i].1) == z }
impl GridStoreBuilder {
    /// the builder holds entry t under a key
    spec fn holds(&self, key: GridKey, t: (u8, u32, u32)) -> bool { self.data@.dom().contains(key) && in_entry(self.data@[key]@, t) }
    /// one key is there, the rest of the data is as it was
    spec fn others_unchanged(&self, was: &Self, key: GridKey) -> bool {
        &&& self.bin_boundaries == was.bin_boundaries
        &&& self.data@.dom() =~= was.data@.dom().insert(key)
        &&& forall|k: GridKey| k != key && was.data@.dom().contains(k) ==> #[trigger] self.data@[k] == was.data@[k]
    }
}
