# C08: what decode_value yields is exactly what the record holds, in its order
== source gridstore_format.rs
== import encode
== import iters
== import morton
== text
// the lists of a record as iterators: proved in the unit format (VarVec::into_iter_step, UniformVec::into_iter, FixedVec::into_iter)
impl<'a, T: VarEncodable> VarVec<'a, T> {
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>)
        requires exists|s: Seq<T>| self.reps(s),
        ensures forall|s: Seq<T>| #[trigger] self.reps(s) ==> r.seq().len() == s.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] r.seq()[k]).same(&s[k]),
    { unimplemented!() }
}
impl<'a, T: UniformEncodable> UniformVec<'a, T> {
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>)
        requires self.ready(),
        ensures forall|s: Seq<T>| #[trigger] self.reps(s) ==> r.seq().len() == s.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] r.seq()[k]).usame(&s[k]),
    { unimplemented!() }
}
impl<'a, T: FixedEncodable> FixedVec<'a, T> {
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>)
        requires self.ready(),
        ensures forall|s: Seq<T>| #[trigger] self.reps(s) ==> r.seq().len() == s.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] r.seq()[k]).fsame(&s[k]),
    { unimplemented!() }
}
spec fn tile(c: u32) -> (u16, u16) { (tx(c), ty(c)) }
/// the reference of decode_value to bytes it owns (in /repo: unsafe transmute of the lifetime)
#[verifier::external_body]
fn static_of(b: &[u8]) -> (r: &'static [u8])
    ensures r@ == b@
{ unimplemented!() }
impl<'a> AsBytes for &'a [u8] {
    spec fn bytes(&self) -> Seq<u8> { self@ }
    fn as_ref(&self) -> (r: &[u8]) { self }
}
impl AsBytes for Box<[u8]> {
    spec fn bytes(&self) -> Seq<u8> { self@ }
    fn as_ref(&self) -> (r: &[u8]) { self }
}
struct Record { root: PhraseRecord, rs: Seq<RelevScore>, cs: Seq<Seq<Coord>>, ids: Seq<Seq<Seq<u32>>> }
spec fn held(d: Seq<u8>, w: Record) -> bool { holds(d, w.root, w.rs, w.cs, w.ids) }
== import relev
== source common.rs
== take struct GridEntry
== text
/// the entry that stands for an id of a coordinate of a group
spec fn grid(rs: u8, coord: u32, id: u32) -> GridEntry {
    GridEntry { relev: relev_of(rs >> 4), score: rs & 15, x: tile(coord).0, y: tile(coord).1, id: id >> 8, source_phrase_hash: (id & 255) as u8 }
}
spec fn want_id(w: Record, i: int, j: int) -> spec_fn(int) -> GridEntry { |k: int| grid(w.rs[i].relev_score, w.cs[i][j].coord, w.ids[i][j][k]) }
spec fn want_coord(w: Record, i: int) -> spec_fn(int) -> Seq<GridEntry> { |j: int| Seq::new(w.ids[i][j].len(), want_id(w, i, j)) }
spec fn want_group(w: Record) -> spec_fn(int) -> Seq<GridEntry> { |i: int| concat(w.cs[i].len() as int, want_coord(w, i)) }
spec fn entries(w: Record) -> Seq<GridEntry> { concat(w.rs.len() as int, want_group(w)) }
== source store.rs
== subst
gridstore_format::
=>

== subst!
AsRef<[u8]>
=>
AsBytes
== subst!
unsafe { std::mem::transmute(value_ref) }
=>
static_of(value_ref)
== subst!
decode_value<T: AsBytes>(value: T)
=>
decode_value<T: AsBytes>(value: T, w: Ghost<Record>)
== subst!
impl Iterator<Item = GridEntry>
=>
It<GridEntry>
== subst-re!
\.into_iter\(\)\s*\.flat_map\(move \|rs_obj\| \{
=>
.into_it().flat_map_(Ghost(want_group(w@)), move |rs_obj: RelevScore, i: Ghost<int>| -> (o: It<GridEntry>) requires held(record_ref.1@, w@), 0 <= i@ < w@.rs.len(), rs_obj.same(&w@.rs[i@]), ensures o.seq() == want_group(w@)(i@) { proof { assert(uall(w@.cs[i@])); }
== subst-re!
\.into_iter\(\)\s*\.flat_map\(move \|coords_obj\| \{
=>
.into_it().flat_map_(Ghost(want_coord(w@, i@)), move |coords_obj: Coord, j: Ghost<int>| -> (o: It<GridEntry>) requires held(nested_ref@, w@), 0 <= i@ < w@.rs.len(), 0 <= j@ < w@.cs[i@].len(), coords_obj.usame(&w@.cs[i@][j@]), ensures o.seq() == want_coord(w@, i@)(j@) { proof { assert(fall(w@.ids[i@][j@])); }
== subst-re!
\.into_iter\(\)\s*\.map\(move \|id_comp\| \{
=>
.into_it().fmap_(Ghost(want_id(w@, i@, j@)), move |id_comp: u32, k: Ghost<int>| -> (o: GridEntry) requires 0 <= k@ < w@.ids[i@][j@].len(), id_comp == w@.ids[i@][j@][k@], ensures o == want_id(w@, i@, j@)(k@) {
== take fn decode_value
== fn decode_value
-- ret r
requires held(value.bytes(), w@),
ensures r.seq() == entries(w@),
== text
// ---- C08: what comes out is what was put in ---------------------------------------------------------------------------------
spec fn trip(t: (u8, u32, u32)) -> GridEntry { grid(t.0, t.1, t.2) }
spec fn t_id(w: Record, i: int, j: int) -> spec_fn(int) -> (u8, u32, u32) { |k: int| (w.rs[i].relev_score, w.cs[i][j].coord, w.ids[i][j][k]) }
spec fn t_coord(w: Record, i: int) -> spec_fn(int) -> Seq<(u8, u32, u32)> { |j: int| Seq::new(w.ids[i][j].len(), t_id(w, i, j)) }
spec fn t_group(w: Record) -> spec_fn(int) -> Seq<(u8, u32, u32)> { |i: int| concat(w.cs[i].len() as int, t_coord(w, i)) }
spec fn triples(w: Record) -> Seq<(u8, u32, u32)> { concat(w.rs.len() as int, t_group(w)) }
spec fn before(a: (u8, u32, u32), b: (u8, u32, u32)) -> bool { a.0 > b.0 || (a.0 == b.0 && (a.1 > b.1 || (a.1 == b.1 && a.2 > b.2))) }
spec fn sorted(s: Seq<(u8, u32, u32)>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> before(#[trigger] s[a], #[trigger] s[b]) }
proof fn concat_has<B>(n: int, want: spec_fn(int) -> Seq<B>)
    requires n >= 0,
    ensures forall|x: B| #[trigger] concat(n, want).contains(x) <==> exists|i: int| 0 <= i < n && (#[trigger] want(i)).contains(x),
    decreases n,
{
    if n > 0 {
        concat_has(n - 1, want);
        let (a, b) = (concat(n - 1, want), want(n - 1));
        let s = a + b;
        assert forall|x: B| #[trigger] s.contains(x) <==> exists|i: int| 0 <= i < n && (#[trigger] want(i)).contains(x) by {
            if s.contains(x) {
                let k = s.index_of(x);
                if k < a.len() { assert(a[k] == x); assert(a.contains(x)); } else { assert(b[k - a.len()] == x); assert(want(n - 1).contains(x)); }
            }
            if exists|i: int| 0 <= i < n && (#[trigger] want(i)).contains(x) {
                let i = choose|i: int| 0 <= i < n && (#[trigger] want(i)).contains(x);
                if i < n - 1 { assert(a.contains(x)); let k = a.index_of(x); assert(s[k] == x); } else { let k = b.index_of(x); assert(s[a.len() + k] == x); }
            }
        }
    }
}
proof fn concat_sorted(n: int, want: spec_fn(int) -> Seq<(u8, u32, u32)>)
    requires
        n >= 0,
        forall|i: int| 0 <= i < n ==> sorted(#[trigger] want(i)),
        forall|i: int, j: int, a: int, b: int| 0 <= i < j < n && 0 <= a < want(i).len() && 0 <= b < want(j).len() ==> before(#[trigger] want(i)[a], #[trigger] want(j)[b]),
    ensures sorted(concat(n, want)),
    decreases n,
{
    if n > 0 {
        concat_sorted(n - 1, want);
        concat_has(n - 1, want);
        let (p, q) = (concat(n - 1, want), want(n - 1));
        let s = p + q;
        assert(sorted(q));
        assert forall|a: int, b: int| 0 <= a < b < s.len() implies before(#[trigger] s[a], #[trigger] s[b]) by {
            if b < p.len() { assert(s[a] == p[a] && s[b] == p[b]); }
            else if a >= p.len() { assert(s[a] == q[a - p.len()] && s[b] == q[b - p.len()]); }
            else {
                assert(p.contains(p[a]));
                let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] want(i)).contains(p[a]);
                let k = want(i).index_of(p[a]);
                assert(before(want(i)[k], want(n - 1)[b - p.len()]));
            }
        }
    }
}
proof fn concat_maps(n: int, want: spec_fn(int) -> Seq<GridEntry>, t: spec_fn(int) -> Seq<(u8, u32, u32)>)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] want(i) == t(i).map_values(|x: (u8, u32, u32)| trip(x)),
    ensures concat(n, want) == concat(n, t).map_values(|x: (u8, u32, u32)| trip(x)),
    decreases n,
{
    if n > 0 {
        concat_maps(n - 1, want, t);
        assert(want(n - 1) == t(n - 1).map_values(|x: (u8, u32, u32)| trip(x)));
    }
    assert(concat(n, want) =~= concat(n, t).map_values(|x: (u8, u32, u32)| trip(x)));
}
spec fn has_group(e: Map<u8, HashMap<u32, Vec<u32>>>, w: Record, i: int) -> bool {
    &&& want_group(w)(i) == t_group(w)(i).map_values(|x: (u8, u32, u32)| trip(x))
    &&& sorted(t_group(w)(i))
    &&& forall|t: (u8, u32, u32)| #[trigger] t_group(w)(i).contains(t) <==> t.0 == w.rs[i].relev_score && in_entry(e, t)
}
spec fn has_coord(g: Map<u32, Vec<u32>>, w: Record, i: int, j: int) -> bool {
    &&& want_coord(w, i)(j) == t_coord(w, i)(j).map_values(|x: (u8, u32, u32)| trip(x))
    &&& sorted(t_coord(w, i)(j))
    &&& forall|t: (u8, u32, u32)| #[trigger] t_coord(w, i)(j).contains(t) <==> t.0 == w.rs[i].relev_score && t.1 == w.cs[i][j].coord && g.dom().contains(t.1) && g[t.1]@.contains(t.2)
}
proof fn one_coord(d: Seq<u8>, g: Map<u32, Vec<u32>>, w: Record, i: int, j: int)
    requires held(d, w), 0 <= i < w.rs.len(), 0 <= j < w.cs[i].len(), coords_of(g, w.cs[i], w.ids[i]),
    ensures has_coord(g, w, i, j),
{
    reveal(coords_of); reveal(norm);
    let s = t_coord(w, i)(j);
    assert(want_coord(w, i)(j) =~= s.map_values(|x: (u8, u32, u32)| trip(x)));
    assert(g.dom().contains(w.cs[i][j].coord) && norm(g[w.cs[i][j].coord]@, w.ids[i][j]));
    assert forall|t: (u8, u32, u32)| #[trigger] s.contains(t) <==> t.0 == w.rs[i].relev_score && t.1 == w.cs[i][j].coord && g.dom().contains(t.1) && g[t.1]@.contains(t.2) by {
        if s.contains(t) {
            let k = s.index_of(t);
            assert(w.ids[i][j].contains(w.ids[i][j][k]));
        }
        if t.0 == w.rs[i].relev_score && t.1 == w.cs[i][j].coord && g.dom().contains(t.1) && g[t.1]@.contains(t.2) {
            assert(w.ids[i][j].contains(t.2));
            let k = w.ids[i][j].index_of(t.2);
            assert(s[k] == t);
        }
    }
}
proof fn one_group(d: Seq<u8>, e: Map<u8, HashMap<u32, Vec<u32>>>, w: Record, i: int)
    requires held(d, w), groups_of(e, w.rs, w.cs, w.ids), 0 <= i < w.rs.len(),
    ensures has_group(e, w, i),
{
    let m = w.cs[i].len() as int;
    let g = e[w.rs[i].relev_score]@;
    assert(e.dom().contains(w.rs[i].relev_score) && coords_of(g, w.cs[i], w.ids[i])) by { reveal(groups_of); }
    assert forall|j: int| 0 <= j < m implies has_coord(g, w, i, j) by { one_coord(d, g, w, i, j); }
    assert forall|j: int| 0 <= j < m implies sorted(#[trigger] t_coord(w, i)(j)) by { assert(has_coord(g, w, i, j)); }
    assert forall|j: int| 0 <= j < m implies #[trigger] want_coord(w, i)(j) == t_coord(w, i)(j).map_values(|x: (u8, u32, u32)| trip(x)) by { assert(has_coord(g, w, i, j)); }
    concat_maps(m, want_coord(w, i), t_coord(w, i));
    assert forall|j: int, k: int, a: int, b: int| 0 <= j < k < m && 0 <= a < t_coord(w, i)(j).len() && 0 <= b < t_coord(w, i)(k).len() implies
        before(#[trigger] t_coord(w, i)(j)[a], #[trigger] t_coord(w, i)(k)[b]) by { reveal(coords_of); assert(w.cs[i][j].coord > w.cs[i][k].coord); }
    concat_sorted(m, t_coord(w, i));
    concat_has(m, t_coord(w, i));
    assert forall|t: (u8, u32, u32)| #[trigger] t_group(w)(i).contains(t) <==> t.0 == w.rs[i].relev_score && in_entry(e, t) by {
        if t_group(w)(i).contains(t) {
            let j = choose|j: int| 0 <= j < m && (#[trigger] t_coord(w, i)(j)).contains(t);
            assert(has_coord(g, w, i, j));
        }
        if t.0 == w.rs[i].relev_score && in_entry(e, t) {
            let j = choose|j: int| 0 <= j < w.cs[i].len() && (#[trigger] w.cs[i][j]).coord == t.1;
            assert(exists|j: int| 0 <= j < w.cs[i].len() && (#[trigger] w.cs[i][j]).coord == t.1) by { reveal(coords_of); }
            assert(has_coord(g, w, i, j));
            assert(t_coord(w, i)(j).contains(t));
        }
    }
}
/// A record that get_encoded_value wrote for `e` reads as the entries of `e`: each exactly once (the triples
/// descend strictly), best relevance and score first, none lost and none added.
proof fn stored_exactly(d: Seq<u8>, e: Map<u8, HashMap<u32, Vec<u32>>>, w: Record)
    requires held(d, w), groups_of(e, w.rs, w.cs, w.ids),
    ensures
        entries(w) == triples(w).map_values(|x: (u8, u32, u32)| trip(x)),
        sorted(triples(w)),
        forall|t: (u8, u32, u32)| #[trigger] triples(w).contains(t) <==> in_entry(e, t),
{
    let n = w.rs.len() as int;
    assert forall|i: int| 0 <= i < n implies has_group(e, w, i) by { one_group(d, e, w, i); }
    assert forall|i: int| 0 <= i < n implies sorted(#[trigger] t_group(w)(i)) by { assert(has_group(e, w, i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] want_group(w)(i) == t_group(w)(i).map_values(|x: (u8, u32, u32)| trip(x)) by { assert(has_group(e, w, i)); }
    concat_maps(n, want_group(w), t_group(w));
    assert forall|i: int, j: int, a: int, b: int| 0 <= i < j < n && 0 <= a < t_group(w)(i).len() && 0 <= b < t_group(w)(j).len() implies
        before(#[trigger] t_group(w)(i)[a], #[trigger] t_group(w)(j)[b]) by {
        assert(w.rs[i].relev_score > w.rs[j].relev_score) by { reveal(groups_of); }
        assert(has_group(e, w, i) && has_group(e, w, j));
        assert(t_group(w)(i).contains(t_group(w)(i)[a]));
        assert(t_group(w)(j).contains(t_group(w)(j)[b]));
    }
    concat_sorted(n, t_group(w));
    concat_has(n, t_group(w));
    assert forall|t: (u8, u32, u32)| #[trigger] triples(w).contains(t) <==> in_entry(e, t) by {
        if triples(w).contains(t) {
            let i = choose|i: int| 0 <= i < n && (#[trigger] t_group(w)(i)).contains(t);
            assert(has_group(e, w, i));
        }
        if in_entry(e, t) {
            let i = choose|i: int| 0 <= i < w.rs.len() && (#[trigger] w.rs[i]).relev_score == t.0;
            assert(exists|i: int| 0 <= i < w.rs.len() && (#[trigger] w.rs[i]).relev_score == t.0) by { reveal(groups_of); }
            assert(has_group(e, w, i));
            assert(t_group(w)(i).contains(t));
        }
    }
}
/// the triple that extend_entries makes of an entry (unit builder: rs_of, morton, id_hash) reads back as the entry
proof fn same_entry(v: GridEntry, r: u8)
    requires r == relev_int(v.relev), storable(v.relev), v.score < 16, v.id < 0x100_0000,
    ensures grid((r << 4) | v.score, z(v.x, v.y), (v.id << 8) | (v.source_phrase_hash as u32)) == v,
{
    relev_survives(v.relev);
    z_of(v.x, v.y);
    let (s, i, h) = (v.score, v.id, v.source_phrase_hash as u32);
    assert(((r << 4) | s) >> 4 == r && ((r << 4) | s) & 15 == s) by (bit_vector) requires r < 4, s < 16;
    assert(((i << 8) | h) >> 8 == i && ((i << 8) | h) & 255 == h) by (bit_vector) requires i < 0x100_0000, h < 256;
}
