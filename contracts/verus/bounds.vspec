# C10: the boundaries of a store are those it was built with
== source store.rs
== import format
== import db
== include bounds.inc
== subst!
new_with_options<P: AsRef<Path>>(
=>
new_with_options<P>(
== subst!
path.as_ref().to_owned()
=>
own_(path)
== subst-re!
(\w+)\.as_ref\(\)
=>
box_ref_(&\1)
== subst-re
\.chunks\((\w+)\)
=>
.chunks_(\1)
== subst-re
\.filter_map\(\|(\w+)\| \{
=>
.filter_map_4(|\1: &[u8]| -> (o: Option<u32>) ensures one_chunk(\1@, o) {
== subst-re
\.try_into\(\)
=>
.try_into_4()
== subst
u32::from_le_bytes(
=>
u32_from_le_bytes(
== text
// ---- assumed: slice::chunks, collect, Path, Options, Box::as_ref, opening --------------------------------------------------------------
#[verifier::external_body]
fn own_<P>(p: P) -> (r: PathBuf) { unimplemented!() }
#[verifier::external_body]
fn box_ref_(b: &Box<[u8]>) -> (r: &[u8])
    ensures r@ == b@
{ unimplemented!() }
#[verifier::external_body]
struct Options { o: () }
impl Options {
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn set_read_only(&mut self, b: bool) { unimplemented!() }
    #[verifier::external_body]
    fn set_allow_mmap_reads(&mut self, b: bool) { unimplemented!() }
}
uninterp spec fn on_disk(p: PathBuf) -> Seq<(Box<[u8]>, Box<[u8]>)>;
impl DB {
    #[verifier::external_body]
    fn open(o: &Options, p: &PathBuf) -> (r: Result<DB, Error>)
        ensures r matches Ok(d) ==> d.pairs() == on_disk(*p)
    { unimplemented!() }
}
impl<T> HashSet<T> {
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Set::<T>::empty()
    { unimplemented!() }
}
spec fn chunk(b: Seq<u8>, n: int, k: int) -> Seq<u8> { b.subrange(n * k, if n * (k + 1) <= b.len() { n * (k + 1) } else { b.len() as int }) }
spec fn in_fours(a: Seq<&[u8]>, v: Seq<u8>) -> bool { a.len() == (v.len() + 3) / 4 && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k])@ == chunk(v, 4, k) }
trait Chunks {
    fn chunks_(&self, n: usize) -> (r: It<&[u8]>);
}
impl Chunks for [u8] {
    #[verifier::external_body]
    fn chunks_(&self, n: usize) -> (r: It<&[u8]>)
        ensures
            n > 0 ==> r.seq().len() == (self@.len() + n - 1) / n as int,
            forall|k: int| 0 <= k < r.seq().len() ==> (#[trigger] r.seq()[k])@ == chunk(self@, n as int, k),
            n == 4 ==> in_fours(r.seq(), self@),
    { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body]
    fn collect(self) -> (r: HashSet<T>)
        ensures forall|x: T| #[trigger] r@.contains(x) <==> self.seq().contains(x)
    { unimplemented!() }
}
// ---- what the value means ----------------------------------------------------------------------------------------------------------------
spec fn one_chunk(c: Seq<u8>, o: Option<u32>) -> bool { if c.len() == 4 { o matches Some(x) && le4(x) == c } else { o.is_none() } }
spec fn read_as(v: Seq<u8>, x: u32) -> bool { exists|k: int| 0 <= k && 4 * k + 4 <= v.len() && #[trigger] v.subrange(4 * k, 4 * k + 4) == le4(x) }
spec fn bounds_of(p: Seq<(Box<[u8]>, Box<[u8]>)>, i: int) -> bool { 0 <= i < p.len() && key_of(p[i]) == bounds_key() }
proof fn le_all_len(bs: Seq<u32>)
    ensures le_all(bs).len() == 4 * bs.len(),
    decreases bs.len(),
{
    if bs.len() > 0 { le_all_len(bs.drop_last()); }
}
proof fn le_at(bs: Seq<u32>, k: int)
    requires 0 <= k < bs.len(),
    ensures le_all(bs).subrange(4 * k, 4 * k + 4) == le4(bs[k]), le_all(bs).len() == 4 * bs.len(),
    decreases bs.len(),
{
    le_all_len(bs);
    le_all_len(bs.drop_last());
    if k == bs.len() - 1 {
        assert(le_all(bs).subrange(4 * k, 4 * k + 4) =~= le4(bs[k]));
    } else {
        le_at(bs.drop_last(), k);
        assert(le_all(bs).subrange(4 * k, 4 * k + 4) =~= le_all(bs.drop_last()).subrange(4 * k, 4 * k + 4));
    }
}
/// C10: what finish writes for the boundaries is read as the same boundaries
proof fn read_back(bs: Seq<u32>, x: u32)
    ensures read_as(le_all(bs), x) <==> bs.contains(x),
{
    le_all_len(bs);
    if bs.contains(x) { let k = bs.index_of(x); le_at(bs, k); assert(le_all(bs).subrange(4 * k, 4 * k + 4) == le4(x)); }
    if read_as(le_all(bs), x) {
        let k = choose|k: int| 0 <= k && 4 * k + 4 <= le_all(bs).len() && #[trigger] le_all(bs).subrange(4 * k, 4 * k + 4) == le4(x);
        le_at(bs, k);
        le4_inj(bs[k], x);
        assert(bs[k] == x);
    }
}
/// filter_map over the chunks
proof fn chunks_read<F: Fn(&[u8]) -> Option<u32>>(f: F, v: Seq<u8>, a: Seq<&[u8]>, b: Seq<u32>, n: int)
    requires
        fmaps(f, a, b), forall|c: &[u8], o: Option<u32>| #[trigger] f.ensures((c,), o) ==> one_chunk(c@, o),
        a.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] a[k])@ == chunk(v, 4, k), n <= (v.len() + 3) / 4,
    ensures forall|x: u32| #[trigger] b.contains(x) <==> exists|k: int| 0 <= k < n && 4 * k + 4 <= v.len() && #[trigger] v.subrange(4 * k, 4 * k + 4) == le4(x),
    decreases n,
{
    if n > 0 {
        let d = a.drop_last();
        let c = a.last()@;
        assert(c == a[n - 1]@);
        let b0 = if f.ensures((a.last(),), None) && fmaps(f, d, b) { b } else { b.drop_last() };
        assert forall|k: int| 0 <= k < n - 1 implies (#[trigger] d[k])@ == chunk(v, 4, k) by { assert(d[k] == a[k]); }
        chunks_read(f, v, d, b0, n - 1);
        assert forall|x: u32| #[trigger] b.contains(x) <==> exists|k: int| 0 <= k < n && 4 * k + 4 <= v.len() && #[trigger] v.subrange(4 * k, 4 * k + 4) == le4(x) by {
            let here = 4 * (n - 1) + 4 <= v.len() && v.subrange(4 * (n - 1), 4 * (n - 1) + 4) == le4(x);
            assert(b.contains(x) <==> b0.contains(x) || here) by {
                if b0.contains(x) { let i = b0.index_of(x); assert(b[i] == x); }
                if b.contains(x) { let i = b.index_of(x); if i < b0.len() { assert(b0[i] == x); } else { assert(x == b.last()); } }
                if here {
                    assert(c.len() == 4 && c == le4(x));
                    if f.ensures((a.last(),), None) && fmaps(f, d, b) { assert(one_chunk(c, None)); } else {
                        assert(one_chunk(c, Some(b.last())));
                        le4_inj(b.last(), x);
                        assert(b[b.len() - 1] == x);
                    }
                }
            }
            if exists|k: int| 0 <= k < n && 4 * k + 4 <= v.len() && #[trigger] v.subrange(4 * k, 4 * k + 4) == le4(x) {
                let k = choose|k: int| 0 <= k < n && 4 * k + 4 <= v.len() && #[trigger] v.subrange(4 * k, 4 * k + 4) == le4(x);
                if k < n - 1 { assert(b0.contains(x)); }
            }
            if b0.contains(x) {
                let k = choose|k: int| 0 <= k < n - 1 && 4 * k + 4 <= v.len() && #[trigger] v.subrange(4 * k, 4 * k + 4) == le4(x);
                assert(v.subrange(4 * k, 4 * k + 4) == le4(x));
            }
            if here { assert(v.subrange(4 * (n - 1), 4 * (n - 1) + 4) == le4(x)); }
        }
    }
}
== text
proof fn fours_read<F: Fn(&[u8]) -> Option<u32>>(f: F, v: Seq<u8>, a: Seq<&[u8]>, b: Seq<u32>)
    requires
        fmaps(f, a, b), in_fours(a, v),
        forall|c: &[u8], o: Option<u32>| #[trigger] f.ensures((c,), o) ==> one_chunk(c@, o),
    ensures forall|x: u32| #[trigger] b.contains(x) <==> read_as(v, x),
{
    let n = a.len() as int;
    chunks_read(f, v, a, b, n);
    assert forall|x: u32| #[trigger] b.contains(x) <==> read_as(v, x) by {
        if read_as(v, x) { let k = choose|k: int| 0 <= k && 4 * k + 4 <= v.len() && #[trigger] v.subrange(4 * k, 4 * k + 4) == le4(x); assert(k < n); }
    }
}
impl It<&[u8]> {
    fn filter_map_4<F: Fn(&[u8]) -> Option<u32>>(self, f: F) -> (r: It<u32>)
        requires
            forall|c: &[u8]| #[trigger] f.requires((c,)),
            forall|c: &[u8], o: Option<u32>| #[trigger] f.ensures((c,), o) ==> one_chunk(c@, o),
        ensures forall|v: Seq<u8>| #[trigger] in_fours(self.seq(), v) ==> forall|x: u32| #[trigger] r.seq().contains(x) <==> read_as(v, x),
    {
        let ghost a = self.seq();
        let r = self.filter_map_(f);
        proof {
            assert forall|v: Seq<u8>| #[trigger] in_fours(a, v) implies forall|x: u32| #[trigger] r.seq().contains(x) <==> read_as(v, x) by { fours_read(f, v, a, r.seq()); }
        }
        r
    }
}
proof fn one_bounds(p: Seq<(Box<[u8]>, Box<[u8]>)>, i: int, j: int)
    requires bounds_of(p, i), bounds_of(p, j), stored(p),
    ensures i == j,
{
    lex_irrefl(bounds_key());
    if i < j { assert(lex_lt(key_of(p[i]), key_of(p[j]))); }
    if j < i { assert(lex_lt(key_of(p[j]), key_of(p[i]))); }
}
spec fn reads(s: Set<u32>, v: Seq<u8>) -> bool { forall|x: u32| #[trigger] s.contains(x) <==> read_as(v, x) }
== take impl GridStore | new_with_options
== fn GridStore::new_with_options
-- ret r
ensures
    r matches Ok(s) ==> {
        &&& s.zoom == zoom && s.type_id == type_id && s.coalesce_radius == coalesce_radius && s.bboxes == bboxes && s.max_score == max_score
        &&& s.db.pairs() == on_disk(s.path)
        &&& (forall|i: int| !bounds_of(s.db.pairs(), i)) ==> s.bin_boundaries@ == Set::<u32>::empty()
        &&& forall|i: int, bs: Seq<u32>| #[trigger] bounds_of(s.db.pairs(), i) && s.db.pairs()[i].1@ == #[trigger] le_all(bs) && stored(s.db.pairs()) ==> forall|x: u32| #[trigger] s.bin_boundaries@.contains(x) <==> bs.contains(x)
    },
-- tail
proof {
    let (p, s) = (db.pairs(), bin_boundaries@);
    assert(forall|i: int| 0 <= i < p.len() && key_of(#[trigger] p[i]) == bounds_key() ==> bounds_of(p, i));
    if exists|i: int| #[trigger] bounds_of(p, i) && reads(s, p[i].1@) {
        let j = choose|i: int| #[trigger] bounds_of(p, i) && reads(s, p[i].1@);
        assert forall|i: int, bs: Seq<u32>| #[trigger] bounds_of(p, i) && p[i].1@ == #[trigger] le_all(bs) && stored(p) implies forall|x: u32| #[trigger] s.contains(x) <==> bs.contains(x) by {
            one_bounds(p, i, j);
            assert forall|x: u32| #[trigger] s.contains(x) <==> bs.contains(x) by { read_back(bs, x); }
        }
    }
}
