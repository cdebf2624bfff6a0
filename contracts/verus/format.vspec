# C01: gridstore_format.rs
== source gridstore_format.rs
== subst-re
\bu32::from_le_bytes\(
=>
u32_from_le_bytes(
== subst-re
\.to_le_bytes\(\)
=>
.to_le_bytes_()
== subst-re
\]\s*\.try_into\(\)
=>
].try_into_4()
== subst-re
\.max\(\)
=>
.max_()
== subst-re
\.map\(
=>
.map_(
== subst
|obj| obj.get_min_size()
=>
|obj: &T| -> (z: usize) ensures z == obj.umin() { obj.get_min_size() }
== subst
AsRef<[u8]>
=>
AsBytes
== subst
move |idx| self.get(idx)
=>
move |idx: usize| -> (z: T) requires self.ready(), idx < self.len ensures self.is_at(idx as int, z) { self.get(idx) }
== prelude
use core::marker::PhantomData;
use core::convert::TryInto;
use vstd::std_specs::iter::IteratorSpec;


// ---- standard library and integer_encoding, as assumed contracts -----------------------------------
// integer_encoding::VarInt for u32 (assumed, as its documentation has it)
spec fn varint(x: u32) -> Seq<u8>
    decreases x
{
    if x < 128 { seq![x as u8] } else { seq![((x % 128) + 128) as u8] + varint(x / 128) }
}
proof fn varint_len(x: u32)
    ensures 1 <= varint(x).len() <= 5,
{
    reveal_with_fuel(varint, 6);
}
trait VarInt: Sized {
    spec fn vi(self) -> Seq<u8>;
    fn encode_var(self, dst: &mut [u8]) -> (r: usize)
        requires old(dst)@.len() >= 5,
        ensures
            final(dst)@.len() == old(dst)@.len(),
            r == self.vi().len(),
            1 <= r <= 5,
            final(dst)@.subrange(0, r as int) == self.vi();
    fn decode_var(src: &[u8]) -> (r: (Self, usize))
        requires exists|x: Self| has(src@, 0, #[trigger] x.vi()),
        ensures forall|x: Self| has(src@, 0, #[trigger] x.vi()) ==> r.0 == x && r.1 == x.vi().len() && 1 <= r.1 <= 5;
}
impl VarInt for u32 {
    spec fn vi(self) -> Seq<u8> { varint(self) }
    #[verifier::external_body]
    fn encode_var(self, dst: &mut [u8]) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn decode_var(src: &[u8]) -> (r: (u32, usize)) { unimplemented!() }
}
// u32::to_le_bytes / from_le_bytes (assumed, as std documents them)
#[verifier::truncate]
spec fn le4(x: u32) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]
}
broadcast proof fn le4_inj(x: u32, y: u32)
    requires #[trigger] le4(x) == #[trigger] le4(y),
    ensures x == y,
{
    let (a, b) = (le4(x), le4(y));
    assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
    assert(((x & 0xff) as u8 == (y & 0xff) as u8 && ((x >> 8) & 0xff) as u8 == ((y >> 8) & 0xff) as u8
        && ((x >> 16) & 0xff) as u8 == ((y >> 16) & 0xff) as u8 && ((x >> 24) & 0xff) as u8 == ((y >> 24) & 0xff) as u8) ==> x == y) by (bit_vector);
}
/// a slice is no longer than usize::MAX
proof fn slice_len(s: &[u8])
    ensures s@.len() <= usize::MAX,
{
    let n = s.len();
    assert(n == s@.len());
}
trait LeBytes: Sized {
    spec fn leb(self) -> Seq<u8>;
    fn to_le_bytes_(self) -> (r: [u8; 4])
        ensures r@ == self.leb();
}
impl LeBytes for u32 {
    spec fn leb(self) -> Seq<u8> { le4(self) }
    #[verifier::external_body]
    fn to_le_bytes_(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
#[verifier::external_body]
fn u32_from_le_bytes(x: [u8; 4]) -> (r: u32)
    ensures le4(r) == x@,
{ u32::from_le_bytes(x) }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);
// AsRef<[u8]>, read as: always gives the same bytes
trait AsBytes {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8])
        ensures r@ == self.bytes();
}
trait TryInto4 {
    fn try_into_4(&self) -> (r: Result<[u8; 4], core::array::TryFromSliceError>)
        ensures self.is4() ==> (r matches Ok(a) && a@ == self.by());
    spec fn is4(&self) -> bool;
    spec fn by(&self) -> Seq<u8>;
}
impl TryInto4 for [u8] {
    spec fn is4(&self) -> bool { self@.len() == 4 }
    spec fn by(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn try_into_4(&self) -> (r: Result<[u8; 4], core::array::TryFromSliceError>) { self.try_into() }
}
pub assume_specification<T: Clone>[ <[T]>::clone_from_slice ](s: &mut [T], o: &[T])
    requires old(s)@.len() == o@.len(),
    ensures
        final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < o@.len() ==> cloned(#[trigger] o@[i], final(s)@[i]),
;
// Iterator::map: a wrapper, checked against the contract vstd has for map
spec fn maps<A, B, F: Fn(A) -> B>(f: F, a: A, b: B) -> bool {
    exists|x: A, y: B| x == a && y == b && #[trigger] call_ensures(f, (x,), y)
}
trait MapG: Iterator + Sized {
    fn map_<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: core::iter::Map<Self, F>)
        requires
            self.obeys_prophetic_iter_laws(),
            forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures
            r.obeys_prophetic_iter_laws(),
            r.remaining().len() <= self.remaining().len(),
            r.will_return_none() ==> self.will_return_none() && r.remaining().len() == self.remaining().len(),
            forall|k: int| 0 <= k < r.remaining().len() ==> maps(f, self.remaining()[k], #[trigger] r.remaining()[k]);
}
impl<I: Iterator> MapG for I {
    fn map_<B, F: Fn(I::Item) -> B>(self, f: F) -> (r: core::iter::Map<I, F>) {
        let r = self.map(f);
        proof { vstd::std_specs::iter::map_postcondition(self, f, r); }
        r
    }
}
// Iterator::max
spec fn at(i: int) -> bool { true }
trait MaxU: Iterator<Item = usize> + Sized {
    #[verifier::external_body]
    fn max_(self) -> (r: Option<usize>)
        requires self.obeys_prophetic_iter_laws(),
        ensures
            self.will_return_none(),
            match r {
                None => self.remaining().len() == 0,
                Some(v) => (exists|i: int| #[trigger] at(i) && 0 <= i < self.remaining().len() && self.remaining()[i] == v)
                    && (forall|i: int| #[trigger] at(i) && 0 <= i < self.remaining().len() ==> self.remaining()[i] <= v),
            },
    { self.max() }
}
impl<I: Iterator<Item = usize>> MaxU for I {}

/// the bytes `e` lie at `addr` in `data`
spec fn has(data: Seq<u8>, addr: int, e: Seq<u8>) -> bool {
    0 <= addr && addr + e.len() <= data.len() && data.subrange(addr, addr + e.len()) == e
}
proof fn has_skip(data: Seq<u8>, a: int, e: Seq<u8>)
    requires 0 <= a <= data.len(),
    ensures has(data, a, e) == has(data.subrange(a, data.len() as int), 0, e),
{
    let d = data.subrange(a, data.len() as int);
    if a + e.len() <= data.len() {
        assert(d.subrange(0, e.len() as int) =~= data.subrange(a, a + e.len()));
    }
}
proof fn has_parts(data: Seq<u8>, a: int, e: Seq<u8>, f: Seq<u8>)
    ensures has(data, a, e + f) <==> has(data, a, e) && has(data, a + e.len(), f),
{
    if has(data, a, e + f) {
        let w = data.subrange(a, a + e.len() + f.len());
        assert(data.subrange(a, a + e.len()) =~= w.subrange(0, e.len() as int));
        assert((e + f).subrange(0, e.len() as int) =~= e);
        assert(data.subrange(a + e.len(), a + e.len() + f.len()) =~= w.subrange(e.len() as int, w.len() as int));
        assert((e + f).subrange(e.len() as int, w.len() as int) =~= f);
    }
    if has(data, a, e) && has(data, a + e.len(), f) {
        assert(data.subrange(a, a + e.len() + f.len()) =~= e + f);
    }
}
/// what has been written stays where it is when more is written after it
proof fn has_append(data: Seq<u8>, a: int, e: Seq<u8>, more: Seq<u8>)
    requires has(data, a, e),
    ensures has(data + more, a, e),
{
    assert((data + more).subrange(a, a + e.len()) =~= data.subrange(a, a + e.len()));
}
proof fn has_end(data: Seq<u8>, e: Seq<u8>)
    ensures has(data + e, data.len() as int, e),
{
    assert((data + e).subrange(data.len() as int, data.len() as int + e.len()) =~= e);
}

== take struct VarScalarOffset
== take struct FixedScalarOffset
== take struct UniformScalarOffset
== take struct FixedVecOffset
== take struct VarVecOffset
== take struct UniformVecOffset
== take trait VarEncodable
    spec fn ok(&self) -> bool;
    spec fn enc(&self) -> Seq<u8>;
    spec fn same(&self, o: &Self) -> bool;
    proof fn vlaw(&self) requires self.ok() ensures self.enc().len() <= 0x10_0000;
== fn VarEncodable::write_to
-- ret r
requires self.ok(),
ensures final(buffer)@ == old(buffer)@ + self.enc(), r == self.enc().len(),
== fn VarEncodable::read_from
-- ret r
requires exists|x: Self| x.ok() && has(buffer@, offset.addr as int, #[trigger] x.enc()),
ensures forall|x: Self| x.ok() && has(buffer@, offset.addr as int, #[trigger] x.enc()) ==> r.0.same(&x) && r.1 == x.enc().len(),
== take trait FixedEncodable
    spec fn fok(&self) -> bool;
    spec fn fenc(&self) -> Seq<u8>;
    spec fn fsame(&self, o: &Self) -> bool;
    proof fn flaw(&self) requires self.fok() ensures self.fenc().len() == Self::SIZE, Self::SIZE <= 0x10_0000;
== fn FixedEncodable::write_fixed_to
requires self.fok(),
ensures final(buffer)@ == old(buffer)@ + self.fenc(),
== fn FixedEncodable::read_fixed_from
-- ret r
requires exists|x: Self| x.fok() && has(buffer@, offset.addr as int, #[trigger] x.fenc()),
ensures forall|x: Self| x.fok() && has(buffer@, offset.addr as int, #[trigger] x.fenc()) ==> r.fsame(&x),
== take trait UniformEncodable
    spec fn uok(&self) -> bool;
    spec fn uenc(&self, size: int) -> Seq<u8>;
    spec fn usame(&self, o: &Self) -> bool;
    spec fn umin(&self) -> int;
    proof fn ulaw(&self, size: int) requires self.uok(), self.umin() <= size <= Self::MAX_SIZE
        ensures self.uenc(size).len() == size, 1 <= self.umin() <= Self::MAX_SIZE <= 255;
    proof fn ulaw0(&self) requires self.uok()
        ensures 1 <= self.umin() <= Self::MAX_SIZE <= 255;
== fn UniformEncodable::write_with_size_to
requires self.uok(), self.umin() <= size <= Self::MAX_SIZE,
ensures final(buffer)@ == old(buffer)@ + self.uenc(size as int),
== fn UniformEncodable::read_with_size_from
-- ret r
requires exists|x: Self| x.uok() && x.umin() <= size <= Self::MAX_SIZE && has(buffer@, offset.addr as int, #[trigger] x.uenc(size as int)),
ensures forall|x: Self| x.uok() && x.umin() <= size <= Self::MAX_SIZE && has(buffer@, offset.addr as int, #[trigger] x.uenc(size as int)) ==> r.usame(&x),
== fn UniformEncodable::get_min_size
-- ret r
ensures r == self.umin(),
== take struct Writer
== text
spec fn fcat<T: FixedEncodable>(s: Seq<T>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { fcat(s.drop_last()) + s.last().fenc() }
}
spec fn vcat<T: VarEncodable>(s: Seq<T>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { vcat(s.drop_last()) + s.last().enc() }
}
spec fn ucat<T: UniformEncodable>(s: Seq<T>, size: int) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { ucat(s.drop_last(), size) + s.last().uenc(size) }
}
/// the record size of a list: the largest minimum of its elements, 255 if it is empty
spec fn recsize<T: UniformEncodable>(s: Seq<T>) -> int
    decreases s.len()
{
    if s.len() == 0 { 255 } else if s.len() == 1 { s[0].umin() } else {
        let r = recsize(s.drop_last());
        if s.last().umin() > r { s.last().umin() } else { r }
    }
}
spec fn fall<T: FixedEncodable>(s: Seq<T>) -> bool { s.len() <= u32::MAX && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fok() }
spec fn vall<T: VarEncodable>(s: Seq<T>) -> bool { s.len() <= u32::MAX && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
spec fn uall<T: UniformEncodable>(s: Seq<T>) -> bool { s.len() <= u32::MAX && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).uok() }
/// the bytes of whole lists
spec fn flist<T: FixedEncodable>(s: Seq<T>) -> Seq<u8> { varint(s.len() as u32) + fcat(s) }
spec fn vlist<T: VarEncodable>(s: Seq<T>) -> Seq<u8> { varint(s.len() as u32) + vcat(s) }
spec fn ulist<T: UniformEncodable>(s: Seq<T>) -> Seq<u8> { varint(s.len() as u32) + (seq![recsize(s) as u8] + ucat(s, recsize(s))) }

proof fn recsize_bounds<T: UniformEncodable>(s: Seq<T>)
    requires uall(s), s.len() > 0,
    ensures
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).umin() <= recsize(s),
        exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).umin() == recsize(s),
        1 <= recsize(s) <= T::MAX_SIZE <= 255,
    decreases s.len(),
{
    s.last().ulaw0();
    if s.len() > 1 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).uok() by { assert(d[i] == s[i]); }
        recsize_bounds(d);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).umin() <= recsize(s) by {
            if i < d.len() { assert(d[i] == s[i]); }
        }
        if s.last().umin() <= recsize(d) {
            let k = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).umin() == recsize(d);
            assert(s[k].umin() == recsize(s));
        } else {
            assert(s[s.len() - 1].umin() == recsize(s));
        }
    } else {
        assert(s[0].umin() == recsize(s));
    }
}
proof fn recsize_is<T: UniformEncodable>(s: Seq<T>, m: int)
    requires
        uall(s), s.len() > 0,
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).umin() <= m,
        exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).umin() == m,
    ensures recsize(s) == m,
{
    recsize_bounds(s);
    let k = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).umin() == m;
    let j = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).umin() == recsize(s);
    assert(s[k].umin() <= recsize(s));
    assert(s[j].umin() <= m);
}
proof fn fcat_at<T: FixedEncodable>(s: Seq<T>, i: int)
    requires fall(s),
    ensures
        fcat(s).len() == s.len() * T::SIZE,
        0 <= i < s.len() ==> i * T::SIZE + T::SIZE <= fcat(s).len() && has(fcat(s), i * T::SIZE, s[i].fenc()),
    decreases s.len(),
{
    let z = T::SIZE as int;
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).fok() by { assert(d[k] == s[k]); }
        fcat_at(d, i);
        assert(s.last() == s[s.len() - 1]);
        s.last().flaw();
        assert(s.len() * z == d.len() * z + z) by (nonlinear_arith) requires s.len() == d.len() + 1;
        if 0 <= i < s.len() {
            if i == s.len() - 1 {
                has_end(fcat(d), s.last().fenc());
                assert(i * z == d.len() * z) by (nonlinear_arith) requires i == d.len();
            } else {
                assert(d[i] == s[i]);
                has_append(fcat(d), i * z, s[i].fenc(), s.last().fenc());
                assert(i * z >= 0) by (nonlinear_arith) requires i >= 0, z >= 0;
            }
        }
    } else {
        assert(s.len() * z == 0) by (nonlinear_arith) requires s.len() == 0;
    }
}
proof fn ucat_at<T: UniformEncodable>(s: Seq<T>, z: int, i: int)
    requires uall(s), z <= T::MAX_SIZE, forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).umin() <= z,
    ensures
        ucat(s, z).len() == s.len() * z,
        0 <= i < s.len() ==> i * z + z <= ucat(s, z).len() && has(ucat(s, z), i * z, s[i].uenc(z)),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).uok() && d[k].umin() <= z by { assert(d[k] == s[k]); }
        ucat_at(d, z, i);
        assert(s.last() == s[s.len() - 1]);
        s.last().ulaw(z);
        assert(s.len() * z == d.len() * z + z) by (nonlinear_arith) requires s.len() == d.len() + 1;
        if 0 <= i < s.len() {
            if i == s.len() - 1 {
                has_end(ucat(d, z), s.last().uenc(z));
                assert(i * z == d.len() * z) by (nonlinear_arith) requires i == d.len();
            } else {
                assert(d[i] == s[i]);
                has_append(ucat(d, z), i * z, s[i].uenc(z), s.last().uenc(z));
                assert(i * z >= 0) by (nonlinear_arith) requires i >= 0, z >= 0;
            }
        }
    } else {
        assert(s.len() * z == 0) by (nonlinear_arith) requires s.len() == 0;
    }
}
== take impl Writer
== fn Writer::new
-- ret r
ensures r.data@.len() == 0,
== fn Writer::finish
-- ret r
ensures r@ == self.data@,
== fn Writer::write_var_scalar
-- ret r
requires s.ok(),
ensures r.addr == old(self).data@.len(), final(self).data@ == old(self).data@ + s.enc(),
== fn Writer::write_fixed_scalar
-- ret r
requires s.fok(),
ensures r.addr == old(self).data@.len(), final(self).data@ == old(self).data@ + s.fenc(),
== fn Writer::write_uniform_scalar_with_size
-- ret r
requires s.uok(), s.umin() <= size <= T::MAX_SIZE,
ensures r.addr == old(self).data@.len(), final(self).data@ == old(self).data@ + s.uenc(size as int),
== fn Writer::write_fixed_vec
-- ret r
requires fall(s@),
ensures
    r.addr == old(self).data@.len(),
    final(self).data@ == old(self).data@ + flist(s@),
-- loop 0 for iter=it
invariant
    fall(s@),
    it.seq() == s@.map_values(|x: T| &x),
    self.data@ == old(self).data@ + varint(s@.len() as u32) + fcat(s@.take(it.index@)),
-- loop 0 start
proof { assert(s@.take(it.index@ + 1).drop_last() =~= s@.take(it.index@)); }
-- tail
proof { assert(s@.take(s@.len() as int) =~= s@); assert(self.data@ =~= old(self).data@ + flist(s@)); }
== fn Writer::write_var_vec
-- ret r
requires vall(s@),
ensures
    r.addr == old(self).data@.len(),
    final(self).data@ == old(self).data@ + vlist(s@),
-- loop 0 for iter=it
invariant
    vall(s@),
    it.seq() == s@.map_values(|x: T| &x),
    self.data@ == old(self).data@ + varint(s@.len() as u32) + vcat(s@.take(it.index@)),
-- loop 0 start
proof { assert(s@.take(it.index@ + 1).drop_last() =~= s@.take(it.index@)); }
-- tail
proof { assert(s@.take(s@.len() as int) =~= s@); assert(self.data@ =~= old(self).data@ + vlist(s@)); }
== fn Writer::write_uniform_vec
-- ret r
requires uall(s@),
ensures
    r.addr == old(self).data@.len(),
    final(self).data@ == old(self).data@ + ulist(s@),
-- start
proof { if s@.len() > 0 { recsize_bounds(s@); } }
-- before debug_assert!
proof {
    if s@.len() > 0 {
        assert forall|i: int| 0 <= i < s@.len() implies (#[trigger] s@[i]).umin() <= rec_size by { assert(at(i)); }
        assert(exists|i: int| #[trigger] at(i) && 0 <= i < s@.len() && s@[i].umin() == rec_size);
        let k = choose|i: int| #[trigger] at(i) && 0 <= i < s@.len() && s@[i].umin() == rec_size;
        assert(s@[k].umin() == rec_size);
        recsize_is(s@, rec_size as int);
    }
}
-- loop 0 for iter=it
invariant
    uall(s@),
    rec_size == recsize(s@),
    s@.len() > 0 ==> rec_size <= T::MAX_SIZE,
    forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).umin() <= rec_size,
    it.seq() == s@.map_values(|x: T| &x),
    self.data@ == old(self).data@ + varint(s@.len() as u32) + seq![rec_size as u8] + ucat(s@.take(it.index@), rec_size as int),
-- loop 0 start
proof { assert(s@.take(it.index@ + 1).drop_last() =~= s@.take(it.index@)); }
-- tail
proof { assert(s@.take(s@.len() as int) =~= s@); assert(self.data@ =~= old(self).data@ + ulist(s@)); }
== take impl VarScalarOffset
== fn VarScalarOffset::new
-- ret r
ensures r.addr == addr,
== take impl FixedScalarOffset
== fn FixedScalarOffset::new
-- ret r
ensures r.addr == addr,
== take impl UniformScalarOffset
== fn UniformScalarOffset::new
-- ret r
ensures r.addr == addr,
== take impl FixedVecOffset
== fn FixedVecOffset::new
-- ret r
ensures r.addr == addr,
== fn FixedVecOffset::from_fixed_pointer
-- ret r
requires exists|x: u32| has(data@, offset as int, #[trigger] x.leb()),
ensures forall|x: u32| has(data@, offset as int, #[trigger] x.leb()) ==> r.addr == x,
-- start
broadcast use le4_inj;
proof { slice_len(data); }
== fn FixedVecOffset::from_var_pointer
-- ret r
requires exists|x: u32| has(data@, offset as int, #[trigger] varint(x)),
ensures forall|x: u32| has(data@, offset as int, #[trigger] varint(x)) ==> r.0.addr == x && r.1 == varint(x).len(),
-- start
proof {
    assert forall|x: u32| has(data@, offset as int, #[trigger] varint(x)) implies has(data@.subrange(offset as int, data@.len() as int), 0, varint(x)) && x.vi() == varint(x)
        by { has_skip(data@, offset as int, varint(x)); }
}
== take impl VarVecOffset
== fn VarVecOffset::new
-- ret r
ensures r.addr == addr,
== fn VarVecOffset::from_fixed_pointer
-- ret r
requires exists|x: u32| has(data@, offset as int, #[trigger] x.leb()),
ensures forall|x: u32| has(data@, offset as int, #[trigger] x.leb()) ==> r.addr == x,
-- start
broadcast use le4_inj;
proof { slice_len(data); }
== fn VarVecOffset::from_var_pointer
-- ret r
requires exists|x: u32| has(data@, offset as int, #[trigger] varint(x)),
ensures forall|x: u32| has(data@, offset as int, #[trigger] varint(x)) ==> r.0.addr == x && r.1 == varint(x).len(),
-- start
proof {
    assert forall|x: u32| has(data@, offset as int, #[trigger] varint(x)) implies has(data@.subrange(offset as int, data@.len() as int), 0, varint(x)) && x.vi() == varint(x)
        by { has_skip(data@, offset as int, varint(x)); }
}
== take impl UniformVecOffset
== fn UniformVecOffset::new
-- ret r
ensures r.addr == addr,
== fn UniformVecOffset::from_fixed_pointer
-- ret r
requires exists|x: u32| has(data@, offset as int, #[trigger] x.leb()),
ensures forall|x: u32| has(data@, offset as int, #[trigger] x.leb()) ==> r.addr == x,
-- start
broadcast use le4_inj;
proof { slice_len(data); }
== fn UniformVecOffset::from_var_pointer
-- ret r
requires exists|x: u32| has(data@, offset as int, #[trigger] varint(x)),
ensures forall|x: u32| has(data@, offset as int, #[trigger] varint(x)) ==> r.0.addr == x && r.1 == varint(x).len(),
-- start
proof {
    assert forall|x: u32| has(data@, offset as int, #[trigger] varint(x)) implies has(data@.subrange(offset as int, data@.len() as int), 0, varint(x)) && x.vi() == varint(x)
        by { has_skip(data@, offset as int, varint(x)); }
}

== take struct FixedVec
== text
impl<'a, T: FixedEncodable> FixedVec<'a, T> {
    /// the list this one reads as
    spec fn reps(&self, s: Seq<T>) -> bool {
        fall(s) && self.len == s.len() && has(self.data@, self.start as int, fcat(s))
    }
    spec fn ready(&self) -> bool { exists|s: Seq<T>| self.reps(s) }
    /// `z` is what stands at `k` in any list this one reads as
    spec fn is_at(&self, k: int, z: T) -> bool {
        forall|s: Seq<T>| #[trigger] self.reps(s) && 0 <= k < s.len() ==> z.fsame(&s[k])
    }
}
== take impl FixedVec
== fn FixedVec::new
-- ret r
requires exists|s: Seq<T>| fall(s) && has(data@, offset.addr as int, #[trigger] flist(s)),
ensures forall|s: Seq<T>| fall(s) && has(data@, offset.addr as int, #[trigger] flist(s)) ==> r.reps(s),
-- start
proof {
    slice_len(data);
    assert forall|s: Seq<T>| fall(s) && has(data@, offset.addr as int, #[trigger] flist(s)) implies
        has(data@.subrange(offset.addr as int, data@.len() as int), 0, (s.len() as u32).vi())
        && has(data@, offset.addr + varint(s.len() as u32).len(), fcat(s)) by {
        has_parts(data@, offset.addr as int, varint(s.len() as u32), fcat(s));
        has_skip(data@, offset.addr as int, varint(s.len() as u32));
    }
}
== fn FixedVec::get
-- ret r
requires self.ready(), pos < self.len,
ensures self.is_at(pos as int, r),
-- start
proof {
    slice_len(self.data);
    assert forall|s: Seq<T>| #[trigger] self.reps(s) implies s[pos as int].fok()
        && has(self.data@, self.start + pos * T::SIZE, s[pos as int].fenc())
        && 0 <= pos * T::SIZE <= 0x1000_0000_0000_0000 by {
        fcat_at(s, pos as int);
        s[pos as int].flaw();
        has_inner(self.data@, self.start as int, fcat(s), pos * T::SIZE, s[pos as int].fenc());
        assert(0 <= pos * T::SIZE <= 0x1_0000_0000 * 0x10_0000) by (nonlinear_arith) requires 0 <= pos < 0x1_0000_0000, 0 <= T::SIZE <= 0x10_0000;
    }
    let s0 = choose|s: Seq<T>| self.reps(s);
    assert(self.reps(s0));
}
== fn FixedVec::len
-- ret r
ensures r == self.len,
== fn FixedVec::iter
-- ret r
requires self.ready(),
ensures
    r.obeys_prophetic_iter_laws(),
    r.remaining().len() <= self.len,
    r.will_return_none() ==> r.remaining().len() == self.len,
    forall|k: int| 0 <= k < r.remaining().len() ==> self.is_at(k, #[trigger] r.remaining()[k]),
== fn FixedVec::into_iter
-- ret r
requires self.ready(),
ensures
    r.obeys_prophetic_iter_laws(),
    r.remaining().len() <= self.len,
    r.will_return_none() ==> r.remaining().len() == self.len,
    forall|k: int| 0 <= k < r.remaining().len() ==> self.is_at(k, #[trigger] r.remaining()[k]),

== take struct UniformVec
== text
proof fn has_inner(data: Seq<u8>, a: int, e: Seq<u8>, b: int, f: Seq<u8>)
    requires has(data, a, e), has(e, b, f),
    ensures has(data, a + b, f),
{
    assert(data.subrange(a + b, a + b + f.len()) =~= data.subrange(a, a + e.len()).subrange(b, b + f.len()));
}
impl<'a, T: UniformEncodable> UniformVec<'a, T> {
    spec fn reps(&self, s: Seq<T>) -> bool {
        uall(s) && self.len == s.len() && (s.len() > 0 ==> self.rec_size == recsize(s)) && has(self.data@, self.start as int, ucat(s, self.rec_size as int))
    }
    spec fn ready(&self) -> bool { exists|s: Seq<T>| self.reps(s) }
    spec fn is_at(&self, k: int, z: T) -> bool {
        forall|s: Seq<T>| #[trigger] self.reps(s) && 0 <= k < s.len() ==> z.usame(&s[k])
    }
}
== take impl UniformVec
== fn UniformVec::new
-- ret r
requires exists|s: Seq<T>| uall(s) && has(data@, offset.addr as int, #[trigger] ulist(s)),
ensures forall|s: Seq<T>| uall(s) && has(data@, offset.addr as int, #[trigger] ulist(s)) ==> r.reps(s),
-- start
proof {
    slice_len(data);
    assert forall|s: Seq<T>| uall(s) && has(data@, offset.addr as int, #[trigger] ulist(s)) implies
        has(data@.subrange(offset.addr as int, data@.len() as int), 0, (s.len() as u32).vi())
        && has(data@, offset.addr + varint(s.len() as u32).len(), seq![recsize(s) as u8])
        && data@[offset.addr + varint(s.len() as u32).len()] == recsize(s)
        && has(data@, offset.addr + varint(s.len() as u32).len() + 1, ucat(s, recsize(s)))
        && offset.addr + varint(s.len() as u32).len() + 1 <= data@.len() by {
        let v = varint(s.len() as u32);
        let b = seq![recsize(s) as u8];
        has_parts(data@, offset.addr as int, v, b + ucat(s, recsize(s)));
        has_parts(data@, offset.addr + v.len(), b, ucat(s, recsize(s)));
        has_skip(data@, offset.addr as int, v);
        if s.len() > 0 { recsize_bounds(s); }
        assert(data@.subrange(offset.addr + v.len(), offset.addr + v.len() + 1)[0] == b[0]);
    }
}
== fn UniformVec::get
-- ret r
requires self.ready(), pos < self.len,
ensures self.is_at(pos as int, r),
-- start
proof {
    slice_len(self.data);
    assert forall|s: Seq<T>| #[trigger] self.reps(s) implies s[pos as int].uok()
        && s[pos as int].umin() <= self.rec_size <= T::MAX_SIZE
        && has(self.data@, self.start + pos * self.rec_size, s[pos as int].uenc(self.rec_size as int))
        && 0 <= pos * self.rec_size <= 0x1_0000_0000 * 255 by {
        recsize_bounds(s);
        ucat_at(s, self.rec_size as int, pos as int);
        has_inner(self.data@, self.start as int, ucat(s, self.rec_size as int), pos * self.rec_size, s[pos as int].uenc(self.rec_size as int));
        assert(0 <= pos * self.rec_size <= 0x1_0000_0000 * 255) by (nonlinear_arith) requires 0 <= pos < 0x1_0000_0000, 0 <= self.rec_size <= 255;
    }
    let s0 = choose|s: Seq<T>| self.reps(s);
    assert(self.reps(s0));
}
== fn UniformVec::len
-- ret r
ensures r == self.len,
== fn UniformVec::iter
-- ret r
requires self.ready(),
ensures
    r.obeys_prophetic_iter_laws(),
    r.remaining().len() <= self.len,
    r.will_return_none() ==> r.remaining().len() == self.len,
    forall|k: int| 0 <= k < r.remaining().len() ==> self.is_at(k, #[trigger] r.remaining()[k]),
== fn UniformVec::into_iter
-- ret r
requires self.ready(),
ensures
    r.obeys_prophetic_iter_laws(),
    r.remaining().len() <= self.len,
    r.will_return_none() ==> r.remaining().len() == self.len,
    forall|k: int| 0 <= k < r.remaining().len() ==> self.is_at(k, #[trigger] r.remaining()[k]),

== take struct RelevScore
== take struct Coord
== take struct PhraseRecord
== text
proof fn le_len(x: u32)
    ensures x.leb().len() == 4,
{
}
/// the leading zero bytes of an address can be left out
proof fn le_short(x: u32, k: int)
    requires 1 <= k <= 4, k < 2 ==> x <= 255, k < 3 ==> x <= 65535, k < 4 ==> x <= 16777215,
    ensures
        x.leb().len() == 4,
        forall|i: int| k <= i < 4 ==> #[trigger] x.leb()[i] == 0,
{
    assert(x <= 255 ==> (x >> 8) & 0xff == 0) by (bit_vector);
    assert(x <= 65535 ==> (x >> 16) & 0xff == 0) by (bit_vector);
    assert(x <= 16777215 ==> (x >> 24) & 0xff == 0) by (bit_vector);
    assert(x <= 255 ==> x <= 65535 && x <= 16777215);
}
== take impl VarEncodable for RelevScore
    spec fn ok(&self) -> bool { self.coords.addr <= u32::MAX }
    spec fn enc(&self) -> Seq<u8> { seq![self.relev_score] + varint(self.coords.addr as u32) }
    spec fn same(&self, o: &Self) -> bool { self.relev_score == o.relev_score && self.coords.addr == o.coords.addr }
    proof fn vlaw(&self) { varint_len(self.coords.addr as u32); }
== fn VarEncodable for RelevScore::write_to
-- ret r
-- tail
proof { assert(buffer@ =~= old(buffer)@ + self.enc()); }
== fn VarEncodable for RelevScore::read_from
-- ret r
-- start
proof {
    assert forall|x: Self| x.ok() && has(buffer@, offset.addr as int, #[trigger] x.enc()) implies
        has(buffer@, offset.addr + 1, varint(x.coords.addr as u32)) && buffer@[offset.addr as int] == x.relev_score
        && offset.addr + 1 <= buffer@.len() by {
        has_parts(buffer@, offset.addr as int, seq![x.relev_score], varint(x.coords.addr as u32));
        assert(buffer@.subrange(offset.addr as int, offset.addr + 1)[0] == seq![x.relev_score][0]);
    }
}
== take impl UniformEncodable for Coord
    spec fn uok(&self) -> bool { self.ids.addr <= u32::MAX }
    spec fn uenc(&self, size: int) -> Seq<u8> { self.coord.leb() + (self.ids.addr as u32).leb().subrange(0, size - 4) }
    spec fn usame(&self, o: &Self) -> bool { self.coord == o.coord && self.ids.addr == o.ids.addr }
    spec fn umin(&self) -> int {
        if self.ids.addr <= 255 { 5 } else if self.ids.addr <= 65535 { 6 } else if self.ids.addr <= 16777215 { 7 } else { 8 }
    }
    proof fn ulaw(&self, size: int) { assert(<Coord as UniformEncodable>::MAX_SIZE == 8); le_len(self.coord); le_len(self.ids.addr as u32); }
    proof fn ulaw0(&self) { assert(<Coord as UniformEncodable>::MAX_SIZE == 8); }
== fn UniformEncodable for Coord::get_min_size
-- ret r
== fn UniformEncodable for Coord::write_with_size_to
-- start
proof { assert(<Coord as UniformEncodable>::MAX_SIZE == 8); le_len(self.coord); le_len(self.ids.addr as u32); }
-- end
proof { assert(buffer@ =~= old(buffer)@ + self.uenc(size as int)); }
== fn UniformEncodable for Coord::read_with_size_from
-- ret r
-- start
broadcast use le4_inj;
proof { slice_len(buffer); }
proof {
    assert forall|x: Self| x.uok() && x.umin() <= size <= Self::MAX_SIZE && has(buffer@, offset.addr as int, #[trigger] x.uenc(size as int)) implies
        has(buffer@, offset.addr as int, x.coord.leb())
        && offset.addr + size <= buffer@.len()
        && buffer@.subrange(offset.addr as int, offset.addr + 4) == x.coord.leb()
        && buffer@.subrange(offset.addr + 4, offset.addr + size) == (x.ids.addr as u32).leb().subrange(0, size - 4) by {
        le_len(x.coord);
        le_len(x.ids.addr as u32);
        has_parts(buffer@, offset.addr as int, x.coord.leb(), (x.ids.addr as u32).leb().subrange(0, size - 4));
    }
}
-- before ptr_buf\[
let ghost p0 = ptr_buf@;
proof { assert(ptr_buf == vstd::array::spec_array_fill_for_copy_type::<u8, 4>(0u8)); vstd::array::axiom_spec_array_fill_for_copy_type::<u8, 4>(0u8); assert(p0[0] == 0u8); assert(p0[1] == 0u8); assert(p0[2] == 0u8); assert(p0[3] == 0u8); }
-- before let ptr =
proof {
    assert forall|x: Self| x.uok() && x.umin() <= size <= Self::MAX_SIZE && has(buffer@, offset.addr as int, #[trigger] x.uenc(size as int)) implies
        ptr_buf@ == (x.ids.addr as u32).leb() by {
        le_short(x.ids.addr as u32, size - 4);
        let a = (x.ids.addr as u32).leb();
        let b = buffer@.subrange(offset.addr + 4, offset.addr + size);
        assert(b == a.subrange(0, size - 4));
        assert forall|i: int| 0 <= i < 4 implies #[trigger] ptr_buf@[i] == a[i] by {
            if i < size - 4 { assert(b[i] == a.subrange(0, size - 4)[i]); let q = ptr_buf@.subrange(0, size - 4); assert(q.len() == size - 4); assert(cloned(b[i], q[i])); assert(q[i] == ptr_buf@[i]); assert(b[i] == q[i]); } else { assert(a[i] == 0u8); assert(ptr_buf@.subrange(size - 4, 4) =~= p0.subrange(size - 4, 4)); assert(ptr_buf@[i] == ptr_buf@.subrange(size - 4, 4)[i - (size - 4)]); assert(p0.subrange(size - 4, 4)[i - (size - 4)] == p0[i]); assert(p0[i] == 0u8); }
        }
        assert(ptr_buf@ =~= a);
        le_len(x.ids.addr as u32);
    }
}
== take impl FixedEncodable for u32
    spec fn fok(&self) -> bool { true }
    spec fn fenc(&self) -> Seq<u8> { self.leb() }
    spec fn fsame(&self, o: &Self) -> bool { *self == *o }
    proof fn flaw(&self) { assert(<u32 as FixedEncodable>::SIZE == 4); le_len(*self); }
== fn FixedEncodable for u32::write_fixed_to
== fn FixedEncodable for u32::read_fixed_from
-- ret r
-- start
broadcast use le4_inj;
proof { slice_len(buffer); }
== take impl FixedEncodable for PhraseRecord
    spec fn fok(&self) -> bool { self.relev_scores.addr <= u32::MAX }
    spec fn fenc(&self) -> Seq<u8> { (self.relev_scores.addr as u32).leb() }
    spec fn fsame(&self, o: &Self) -> bool { self.relev_scores.addr == o.relev_scores.addr }
    proof fn flaw(&self) { le_len(self.relev_scores.addr as u32); assert(<PhraseRecord as FixedEncodable>::SIZE == 4); }
== fn FixedEncodable for PhraseRecord::write_fixed_to
== fn FixedEncodable for PhraseRecord::read_fixed_from
-- ret r

== take struct VarVec
== text
proof fn vcat_len<T: VarEncodable>(s: Seq<T>, k: int)
    requires vall(s), 0 <= k <= s.len(),
    ensures
        vcat(s.take(k)).len() <= vcat(s).len(),
        vcat(s.take(k)).len() <= k * 0x10_0000,
        k < s.len() ==> has(vcat(s), vcat(s.take(k)).len() as int, s[k].enc())
            && vcat(s.take(k + 1)).len() == vcat(s.take(k)).len() + s[k].enc().len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).ok() by { assert(d[i] == s[i]); }
        assert(s.last() == s[s.len() - 1]);
        s.last().vlaw();
        vcat_len(d, d.len() as int);
        assert(d.take(d.len() as int) =~= d);
        assert(s.take(s.len() as int) =~= s);
        assert(d.len() * 0x10_0000 + 0x10_0000 == s.len() * 0x10_0000) by (nonlinear_arith) requires s.len() == d.len() + 1;
        if k < s.len() {
            vcat_len(d, k);
            assert(d.take(k) =~= s.take(k));
            if k < d.len() {
                assert(d.take(k + 1) =~= s.take(k + 1));
                assert(d[k] == s[k]);
                has_append(vcat(d), vcat(s.take(k)).len() as int, s[k].enc(), s.last().enc());
            } else {
                has_end(vcat(d), s.last().enc());
                assert(s.take(k) =~= d);
                assert(s.take(k + 1) =~= s);
            }
        }
    } else {
        assert(s.take(k) =~= s);
    }
}
impl<'a, T: VarEncodable> VarVec<'a, T> {
    spec fn reps(&self, s: Seq<T>) -> bool {
        vall(s) && self.len == s.len() && has(self.data@, self.start as int, vcat(s))
    }
}
== take impl VarVec | new len
== fn VarVec::new
-- ret r
requires exists|s: Seq<T>| vall(s) && has(data@, offset.addr as int, #[trigger] vlist(s)),
ensures forall|s: Seq<T>| vall(s) && has(data@, offset.addr as int, #[trigger] vlist(s)) ==> r.reps(s),
-- start
proof {
    slice_len(data);
    assert forall|s: Seq<T>| vall(s) && has(data@, offset.addr as int, #[trigger] vlist(s)) implies
        has(data@.subrange(offset.addr as int, data@.len() as int), 0, (s.len() as u32).vi())
        && has(data@, offset.addr + varint(s.len() as u32).len(), vcat(s)) by {
        has_parts(data@, offset.addr as int, varint(s.len() as u32), vcat(s));
        has_skip(data@, offset.addr as int, varint(s.len() as u32));
    }
}
== fn VarVec::len
-- ret r
ensures r == self.len,
== lift VarVec::iter VarVec::into_iter
from_fn(move || {BODY})
=>
impl<'a, T: VarEncodable> VarVec<'a, T> {
fn NAME(&self, loc: &mut usize, i: &mut usize, s: Ghost<Seq<T>>) -> (r: Option<T>)
    requires
        self.reps(s@), *old(i) <= s@.len(), *old(loc) == self.start + vcat(s@.take(*old(i) as int)).len(),
    ensures
        match r {
            None => *old(i) == s@.len() && *final(i) == *old(i),
            Some(x) => *old(i) < s@.len() && x.same(&s@[*old(i) as int]) && *final(i) == *old(i) + 1,
        },
        *final(loc) == self.start + vcat(s@.take(*final(i) as int)).len(),
{
    proof {
        slice_len(self.data);
        vcat_len(s@, *i as int);
        if *i < s@.len() {
            has_inner(self.data@, self.start as int, vcat(s@), vcat(s@.take(*i as int)).len() as int, s@[*i as int].enc());
            vcat_len(s@, *i + 1);
        }
    }
    BODY
}
fn NAME_start(&self, s: Ghost<Seq<T>>) -> (r: (usize, usize))
    requires self.reps(s@),
    ensures r.1 == 0, r.0 == self.start + vcat(s@.take(0)).len(),
{
    PRE
    (loc, i)
}
}
-- vars loc i
== take struct Reader
== take impl Reader
== fn Reader::new
-- ret r
ensures r.data == data,
== fn Reader::read_fixed_scalar
-- ret r
requires exists|x: T| x.fok() && has(self.data.bytes(), offset.addr as int, #[trigger] x.fenc()),
ensures forall|x: T| x.fok() && has(self.data.bytes(), offset.addr as int, #[trigger] x.fenc()) ==> r.fsame(&x),
== fn Reader::read_var_scalar
-- ret r
requires exists|x: T| x.ok() && has(self.data.bytes(), offset.addr as int, #[trigger] x.enc()),
ensures forall|x: T| x.ok() && has(self.data.bytes(), offset.addr as int, #[trigger] x.enc()) ==> r.0.same(&x) && r.1 == x.enc().len(),
== fn Reader::read_uniform_scalar
-- ret r
requires exists|x: T| x.uok() && x.umin() <= size <= T::MAX_SIZE && has(self.data.bytes(), offset.addr as int, #[trigger] x.uenc(size as int)),
ensures forall|x: T| x.uok() && x.umin() <= size <= T::MAX_SIZE && has(self.data.bytes(), offset.addr as int, #[trigger] x.uenc(size as int)) ==> r.usame(&x),
== fn Reader::read_fixed_vec
-- ret r
requires exists|s: Seq<T>| fall(s) && has(self.data.bytes(), offset.addr as int, #[trigger] flist(s)),
ensures forall|s: Seq<T>| fall(s) && has(self.data.bytes(), offset.addr as int, #[trigger] flist(s)) ==> r.reps(s),
== fn Reader::read_var_vec
-- ret r
requires exists|s: Seq<T>| vall(s) && has(self.data.bytes(), offset.addr as int, #[trigger] vlist(s)),
ensures forall|s: Seq<T>| vall(s) && has(self.data.bytes(), offset.addr as int, #[trigger] vlist(s)) ==> r.reps(s),
== fn Reader::read_uniform_vec
-- ret r
requires exists|s: Seq<T>| uall(s) && has(self.data.bytes(), offset.addr as int, #[trigger] ulist(s)),
ensures forall|s: Seq<T>| uall(s) && has(self.data.bytes(), offset.addr as int, #[trigger] ulist(s)) ==> r.reps(s),
== fn Reader::read_root
-- ret r
requires exists|x: T| x.fok() && has(self.data.bytes(), self.data.bytes().len() - T::SIZE, #[trigger] x.fenc()),
ensures forall|x: T| x.fok() && has(self.data.bytes(), self.data.bytes().len() - T::SIZE, #[trigger] x.fenc()) ==> r.fsame(&x),
== take fn read_fixed_vec_raw
== fn read_fixed_vec_raw
-- ret r
requires exists|s: Seq<T>| fall(s) && has(buffer@, offset.addr as int, #[trigger] flist(s)),
ensures forall|s: Seq<T>| fall(s) && has(buffer@, offset.addr as int, #[trigger] flist(s)) ==> r.reps(s),
== take fn read_var_vec_raw
== fn read_var_vec_raw
-- ret r
requires exists|s: Seq<T>| vall(s) && has(buffer@, offset.addr as int, #[trigger] vlist(s)),
ensures forall|s: Seq<T>| vall(s) && has(buffer@, offset.addr as int, #[trigger] vlist(s)) ==> r.reps(s),
== take fn read_uniform_vec_raw
== fn read_uniform_vec_raw
-- ret r
requires exists|s: Seq<T>| uall(s) && has(buffer@, offset.addr as int, #[trigger] ulist(s)),
ensures forall|s: Seq<T>| uall(s) && has(buffer@, offset.addr as int, #[trigger] ulist(s)) ==> r.reps(s),
== take fn read_phrase_record_from
== fn read_phrase_record_from
-- ret r
requires exists|x: PhraseRecord| x.fok() && has(reader.data.bytes(), reader.data.bytes().len() - 4, #[trigger] x.fenc()),
ensures forall|x: PhraseRecord| x.fok() && has(reader.data.bytes(), reader.data.bytes().len() - 4, #[trigger] x.fenc()) ==> r.fsame(&x),
== text
/// a record: at its end the address of a list of groups; each group a list of coordinates; each with its list of ids
spec fn holds(d: Seq<u8>, root: PhraseRecord, rs: Seq<RelevScore>, cs: Seq<Seq<Coord>>, ids: Seq<Seq<Seq<u32>>>) -> bool {
    &&& root.fok() && has(d, d.len() - 4, root.fenc())
    &&& vall(rs) && has(d, root.relev_scores.addr as int, vlist(rs))
    &&& cs.len() == rs.len() && ids.len() == rs.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> uall(#[trigger] cs[i]) && has(d, rs[i].coords.addr as int, ulist(cs[i])) && ids[i].len() == cs[i].len()
    &&& forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < cs[i].len() ==> fall(#[trigger] ids[i][j]) && has(d, cs[i][j].ids.addr as int, flist(ids[i][j]))
}
== client record
// ---- the property: what a writer has written, a reader reads, wherever it lies -----------------------
/// a client that reads one id: every value comes back as written
fn read_back<U: AsBytes>(reader: &Reader<U>, a: usize, b: usize, c: usize,
    Ghost(root): Ghost<PhraseRecord>, Ghost(rs): Ghost<Seq<RelevScore>>, Ghost(cs): Ghost<Seq<Seq<Coord>>>, Ghost(ids): Ghost<Seq<Seq<Seq<u32>>>>,
    rel: RelevScore) -> (r: (u32, u32))
    requires
        holds(reader.data.bytes(), root, rs, cs, ids),
        a < rs.len(), b < cs[a as int].len(), c < ids[a as int][b as int].len(),
        rel.same(&rs[a as int]),
    ensures
        r.0 == cs[a as int][b as int].coord,
        r.1 == ids[a as int][b as int][c as int],
{
    let record = read_phrase_record_from(reader);
    assert(record.fsame(&root));
    let list = reader.read_var_vec(record.relev_scores);
    assert(list.reps(rs));
    proof { assert(rs[a as int].ok()); assert(has(reader.data.bytes(), rs[a as int].coords.addr as int, ulist(cs[a as int]))); }
    let coords = reader.read_uniform_vec(rel.coords);
    assert(coords.reps(cs[a as int]));
    let coord = coords.get(b);
    assert(coord.usame(&cs[a as int][b as int]));
    proof { assert(has(reader.data.bytes(), cs[a as int][b as int].ids.addr as int, flist(ids[a as int][b as int]))); }
    let l = reader.read_fixed_vec(coord.ids);
    assert(l.reps(ids[a as int][b as int]));
    (coord.coord, l.get(c))
}
