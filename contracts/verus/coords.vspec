# a list of coordinates as the sequence it reads as
== text
/// a PhantomData has one value only
#[verifier::external_body]
proof fn phantom_one<T>(a: PhantomData<T>, b: PhantomData<T>)
    ensures a == b
{}
broadcast proof fn coord_same(a: Coord, b: Coord)
    requires #[trigger] a.usame(&b),
    ensures a == b,
{
    phantom_one(a.ids.phantom, b.ids.phantom);
}
proof fn coord_inj(a: Coord, b: Coord, n: int)
    requires a.uok(), b.uok(), a.umin() <= n <= 8, b.umin() <= n, a.uenc(n) == b.uenc(n),
    ensures a == b,
{
    let (x, y) = (a.ids.addr as u32, b.ids.addr as u32);
    le_len(a.coord); le_len(b.coord); le_len(x); le_len(y);
    assert(a.coord.leb() =~= a.uenc(n).subrange(0, 4));
    assert(b.coord.leb() =~= b.uenc(n).subrange(0, 4));
    le4_inj(a.coord, b.coord);
    assert(x.leb().subrange(0, n - 4) =~= a.uenc(n).subrange(4, n));
    assert(y.leb().subrange(0, n - 4) =~= b.uenc(n).subrange(4, n));
    le_short(x, n - 4); le_short(y, n - 4);
    assert forall|i: int| 0 <= i < 4 implies x.leb()[i] == y.leb()[i] by {
        if i < n - 4 { assert(x.leb()[i] == x.leb().subrange(0, n - 4)[i]); assert(y.leb()[i] == y.leb().subrange(0, n - 4)[i]); }
    }
    assert(x.leb() =~= y.leb());
    le4_inj(x, y);
    phantom_one(a.ids.phantom, b.ids.phantom);
}
/// the bytes determine the list
proof fn ucat_one(d: Seq<u8>, at: int, s: Seq<Coord>, t: Seq<Coord>, n: int)
    requires uall(s), uall(t), s.len() == t.len(), s.len() > 0 ==> n == recsize(s) && n == recsize(t), has(d, at, ucat(s, n)), has(d, at, ucat(t, n)),
    ensures s == t,
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by {
        recsize_bounds(s); recsize_bounds(t);
        assert(<Coord as UniformEncodable>::MAX_SIZE == 8);
        ucat_at(s, n, i); ucat_at(t, n, i);
        has_inner(d, at, ucat(s, n), i * n, s[i].uenc(n));
        has_inner(d, at, ucat(t, n), i * n, t[i].uenc(n));
        s[i].ulaw(n); t[i].ulaw(n);
        coord_inj(s[i], t[i], n);
    }
    assert(s =~= t);
}
proof fn coords_one(v: UniformVec<Coord>, s: Seq<Coord>, t: Seq<Coord>)
    requires v.reps(s), v.reps(t),
    ensures s == t,
{
    ucat_one(v.data@, v.start as int, s, t, v.rec_size as int);
}
impl<'a> UniformVec<'a, Coord> {
    spec fn seq(&self) -> Seq<Coord> { choose|s: Seq<Coord>| self.reps(s) }
}
broadcast proof fn coords_seq(v: UniformVec<Coord>, s: Seq<Coord>)
    requires #[trigger] v.reps(s),
    ensures v.seq() == s,
{
    assert(v.reps(v.seq()));
    coords_one(v, s, v.seq());
}
broadcast proof fn coords_ready(v: UniformVec<Coord>)
    requires #[trigger] v.ready(),
    ensures v.reps(v.seq()), v.seq().len() == v.len, v.seq().len() <= 0xffff_ffff,
{
}
broadcast group co { coord_same, coords_ready }
