# iterators of iterators: what comes out as a multiset, and its order
== import iters
== prelude
use vstd::multiset::Multiset;
/// the sum of what each element stands for
spec fn bag<A, B>(s: Seq<A>, f: spec_fn(A) -> Multiset<B>) -> Multiset<B>
    decreases s.len(),
{
    if s.len() == 0 { Multiset::empty() } else { bag(s.drop_last(), f).add(f(s.last())) }
}
spec fn joined<B>(ss: Seq<It<B>>) -> Seq<B>
    decreases ss.len(),
{
    if ss.len() == 0 { Seq::empty() } else { joined(ss.drop_last()) + ss.last().seq() }
}
/// in order of non-increasing rank
spec fn falls<A>(s: Seq<A>, rank: spec_fn(A) -> real) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> rank(#[trigger] s[i]) >= rank(#[trigger] s[j])
}
spec fn all<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
proof fn ms_add<A>(a: Seq<A>, b: Seq<A>)
    ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset()),
    decreases b.len(),
{
    b.to_multiset_ensures();
    if b.len() == 0 {
        assert(a + b =~= a);
        assert((a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    } else {
        ms_add(a, b.drop_last());
        b.drop_last().to_multiset_ensures();
        (a + b.drop_last()).to_multiset_ensures();
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        assert(b =~= b.drop_last().push(b.last()));
        assert((a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    }
}
proof fn ms_one<A>(x: A)
    ensures seq![x].to_multiset() == Multiset::<A>::empty().insert(x),
{
    let e = Seq::<A>::empty();
    e.to_multiset_ensures();
    assert(seq![x] =~= e.push(x));
    assert(e.to_multiset() =~= Multiset::<A>::empty());
}
proof fn ms_has<A>(s: Seq<A>)
    ensures forall|x: A| #[trigger] s.to_multiset().count(x) > 0 <==> s.contains(x),
{
    s.to_multiset_ensures();
    assert forall|x: A| #[trigger] s.to_multiset().count(x) > 0 <==> s.contains(x) by { assert(s.to_multiset().contains(x) <==> s.contains(x)); }
}
/// a rearrangement has the same elements
proof fn moved<A>(a: Seq<A>, b: Seq<A>)
    requires a.to_multiset() == b.to_multiset(),
    ensures
        forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]),
        forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
        a.no_duplicates() ==> b.no_duplicates(),
{
    ms_has(a); ms_has(b);
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); }
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); }
    if a.no_duplicates() { a.lemma_multiset_has_no_duplicates(); b.lemma_multiset_has_no_duplicates_conv(); }
}
proof fn bag_add<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> Multiset<B>)
    ensures bag(a + b, f) == bag(a, f).add(bag(b, f)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(bag(a + b, f) =~= bag(a, f).add(bag(b, f)));
    } else {
        bag_add(a, b.drop_last(), f);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(bag(a + b, f) =~= bag(a, f).add(bag(b, f)));
    }
}
proof fn bag_one<A, B>(x: A, f: spec_fn(A) -> Multiset<B>)
    ensures bag(seq![x], f) == f(x),
{
    assert(seq![x].drop_last() =~= Seq::<A>::empty());
    assert(bag(Seq::<A>::empty(), f) =~= Multiset::<B>::empty());
    assert(bag(seq![x], f) =~= f(x));
}
/// the order of the elements does not matter
proof fn bag_any_order<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> Multiset<B>)
    requires a.to_multiset() == b.to_multiset(),
    ensures bag(a, f) == bag(b, f),
    decreases a.len(),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    if a.len() == 0 {
        assert(b =~= a);
    } else {
        let x = a.last();
        ms_has(a); ms_has(b);
        assert(a.contains(x));
        assert(a.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let k = b.index_of(x);
        let (p, q) = (b.take(k), b.skip(k + 1));
        assert(b =~= p + seq![x] + q);
        ms_add(p + seq![x], q); ms_add(p, seq![x]); ms_add(p, q); ms_one(x);
        ms_add(a.drop_last(), seq![x]);
        assert(a =~= a.drop_last() + seq![x]);
        let am = a.drop_last().to_multiset();
        let bm = (p + q).to_multiset();
        assert(a.to_multiset() == am.add(seq![x].to_multiset()));
        assert(am.insert(x) =~= a.to_multiset());
        assert(b.to_multiset() == p.to_multiset().add(seq![x].to_multiset()).add(q.to_multiset()));
        assert(bm.insert(x) =~= b.to_multiset());
        assert forall|y: A| am.count(y) == bm.count(y) by { assert(am.insert(x).count(y) == bm.insert(x).count(y)); }
        assert(am =~= bm);
        bag_any_order(a.drop_last(), p + q, f);
        bag_add(p + seq![x], q, f); bag_add(p, seq![x], f); bag_add(p, q, f); bag_one(x, f);
        assert(bag(a, f) =~= bag(b, f));
    }
}
/// element by element the same
proof fn bag_alike<A, C, B>(a: Seq<A>, c: Seq<C>, f: spec_fn(A) -> Multiset<B>, g: spec_fn(C) -> Multiset<B>)
    requires a.len() == c.len(), forall|i: int| 0 <= i < a.len() ==> f(#[trigger] a[i]) == g(c[i]),
    ensures bag(a, f) == bag(c, g),
    decreases a.len(),
{
    if a.len() > 0 {
        let (p, q) = (a.drop_last(), c.drop_last());
        assert forall|i: int| 0 <= i < p.len() implies f(#[trigger] p[i]) == g(q[i]) by { assert(f(a[i]) == g(c[i])); }
        bag_alike(p, q, f, g);
        assert(f(a[a.len() - 1]) == g(c[a.len() - 1]));
    }
}
/// elements one by one
proof fn bag_each<A, B>(a: Seq<A>, g: spec_fn(A) -> B)
    ensures a.map_values(g).to_multiset() == bag(a, |x: A| Multiset::<B>::empty().insert(g(x))),
    decreases a.len(),
{
    let f = |x: A| Multiset::<B>::empty().insert(g(x));
    let m = a.map_values(g);
    m.to_multiset_ensures();
    if a.len() > 0 {
        bag_each(a.drop_last(), g);
        assert(m.drop_last() =~= a.drop_last().map_values(g));
        m.drop_last().to_multiset_ensures();
        assert(m =~= m.drop_last().push(m.last()));
        assert(m.to_multiset() =~= bag(a, f));
    } else {
        assert(m.to_multiset() =~= bag(a, f));
    }
}
proof fn joined_bag<T, B, R>(src: Seq<T>, ss: Seq<It<B>>, read: spec_fn(B) -> R, h: spec_fn(T) -> Multiset<R>)
    requires src.len() == ss.len(), forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).seq().map_values(read).to_multiset() == h(src[k]),
    ensures joined(ss).map_values(read).to_multiset() == bag(src, h),
    decreases ss.len(),
{
    if ss.len() == 0 {
        assert(joined(ss).map_values(read) =~= Seq::<R>::empty());
        Seq::<R>::empty().to_multiset_ensures();
        assert(joined(ss).map_values(read).to_multiset() =~= bag(src, h));
    } else {
        let (p, q) = (ss.drop_last(), src.drop_last());
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).seq().map_values(read).to_multiset() == h(q[k]) by { assert(ss[k].seq().map_values(read).to_multiset() == h(src[k])); }
        joined_bag(q, p, read, h);
        let (a, b) = (joined(p).map_values(read), ss.last().seq().map_values(read));
        assert(joined(ss).map_values(read) =~= a + b);
        ms_add(a, b);
        assert(ss[ss.len() - 1].seq().map_values(read).to_multiset() == h(src[ss.len() - 1]));
    }
}
proof fn joined_all<B>(ss: Seq<It<B>>, p: spec_fn(B) -> bool)
    requires forall|k: int| 0 <= k < ss.len() ==> all((#[trigger] ss[k]).seq(), p),
    ensures all(joined(ss), p),
    decreases ss.len(),
{
    if ss.len() > 0 {
        let q = ss.drop_last();
        assert forall|k: int| 0 <= k < q.len() implies all((#[trigger] q[k]).seq(), p) by { assert(all(ss[k].seq(), p)); }
        joined_all(q, p);
        assert(all(ss[ss.len() - 1].seq(), p));
    }
}
/// parts of one rank each, in order
proof fn joined_falls<T, B>(src: Seq<T>, ss: Seq<It<B>>, rank: spec_fn(B) -> real, trank: spec_fn(T) -> real)
    requires
        src.len() == ss.len(), falls(src, trank),
        forall|k: int, i: int| 0 <= k < ss.len() && 0 <= i < ss[k].seq().len() ==> rank(#[trigger] ss[k].seq()[i]) == trank(src[k]),
    ensures falls(joined(ss), rank), forall|i: int| 0 <= i < joined(ss).len() ==> rank(#[trigger] joined(ss)[i]) >= trank(src.last()),
    decreases ss.len(),
{
    if ss.len() > 0 {
        let (p, q) = (ss.drop_last(), src.drop_last());
        assert forall|k: int, i: int| 0 <= k < p.len() && 0 <= i < p[k].seq().len() implies rank(#[trigger] p[k].seq()[i]) == trank(q[k]) by { assert(rank(ss[k].seq()[i]) == trank(src[k])); }
        assert(falls(q, trank)) by { assert forall|i: int, j: int| 0 <= i <= j < q.len() implies trank(#[trigger] q[i]) >= trank(#[trigger] q[j]) by { assert(trank(src[i]) >= trank(src[j])); } }
        joined_falls(q, p, rank, trank);
        let (a, b) = (joined(p), ss.last().seq());
        assert forall|i: int| 0 <= i < a.len() implies rank(#[trigger] a[i]) >= trank(src.last()) by {
            assert(p.len() > 0);
            assert(trank(src[src.len() - 2]) >= trank(src[src.len() - 1]));
        }
        assert forall|i: int| 0 <= i < b.len() implies rank(#[trigger] b[i]) == trank(src.last()) by { assert(rank(ss[ss.len() - 1].seq()[i]) == trank(src[ss.len() - 1])); }
    }
}
impl<T> It<T> {
    /// Iterator::flat_map
    #[verifier::external_body]
    fn flat_map_r<B, F: Fn(T) -> It<B>>(self, f: F) -> (r: It<B>)
        requires forall|k: int| 0 <= k < self.seq().len() ==> f.requires((#[trigger] self.seq()[k],)),
        ensures exists|ss: Seq<It<B>>| ss.len() == self.seq().len() && r.seq() == #[trigger] joined(ss) && forall|k: int| 0 <= k < ss.len() ==> f.ensures((self.seq()[k],), #[trigger] ss[k]),
    { unimplemented!() }
    /// None.into_iter()
    #[verifier::external_body]
    fn none() -> (r: It<T>)
        ensures r.seq().len() == 0,
    { unimplemented!() }
    /// Vec::into_iter
    #[verifier::external_body]
    fn of(v: Vec<T>) -> (r: It<T>)
        ensures r.seq() == v@,
    { unimplemented!() }
    /// the elements `f` makes, as a multiset of readings, and in order of rank if the elements are
    fn flat_map_bag<B, R, F: Fn(T) -> It<B>>(self, read: Ghost<spec_fn(B) -> R>, h: Ghost<spec_fn(T) -> Multiset<R>>, rank: Ghost<spec_fn(B) -> real>, trank: Ghost<spec_fn(T) -> real>, p: Ghost<spec_fn(B) -> bool>, f: F) -> (r: It<B>)
        requires
            forall|k: int| 0 <= k < self.seq().len() ==> f.requires((#[trigger] self.seq()[k],)),
            forall|t: T, o: It<B>| #[trigger] f.ensures((t,), o) ==> o.seq().map_values(read@).to_multiset() == h@(t) && (forall|i: int| 0 <= i < o.seq().len() ==> rank@(#[trigger] o.seq()[i]) == trank@(t)) && all(o.seq(), p@),
        ensures
            r.seq().map_values(read@).to_multiset() == bag(self.seq(), h@),
            falls(self.seq(), trank@) ==> falls(r.seq(), rank@),
            all(r.seq(), p@),
    {
        let ghost src = self.seq();
        let r = self.flat_map_r(f);
        proof {
            let ss = choose|ss: Seq<It<B>>| ss.len() == src.len() && r.seq() == #[trigger] joined(ss) && forall|k: int| 0 <= k < ss.len() ==> f.ensures((src[k],), #[trigger] ss[k]);
            joined_bag(src, ss, read@, h@);
            joined_all(ss, p@);
            if falls(src, trank@) { joined_falls(src, ss, rank@, trank@); }
        }
        r
    }
}
impl<B> It<It<B>> {
    /// Itertools::kmerge_by, with a predicate that says whether the first is of greater rank
    #[verifier::external_body]
    fn kmerge_by_<F: Fn(&B, &B) -> bool>(self, rank: Ghost<spec_fn(B) -> real>, p: Ghost<spec_fn(B) -> bool>, f: F) -> (r: It<B>)
        requires
            forall|k: int| 0 <= k < self.seq().len() ==> all((#[trigger] self.seq()[k]).seq(), p@),
            forall|a: B, b: B| p@(a) && p@(b) ==> #[trigger] f.requires((&a, &b)),
            forall|a: B, b: B, o: bool| p@(a) && p@(b) && #[trigger] f.ensures((&a, &b), o) ==> o == (rank@(a) > rank@(b)),
        ensures
            r.seq().to_multiset() == joined(self.seq()).to_multiset(),
            (forall|k: int| 0 <= k < self.seq().len() ==> falls((#[trigger] self.seq()[k]).seq(), rank@)) ==> falls(r.seq(), rank@),
    { unimplemented!() }
}
/// parts that stand for what the elements stand for
proof fn joined_sum<T, B, R>(src: Seq<T>, ss: Seq<It<B>>, g: spec_fn(T) -> Multiset<R>, h: spec_fn(B) -> Multiset<R>)
    requires src.len() == ss.len(), forall|k: int| 0 <= k < ss.len() ==> bag((#[trigger] ss[k]).seq(), h) == g(src[k]),
    ensures bag(joined(ss), h) == bag(src, g),
    decreases ss.len(),
{
    if ss.len() > 0 {
        let (p, q) = (ss.drop_last(), src.drop_last());
        assert forall|k: int| 0 <= k < p.len() implies bag((#[trigger] p[k]).seq(), h) == g(q[k]) by { assert(bag(ss[k].seq(), h) == g(src[k])); }
        joined_sum(q, p, g, h);
        bag_add(joined(p), ss.last().seq(), h);
        assert(bag(ss[ss.len() - 1].seq(), h) == g(src[ss.len() - 1]));
    }
}
impl<T> It<T> {
    /// Iterator::map, read as what the elements stand for
    fn map_bag<B, R, F: Fn(T) -> B>(self, g: Ghost<spec_fn(T) -> Multiset<R>>, h: Ghost<spec_fn(B) -> Multiset<R>>, p: Ghost<spec_fn(B) -> bool>, f: F) -> (r: It<B>)
        requires
            forall|k: int| 0 <= k < self.seq().len() ==> f.requires((#[trigger] self.seq()[k],)),
            forall|k: int, o: B| 0 <= k < self.seq().len() && #[trigger] f.ensures((self.seq()[k],), o) ==> h@(o) == g@(self.seq()[k]) && p@(o),
        ensures
            bag(r.seq(), h@) == bag(self.seq(), g@),
            all(r.seq(), p@),
    {
        let ghost src = self.seq();
        let r = self.gmap_(f);
        proof {
            assert forall|i: int| 0 <= i < src.len() implies g@(#[trigger] src[i]) == h@(r.seq()[i]) by { assert(f.ensures((src[i],), r.seq()[i])); }
            bag_alike(src, r.seq(), g@, h@);
        }
        r
    }
    /// Iterator::map, read element by element
    fn map_read<B, R, F: Fn(T) -> B>(self, g: Ghost<spec_fn(T) -> R>, read: Ghost<spec_fn(B) -> R>, p: Ghost<spec_fn(B) -> bool>, f: F) -> (r: It<B>)
        requires
            forall|k: int| 0 <= k < self.seq().len() ==> f.requires((#[trigger] self.seq()[k],)),
            forall|k: int, o: B| 0 <= k < self.seq().len() && #[trigger] f.ensures((self.seq()[k],), o) ==> read@(o) == g@(self.seq()[k]) && p@(o),
        ensures
            r.seq().map_values(read@) == self.seq().map_values(g@),
            all(r.seq(), p@),
    {
        let ghost src = self.seq();
        let r = self.gmap_(f);
        proof {
            assert forall|i: int| 0 <= i < src.len() implies g@(#[trigger] src[i]) == read@(r.seq()[i]) by { assert(f.ensures((src[i],), r.seq()[i])); }
            assert(r.seq().map_values(read@) =~= src.map_values(g@));
        }
        r
    }
}
