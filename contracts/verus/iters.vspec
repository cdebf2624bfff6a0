# iterators, read as the sequence of what they yield (adapters of std and itertools, as documented)
== prelude
use core::ops::{Range, RangeInclusive};
// iterators, read as the sequence of what they yield; filter_map, rev, map of std and merge_by of itertools
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
spec fn upto(a: int, b: int) -> Seq<u32> { Seq::new((if b > a { b - a } else { 0 }) as nat, |i: int| (a + i) as u32) }
spec fn fmaps<A, B, F: Fn(A) -> Option<B>>(f: F, a: Seq<A>, b: Seq<B>) -> bool
    decreases a.len()
{
    if a.len() == 0 { b.len() == 0 } else {
        ||| f.ensures((a.last(),), None) && fmaps(f, a.drop_last(), b)
        ||| b.len() > 0 && f.ensures((a.last(),), Some(b.last())) && fmaps(f, a.drop_last(), b.drop_last())
    }
}
spec fn mapped<A, B, F: Fn(A) -> B>(f: F, a: Seq<A>, b: Seq<B>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> f.ensures((a[i],), #[trigger] b[i])
}
spec fn merges<A, F: Fn(&A, &A) -> bool>(f: F, a: Seq<A>, b: Seq<A>, c: Seq<A>) -> bool
    decreases a.len() + b.len()
{
    if a.len() == 0 { c == b } else if b.len() == 0 { c == a } else {
        c.len() > 0 && {
            ||| f.ensures((&a.first(), &b.first()), true) && c.first() == a.first() && merges(f, a.drop_first(), b, c.drop_first())
            ||| f.ensures((&a.first(), &b.first()), false) && c.first() == b.first() && merges(f, a, b.drop_first(), c.drop_first())
        }
    }
}
trait Seqs: Sized {
    type T;
    spec fn seq(self) -> Seq<Self::T>;
}
impl Seqs for Range<u32> { type T = u32; spec fn seq(self) -> Seq<u32> { upto(self.start as int, self.end as int) } }
impl Seqs for RangeInclusive<u32> { type T = u32; spec fn seq(self) -> Seq<u32> { upto(self@.start as int, self@.end + 1) } }
impl<T> Seqs for It<T> { type T = T; uninterp spec fn seq(self) -> Seq<T>; }
trait Adapters: Seqs {
    #[verifier::external_body]
    fn filter_map_<B, F: Fn(Self::T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],)),
        ensures fmaps(f, self.seq(), r.seq()),
    { unimplemented!() }
    #[verifier::external_body]
    fn gmap_<B, F: Fn(Self::T) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],)),
        ensures mapped(f, self.seq(), r.seq()),
    { unimplemented!() }
    #[verifier::external_body]
    fn rev_(self) -> (r: It<Self::T>)
        ensures r.seq() == self.seq().reverse(),
    { unimplemented!() }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: It<Self::T>)
        ensures r.seq() == self.seq(),
    { unimplemented!() }
    #[verifier::external_body]
    fn merge_by_<F: Fn(&Self::T, &Self::T) -> bool>(self, o: It<Self::T>, f: F) -> (r: It<Self::T>)
        requires forall|a: Self::T, b: Self::T| f.requires((&a, &b)),
        ensures merges(f, self.seq(), o.seq(), r.seq()),
    { unimplemented!() }
}
impl<I: Seqs> Adapters for I {}
spec fn concat<B>(n: int, want: spec_fn(int) -> Seq<B>) -> Seq<B>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { concat(n - 1, want) + want(n - 1) }
}
impl<T> It<T> {
    /// Iterator::next
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures
            match r {
                None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
                Some(x) => old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().drop_first(),
            },
    { unimplemented!() }
    /// Iterator::flat_map
    #[verifier::external_body]
    fn flat_map_<B, F: Fn(T, Ghost<int>) -> It<B>>(self, want: Ghost<spec_fn(int) -> Seq<B>>, f: F) -> (r: It<B>)
        requires
            forall|k: int| 0 <= k < self.seq().len() ==> f.requires((#[trigger] self.seq()[k], Ghost(k))),
            forall|k: int, o: It<B>| 0 <= k < self.seq().len() && #[trigger] f.ensures((self.seq()[k], Ghost(k)), o) ==> o.seq() == want@(k),
        ensures r.seq() == concat(self.seq().len() as int, want@),
    { unimplemented!() }
    /// Iterator::map
    #[verifier::external_body]
    fn fmap_<B, F: Fn(T, Ghost<int>) -> B>(self, want: Ghost<spec_fn(int) -> B>, f: F) -> (r: It<B>)
        requires
            forall|k: int| 0 <= k < self.seq().len() ==> f.requires((#[trigger] self.seq()[k], Ghost(k))),
            forall|k: int, o: B| 0 <= k < self.seq().len() && #[trigger] f.ensures((self.seq()[k], Ghost(k)), o) ==> o == want@(k),
        ensures r.seq() == Seq::new(self.seq().len(), want@),
    { unimplemented!() }
}
