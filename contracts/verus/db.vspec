# the database as a sorted list of pairs; keys of phrases, of bins, and the rest after them
== import keys
== import flows
== import bytes
== text
// ---- rocksdb: assumed to hold a fixed list of pairs, in the bytewise order of their keys ---------------------------------------
#[verifier::external_body]
pub struct DB { d: () }
pub enum Direction { Forward }
pub enum IteratorMode<'a> { Start, From(&'a [u8], Direction) }
spec fn key_of(p: (Box<[u8]>, Box<[u8]>)) -> Seq<u8> { p.0@ }
spec fn not_before(p: Seq<(Box<[u8]>, Box<[u8]>)>, from: Seq<u8>) -> int
    decreases p.len(),
{
    if p.len() == 0 || !lex_lt(key_of(p.first()), from) { 0 } else { 1 + not_before(p.drop_first(), from) }
}
impl DB {
    uninterp spec fn pairs(&self) -> Seq<(Box<[u8]>, Box<[u8]>)>;
    #[verifier::external_body]
    fn iterator(&self, m: IteratorMode) -> (r: It<(Box<[u8]>, Box<[u8]>)>)
        ensures r.seq() == match m { IteratorMode::Start => self.pairs(), IteratorMode::From(k, _) => self.pairs().skip(not_before(self.pairs(), k@)) },
    { unimplemented!() }
    #[verifier::external_body]
    fn get<K: Bytes + ?Sized>(&self, k: &K) -> (r: Result<Option<Box<[u8]>>, Error>)
        ensures
            r matches Ok(Some(v)) ==> exists|i: int| 0 <= i < self.pairs().len() && key_of(#[trigger] self.pairs()[i]) == k.bytes() && self.pairs()[i].1 == v,
            r matches Ok(None) ==> forall|i: int| 0 <= i < self.pairs().len() ==> key_of(#[trigger] self.pairs()[i]) != k.bytes(),
    { unimplemented!() }
}
impl<T> It<T> {
    /// Iterator::take_while, read as the items it lets through
    #[verifier::external_body]
    fn take_while_<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|k: int| 0 <= k < self.seq().len() ==> f.requires((&#[trigger] self.seq()[k],)),
        ensures
            r.seq().len() <= self.seq().len(),
            r.seq() == self.seq().take(r.seq().len() as int),
            forall|k: int| 0 <= k < r.seq().len() ==> f.ensures((&#[trigger] self.seq()[k],), true),
            r.seq().len() < self.seq().len() ==> f.ensures((&self.seq()[r.seq().len() as int],), false),
    { unimplemented!() }
    /// the items in the order they come
    #[verifier::external_body]
    fn drain_(self) -> (r: std::vec::IntoIter<T>)
        ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.seq(), vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::will_return_none(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r).is_some(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { p: () }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { v: Vec<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool)
        ensures r == self@.contains(*x)
    { unimplemented!() }
}
== source store.rs
== take struct GridStore
== text
// ---- what is in it ---------------------------------------------------------------------------------------------------------------
/// the key of a phrase or of a bin
spec fn is_key(k: Seq<u8>, t: u8, p: u32, l: u128) -> bool { k == enc(t, p, l) }
spec fn kind(k: Seq<u8>) -> u8 { k[0] }
spec fn id(k: Seq<u8>) -> nat { bval(k.subrange(1, 5)) }
spec fn speaks(set: u128, k: Seq<u8>) -> bool { k.len() == 5 || set & (bval(k.subrange(5, k.len() as int)) as u128) != 0 }
/// keys of phrases and bins, in order; other keys after them
spec fn stored(p: Seq<(Box<[u8]>, Box<[u8]>)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> lex_lt(key_of(#[trigger] p[i]), key_of(#[trigger] p[j]))
    &&& forall|i: int| 0 <= i < p.len() ==> 5 <= key_of(#[trigger] p[i]).len() <= 21
    &&& forall|i: int| 0 <= i < p.len() && kind(key_of(#[trigger] p[i])) <= 1 ==> exists|t: u8, q: u32, l: u128| is_key(key_of(p[i]), t, q, l)
}
spec fn asked(ty: u8, m: MatchPhrase, k: Seq<u8>) -> bool { kind(k) == ty && wants(m, id(k)) }
proof fn lex_irrefl(a: Seq<u8>)
    ensures !lex_lt(a, a),
    decreases a.len(),
{
    if a.len() > 0 { lex_irrefl(a.drop_first()); }
}
proof fn not_before_is(p: Seq<(Box<[u8]>, Box<[u8]>)>, from: Seq<u8>)
    requires forall|i: int, j: int| 0 <= i < j < p.len() ==> lex_lt(key_of(#[trigger] p[i]), key_of(#[trigger] p[j])),
    ensures
        0 <= not_before(p, from) <= p.len(),
        forall|i: int| 0 <= i < not_before(p, from) ==> lex_lt(key_of(#[trigger] p[i]), from),
        not_before(p, from) < p.len() ==> !lex_lt(key_of(p[not_before(p, from)]), from),
    decreases p.len(),
{
    if p.len() > 0 && lex_lt(key_of(p.first()), from) {
        let q = p.drop_first();
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies lex_lt(key_of(#[trigger] q[i]), key_of(#[trigger] q[j])) by { assert(q[i] == p[i + 1] && q[j] == p[j + 1]); }
        not_before_is(q, from);
        assert forall|i: int| 0 <= i < not_before(p, from) implies lex_lt(key_of(#[trigger] p[i]), from) by {
            if i > 0 { assert(p[i] == q[i - 1]); }
        }
    }
}
/// kinds and, within a kind, ids never decrease along the keys
proof fn in_line(a: Seq<u8>, b: Seq<u8>, ta: u8, qa: u32, la: u128, tb: u8, qb: u32, lb: u128)
    requires is_key(a, ta, qa, la), is_key(b, tb, qb, lb), lex_lt(a, b),
    ensures ta < tb || ta == tb && qa <= qb,
{
    if ta > tb {
        assert(b.first() == tb && a.first() == ta);
    } else if ta == tb && qb < qa {
        key_order(ta, qb, lb, qa, la);
        lex_asym(b, a);
    }
}
proof fn key_reads(k: Seq<u8>, t: u8, q: u32, l: u128)
    requires is_key(k, t, q, l),
    ensures kind(k) == t, id(k) == q, 5 <= k.len() <= 21, forall|set: u128| #[trigger] speaks(set, k) <==> (l == u128::MAX || set & l != 0),
{
    enc_parts(t, q, l);
}
/// the scan from the start key while the key is asked for sees exactly the keys asked for
proof fn scanned(p: Seq<(Box<[u8]>, Box<[u8]>)>, ty: u8, m: MatchPhrase, n: int)
    requires
        stored(p), ty <= 1,
        ({
            let b = not_before(p, start_key(ty, from_phrase(m)));
            &&& 0 <= n && b + n <= p.len()
            &&& forall|i: int| b <= i < b + n ==> asked(ty, m, key_of(#[trigger] p[i]))
            &&& b + n < p.len() ==> !asked(ty, m, key_of(p[b + n]))
        }),
    ensures
        ({
            let b = not_before(p, start_key(ty, from_phrase(m)));
            0 <= b && forall|i: int| 0 <= i < p.len() ==> (asked(ty, m, key_of(#[trigger] p[i])) <==> b <= i < b + n)
        }),
{
    let s = start_key(ty, from_phrase(m));
    not_before_is(p, s);
    let b = not_before(p, s);
    assert forall|i: int| 0 <= i < p.len() implies (asked(ty, m, key_of(#[trigger] p[i])) <==> b <= i < b + n) by {
        let k = key_of(p[i]);
        if asked(ty, m, k) {
            let (t, q, l) = choose|t: u8, q: u32, l: u128| is_key(k, t, q, l);
            key_reads(k, t, q, l);
            if i < b {
                scan_start(ty, from_phrase(m), q, l);
            }
            if i >= b + n {
                // the first key past the scan is one of a later kind or id, or before the ids asked for
                let f = key_of(p[b + n]);
                if i > b + n { assert(lex_lt(f, k)); }
                if kind(f) > 1 {
                    assert(f.first() == kind(f) && k.first() == kind(k));
                } else {
                    let (t2, q2, l2) = choose|t: u8, q: u32, l: u128| is_key(f, t, q, l);
                    key_reads(f, t2, q2, l2);
                    if i > b + n { in_line(f, k, t2, q2, l2, t, q, l); }
                    assert(!lex_lt(f, s)) by { if n > 0 { lex_trans_not(key_of(p[b]), f, s); } }
                    if t2 < ty {
                        kind_before(t2, q2, l2, ty, from_phrase(m));
                    } else {
                        scan_start(ty, from_phrase(m), q2, l2);
                    }
                }
            }
        }
    }
}
proof fn kind_before(t: u8, q: u32, l: u128, ty: u8, from: u32)
    requires t < ty,
    ensures lex_lt(enc(t, q, l), start_key(ty, from)),
{
}
proof fn lex_trans_not(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>)
    requires !lex_lt(a, s), a == b || lex_lt(a, b),
    ensures !lex_lt(b, s),
{
    if lex_lt(b, s) && a != b { lex_trans(a, b, s); }
}
proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex_lt(a, b), lex_lt(b, c),
    ensures lex_lt(a, c),
    decreases a.len(),
{
    if a.len() > 0 && a.first() == b.first() && b.first() == c.first() { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}
