# C02, C09: the keys of a store and the entries under each
== import db
== import decode
== source store.rs
== subst-re
\.read_u32::<BigEndian>\(\)
=>
.read_u32_be()
== subst-re
\.read_u128::<BigEndian>\(\)
=>
.read_u128_be()
== subst-re
\bstd::u128::MAX\b
=>
u128::MAX
== subst-re!
decode_value\((\w+)\)
=>
decode_value(\1, Ghost(record(\1@)))
== subst
IteratorMode::From(&db_key, Direction::Forward)
=>
IteratorMode::From(db_key.as_slice(), Direction::Forward)
== subst-re!
db_iter\.take_while\(\|\((\w+), _\)\| ([^;]*?)\)\.map\(\|\((\w+), _\)\| \{
=>
db_iter.take_while_(|kv: &(Box<[u8]>, Box<[u8]>)| -> (o: bool) requires kv.0@.len() >= 5 ensures o == (kind(kv.0@) == 0) { let (\1, _) = kv; \2 }).gmap_(|kv: (Box<[u8]>, Box<[u8]>)| -> (r: Result<GridKey, Error>) requires 5 <= kv.0@.len() <= 21 ensures key_read(kv, r) { broadcast use {enc_parts, auto_pad, auto_fits}; let (\3, _) = kv; proof { assert(key@.subrange(1, key@.len() as int).subrange(0, 4) =~= key@.subrange(1, 5)); }
== subst-re!
db_iter\.take_while\(\|\((\w+), _\)\| ([^;]*?)\)\.map\(\|\((\w+), (\w+)\)\| \{
=>
db_iter.take_while_(|kv: &(Box<[u8]>, Box<[u8]>)| -> (o: bool) requires kv.0@.len() >= 5 ensures o == (kind(kv.0@) == 0) { let (\1, _) = kv; \2 }).gmap_(|kv: (Box<[u8]>, Box<[u8]>)| -> (r: Result<(GridKey, Vec<GridEntry>), Error>) requires 5 <= kv.0@.len() <= 21, held(kv.1@, record(kv.1@)) ensures pair_read(kv, r) { broadcast use {enc_parts, auto_pad, auto_fits}; let (\3, \4) = kv; proof { assert(key@.subrange(1, key@.len() as int).subrange(0, 4) =~= key@.subrange(1, 5)); }
== subst-re!
impl Iterator<Item = (Result<.*?>)> \+ 'i
=>
It<\1>
== subst!
Option<impl Iterator<Item = GridEntry>>
=>
Option<It<GridEntry>>
== text
impl<T> It<T> {
    #[verifier::external_body]
    fn collect(self) -> (r: Vec<T>)
        ensures r@ == self.seq()
    { unimplemented!() }
}
/// the record a value holds
spec fn record(d: Seq<u8>) -> Record { choose|w: Record| held(d, w) }
spec fn readable(p: Seq<(Box<[u8]>, Box<[u8]>)>) -> bool { forall|i: int| 0 <= i < p.len() && kind(key_of(#[trigger] p[i])) <= 1 ==> exists|w: Record| held(p[i].1@, w) }
spec fn key_read(kv: (Box<[u8]>, Box<[u8]>), r: Result<GridKey, Error>) -> bool {
    forall|t: u8, p: u32, l: u128| kv.0@ == #[trigger] enc(t, p, l) ==> (r matches Ok(k) && k.phrase_id == p && k.lang_set == l)
}
spec fn pair_read(kv: (Box<[u8]>, Box<[u8]>), r: Result<(GridKey, Vec<GridEntry>), Error>) -> bool {
    forall|t: u8, p: u32, l: u128| kv.0@ == #[trigger] enc(t, p, l) ==> (r matches Ok(k) && k.0.phrase_id == p && k.0.lang_set == l && k.1@ == entries(record(kv.1@)))
}
/// the pairs of phrases come first
proof fn phrases_first(p: Seq<(Box<[u8]>, Box<[u8]>)>, n: int)
    requires stored(p), 0 <= n <= p.len(), forall|i: int| 0 <= i < n ==> kind(key_of(#[trigger] p[i])) == 0, n < p.len() ==> kind(key_of(p[n])) != 0,
    ensures forall|i: int| 0 <= i < p.len() ==> (kind(key_of(#[trigger] p[i])) == 0 <==> i < n),
{
    assert forall|i: int| n <= i < p.len() implies kind(key_of(#[trigger] p[i])) != 0 by {
        if i > n { assert(lex_lt(key_of(p[n]), key_of(p[i]))); assert(key_of(p[n]).first() == kind(key_of(p[n]))); }
    }
}
== take impl GridStore | get keys iter
== fn GridStore::get
-- ret r
requires stored(self.db.pairs()), readable(self.db.pairs()),
ensures
    r matches Ok(Some(it)) ==> exists|i: int| 0 <= i < self.db.pairs().len() && key_of(#[trigger] self.db.pairs()[i]) == enc(0, key.phrase_id, key.lang_set) && it.seq() == entries(record(self.db.pairs()[i].1@)),
    r matches Ok(None) ==> forall|i: int| 0 <= i < self.db.pairs().len() ==> key_of(#[trigger] self.db.pairs()[i]) != enc(0, key.phrase_id, key.lang_set),
-- start
proof { enc_parts(0, key.phrase_id, key.lang_set); assert(forall|k: Seq<u8>| Seq::<u8>::empty() + k =~= k); }
== fn GridStore::keys
-- ret r
requires stored(self.db.pairs()),
ensures
    r.seq().len() <= self.db.pairs().len(),
    forall|i: int| 0 <= i < self.db.pairs().len() ==> (kind(key_of(#[trigger] self.db.pairs()[i])) == 0 <==> i < r.seq().len()),
    forall|i: int| 0 <= i < r.seq().len() ==> key_read(self.db.pairs()[i], #[trigger] r.seq()[i]),
== fn GridStore::iter
-- ret r
requires stored(self.db.pairs()), readable(self.db.pairs()),
ensures
    r.seq().len() <= self.db.pairs().len(),
    forall|i: int| 0 <= i < self.db.pairs().len() ==> (kind(key_of(#[trigger] self.db.pairs()[i])) == 0 <==> i < r.seq().len()),
    forall|i: int| 0 <= i < r.seq().len() ==> pair_read(self.db.pairs()[i], #[trigger] r.seq()[i]),
