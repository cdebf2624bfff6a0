# C02, C03: storage keys (common.rs)
== import iters
== import errors
== source common.rs
== subst-re
\.write_u32::<BigEndian>\(
=>
.write_u32_be(
== subst-re
\.read_u32::<BigEndian>\(\)
=>
.read_u32_be()
== subst-re
\.read_u128::<BigEndian>\(\)
=>
.read_u128_be()
== subst-re
\bstd::u128::MAX\b
=>
u128::MAX
== subst-re
\.to_be_bytes\(\)
=>
.to_be_bytes_()
== subst-re!
\.iter\(\)\.skip_while\(\|(\w+)\| \*\*\w+ == 0u8\)
=>
.iter_skip_while_(|\1: &&u8| -> (o: bool) ensures o == (**\1 == 0u8) { **\1 == 0u8 })
== subst-re
db_key\.extend\((\w+)\)
=>
db_key.extend_(\1)
== prelude
// ---- byteorder, integers, iterators: assumed contracts ----------------------------------------------
/// the number written with these bytes, most significant first
spec fn bval(b: Seq<u8>) -> nat
    decreases b.len()
{
    if b.len() == 0 { 0 } else { bval(b.drop_last()) * 256 + b.last() as nat }
}
/// x in n bytes, most significant first
spec fn be(x: nat, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { be(x / 256, (n - 1) as nat).push((x % 256) as u8) }
}
trait WriteBe {
    spec fn by(&self) -> Seq<u8>;
    fn write_u32_be(&mut self, x: u32) -> (r: Result<(), Error>)
        ensures r.is_ok(), final(self).by() == old(self).by() + be(x as nat, 4);
    fn extend_(&mut self, it: It<u8>)
        ensures final(self).by() == old(self).by() + it.seq();
}
impl WriteBe for Vec<u8> {
    spec fn by(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn write_u32_be(&mut self, x: u32) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn extend_(&mut self, it: It<u8>) { unimplemented!() }
}
trait ReadBe {
    spec fn rb(&self) -> Seq<u8>;
    fn read_u32_be(&self) -> (r: Result<u32, Error>)
        ensures self.rb().len() >= 4 ==> r.is_ok() && r.unwrap() == bval(self.rb().subrange(0, 4));
    fn read_u128_be(&self) -> (r: Result<u128, Error>)
        ensures self.rb().len() >= 16 ==> r.is_ok() && r.unwrap() == bval(self.rb().subrange(0, 16));
}
impl ReadBe for [u8] {
    spec fn rb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn read_u32_be(&self) -> (r: Result<u32, Error>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u128_be(&self) -> (r: Result<u128, Error>) { unimplemented!() }
}
trait ToBe {
    spec fn num(self) -> u128;
    fn to_be_bytes_(self) -> (r: [u8; 16])
        ensures r@ == be(self.num() as nat, 16);
}
impl ToBe for u128 {
    spec fn num(self) -> u128 { self }
    #[verifier::external_body]
    fn to_be_bytes_(self) -> (r: [u8; 16]) { unimplemented!() }
}
spec fn skipped<F: Fn(&&u8) -> bool>(f: F, a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if a.len() == 0 { b.len() == 0 } else {
        ||| f.ensures((&&a.first(),), true) && skipped(f, a.drop_first(), b)
        ||| f.ensures((&&a.first(),), false) && b == a
    }
}
trait SkipWhile {
    spec fn elems(&self) -> Seq<u8>;
    fn iter_skip_while_<F: Fn(&&u8) -> bool>(&self, f: F) -> (r: It<u8>)
        requires forall|x: &&u8| f.requires((x,)),
        ensures skipped(f, self.elems(), r.seq());
}
impl SkipWhile for [u8; 16] {
    spec fn elems(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn iter_skip_while_<F: Fn(&&u8) -> bool>(&self, f: F) -> (r: It<u8>) { unimplemented!() }
}
== take enum TypeMarker
== take struct GridKey
== take enum MatchPhrase
== take struct MatchKey
== text
impl Clone for MatchPhrase {
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { match self { MatchPhrase::Exact(x) => MatchPhrase::Exact(*x), MatchPhrase::Range { start, end } => MatchPhrase::Range { start: *start, end: *end } } }
}
impl Clone for MatchKey {
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { MatchKey { match_phrase: self.match_phrase.clone(), lang_set: self.lang_set } }
}
// ---- what a storage key is ----------------------------------------------------------------------------
spec fn strip(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{
    if b.len() > 0 && b.first() == 0 { strip(b.drop_first()) } else { b }
}
spec fn langs(l: u128) -> Seq<u8> {
    if l == u128::MAX { Seq::empty() } else if l == 0 { seq![0u8] } else { strip(be(l as nat, 16)) }
}
spec fn enc(ty: u8, p: u32, l: u128) -> Seq<u8> { seq![ty] + be(p as nat, 4) + langs(l) }
spec fn start_key(ty: u8, p: u32) -> Seq<u8> { seq![ty] + be(p as nat, 4) }
spec fn lang_of(b: Seq<u8>) -> nat { if b.len() == 0 { u128::MAX as nat } else { bval(b) } }
spec fn ty_of(t: TypeMarker) -> u8 { match t { TypeMarker::SinglePhrase => 0, TypeMarker::PrefixBin => 1 } }
spec fn wants(m: MatchPhrase, p: nat) -> bool {
    match m { MatchPhrase::Exact(x) => x == p, MatchPhrase::Range { start, end } => start <= p && p < end }
}
spec fn from_phrase(m: MatchPhrase) -> u32 { match m { MatchPhrase::Exact(x) => x, MatchPhrase::Range { start, .. } => start } }
/// order of the storage (bytewise)
spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a.first() != b.first() { a.first() < b.first() } else { lex_lt(a.drop_first(), b.drop_first()) }
}

// ---- lemmas ---------------------------------------------------------------------------------------------
spec fn pow256(n: nat) -> nat
    decreases n
{
    if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) }
}
broadcast proof fn be_len(x: nat, n: nat)
    ensures (#[trigger] be(x, n)).len() == n,
    decreases n,
{
    if n > 0 { be_len(x / 256, (n - 1) as nat); }
}
proof fn val_be(x: nat, n: nat)
    requires x < pow256(n),
    ensures bval(be(x, n)) == x,
    decreases n,
{
    if n > 0 {
        assert(x / 256 < pow256((n - 1) as nat)) by (nonlinear_arith) requires x < 256 * pow256((n - 1) as nat);
        val_be(x / 256, (n - 1) as nat);
        assert(be(x, n).drop_last() =~= be(x / 256, (n - 1) as nat));
    }
}
proof fn pows()
    ensures pow256(4) == 0x1_0000_0000, pow256(16) == u128::MAX + 1,
{
    assert(pow256(4) == 0x1_0000_0000) by (compute);
    assert(pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}
proof fn val_zero(b: Seq<u8>)
    ensures bval(seq![0u8] + b) == bval(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(seq![0u8] + b =~= seq![0u8]);
        assert(seq![0u8].drop_last() =~= Seq::<u8>::empty());
        reveal_with_fuel(bval, 2);
    } else {
        val_zero(b.drop_last());
        assert((seq![0u8] + b).drop_last() =~= seq![0u8] + b.drop_last());
    }
}
proof fn val_zeros(n: nat)
    ensures bval(Seq::new(n, |i: int| 0u8)) == 0,
    decreases n,
{
    if n > 0 {
        val_zeros((n - 1) as nat);
        assert(Seq::new(n, |i: int| 0u8).drop_last() =~= Seq::new((n - 1) as nat, |i: int| 0u8));
    }
}
proof fn val_strip(b: Seq<u8>)
    ensures bval(strip(b)) == bval(b), strip(b).len() <= b.len(),
    decreases b.len(),
{
    if b.len() > 0 && b.first() == 0 {
        val_strip(b.drop_first());
        val_zero(b.drop_first());
        assert(b =~= seq![0u8] + b.drop_first());
    }
}
proof fn val_pad(b: Seq<u8>, n: nat)
    ensures bval(Seq::new(n, |i: int| 0u8) + b) == bval(b),
    decreases n,
{
    let z = Seq::new(n, |i: int| 0u8);
    if n == 0 {
        assert(z + b =~= b);
    } else {
        let y = Seq::new((n - 1) as nat, |i: int| 0u8);
        val_pad(b, (n - 1) as nat);
        val_zero(y + b);
        assert(z + b =~= seq![0u8] + (y + b));
    }
}
proof fn val_bound(b: Seq<u8>)
    ensures bval(b) < pow256(b.len()),
    decreases b.len(),
{
    if b.len() > 0 { val_bound(b.drop_last()); }
}
proof fn langs_ok(l: u128)
    ensures
        lang_of(langs(l)) == l,
        langs(l).len() <= 16,
        (langs(l).len() == 0) == (l == u128::MAX),
{
    pows();
    be_len(l as nat, 16);
    val_be(l as nat, 16);
    val_strip(be(l as nat, 16));
    if l != u128::MAX && l != 0 {
        if langs(l).len() == 0 { assert(bval(langs(l)) == 0); }
    } else if l == 0 {
        assert(seq![0u8] + Seq::<u8>::empty() =~= seq![0u8]);
        val_zero(Seq::empty());
        assert(bval(Seq::<u8>::empty()) == 0);
    }
}
broadcast proof fn enc_parts(ty: u8, p: u32, l: u128)
    ensures
        5 <= (#[trigger] enc(ty, p, l)).len() <= 21,
        enc(ty, p, l)[0] == ty,
        bval(enc(ty, p, l).subrange(1, 5)) == p,
        lang_of(enc(ty, p, l).subrange(5, enc(ty, p, l).len() as int)) == l,
        (enc(ty, p, l).len() == 5) == (l == u128::MAX),
{
    pows();
    be_len(p as nat, 4);
    val_be(p as nat, 4);
    langs_ok(l);
    let k = enc(ty, p, l);
    assert(k.subrange(1, 5) =~= be(p as nat, 4));
    assert(k.subrange(5, k.len() as int) =~= langs(l));
}
/// C02: two different keys never share a storage key
proof fn key_unique(t1: u8, p1: u32, l1: u128, t2: u8, p2: u32, l2: u128)
    requires enc(t1, p1, l1) == enc(t2, p2, l2),
    ensures t1 == t2, p1 == p2, l1 == l2,
{
    enc_parts(t1, p1, l1);
    enc_parts(t2, p2, l2);
}
proof fn lex_be(x: nat, y: nat, n: nat, a: Seq<u8>, b: Seq<u8>)
    requires x < y < pow256(n),
    ensures lex_lt(be(x, n) + a, be(y, n) + b),
    decreases n,
{
    be_len(x, n);
    be_len(y, n);
    let m = (n - 1) as nat;
    assert(x / 256 <= y / 256 < pow256(m)) by (nonlinear_arith) requires x < y, y < 256 * pow256(m);
    let (c, d) = (seq![(x % 256) as u8] + a, seq![(y % 256) as u8] + b);
    be_len(x / 256, m);
    be_len(y / 256, m);
    assert(be(x, n) + a =~= be(x / 256, m) + c);
    assert(be(y, n) + b =~= be(y / 256, m) + d);
    if x / 256 < y / 256 {
        lex_be(x / 256, y / 256, m, c, d);
    } else {
        assert(x % 256 < y % 256) by (nonlinear_arith) requires x < y, x / 256 == y / 256;
        lex_same(be(x / 256, m), c, d);
    }
}
proof fn lex_same(h: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures lex_lt(h + a, h + b) == lex_lt(a, b),
    decreases h.len(),
{
    if h.len() == 0 {
        assert(h + a =~= a);
        assert(h + b =~= b);
    } else {
        lex_same(h.drop_first(), a, b);
        assert((h + a).drop_first() =~= h.drop_first() + a);
        assert((h + b).drop_first() =~= h.drop_first() + b);
    }
}
/// C02: storage keys of one kind sort by phrase id
proof fn key_order(ty: u8, p1: u32, l1: u128, p2: u32, l2: u128)
    requires p1 < p2,
    ensures lex_lt(enc(ty, p1, l1), enc(ty, p2, l2)),
{
    pows();
    lex_be(p1 as nat, p2 as nat, 4, langs(l1), langs(l2));
    lex_same(seq![ty], be(p1 as nat, 4) + langs(l1), be(p2 as nat, 4) + langs(l2));
    assert(enc(ty, p1, l1) =~= seq![ty] + (be(p1 as nat, 4) + langs(l1)));
    assert(enc(ty, p2, l2) =~= seq![ty] + (be(p2 as nat, 4) + langs(l2)));
}
/// C02: all phrases come before all prefix bins
proof fn kind_order(p1: u32, l1: u128, p2: u32, l2: u128)
    ensures lex_lt(enc(0, p1, l1), enc(1, p2, l2)),
{
}
proof fn lex_prefix(a: Seq<u8>, b: Seq<u8>)
    ensures !lex_lt(a + b, a),
    decreases a.len(),
{
    if a.len() > 0 {
        lex_prefix(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
    }
}
/// C03: a scan that starts at the start key passes over no key of the kind from that phrase id on, and over all before
proof fn scan_start(ty: u8, from: u32, p: u32, l: u128)
    ensures lex_lt(enc(ty, p, l), start_key(ty, from)) == (p < from),
{
    pows();
    let e = Seq::<u8>::empty();
    if p < from {
        lex_be(p as nat, from as nat, 4, langs(l), e);
        lex_same(seq![ty], be(p as nat, 4) + langs(l), be(from as nat, 4) + e);
        assert(enc(ty, p, l) =~= seq![ty] + (be(p as nat, 4) + langs(l)));
        assert(start_key(ty, from) =~= seq![ty] + (be(from as nat, 4) + e));
    } else if p > from {
        lex_be(from as nat, p as nat, 4, e, langs(l));
        lex_same(seq![ty], be(from as nat, 4) + e, be(p as nat, 4) + langs(l));
        assert(enc(ty, p, l) =~= seq![ty] + (be(p as nat, 4) + langs(l)));
        assert(start_key(ty, from) =~= seq![ty] + (be(from as nat, 4) + e));
        lex_asym(start_key(ty, from), enc(ty, p, l));
    } else {
        lex_prefix(start_key(ty, from), langs(l));
        assert(enc(ty, p, l) =~= start_key(ty, from) + langs(l));
    }
}
proof fn lex_asym(a: Seq<u8>, b: Seq<u8>)
    requires lex_lt(a, b),
    ensures !lex_lt(b, a),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a.first() == b.first() { lex_asym(a.drop_first(), b.drop_first()); }
}
proof fn skipped_strip<F: Fn(&&u8) -> bool>(f: F, a: Seq<u8>, b: Seq<u8>)
    requires skipped(f, a, b), forall|x: u8, o: bool| f.ensures((&&x,), o) ==> o == (x == 0),
    ensures b == strip(a),
    decreases a.len(),
{
    if a.len() > 0 {
        if a.first() == 0 { skipped_strip(f, a.drop_first(), b); }
    }
}
broadcast proof fn auto_strip<F: Fn(&&u8) -> bool>(f: F, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] skipped(f, a, b), forall|x: u8, o: bool| f.ensures((&&x,), o) ==> o == (x == 0),
    ensures b == strip(a),
{
    skipped_strip(f, a, b);
}
/// the zero-padded language bytes have the same value
broadcast proof fn auto_pad(full: Seq<u8>, part: Seq<u8>)
    requires
        full.len() == 16,
        part.len() <= 16,
        full.subrange(16 - part.len(), 16) =~= part,
        forall|i: int| 0 <= i < 16 - part.len() ==> full[i] == 0,
    ensures #[trigger] bval(full.subrange(0, 16)) == #[trigger] bval(part),
{
    let z = Seq::new((16 - part.len()) as nat, |i: int| 0u8);
    val_pad(part, (16 - part.len()) as nat);
    assert(full.subrange(0, 16) =~= z + part);
}
broadcast proof fn auto_fits(b: Seq<u8>)
    requires b.len() <= 16,
    ensures #[trigger] bval(b) <= u128::MAX,
{
    pows();
    val_bound(b);
    pow_mono(b.len(), 16);
}
proof fn pow_mono(a: nat, b: nat)
    requires a <= b,
    ensures pow256(a) <= pow256(b),
    decreases b,
{
    if a < b {
        pow_mono(a, (b - 1) as nat);
        assert(pow256(b) == 256 * pow256((b - 1) as nat));
    }
}
== take impl GridKey
== fn GridKey::write_to
-- ret r
ensures
    r.is_ok(),
    final(db_key)@ == old(db_key)@ + enc(ty_of(type_marker), self.phrase_id, self.lang_set),
-- start
broadcast use {auto_strip, be_len};
-- tail
proof {
    assert(db_key@ =~= old(db_key)@ + enc(ty_of(type_marker), self.phrase_id, self.lang_set));
}
== take impl MatchKey
== fn MatchKey::write_start_to
-- ret r
ensures
    r.is_ok(),
    final(db_key)@ == old(db_key)@ + start_key(ty_of(type_marker), from_phrase(self.match_phrase)),
-- tail
proof {
    assert(db_key@ =~= old(db_key)@ + start_key(ty_of(type_marker), from_phrase(self.match_phrase)));
}
== fn MatchKey::matches_key
-- ret r
requires db_key@.len() >= 5,
ensures
    r matches Ok(b) && b == (db_key@[0] == ty_of(type_marker) && wants(self.match_phrase, bval(db_key@.subrange(1, 5)))),
    forall|t: u8, p: u32, l: u128| db_key@ == #[trigger] enc(t, p, l) ==> r.unwrap() == (t == ty_of(type_marker) && wants(self.match_phrase, p as nat)),
-- start
broadcast use enc_parts;
proof { assert(db_key@.subrange(1, db_key@.len() as int).subrange(0, 4) =~= db_key@.subrange(1, 5)); }
== fn MatchKey::matches_language
-- ret r
requires 5 <= db_key@.len() <= 21,
ensures
    r matches Ok(b) && b == (db_key@.len() == 5 || self.lang_set & (bval(db_key@.subrange(5, db_key@.len() as int)) as u128) != 0),
    forall|t: u8, p: u32, l: u128| db_key@ == #[trigger] enc(t, p, l) ==> r.unwrap() == (l == u128::MAX || self.lang_set & l != 0),
-- start
broadcast use {enc_parts, auto_pad, auto_fits};
