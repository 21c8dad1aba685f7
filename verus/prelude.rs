// The standard library, regex and nom, as far as the extracted code uses them.
// Every `external_body` function below is an ASSUMED contract on a dependency
// (never on code of /repo).  `@panics P` stands for the condition under which
// the real function does not panic: in total mode it becomes a precondition,
// in partial mode (properties that do not speak about panics) it becomes
// something the caller may rely on after the call returned.

// ------------------------------------------------------------------ strings

#[derive(Clone, Copy)]
pub struct Str { pub s: Ghost<Seq<char>> }
impl View for Str { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }

/// bytes of the UTF-8 encoding of a character
pub open spec fn cw(c: char) -> nat {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}

/// bytes of the UTF-8 encoding of a string
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + cw(s.last()) }
}

/// byte offset n of s is a character boundary
pub open spec fn is_b(s: Seq<char>, n: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n
}

/// the index of the character that starts at byte offset n
pub open spec fn ci(s: Seq<char>, n: int) -> int {
    choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n
}

pub open spec fn ascii(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80
}

pub open spec fn is_d(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> is_d(#[trigger] s[i])
}

pub proof fn lemma_blen_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures blen(s.take(a)) + (b - a) <= blen(s.take(b)), blen(s.take(b)) <= blen(s.take(a)) + 4 * (b - a)
    decreases b - a
{
    reveal(blen);
    if a < b {
        lemma_blen_mono(s, a, b - 1);
        assert(s.take(b).drop_last() =~= s.take(b - 1));
    }
}

pub proof fn lemma_ci(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_b(s, blen(s.take(k)) as int), ci(s, blen(s.take(k)) as int) == k
{
    let n = blen(s.take(k)) as int;
    let c = ci(s, n);
    assert(0 <= c <= s.len() && blen(s.take(c)) == n);
    if c < k { lemma_blen_mono(s, c, k); }
    if k < c { lemma_blen_mono(s, k, c); }
}

pub broadcast proof fn lemma_ascii_blen(s: Seq<char>)
    requires ascii(s)
    ensures #[trigger] blen(s) == s.len()
    decreases s.len()
{
    reveal(blen);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as u32) < 0x80 by {
            assert(s.drop_last()[i] == s[i]);
        }
        lemma_ascii_blen(s.drop_last());
    }
}

pub broadcast proof fn lemma_ascii_b(s: Seq<char>, n: int)
    requires ascii(s), 0 <= n <= s.len()
    ensures #[trigger] is_b(s, n)
{
    assert(ascii(s.take(n)));
    lemma_ascii_blen(s.take(n));
}

pub broadcast proof fn lemma_ascii_ci(s: Seq<char>, n: int)
    requires ascii(s), 0 <= n <= s.len()
    ensures #[trigger] ci(s, n) == n
{
    assert(ascii(s.take(n)));
    lemma_ascii_blen(s.take(n));
    lemma_ci(s, n);
}

pub broadcast proof fn lemma_digits_ascii(s: Seq<char>)
    requires #[trigger] digits(s)
    ensures ascii(s)
{
}

pub proof fn lemma_blen_take(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures blen(s.take(k)) + blen(s.skip(k)) == blen(s)
    decreases s.len() - k
{
    reveal(blen);
    if k == s.len() {
        assert(s.take(k) =~= s);
    } else {
        assert(s.skip(k).drop_last() =~= s.drop_last().skip(k));
        assert(s.skip(k).last() == s.last());
        assert(s.drop_last().take(k) =~= s.take(k));
        lemma_blen_take(s.drop_last(), k);
    }
}

pub broadcast proof fn lemma_blen_zero(s: Seq<char>)
    ensures #[trigger] blen(s) >= s.len()
{
    lemma_blen_mono(s, 0, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}

/// s starts with p
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}

pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.skip(s.len() - p.len()) == p
}

pub broadcast proof fn lemma_starts_b(s: Seq<char>, p: Seq<char>)
    requires #[trigger] starts(s, p)
    ensures is_b(s, blen(p) as int), ci(s, blen(p) as int) == p.len()
{
    lemma_ci(s, p.len() as int);
}

/// index of the first c in s, s.len() when there is none
pub open spec fn pos_of(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + pos_of(s.skip(1), c) }
}

#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: Str) ensures r@ == s@, s@.len() == 0 ==> r@ == Seq::<char>::empty() && r@ == ""@ { unimplemented!() }

#[verifier::external_body]
pub fn vpanic<T>() -> (r: T)
    @panics false
{ unimplemented!() }

/// whether a Cow is borrowed: erased, so anything
#[verifier::external_body]
pub fn cow_nd() -> (r: bool) { unimplemented!() }

#[verifier::external_body]
pub fn eq_any<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) { unimplemented!() }

#[verifier::external_body]
pub fn str_eq(a: Str, b: Str) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }
#[verifier::external_body]
pub fn str_new() -> (r: Str) ensures r@.len() == 0, r@ == Seq::<char>::empty(), r@ == ""@ { unimplemented!() }
#[verifier::external_body]
pub fn str_len(a: Str) -> (r: usize) ensures r as nat == blen(a@) { unimplemented!() }
#[verifier::external_body]
pub fn str_is_empty(a: Str) -> (r: bool) ensures r == (a@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn str_starts_with(a: Str, p: Str) -> (r: bool) ensures r == starts(a@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn str_ends_with(a: Str, p: Str) -> (r: bool) ensures r == ends(a@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn str_starts_with_char(a: Str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c) { unimplemented!() }
#[verifier::external_body]
pub fn str_ends_with_char(a: Str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@.last() == c) { unimplemented!() }
#[verifier::external_body]
pub fn str_contains_char(a: Str, c: char) -> (r: bool) ensures r == a@.contains(c) { unimplemented!() }
pub uninterp spec fn contains_str(a: Seq<char>, p: Seq<char>) -> bool;
#[verifier::external_body]
pub fn str_contains(a: Str, p: Str) -> (r: bool) ensures r == contains_str(a@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn str_strip_prefix(a: Str, p: Str) -> (r: Option<Str>)
    ensures r is Some == starts(a@, p@), r is Some ==> r->0@ == a@.skip(p@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_strip_suffix(a: Str, p: Str) -> (r: Option<Str>)
    ensures r is Some == ends(a@, p@), r is Some ==> r->0@ == a@.take(a@.len() - p@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn str_strip_prefix_char(a: Str, c: char) -> (r: Option<Str>)
    ensures r is Some == (a@.len() > 0 && a@[0] == c), r is Some ==> r->0@ == a@.skip(1) { unimplemented!() }
#[verifier::external_body]
pub fn str_strip_suffix_char(a: Str, c: char) -> (r: Option<Str>)
    ensures r is Some == (a@.len() > 0 && a@.last() == c), r is Some ==> r->0@ == a@.drop_last() { unimplemented!() }
/// the number of leading characters c
pub open spec fn lead(s: Seq<char>, c: char) -> nat
    decreases s.len()
{
    if s.len() > 0 && s[0] == c { 1 + lead(s.skip(1), c) } else { 0 }
}
#[verifier::external_body]
pub fn str_trim_start_matches_char(a: Str, c: char) -> (r: Str)
    ensures r@ == a@.skip(lead(a@, c) as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_find_char(a: Str, c: char) -> (r: Option<usize>)
    ensures r is Some == a@.contains(c), r is Some ==> r->0 as nat == blen(a@.take(pos_of(a@, c))) { unimplemented!() }
#[verifier::external_body]
pub fn str_split_once_char(a: Str, c: char) -> (r: Option<(Str, Str)>)
    ensures r is Some == a@.contains(c),
        r is Some ==> 0 <= pos_of(a@, c) < a@.len() && (r->0).0@ == a@.take(pos_of(a@, c)) && (r->0).1@ == a@.skip(pos_of(a@, c) + 1)
{ unimplemented!() }
pub uninterp spec fn splits(a: Seq<char>, c: char) -> Seq<Str>;
#[verifier::external_body]
pub fn str_split_char(a: Str, c: char) -> (r: It<Str>) ensures r@ == splits(a@, c), r@.len() > 0 { unimplemented!() }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn str_trim(a: Str) -> (r: Str) ensures r@ == trimmed(a@) { unimplemented!() }
pub uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn str_to_lowercase(a: Str) -> (r: Str) ensures r@ == lowercase(a@) { unimplemented!() }
pub uninterp spec fn replaced(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn str_replace(a: Str, p: Str, t: Str) -> (r: Str) ensures r@ == replaced(a@, p@, t@) { unimplemented!() }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
/// the text of these bytes, if they are one
pub uninterp spec fn utf8_dec(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_dec(s: Seq<char>)
    ensures utf8_dec(#[trigger] utf8(s)) == Some(s)
{ }
/// An ASCII character is one byte, no other character has a byte below 0x80.
#[verifier::external_body]
pub broadcast proof fn axiom_utf8(s: Seq<char>)
    ensures (#[trigger] utf8(s)).len() == blen(s),
        s.len() > 0 ==> ((s[0] as u32) < 0x80 ==> utf8(s)[0] as u32 == s[0] as u32) && ((s[0] as u32) >= 0x80 ==> utf8(s)[0] >= 0x80)
{ }
#[verifier::external_body]
pub fn str_as_bytes(a: Str) -> (r: SeqV<u8>) ensures r@ == utf8(a@) { unimplemented!() }
#[verifier::external_body]
pub fn str_push(a: &mut Str, c: char) ensures final(a)@ == old(a)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn str_push_str(a: &mut Str, b: Str) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn str_from(a: Str, n: usize) -> (r: Str)
    @panics is_b(a@, n as int)
    ensures r@ == a@.skip(ci(a@, n as int)), 0 <= ci(a@, n as int) <= a@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn str_to(a: Str, n: usize) -> (r: Str)
    @panics is_b(a@, n as int)
    ensures r@ == a@.take(ci(a@, n as int)), 0 <= ci(a@, n as int) <= a@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn str_range(a: Str, m: usize, n: usize) -> (r: Str)
    @panics is_b(a@, m as int) && is_b(a@, n as int) && m <= n
    ensures r@ == a@.subrange(ci(a@, m as int), ci(a@, n as int)), 0 <= ci(a@, m as int) <= ci(a@, n as int) <= a@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn str_drain_to(a: &mut Str, n: usize)
    @panics is_b(old(a)@, n as int)
    ensures final(a)@ == old(a)@.skip(ci(old(a)@, n as int)), 0 <= ci(old(a)@, n as int) <= old(a)@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn str_chars(a: Str) -> (r: It<char>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn str_from_chars(a: It<char>) -> (r: Str) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn str_uncons(a: Str) -> (r: Option<(Str, char)>)
    ensures r is Some == (a@.len() > 0), r is Some ==> (r->0).0@ == a@.skip(1) && (r->0).1 == a@[0] { unimplemented!() }
/// what has been read of i when r is left
#[verifier::external_body]
pub fn str_consumed(i: Str, r: Str) -> (o: Str)
    requires r@.len() <= i@.len()
    ensures o@ == i@.take(i@.len() - r@.len()) { unimplemented!() }

#[derive(Clone, Copy)]
pub struct CharIndices { pub all: Ghost<Seq<char>>, pub pos: Ghost<int> }
#[verifier::external_body]
pub fn str_char_indices(a: Str) -> (r: CharIndices) ensures r.all@ == a@, r.pos@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn char_indices_next(i: &mut CharIndices) -> (r: Option<(usize, char)>)
    requires 0 <= old(i).pos@ <= old(i).all@.len()
    ensures final(i).all@ == old(i).all@,
        r is Some == (old(i).pos@ < old(i).all@.len()),
        r is Some ==> (r->0).1 == old(i).all@[old(i).pos@] && (r->0).0 as nat == blen(old(i).all@.take(old(i).pos@)) && final(i).pos@ == old(i).pos@ + 1,
        r is None ==> final(i).pos@ == old(i).pos@
{ unimplemented!() }

// numbers as text
pub open spec fn dval(c: char) -> nat { ((c as u32) - ('0' as u32)) as nat }
pub open spec fn dec_val(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + dval(s.last()) }
}
pub open spec fn dchar(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
/// the decimal representation of n
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![dchar(n)] } else { dec(n / 10).push(dchar(n % 10)) }
}
/// what integers are parsed from: digits, possibly after a plus
pub open spec fn int_text(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s }
}
pub open spec fn int_ok(s: Seq<char>, max: nat) -> bool {
    int_text(s).len() > 0 && digits(int_text(s)) && dec_val(int_text(s)) <= max
}

pub broadcast proof fn lemma_dec(n: nat)
    ensures #[trigger] dec(n).len() > 0, digits(dec(n)), dec_val(dec(n)) == n,
        dec(n)[0] == '0' ==> n == 0,
    decreases n
{
    if n < 10 {
        let e = dec(n).drop_last();
        assert(e =~= Seq::<char>::empty());
        assert(dec_val(e) == 0);
        assert(dec(n).last() == dchar(n));
    } else {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(dec(n)[0] == dec(n / 10)[0]);
    }
}

/// digits without a leading zero are the representation of their value
pub proof fn lemma_dec_inv(s: Seq<char>)
    requires digits(s), s.len() > 0, s[0] != '0'
    ensures dec(dec_val(s)) =~= s, dec_val(s) > 0
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(dec_val(s.drop_last()) == 0);
        assert(dec(dec_val(s)) =~= s);
    } else {
        let t = s.drop_last();
        assert(t[0] == s[0]);
        assert forall|i: int| 0 <= i < t.len() implies is_d(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_dec_inv(t);
        let v = dec_val(t);
        let d = dval(s.last());
        assert(is_d(s[s.len() - 1]));
        assert(dec_val(s) == v * 10 + d);
        assert((v * 10 + d) / 10 == v && (v * 10 + d) % 10 == d);
        assert(dec(dec_val(s)) == dec(v).push(dchar(d)));
        assert(dchar(d) == s.last());
        assert(s =~= t.push(s.last()));
    }
}

pub proof fn lemma_dec_val_bound(s: Seq<char>)
    requires digits(s)
    ensures dec_val(s) < pow10(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies is_d(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_dec_val_bound(t);
        assert(is_d(s[s.len() - 1]));
    }
}
pub open spec fn pow10(n: nat) -> nat
    decreases n
{
    if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) }
}

/// leading zeros do not count
pub proof fn lemma_dec_val_zero(s: Seq<char>)
    requires s.len() > 0, s[0] == '0'
    ensures dec_val(s) == dec_val(s.skip(1))
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(s.skip(1) =~= Seq::<char>::empty());
    } else {
        lemma_dec_val_zero(s.drop_last());
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    }
}
pub proof fn lemma_dec_val_zeros(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == '0'
    ensures dec_val(s) == dec_val(s.skip(k))
    decreases k
{
    if k == 0 {
        assert(s.skip(0) =~= s);
    } else {
        lemma_dec_val_zero(s);
        assert forall|i: int| 0 <= i < k - 1 implies s.skip(1)[i] == '0' by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_dec_val_zeros(s.skip(1), k - 1);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
    }
}

pub struct ParseIntError { pub p: Ghost<int> }
impl Clone for ParseIntError { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ParseIntError {}
#[derive(Clone, Copy)]
pub struct TryFromIntError { pub p: Ghost<int> }

#[verifier::external_body]
pub fn str_parse_u8(s: Str) -> (r: Result<u8, ParseIntError>)
    ensures r is Ok == int_ok(s@, u8::MAX as nat), r is Ok ==> r->Ok_0 as nat == dec_val(int_text(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_parse_u16(s: Str) -> (r: Result<u16, ParseIntError>)
    ensures r is Ok == int_ok(s@, u16::MAX as nat), r is Ok ==> r->Ok_0 as nat == dec_val(int_text(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_parse_u32(s: Str) -> (r: Result<u32, ParseIntError>)
    ensures r is Ok == int_ok(s@, u32::MAX as nat), r is Ok ==> r->Ok_0 as nat == dec_val(int_text(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_parse_u64(s: Str) -> (r: Result<u64, ParseIntError>)
    ensures r is Ok == int_ok(s@, u64::MAX as nat), r is Ok ==> r->Ok_0 as nat == dec_val(int_text(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_parse_usize(s: Str) -> (r: Result<usize, ParseIntError>)
    ensures r is Ok == int_ok(s@, usize::MAX as nat), r is Ok ==> r->Ok_0 as nat == dec_val(int_text(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_parse_bool(s: Str) -> (r: Result<bool, ext__std__str__ParseBoolError>)
    ensures r is Ok == (s@ =~= "true"@ || s@ =~= "false"@), r is Ok ==> r->Ok_0 == (s@ =~= "true"@)
{ unimplemented!() }

pub fn try_u8_usize(x: usize) -> (r: Result<u8, TryFromIntError>)
    ensures r is Ok == (x <= 255), r is Ok ==> r->Ok_0 == x
{ if x <= 255 { Ok(x as u8) } else { Err(TryFromIntError { p: Ghost(0) }) } }
pub fn try_u16_usize(x: usize) -> (r: Result<u16, TryFromIntError>)
    ensures r is Ok == (x <= 65535), r is Ok ==> r->Ok_0 == x
{ if x <= 65535 { Ok(x as u16) } else { Err(TryFromIntError { p: Ghost(0) }) } }
pub fn try_u16_u64(x: u64) -> (r: Result<u16, TryFromIntError>)
    ensures r is Ok == (x <= 65535), r is Ok ==> r->Ok_0 == x
{ if x <= 65535 { Ok(x as u16) } else { Err(TryFromIntError { p: Ghost(0) }) } }

// characters
pub open spec fn is_up(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_lo(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn is_al(c: char) -> bool { is_up(c) || is_lo(c) }
pub fn char_is_ascii_digit(c: char) -> (r: bool) ensures r == is_d(c) { '0' <= c && c <= '9' }
pub fn char_is_ascii_alphabetic(c: char) -> (r: bool) ensures r == is_al(c) { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub fn char_is_ascii_alphanumeric(c: char) -> (r: bool) ensures r == (is_al(c) || is_d(c)) { char_is_ascii_alphabetic(c) || char_is_ascii_digit(c) }
pub fn char_is_ascii_hexdigit(c: char) -> (r: bool) ensures r == (is_d(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'))
{ char_is_ascii_digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub fn char_is_ascii(c: char) -> (r: bool) ensures r == ((c as u32) < 0x80) { (c as u32) < 0x80 }
pub fn char_is_ascii_uppercase(c: char) -> (r: bool) ensures r == is_up(c) { 'A' <= c && c <= 'Z' }
pub fn char_is_ascii_lowercase(c: char) -> (r: bool) ensures r == is_lo(c) { 'a' <= c && c <= 'z' }
pub uninterp spec fn u_alpha(c: char) -> bool;
pub uninterp spec fn u_num(c: char) -> bool;
pub uninterp spec fn u_space(c: char) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_unicode(c: char)
    ensures (c as u32) < 0x80 ==> (#[trigger] u_alpha(c) == is_al(c)) && (#[trigger] u_num(c) == is_d(c))
{ }
#[verifier::external_body]
pub fn char_is_alphabetic(c: char) -> (r: bool) ensures r == u_alpha(c) { unimplemented!() }
#[verifier::external_body]
pub fn char_is_numeric(c: char) -> (r: bool) ensures r == u_num(c) { unimplemented!() }
#[verifier::external_body]
pub fn char_is_alphanumeric(c: char) -> (r: bool) ensures r == (u_alpha(c) || u_num(c)) { unimplemented!() }
#[verifier::external_body]
pub fn char_is_whitespace(c: char) -> (r: bool) ensures r == u_space(c) { unimplemented!() }
pub uninterp spec fn up1(c: char) -> char;
#[verifier::external_body]
pub broadcast proof fn axiom_up1(c: char)
    ensures !is_lo(c) ==> #[trigger] up1(c) == c, is_lo(c) ==> up1(c) as u32 == c as u32 - 32
{ }
#[verifier::external_body]
pub fn char_to_ascii_uppercase(c: char) -> (r: char) ensures r == up1(c) { unimplemented!() }


// less common functions of strings, sequences and integers
/// the number of trailing characters c
pub open spec fn trail(s: Seq<char>, c: char) -> nat
    decreases s.len()
{
    if s.len() > 0 && s.last() == c { 1 + trail(s.drop_last(), c) } else { 0 }
}
#[verifier::external_body]
pub fn str_trim_end_matches_char(a: Str, c: char) -> (r: Str)
    ensures trail(a@, c) <= a@.len(), r@ == a@.take(a@.len() - trail(a@, c)) { unimplemented!() }
pub uninterp spec fn trimmed_matches(s: Seq<char>, p: Seq<char>, end: bool) -> Seq<char>;
#[verifier::external_body]
pub fn str_trim_start_matches(a: Str, p: Str) -> (r: Str) ensures r@ == trimmed_matches(a@, p@, false) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_end_matches(a: Str, p: Str) -> (r: Str) ensures r@ == trimmed_matches(a@, p@, true) { unimplemented!() }
pub uninterp spec fn find_at(s: Seq<char>, p: Seq<char>, last: bool) -> int;
#[verifier::external_body]
pub fn str_find(a: Str, p: Str) -> (r: Option<usize>)
    ensures r is Some == contains_str(a@, p@),
        r is Some ==> 0 <= find_at(a@, p@, false) <= a@.len() && r->0 as nat == blen(a@.take(find_at(a@, p@, false))) && starts(a@.skip(find_at(a@, p@, false)), p@)
{ unimplemented!() }
#[verifier::external_body]
pub fn str_rfind(a: Str, p: Str) -> (r: Option<usize>)
    ensures r is Some == contains_str(a@, p@),
        r is Some ==> 0 <= find_at(a@, p@, true) <= a@.len() && r->0 as nat == blen(a@.take(find_at(a@, p@, true))) && starts(a@.skip(find_at(a@, p@, true)), p@)
{ unimplemented!() }
#[verifier::external_body]
pub fn str_rfind_char(a: Str, c: char) -> (r: Option<usize>)
    ensures r is Some == a@.contains(c),
        r is Some ==> exists|k: int| 0 <= k < a@.len() && #[trigger] a@[k] == c && r->0 as nat == blen(a@.take(k)) && !a@.skip(k + 1).contains(c)
{ unimplemented!() }
#[verifier::external_body]
pub fn str_replace_char(a: Str, c: char, t: Str) -> (r: Str) ensures r@ == replaced(a@, seq![c], t@) { unimplemented!() }
pub uninterp spec fn replacedn(s: Seq<char>, p: Seq<char>, t: Seq<char>, n: usize) -> Seq<char>;
#[verifier::external_body]
pub fn str_replacen(a: Str, p: Str, t: Str, n: usize) -> (r: Str) ensures r@ == replacedn(a@, p@, t@, n) { unimplemented!() }
#[verifier::external_body]
pub fn str_replacen_char(a: Str, c: char, t: Str, n: usize) -> (r: Str) ensures r@ == replacedn(a@, seq![c], t@, n) { unimplemented!() }
pub uninterp spec fn trimmed_side(s: Seq<char>, end: bool) -> Seq<char>;
#[verifier::external_body]
pub fn str_trim_start(a: Str) -> (r: Str) ensures r@ == trimmed_side(a@, false) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_end(a: Str) -> (r: Str) ensures r@ == trimmed_side(a@, true) { unimplemented!() }
pub uninterp spec fn uppercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn str_to_uppercase(a: Str) -> (r: Str) ensures r@ == uppercase(a@) { unimplemented!() }
pub uninterp spec fn lo1(c: char) -> char;
#[verifier::external_body]
pub broadcast proof fn axiom_lo1(c: char)
    ensures !is_up(c) ==> #[trigger] lo1(c) == c, is_up(c) ==> lo1(c) as u32 == c as u32 + 32
{ }
#[verifier::external_body]
pub fn char_to_ascii_lowercase(c: char) -> (r: char) ensures r == lo1(c) { unimplemented!() }
#[verifier::external_body]
pub fn str_to_ascii_uppercase(a: Str) -> (r: Str) ensures r@ == a@.map_values(|c: char| up1(c)) { unimplemented!() }
#[verifier::external_body]
pub fn str_to_ascii_lowercase(a: Str) -> (r: Str) ensures r@ == a@.map_values(|c: char| lo1(c)) { unimplemented!() }
#[verifier::external_body]
pub fn str_eq_ignore_ascii_case(a: Str, b: Str) -> (r: bool) ensures r == (a@.map_values(|c: char| lo1(c)) =~= b@.map_values(|c: char| lo1(c))) { unimplemented!() }
#[verifier::external_body]
pub fn str_is_char_boundary(a: Str, n: usize) -> (r: bool) ensures r == is_b(a@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_pop(a: &mut Str) -> (r: Option<char>)
    ensures old(a)@.len() == 0 ==> r is None && final(a)@ == old(a)@,
        old(a)@.len() > 0 ==> r == Some(old(a)@.last()) && final(a)@ == old(a)@.drop_last() { unimplemented!() }
#[verifier::external_body]
pub fn str_clear(a: &mut Str) ensures final(a)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn str_truncate(a: &mut Str, n: usize)
    @panics n <= blen(old(a)@) ==> is_b(old(a)@, n as int)
    ensures final(a)@ == (if n <= blen(old(a)@) { old(a)@.take(ci(old(a)@, n as int)) } else { old(a)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn str_split_off(a: &mut Str, n: usize) -> (r: Str)
    @panics is_b(old(a)@, n as int)
    ensures final(a)@ == old(a)@.take(ci(old(a)@, n as int)), r@ == old(a)@.skip(ci(old(a)@, n as int)), 0 <= ci(old(a)@, n as int) <= old(a)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn str_insert(a: &mut Str, n: usize, c: char)
    @panics is_b(old(a)@, n as int)
    ensures final(a)@ == old(a)@.take(ci(old(a)@, n as int)).push(c) + old(a)@.skip(ci(old(a)@, n as int)), 0 <= ci(old(a)@, n as int) <= old(a)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn str_insert_str(a: &mut Str, n: usize, t: Str)
    @panics is_b(old(a)@, n as int)
    ensures final(a)@ == old(a)@.take(ci(old(a)@, n as int)) + t@ + old(a)@.skip(ci(old(a)@, n as int)), 0 <= ci(old(a)@, n as int) <= old(a)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn str_repeat(a: Str, n: usize) -> (r: Str)
    ensures r@.len() == a@.len() * n, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a@[i % (a@.len() as int)],
        a@.len() == 1 ==> r@ == Seq::new(n as nat, |i: int| a@[0]) { unimplemented!() }
#[verifier::external_body]
pub fn char_to_digit(c: char, radix: u32) -> (r: Option<u32>)
    @panics 2 <= radix <= 36
    ensures radix == 10 ==> r is Some == is_d(c) && (r is Some ==> r->0 as nat == dval(c)) { unimplemented!() }
#[verifier::external_body]
pub fn char_is_digit(c: char, radix: u32) -> (r: bool)
    @panics 2 <= radix <= 36
    ensures radix == 10 ==> r == is_d(c) { unimplemented!() }
#[verifier::external_body]
pub fn char_len_utf8(c: char) -> (r: usize) ensures r as nat == blen(seq![c]) { unimplemented!() }
#[verifier::external_body]
pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }

pub fn u8_saturating_sub(a: u8, b: u8) -> (r: u8) ensures r as int == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn u8_saturating_add(a: u8, b: u8) -> (r: u8) ensures r as int == (if a + b <= u8::MAX { a + b } else { u8::MAX as int }) { if a <= u8::MAX - b { a + b } else { u8::MAX } }
pub fn u8_checked_sub(a: u8, b: u8) -> (r: Option<u8>) ensures r is Some == (a >= b), r is Some ==> r->0 == a - b { if a >= b { Some((a - b) as u8) } else { None } }
pub fn u8_checked_add(a: u8, b: u8) -> (r: Option<u8>) ensures r is Some == (a + b <= u8::MAX), r is Some ==> r->0 == a + b { if a <= u8::MAX - b { Some((a + b) as u8) } else { None } }
pub fn u8_abs_diff(a: u8, b: u8) -> (r: u8) ensures r as int == (if a >= b { a - b } else { b - a }) { if a >= b { a - b } else { b - a } }
#[verifier::external_body] pub fn u8_checked_mul(a: u8, b: u8) -> (r: Option<u8>) ensures r is Some == (a * b <= u8::MAX), r is Some ==> r->0 == a * b { unimplemented!() }
#[verifier::external_body] pub fn u8_wrapping_add(a: u8, b: u8) -> (r: u8) ensures r as int == (if a + b <= u8::MAX { a + b } else { a + b - u8::MAX - 1 }) { unimplemented!() }
#[verifier::external_body] pub fn u8_wrapping_sub(a: u8, b: u8) -> (r: u8) ensures r as int == (if a >= b { a - b } else { a - b + u8::MAX + 1 }) { unimplemented!() }

pub fn u16_saturating_sub(a: u16, b: u16) -> (r: u16) ensures r as int == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn u16_saturating_add(a: u16, b: u16) -> (r: u16) ensures r as int == (if a + b <= u16::MAX { a + b } else { u16::MAX as int }) { if a <= u16::MAX - b { a + b } else { u16::MAX } }
pub fn u16_checked_sub(a: u16, b: u16) -> (r: Option<u16>) ensures r is Some == (a >= b), r is Some ==> r->0 == a - b { if a >= b { Some((a - b) as u16) } else { None } }
pub fn u16_checked_add(a: u16, b: u16) -> (r: Option<u16>) ensures r is Some == (a + b <= u16::MAX), r is Some ==> r->0 == a + b { if a <= u16::MAX - b { Some((a + b) as u16) } else { None } }
pub fn u16_abs_diff(a: u16, b: u16) -> (r: u16) ensures r as int == (if a >= b { a - b } else { b - a }) { if a >= b { a - b } else { b - a } }
#[verifier::external_body] pub fn u16_checked_mul(a: u16, b: u16) -> (r: Option<u16>) ensures r is Some == (a * b <= u16::MAX), r is Some ==> r->0 == a * b { unimplemented!() }
#[verifier::external_body] pub fn u16_wrapping_add(a: u16, b: u16) -> (r: u16) ensures r as int == (if a + b <= u16::MAX { a + b } else { a + b - u16::MAX - 1 }) { unimplemented!() }
#[verifier::external_body] pub fn u16_wrapping_sub(a: u16, b: u16) -> (r: u16) ensures r as int == (if a >= b { a - b } else { a - b + u16::MAX + 1 }) { unimplemented!() }

pub fn u32_saturating_sub(a: u32, b: u32) -> (r: u32) ensures r as int == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn u32_saturating_add(a: u32, b: u32) -> (r: u32) ensures r as int == (if a + b <= u32::MAX { a + b } else { u32::MAX as int }) { if a <= u32::MAX - b { a + b } else { u32::MAX } }
pub fn u32_checked_sub(a: u32, b: u32) -> (r: Option<u32>) ensures r is Some == (a >= b), r is Some ==> r->0 == a - b { if a >= b { Some((a - b) as u32) } else { None } }
pub fn u32_checked_add(a: u32, b: u32) -> (r: Option<u32>) ensures r is Some == (a + b <= u32::MAX), r is Some ==> r->0 == a + b { if a <= u32::MAX - b { Some((a + b) as u32) } else { None } }
pub fn u32_abs_diff(a: u32, b: u32) -> (r: u32) ensures r as int == (if a >= b { a - b } else { b - a }) { if a >= b { a - b } else { b - a } }
#[verifier::external_body] pub fn u32_checked_mul(a: u32, b: u32) -> (r: Option<u32>) ensures r is Some == (a * b <= u32::MAX), r is Some ==> r->0 == a * b { unimplemented!() }
#[verifier::external_body] pub fn u32_wrapping_add(a: u32, b: u32) -> (r: u32) ensures r as int == (if a + b <= u32::MAX { a + b } else { a + b - u32::MAX - 1 }) { unimplemented!() }
#[verifier::external_body] pub fn u32_wrapping_sub(a: u32, b: u32) -> (r: u32) ensures r as int == (if a >= b { a - b } else { a - b + u32::MAX + 1 }) { unimplemented!() }

pub fn u64_saturating_sub(a: u64, b: u64) -> (r: u64) ensures r as int == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn u64_saturating_add(a: u64, b: u64) -> (r: u64) ensures r as int == (if a + b <= u64::MAX { a + b } else { u64::MAX as int }) { if a <= u64::MAX - b { a + b } else { u64::MAX } }
pub fn u64_checked_sub(a: u64, b: u64) -> (r: Option<u64>) ensures r is Some == (a >= b), r is Some ==> r->0 == a - b { if a >= b { Some((a - b) as u64) } else { None } }
pub fn u64_checked_add(a: u64, b: u64) -> (r: Option<u64>) ensures r is Some == (a + b <= u64::MAX), r is Some ==> r->0 == a + b { if a <= u64::MAX - b { Some((a + b) as u64) } else { None } }
pub fn u64_abs_diff(a: u64, b: u64) -> (r: u64) ensures r as int == (if a >= b { a - b } else { b - a }) { if a >= b { a - b } else { b - a } }
#[verifier::external_body] pub fn u64_checked_mul(a: u64, b: u64) -> (r: Option<u64>) ensures r is Some == (a * b <= u64::MAX), r is Some ==> r->0 == a * b { unimplemented!() }
#[verifier::external_body] pub fn u64_wrapping_add(a: u64, b: u64) -> (r: u64) ensures r as int == (if a + b <= u64::MAX { a + b } else { a + b - u64::MAX - 1 }) { unimplemented!() }
#[verifier::external_body] pub fn u64_wrapping_sub(a: u64, b: u64) -> (r: u64) ensures r as int == (if a >= b { a - b } else { a - b + u64::MAX + 1 }) { unimplemented!() }

pub fn usize_saturating_sub(a: usize, b: usize) -> (r: usize) ensures r as int == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn usize_saturating_add(a: usize, b: usize) -> (r: usize) ensures r as int == (if a + b <= usize::MAX { a + b } else { usize::MAX as int }) { if a <= usize::MAX - b { a + b } else { usize::MAX } }
pub fn usize_checked_sub(a: usize, b: usize) -> (r: Option<usize>) ensures r is Some == (a >= b), r is Some ==> r->0 == a - b { if a >= b { Some((a - b) as usize) } else { None } }
pub fn usize_checked_add(a: usize, b: usize) -> (r: Option<usize>) ensures r is Some == (a + b <= usize::MAX), r is Some ==> r->0 == a + b { if a <= usize::MAX - b { Some((a + b) as usize) } else { None } }
pub fn usize_abs_diff(a: usize, b: usize) -> (r: usize) ensures r as int == (if a >= b { a - b } else { b - a }) { if a >= b { a - b } else { b - a } }
#[verifier::external_body] pub fn usize_checked_mul(a: usize, b: usize) -> (r: Option<usize>) ensures r is Some == (a * b <= usize::MAX), r is Some ==> r->0 == a * b { unimplemented!() }
#[verifier::external_body] pub fn usize_wrapping_add(a: usize, b: usize) -> (r: usize) ensures r as int == (if a + b <= usize::MAX { a + b } else { a + b - usize::MAX - 1 }) { unimplemented!() }
#[verifier::external_body] pub fn usize_wrapping_sub(a: usize, b: usize) -> (r: usize) ensures r as int == (if a >= b { a - b } else { a - b + usize::MAX + 1 }) { unimplemented!() }

// ---------------------------------------------------------------- sequences

#[verifier::reject_recursive_types(T)]
pub struct SeqV<T> { pub s: Ghost<Seq<T>> }
impl<T> Clone for SeqV<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for SeqV<T> {}
impl<T> View for SeqV<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.s@ } }

#[verifier::external_body]
pub fn seq_new<T>() -> (r: SeqV<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn seq_len<T>(s: SeqV<T>) -> (r: usize) ensures r as nat == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn seq_is_empty<T>(s: SeqV<T>) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn seq_eq<T>(a: SeqV<T>, b: SeqV<T>) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }
#[verifier::external_body]
pub fn seq_index<T>(s: SeqV<T>, i: usize) -> (r: T)
    @panics i < s@.len()
    ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn seq_get<T>(s: SeqV<T>, i: usize) -> (r: Option<T>)
    ensures r == (if i < s@.len() { Some(s@[i as int]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn seq_first<T>(s: SeqV<T>) -> (r: Option<T>)
    ensures r == (if 0 < s@.len() { Some(s@[0]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn seq_last<T>(s: SeqV<T>) -> (r: Option<T>)
    ensures r == (if 0 < s@.len() { Some(s@[s@.len() - 1]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn seq_contains<T>(s: SeqV<T>, x: T) -> (r: bool) ensures r == s@.contains(x) { unimplemented!() }
#[verifier::external_body]
pub fn seq_push<T>(s: &mut SeqV<T>, x: T) ensures final(s)@ == old(s)@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn seq_pop<T>(s: &mut SeqV<T>) -> (r: Option<T>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
        old(s)@.len() > 0 ==> r == Some(old(s)@.last()) && final(s)@ == old(s)@.drop_last() { unimplemented!() }
#[verifier::external_body]
pub fn seq_insert<T>(s: &mut SeqV<T>, i: usize, x: T)
    @panics i <= old(s)@.len()
    ensures final(s)@ == old(s)@.insert(i as int, x), i == old(s)@.len() ==> final(s)@ == old(s)@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn seq_extend_from_slice<T>(s: &mut SeqV<T>, t: SeqV<T>) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn seq_from<T>(s: SeqV<T>, n: usize) -> (r: SeqV<T>)
    @panics n <= s@.len()
    ensures r@ == s@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn seq_to<T>(s: SeqV<T>, n: usize) -> (r: SeqV<T>)
    @panics n <= s@.len()
    ensures r@ == s@.take(n as int) { unimplemented!() }
pub open spec fn increasing(s: Seq<u16>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn nodup(s: Seq<u16>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
/// sorting only rearranges
#[verifier::external_body]
pub fn seq_sort_unstable(s: &mut SeqV<u16>)
    ensures final(s)@.len() == old(s)@.len(), nodup(old(s)@) ==> increasing(final(s)@),
        forall|x: u16| #[trigger] final(s)@.contains(x) == old(s)@.contains(x),
        forall|i: int, j: int| 0 <= i <= j < final(s)@.len() ==> final(s)@[i] <= final(s)@[j]
{ unimplemented!() }

/// sorting only rearranges
#[verifier::external_body]
pub fn seq_sort(s: &mut SeqV<u16>)
    ensures final(s)@.len() == old(s)@.len(), nodup(old(s)@) ==> increasing(final(s)@),
        forall|x: u16| #[trigger] final(s)@.contains(x) == old(s)@.contains(x),
        forall|i: int, j: int| 0 <= i <= j < final(s)@.len() ==> final(s)@[i] <= final(s)@[j]
{ unimplemented!() }
#[verifier::external_body]
pub fn seq_clear<T>(s: &mut SeqV<T>) ensures final(s)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn seq_reverse<T>(s: &mut SeqV<T>) ensures final(s)@ == old(s)@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn seq_truncate<T>(s: &mut SeqV<T>, n: usize) ensures final(s)@ == (if n <= old(s)@.len() { old(s)@.take(n as int) } else { old(s)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn seq_append<T>(s: &mut SeqV<T>, t: &mut SeqV<T>) ensures final(s)@ == old(s)@ + old(t)@, final(t)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn seq_remove<T>(s: &mut SeqV<T>, i: usize) -> (r: T)
    @panics i < old(s)@.len()
    ensures r == old(s)@[i as int], final(s)@ == old(s)@.remove(i as int) { unimplemented!() }
#[verifier::external_body]
pub fn seq_swap<T>(s: &mut SeqV<T>, i: usize, j: usize)
    @panics i < old(s)@.len() && j < old(s)@.len()
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]) { unimplemented!() }
/// of a sequence that is not sorted the result says nothing
#[verifier::external_body]
pub fn seq_binary_search(s: SeqV<u16>, x: u16) -> (r: Result<usize, usize>)
    ensures r is Ok ==> r->Ok_0 < s@.len() && s@[r->Ok_0 as int] == x && s@.contains(x), r is Err ==> r->Err_0 <= s@.len(),
        increasing(s@) ==> r is Ok == s@.contains(x) { unimplemented!() }
/// removes neighbours that are equal
#[verifier::external_body]
pub fn seq_dedup(s: &mut SeqV<u16>)
    ensures final(s)@.len() <= old(s)@.len(), forall|x: u16| #[trigger] final(s)@.contains(x) == old(s)@.contains(x),
        (forall|i: int, j: int| 0 <= i <= j < old(s)@.len() ==> old(s)@[i] <= old(s)@[j]) ==> increasing(final(s)@)
{ unimplemented!() }

// ---------------------------------------------------------------- iterators

#[verifier::reject_recursive_types(T)]
pub struct It<T> { pub s: Ghost<Seq<T>> }
impl<T> Clone for It<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for It<T> {}
impl<T> View for It<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.s@ } }

#[verifier::external_body]
pub fn seq_iter<T>(s: SeqV<T>) -> (r: It<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn seq_into_iter<T>(s: SeqV<T>) -> (r: It<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn it_next<T>(i: &mut It<T>) -> (r: Option<T>)
    ensures r is Some == (old(i)@.len() > 0), r is Some ==> r->0 == old(i)@[0] && final(i)@ == old(i)@.skip(1), r is None ==> final(i)@ == old(i)@
{ unimplemented!() }
#[verifier::external_body]
pub fn it_skip<T>(i: It<T>, n: usize) -> (r: It<T>)
    ensures r@ == (if n <= i@.len() { i@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn it_rev<T>(i: It<T>) -> (r: It<T>) ensures r@ == i@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn it_collect<T>(i: It<T>) -> (r: SeqV<T>) ensures r@ == i@ { unimplemented!() }
#[verifier::external_body]
pub fn it_count<T>(i: It<T>) -> (r: usize) ensures r as nat == i@.len() { unimplemented!() }
#[verifier::external_body]
pub fn it_last<T>(i: It<T>) -> (r: Option<T>)
    ensures r == (if 0 < i@.len() { Some(i@[i@.len() - 1]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn it_nth<T>(i: &mut It<T>, n: usize) -> (r: Option<T>)
    ensures r == (if n < old(i)@.len() { Some(old(i)@[n as int]) } else { None }),
        final(i)@ == (if n < old(i)@.len() { old(i)@.skip(n + 1) } else { Seq::empty() }) { unimplemented!() }
/// the Some elements, in order
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s[0] is Some { seq![s[0]->0] + somes(s.skip(1)) } else { somes(s.skip(1)) }
}
#[verifier::external_body]
pub fn it_flatten<T>(i: It<Option<T>>) -> (r: It<T>) ensures r@ == somes(i@) { unimplemented!() }
/// more than usize::MAX elements do not fit into memory
#[verifier::external_body]
pub fn count_up(n: usize) -> (r: usize) ensures r as int == n + 1 { unimplemented!() }

pub struct RangeV<T> { pub start: T, pub end: T }
impl<T: Copy> Clone for RangeV<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Copy> Copy for RangeV<T> {}
pub struct RangeInc<T> { pub start: T, pub end: T, pub done: bool }
impl<T: Copy> Clone for RangeInc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Copy> Copy for RangeInc<T> {}

pub trait Step: Sized + Copy {
    spec fn sv(self) -> int;
    fn lt_(a: Self, b: Self) -> (r: bool) ensures r == (a.sv() < b.sv());
    fn inc_(a: Self, b: Self) -> (r: Self) requires a.sv() < b.sv() ensures r.sv() == a.sv() + 1;
}
impl Step for u8 {
    open spec fn sv(self) -> int { self as int }
    fn lt_(a: u8, b: u8) -> (r: bool) { a < b }
    fn inc_(a: u8, b: u8) -> (r: u8) { (a + 1) as u8 }
}
impl Step for u16 {
    open spec fn sv(self) -> int { self as int }
    fn lt_(a: u16, b: u16) -> (r: bool) { a < b }
    fn inc_(a: u16, b: u16) -> (r: u16) { (a + 1) as u16 }
}
impl Step for u32 {
    open spec fn sv(self) -> int { self as int }
    fn lt_(a: u32, b: u32) -> (r: bool) { a < b }
    fn inc_(a: u32, b: u32) -> (r: u32) { (a + 1) as u32 }
}
impl Step for u64 {
    open spec fn sv(self) -> int { self as int }
    fn lt_(a: u64, b: u64) -> (r: bool) { a < b }
    fn inc_(a: u64, b: u64) -> (r: u64) { (a + 1) as u64 }
}
impl Step for usize {
    open spec fn sv(self) -> int { self as int }
    fn lt_(a: usize, b: usize) -> (r: bool) { a < b }
    fn inc_(a: usize, b: usize) -> (r: usize) { (a + 1) as usize }
}
pub fn range_next<T: Step>(r: &mut RangeV<T>) -> (x: Option<T>)
    ensures final(r).end == old(r).end, x is Some == (old(r).start.sv() < old(r).end.sv()),
        x is Some ==> x->0 == old(r).start && final(r).start.sv() == old(r).start.sv() + 1,
        x is None ==> final(r).start == old(r).start
{
    if T::lt_(r.start, r.end) { let v = r.start; r.start = T::inc_(r.start, r.end); Some(v) } else { None }
}
pub fn range_inc_next<T: Step>(r: &mut RangeInc<T>) -> (x: Option<T>)
    ensures final(r).end == old(r).end,
        x is Some == (!old(r).done && old(r).start.sv() <= old(r).end.sv()),
        x is Some ==> x->0 == old(r).start && (final(r).done == (old(r).start.sv() >= old(r).end.sv()))
            && (!final(r).done ==> final(r).start.sv() == old(r).start.sv() + 1) && (final(r).done ==> final(r).start == old(r).start),
        x is None ==> final(r).start == old(r).start && final(r).done == old(r).done
{
    if r.done || T::lt_(r.end, r.start) { None } else {
        let v = r.start;
        if T::lt_(r.start, r.end) { r.start = T::inc_(r.start, r.end); } else { r.done = true; }
        Some(v)
    }
}

// --------------------------------------------------------------------- maps

#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapV<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> Clone for MapV<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K, V> Copy for MapV<K, V> {}
impl<K, V> View for MapV<K, V> { type V = Map<K, V>; open spec fn view(&self) -> Map<K, V> { self.m@ } }

pub open spec fn lookup<K, V>(m: Map<K, V>, k: K) -> Option<V> {
    if m.dom().contains(k) { Some(m[k]) } else { None }
}
pub open spec fn pairs_onto<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len()
{
    if s.len() == 0 { m } else { pairs_onto(m, s.drop_last()).insert(s.last().0, s.last().1) }
}
#[verifier::external_body]
pub fn map_new<K, V>() -> (r: MapV<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn map_get<K, V>(m: MapV<K, V>, k: K) -> (r: Option<V>) ensures r == lookup(m@, k) { unimplemented!() }
#[verifier::external_body]
pub fn map_contains_key<K, V>(m: MapV<K, V>, k: K) -> (r: bool) ensures r == m@.dom().contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_index<K, V>(m: MapV<K, V>, k: K) -> (r: V)
    @panics m@.dom().contains(k)
    ensures r == m@[k] { unimplemented!() }
#[verifier::external_body]
pub fn map_insert<K, V>(m: &mut MapV<K, V>, k: K, v: V) -> (r: Option<V>)
    ensures final(m)@ == old(m)@.insert(k, v), r == lookup(old(m)@, k) { unimplemented!() }
#[verifier::external_body]
pub fn map_entry_or<K, V>(m: &mut MapV<K, V>, k: K, d: V) -> (r: &mut V)
    ensures *r == (if old(m)@.dom().contains(k) { old(m)@[k] } else { d }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
#[verifier::external_body]
pub fn map_from_iter<K, V>(i: It<(K, V)>) -> (r: MapV<K, V>) ensures r@ == pairs_onto(Map::empty(), i@) { unimplemented!() }
#[verifier::external_body]
pub fn map_extend<K, V>(m: &mut MapV<K, V>, i: It<(K, V)>) ensures final(m)@ == pairs_onto(old(m)@, i@) { unimplemented!() }
#[verifier::external_body]
pub fn map_iter<K, V>(m: MapV<K, V>) -> (r: It<(K, V)>)
    ensures forall|b: Map<K, V>| #[trigger] pairs_onto(b, r@) == b.union_prefer_right(m@) { unimplemented!() }
#[verifier::external_body]
pub fn map_keys<K, V>(m: MapV<K, V>) -> (r: It<K>)
    ensures forall|k: K| #[trigger] r@.contains(k) == m@.dom().contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_values<K, V>(m: MapV<K, V>) -> (r: It<V>)
    ensures forall|v: V| #[trigger] r@.contains(v) == (exists|k: K| m@.dom().contains(k) && m@[k] == v) { unimplemented!() }

#[derive(Clone, Copy)]
pub enum Either<A, B> { Left(A), Right(B) }

// --------------------------------------------------------------- formatting

#[derive(Clone, Copy)]
pub struct FmtError;
/// where formatted text goes.  `total`: a String, writing to it cannot fail
pub struct Fmt { pub s: Ghost<Seq<char>>, pub total: Ghost<bool> }
impl Clone for Fmt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Fmt {}
impl View for Fmt { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }

pub open spec fn wrote(a: Fmt, b: Fmt, r: Result<(), FmtError>, t: Seq<char>) -> bool {
    b.total@ == a.total@ && (a.total@ ==> r is Ok) && (r is Ok ==> b@ == a@ + t)
}
#[verifier::external_body]
pub fn fmt_new() -> (r: Fmt) ensures r.total@, r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn fmt_finish(f: Fmt) -> (r: Str) ensures r@ == f@ { unimplemented!() }
#[verifier::external_body]
pub fn fmt_str(f: &mut Fmt, s: Str) -> (r: Result<(), FmtError>) ensures wrote(*old(f), *final(f), r, s@) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_char(f: &mut Fmt, c: char) -> (r: Result<(), FmtError>) ensures wrote(*old(f), *final(f), r, seq![c]) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_uint(f: &mut Fmt, n: u64) -> (r: Result<(), FmtError>) ensures wrote(*old(f), *final(f), r, dec(n as nat)) { unimplemented!() }
#[verifier::external_body]
pub fn buf_str(f: &mut Fmt, s: Str) ensures final(f)@ == old(f)@ + s@, final(f).total@ == old(f).total@ { unimplemented!() }
#[verifier::external_body]
pub fn buf_char(f: &mut Fmt, c: char) ensures final(f)@ == old(f)@.push(c), final(f).total@ == old(f).total@ { unimplemented!() }
#[verifier::external_body]
pub fn buf_uint(f: &mut Fmt, n: u64) ensures final(f)@ == old(f)@ + dec(n as nat), final(f).total@ == old(f).total@ { unimplemented!() }

pub enum HashEv { U(nat), I(int), S(Seq<char>) }
/// what has been fed to the hasher
pub struct HasherV { pub s: Ghost<Seq<HashEv>> }
impl View for HasherV { type V = Seq<HashEv>; open spec fn view(&self) -> Seq<HashEv> { self.s@ } }
#[verifier::external_body]
pub fn hasher_uint(h: &mut HasherV, n: u64) ensures final(h)@ == old(h)@.push(HashEv::U(n as nat)) { unimplemented!() }
#[verifier::external_body]
pub fn hasher_int(h: &mut HasherV, n: i64) ensures final(h)@ == old(h)@.push(HashEv::I(n as int)) { unimplemented!() }
#[verifier::external_body]
pub fn hasher_str(h: &mut HasherV, s: Str) ensures final(h)@ == old(h)@.push(HashEv::S(s@)) { unimplemented!() }

// -------------------------------------------------------------------- regex

pub struct Re { pub pat: Seq<char>, pub ws: bool, pub ic: bool }
/// a compiled regular expression is its pattern and its flags
pub struct Regex { pub r: Ghost<Re> }
impl Clone for Regex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Regex {}
impl View for Regex { type V = Re; open spec fn view(&self) -> Re { self.r@ } }
/// the pattern compiles
pub uninterp spec fn re_valid(r: Re) -> bool;
/// number of groups, the whole match included
pub uninterp spec fn re_groups(r: Re) -> nat;
/// the leftmost match: the group spans, in characters
pub uninterp spec fn re_caps(r: Re, s: Seq<char>) -> Option<Seq<Option<(int, int)>>>;
pub open spec fn re_find(r: Re, s: Seq<char>) -> Option<(int, int)> {
    match re_caps(r, s) { Some(c) => c[0], None => None }
}
pub open spec fn re_match(r: Re, s: Seq<char>) -> bool { re_caps(r, s) is Some }
/// the whole string is matched
pub open spec fn span_ok(s: Seq<char>, p: Option<(int, int)>) -> bool {
    p is Some ==> 0 <= (p->0).0 <= (p->0).1 <= s.len()
}
#[verifier::external_body]
pub broadcast proof fn axiom_caps(r: Re, s: Seq<char>)
    ensures (#[trigger] re_caps(r, s)) is Some ==> {
        let c = re_caps(r, s)->0;
        &&& c.len() == re_groups(r) &&& c.len() >= 1 &&& c[0] is Some
        &&& forall|i: int| 0 <= i < c.len() ==> span_ok(s, #[trigger] c[i])
    }
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_groups(r: Re) ensures #[trigger] re_groups(r) >= 1 { }
/// the replacement template expanded for a match
pub uninterp spec fn expand(s: Seq<char>, c: Seq<Option<(int, int)>>, t: Seq<char>) -> Seq<char>;
pub uninterp spec fn re_replace_all(r: Re, s: Seq<char>, t: Seq<char>) -> Seq<char>;
pub open spec fn re_replace(r: Re, s: Seq<char>, t: Seq<char>) -> Seq<char> {
    match re_caps(r, s) {
        None => s,
        Some(c) => s.take((c[0]->0).0) + expand(s, c, t) + s.skip((c[0]->0).1),
    }
}

#[derive(Clone, Copy)]
pub struct Match { pub h: Ghost<Seq<char>>, pub a: Ghost<int>, pub b: Ghost<int> }
pub open spec fn match_of(h: Seq<char>, p: (int, int)) -> Match { Match { h: Ghost(h), a: Ghost(p.0), b: Ghost(p.1) } }
#[derive(Clone, Copy)]
pub struct Captures { pub h: Ghost<Seq<char>>, pub c: Ghost<Seq<Option<(int, int)>>> }

#[verifier::external_body]
pub fn regex_new(s: Str) -> (r: Result<Regex, ext__regex__Error>)
    ensures r is Ok == re_valid(Re { pat: s@, ws: false, ic: false }), r is Ok ==> r->Ok_0@ == (Re { pat: s@, ws: false, ic: false }) { unimplemented!() }
#[verifier::external_body]
pub fn regex_as_str(r: Regex) -> (s: Str) ensures s@ == r@.pat { unimplemented!() }
#[verifier::external_body]
pub fn regex_captures_len(r: Regex) -> (n: usize) ensures n as nat == re_groups(r@) { unimplemented!() }
#[verifier::external_body]
pub fn regex_find(r: Regex, s: Str) -> (m: Option<Match>)
    ensures m is Some == re_match(r@, s@), m is Some ==> m->0 == match_of(s@, (re_caps(r@, s@)->0)[0]->0) { unimplemented!() }
#[verifier::external_body]
pub fn regex_is_match(r: Regex, s: Str) -> (m: bool) ensures m == re_match(r@, s@) { unimplemented!() }
#[verifier::external_body]
pub fn regex_captures(r: Regex, s: Str) -> (m: Option<Captures>)
    ensures m is Some == re_match(r@, s@), m is Some ==> m->0.h@ == s@ && m->0.c@ == re_caps(r@, s@)->0 { unimplemented!() }
#[verifier::external_body]
pub fn regex_replace(r: Regex, s: Str, t: Str) -> (o: Str) ensures o@ == re_replace(r@, s@, t@) { unimplemented!() }
#[verifier::external_body]
pub fn regex_replace_all(r: Regex, s: Str, t: Str) -> (o: Str) ensures o@ == re_replace_all(r@, s@, t@) { unimplemented!() }
#[verifier::external_body]
pub fn match_start(m: Match) -> (r: usize) ensures r as nat == blen(m.h@.take(m.a@)) { unimplemented!() }
#[verifier::external_body]
pub fn match_end(m: Match) -> (r: usize) ensures r as nat == blen(m.h@.take(m.b@)) { unimplemented!() }
#[verifier::external_body]
pub fn match_as_str(m: Match) -> (r: Str) ensures r@ == m.h@.subrange(m.a@, m.b@) { unimplemented!() }
#[verifier::external_body]
pub fn captures_len(c: Captures) -> (r: usize) ensures r as nat == c.c@.len() { unimplemented!() }
pub open spec fn cap_at(h: Seq<char>, c: Seq<Option<(int, int)>>, i: int) -> Option<Match> {
    if 0 <= i < c.len() && c[i] is Some { Some(match_of(h, c[i]->0)) } else { None }
}
#[verifier::external_body]
pub fn captures_get(c: Captures, i: usize) -> (r: Option<Match>) ensures r == cap_at(c.h@, c.c@, i as int) { unimplemented!() }
#[verifier::external_body]
pub fn captures_iter(c: Captures) -> (r: It<Option<Match>>)
    ensures r@ == Seq::new(c.c@.len(), |i: int| cap_at(c.h@, c.c@, i)) { unimplemented!() }
/// a builder under construction
pub uninterp spec fn rb_re(b: ext__regex__RegexBuilder) -> Re;
#[verifier::external_body]
pub fn rb_new(s: Str) -> (r: ext__regex__RegexBuilder) ensures rb_re(r) == (Re { pat: s@, ws: false, ic: false }) { unimplemented!() }
#[verifier::external_body]
pub fn rb_ignore_whitespace(b: ext__regex__RegexBuilder, y: bool) -> (r: ext__regex__RegexBuilder)
    ensures rb_re(r) == (Re { ws: y, ..rb_re(b) }) { unimplemented!() }
#[verifier::external_body]
pub fn rb_case_insensitive(b: ext__regex__RegexBuilder, y: bool) -> (r: ext__regex__RegexBuilder)
    ensures rb_re(r) == (Re { ic: y, ..rb_re(b) }) { unimplemented!() }
#[verifier::external_body]
pub fn rb_build(b: ext__regex__RegexBuilder) -> (r: Result<Regex, ext__regex__Error>)
    ensures r is Ok == re_valid(rb_re(b)), r is Ok ==> r->Ok_0@ == rb_re(b) { unimplemented!() }

// ---------------------------------------------------------------------- nom

#[derive(Clone, Copy)]
pub struct NomE;
#[derive(Clone, Copy)]
pub enum NomErr { Error(NomE), Failure(NomE), Incomplete(NomE) }
pub fn nom_error() -> (r: NomE) ensures r == NomE { NomE }
/// i starts with t
#[verifier::external_body]
pub fn nom_tag(t: Str, i: Str) -> (r: Result<(Str, Str), NomErr>)
    ensures r is Ok == starts(i@, t@), r is Ok ==> r->Ok_0.0@ == i@.skip(t@.len() as int) && r->Ok_0.1@ == t@,
        r is Err ==> r->Err_0 is Error { unimplemented!() }
/// equal but for case
pub uninterp spec fn ieq(a: char, b: char) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_ieq(a: char, b: char)
    ensures (a as u32) < 0x80 && (b as u32) < 0x80 ==> #[trigger] ieq(a, b) == (a == b || (is_al(a) && is_al(b) && (a as u32 + 32 == b as u32 || b as u32 + 32 == a as u32))),
        a == '\u{ff0b}' && (b as u32) < 0x80 ==> !ieq(a, b)
{ }
pub open spec fn istarts(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> ieq(#[trigger] s[i], p[i])
}
#[verifier::external_body]
pub fn nom_tag_no_case(t: Str, i: Str) -> (r: Result<(Str, Str), NomErr>)
    ensures r is Ok == istarts(i@, t@), r is Ok ==> r->Ok_0.0@ == i@.skip(t@.len() as int) && r->Ok_0.1@ == i@.take(t@.len() as int),
        r is Err ==> r->Err_0 is Error { unimplemented!() }

pub broadcast group g_prelude {
    lemma_ascii_blen, lemma_ascii_b, lemma_ascii_ci, lemma_digits_ascii, lemma_blen_zero, lemma_starts_b, axiom_utf8, axiom_unicode,
    lemma_dec, axiom_caps, axiom_groups, axiom_ieq, axiom_up1, axiom_lo1,
}

// ---------------------------------------------------------------- XML (quick_xml)
// A reader is the events that it still holds; a read takes the first, and past the last one
// the end of the file is read. Attributes of a tag are its attributes in order.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct XmlSource { _p: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PathV { _p: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct XmlOther { _p: usize }
#[derive(Clone, Copy)]
pub struct XmlTag { pub name: SeqV<u8>, pub attrs: SeqV<Result<XmlAttr, ext__quick_xml__events__attributes__AttrError>> }
#[derive(Clone, Copy)]
pub struct XmlText { pub t: SeqV<u8> }
#[derive(Clone, Copy)]
pub struct XmlAttr { pub key: SeqV<u8>, pub value: SeqV<u8> }
#[derive(Clone, Copy)]
pub enum XmlEvent {
    Start(XmlTag), End(XmlTag), Empty(XmlTag), Text(XmlText), CData(XmlOther), Comment(XmlText), Decl(XmlOther),
    PI(XmlOther), DocType(XmlText), GeneralRef(XmlOther), Eof,
}
pub type XmlItem = Result<XmlEvent, ext__quick_xml__Error>;
pub struct XmlReader { pub ev: Ghost<Seq<XmlItem>> }
impl View for XmlReader { type V = Seq<XmlItem>; open spec fn view(&self) -> Seq<XmlItem> { self.ev@ } }
pub uninterp spec fn xml_events(s: XmlSource) -> Seq<XmlItem>;
#[verifier::external_body]
pub fn xml_reader(s: XmlSource) -> (r: XmlReader) ensures r@ == xml_events(s) { unimplemented!() }
#[verifier::external_body]
pub fn xml_next(r: &mut XmlReader) -> (x: XmlItem)
    ensures
        old(r)@.len() > 0 ==> x == old(r)@[0] && final(r)@ == old(r)@.drop_first(),
        old(r)@.len() == 0 ==> x == Ok::<XmlEvent, ext__quick_xml__Error>(XmlEvent::Eof) && final(r)@ == old(r)@,
{ unimplemented!() }
#[verifier::external_body]
pub fn xml_name(t: XmlTag) -> (r: SeqV<u8>) ensures r == t.name { unimplemented!() }
#[verifier::external_body]
pub fn xml_attributes(t: XmlTag) -> (r: It<Result<XmlAttr, ext__quick_xml__events__attributes__AttrError>>) ensures r@ == t.attrs@ { unimplemented!() }
#[verifier::external_body]
pub fn xml_text_bytes(t: XmlText) -> (r: SeqV<u8>) ensures r == t.t { unimplemented!() }
#[verifier::external_body]
pub fn xml_error() -> (r: ext__quick_xml__Error) { unimplemented!() }
/// what a text holds, and what a file holds
pub uninterp spec fn text_source(s: Seq<char>) -> XmlSource;
pub uninterp spec fn file_source(f: ext__std__fs__File) -> XmlSource;
#[verifier::external_body]
pub fn xml_source_text(s: Str) -> (r: XmlSource) ensures r == text_source(s@) { unimplemented!() }
#[verifier::external_body]
pub fn xml_source_file(s: ext__std__fs__File) -> (r: XmlSource) ensures r == file_source(s) { unimplemented!() }
#[verifier::external_body]
pub fn file_open(p: PathV) -> (r: Result<ext__std__fs__File, ext__std__io__Error>) { unimplemented!() }
/// the bytes of an embedded file
#[verifier::external_body]
pub fn some_bytes() -> (r: SeqV<u8>) { unimplemented!() }
/// some value of an external type
#[verifier::external_body]
pub fn ext_val<T>() -> (r: T) { unimplemented!() }
/// any value: what is decoded is not constrained
#[verifier::external_body]
pub fn postcard_from_bytes<T>(b: SeqV<u8>) -> (r: Result<T, ext__postcard__Error>) { unimplemented!() }
/// the text of a value's Debug
#[verifier::external_body]
pub fn debug_text() -> (r: Str) { unimplemented!() }
#[verifier::external_body]
pub fn str_from_utf8(b: SeqV<u8>) -> (r: Result<Str, ext__std__str__Utf8Error>)
    ensures r is Ok == utf8_dec(b@) is Some, r is Ok ==> utf8_dec(b@) == Some((r->Ok_0)@) && utf8((r->Ok_0)@) == b@
{ unimplemented!() }
