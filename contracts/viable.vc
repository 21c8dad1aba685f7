// C12: the viability test; the character classes of the parser
spec
/// the digit a character stands for: ASCII and fourteen other scripts
pub open spec fn ddv(c: char) -> int {
    let n = c as u32;
    if '0' <= c && c <= '9' { n - 0x30 }
    else if 0x660 <= n <= 0x669 { n - 0x660 } else if 0x6f0 <= n <= 0x6f9 { n - 0x6f0 } else if 0x7c0 <= n <= 0x7c9 { n - 0x7c0 }
    else if 0x966 <= n <= 0x96f { n - 0x966 } else if 0x9e6 <= n <= 0x9ef { n - 0x9e6 } else if 0xa66 <= n <= 0xa6f { n - 0xa66 }
    else if 0xae6 <= n <= 0xaef { n - 0xae6 } else if 0xb66 <= n <= 0xb6f { n - 0xb66 } else if 0xbe6 <= n <= 0xbef { n - 0xbe6 }
    else if 0xc66 <= n <= 0xc6f { n - 0xc66 } else if 0xce6 <= n <= 0xcef { n - 0xce6 } else if 0xd66 <= n <= 0xd6f { n - 0xd66 }
    else if 0xe50 <= n <= 0xe59 { n - 0xe50 } else if 0xed0 <= n <= 0xed9 { n - 0xed0 } else if 0xff10 <= n <= 0xff19 { n - 0xff10 }
    else { -1 }
}
pub open spec fn is_dg(c: char) -> bool { ddv(c) >= 0 }
pub open spec fn dd(c: char) -> Option<char> { if is_dg(c) { Some(dchar(ddv(c) as nat)) } else { None } }
pub open spec fn is_plus(c: char) -> bool { c == '+' || c == '\u{ff0b}' }
/// 0: plus signs, 1: punctuation and stars, 2: those and digits, 3: those and letters
pub open spec fn cls(k: nat, c: char) -> bool {
    if k == 0 { is_plus(c) } else { is_sep(c) || c == '*' || (k >= 2 && is_dg(c)) || (k >= 3 && is_al(c)) }
}
/// s after the leading characters of the class
pub open spec fn rest(k: nat, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && cls(k, s[0]) { rest(k, s.skip(1)) } else { s }
}
pub open spec fn digit_at_start(s: Seq<char>) -> bool { s.len() > 0 && is_dg(s[0]) }
/// s after punctuation, stars and one digit
pub open spec fn group_ok(s: Seq<char>) -> bool { digit_at_start(rest(1, s)) }
pub open spec fn group_rest(s: Seq<char>) -> Seq<char> { rest(1, s).skip(1) }
pub open spec fn all_of(k: nat, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> cls(k, #[trigger] s[i]) }
pub open spec fn v_short(s: Seq<char>) -> bool { s.len() == 2 && is_dg(s[0]) && is_dg(s[1]) }
pub open spec fn v_long(s: Seq<char>) -> bool {
    let a = rest(0, s);
    let b = group_rest(a);
    let c = group_rest(b);
    group_ok(a) && group_ok(b) && group_ok(c) && all_of(3, group_rest(c))
}
/// the viable texts
pub open spec fn viable(s: Seq<char>) -> bool { v_short(s) || v_long(s) }

pub broadcast proof fn lemma_rest_all(k: nat, s: Seq<char>)
    ensures #[trigger] rest(k, s).len() <= s.len(), rest(k, s).len() == 0 <==> all_of(k, s), rest(k, s).len() > 0 ==> !cls(k, rest(k, s)[0])
    decreases s.len()
{
    if s.len() > 0 && cls(k, s[0]) {
        let t = s.skip(1);
        lemma_rest_all(k, t);
        if all_of(k, t) { assert forall|i: int| 0 <= i < s.len() implies cls(k, #[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } } }
        if all_of(k, s) { assert forall|i: int| 0 <= i < t.len() implies cls(k, #[trigger] t[i]) by { assert(t[i] == s[i + 1]); } }
    }
}
/// what is left by the narrower class does not matter to the wider one
pub broadcast proof fn lemma_rest_23(s: Seq<char>)
    ensures rest(3, #[trigger] rest(2, s)) == rest(3, s)
    decreases s.len()
{
    if s.len() > 0 && cls(2, s[0]) { assert(cls(3, s[0])); lemma_rest_23(s.skip(1)); }
}
pub broadcast proof fn lemma_rest_suffix(k: nat, s: Seq<char>)
    ensures #[trigger] rest(k, s) == s.skip(s.len() - rest(k, s).len()), rest(k, s).len() <= s.len()
    decreases s.len()
{
    lemma_rest_all(k, s);
    if s.len() > 0 && cls(k, s[0]) {
        lemma_rest_suffix(k, s.skip(1));
        lemma_rest_all(k, s.skip(1));
        let n = rest(k, s).len();
        assert(s.skip(1).skip(s.skip(1).len() - n) =~= s.skip(s.len() - n));
    } else {
        assert(s.skip(0) =~= s);
    }
}
pub broadcast proof fn lemma_blen_skip1(s: Seq<char>)
    requires s.len() > 0
    ensures #[trigger] blen(s.skip(1)) < blen(s)
{
    lemma_blen_take(s, 1);
    lemma_blen_mono(s, 0, 1);
    assert(s.take(0) =~= Seq::<char>::empty());
}
broadcast use lemma_rest_all, lemma_rest_23, lemma_blen_skip1;
/// what a parser of one character of a class does
pub open spec fn one_char(ok: bool, i: Seq<char>, r: Result<(Str, char), NomErr>) -> bool {
    &&& r is Ok == ok
    &&& r is Ok ==> r->Ok_0.0@ == i.skip(1) && r->Ok_0.1 == i[0]
    &&& r is Err ==> r->Err_0 is Error
}

fn <T as parser::helper::AsCharExt>::as_dec_digit (c)
  ensures[*,C12,C05] r == dd(c)

fn parser::helper::digit (i)
  ensures[*,C12] one_char(i@.len() > 0 && is_dg(i@[0]), i@, r)

fn parser::helper::punctuation (i)
  ensures[*,C12] one_char(i@.len() > 0 && is_sep(i@[0]), i@, r)

fn parser::helper::alpha (i)
  ensures[*,C12] one_char(i@.len() > 0 && is_al(i@[0]), i@, r)

fn parser::helper::plus (i)
  ensures[*,C12] one_char(i@.len() > 0 && is_plus(i@[0]), i@, r)

fn parser::helper::star (i)
  ensures[*,C12] one_char(i@.len() > 0 && i@[0] == '*', i@, r)

fn parser::helper::ieof (i)
  ensures[*,C12] r is Ok == (i@.len() == 0), r is Ok ==> r->Ok_0.0@ == i@, r is Err ==> r->Err_0 is Error

fn parser::valid::short (i)
  ensures[*,C12] r is Ok == v_short(i@), r is Ok ==> r->Ok_0.0@.len() == 0, r is Err ==> r->Err_0 is Error

fn parser::valid::long::first_group (i)
  ensures[*,C12] r is Ok == group_ok(i@), r is Ok ==> r->Ok_0.0@ == group_rest(i@), r is Err ==> r->Err_0 is Error
  loop 0 many0
    invariant rest(1, cur0@) == rest(1, i@), err0 is None
    lensures cur0@ == rest(1, i@), err0 is None
    ldecreases cur0@.len()

fn parser::valid::long (i)
  ensures[*,C12] r is Ok == v_long(i@), r is Ok ==> r->Ok_0.0@.len() == 0, r is Err ==> r->Err_0 is Error
  loop 0 many0
    invariant rest(0, cur0@) == rest(0, src0), err0 is None
    lensures cur0@ == rest(0, src0), err0 is None
    ldecreases cur0@.len()
  loop 1 many0
    invariant rest(2, cur1@) == rest(2, src1), err1 is None
    lensures cur1@ == rest(2, src1), err1 is None
    ldecreases cur1@.len()
  loop 2 many0
    invariant rest(3, cur2@) == rest(3, src2), err2 is None
    lensures cur2@ == rest(3, src2), err2 is None
    ldecreases cur2@.len()

fn parser::valid::phone_number (i)
  ensures[*,C12] r is Ok == viable(i@)
  ensures[*,C12] r is Err ==> r->Err_0 is Error

fn validator::is_viable (s)
  ensures[*,C12] r == viable(s@)
  start proof { lemma_viable_long(s@); }

spec
pub proof fn lemma_viable_long(s: Seq<char>)
    ensures viable(s) ==> blen(s) >= 2
{
    if v_long(s) { lemma_rest_all(0, s); lemma_rest_all(1, rest(0, s)); lemma_rest_all(1, group_rest(rest(0, s))); }
    lemma_blen_zero(s);
}
