// C21: RFC 3966 texts; C20: texts with an extension
spec
pub open spec fn rsep(c: char) -> bool { c == '-' || c == '.' || c == '(' || c == ')' }
/// the classes of characters of RFC 3966 as far as they are read
pub open spec fn rk(k: nat, c: char) -> bool {
    if k == 0 { is_d(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') || rsep(c) }
    else if k == 1 { !rsep(c) }
    else if k == 2 { is_al(c) || is_d(c) || c == '-' }
    else {
        is_al(c) || is_d(c) || c == '[' || c == ']' || c == '/' || c == ':' || c == '&' || c == '+' || c == '$'
        || c == '-' || c == '_' || c == '.' || c == '!' || c == '~' || c == '*' || c == '\u{27}' || c == '(' || c == ')'
    }
}
/// how many characters of the class come first
pub open spec fn run(k: nat, s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() > 0 && rk(k, s[0]) { 1 + run(k, s.skip(1)) } else { 0 }
}
pub open spec fn past(k: nat, s: Seq<char>) -> Seq<char> { s.skip(run(k, s) as int) }
pub open spec fn is_param(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] == ';' && past(2, s.skip(1)).len() > 0 && past(2, s.skip(1))[0] == '='
}
pub open spec fn param_key(s: Seq<char>) -> Seq<char> { s.skip(1).take(run(2, s.skip(1)) as int) }
pub open spec fn param_val(s: Seq<char>) -> Seq<char> { past(2, s.skip(1)).skip(1) }
pub open spec fn param(s: Seq<char>) -> (Str, Str) {
    let v = param_val(s);
    (str_of(param_key(s)), str_of(v.take(run(3, v) as int)))
}
/// the parameters at the start of s; later ones win
pub open spec fn params(s: Seq<char>, m: Map<Str, Str>) -> Map<Str, Str>
    decreases s.len() when true via params_decreases
{
    if is_param(s) { params(past(3, param_val(s)), m.insert(param(s).0, param(s).1)) } else { m }
}
#[via_fn]
proof fn params_decreases(s: Seq<char>, m: Map<Str, Str>) { lemma_param_len(s); }
pub proof fn lemma_run(k: nat, s: Seq<char>)
    ensures run(k, s) <= s.len(), forall|i: int| 0 <= i < run(k, s) ==> rk(k, #[trigger] s[i]), run(k, s) < s.len() ==> !rk(k, s[run(k, s) as int])
    decreases s.len()
{
    if s.len() > 0 && rk(k, s[0]) {
        lemma_run(k, s.skip(1));
        assert forall|i: int| 0 <= i < run(k, s) implies rk(k, #[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
pub proof fn lemma_param_len(s: Seq<char>)
    ensures is_param(s) ==> past(3, param_val(s)).len() < s.len()
{
    if is_param(s) { lemma_run(2, s.skip(1)); lemma_run(3, param_val(s)); }
}
pub broadcast proof fn lemma_run_step(k: nat, s: Seq<char>)
    ensures #[trigger] past(k, s).len() == s.len() - run(k, s), run(k, s) <= s.len(),
        s.len() > 0 && rk(k, s[0]) ==> past(k, s) == past(k, s.skip(1)) && run(k, s) == 1 + run(k, s.skip(1)),
        !(s.len() > 0 && rk(k, s[0])) ==> past(k, s) == s && run(k, s) == 0
{
    lemma_run(k, s);
    if s.len() > 0 && rk(k, s[0]) { lemma_run(k, s.skip(1)); assert(s.skip(1).skip(run(k, s.skip(1)) as int) =~= s.skip(run(k, s) as int)); }
    else { assert(s.skip(0) =~= s); }
}
pub broadcast proof fn lemma_pairs_push(m: Map<Str, Str>, a: Seq<(Str, Str)>, x: (Str, Str))
    ensures #[trigger] pairs_onto(m, a.push(x)) == pairs_onto(m, a).insert(x.0, x.1)
{
    assert(a.push(x).drop_last() =~= a);
}
pub broadcast proof fn lemma_blen_past(k: nat, s: Seq<char>)
    ensures (#[trigger] blen(past(k, s)) == blen(s)) == (run(k, s) == 0)
{
    lemma_run(k, s);
    lemma_blen_take(s, run(k, s) as int);
    lemma_blen_zero(s.take(run(k, s) as int));
    assert(s.skip(0) =~= s);
}
pub proof fn lemma_past_blen(s: Seq<char>)
    ensures is_param(s) ==> blen(past(3, param_val(s))) < blen(s)
{
    if is_param(s) {
        let a = s.skip(1); let b = past(2, a); let c = param_val(s);
        lemma_run(2, a); lemma_run(3, c);
        lemma_blen_take(s, 1); lemma_blen_zero(s.take(1));
        lemma_blen_take(a, run(2, a) as int);
        lemma_blen_take(b, 1);
        lemma_blen_take(c, run(3, c) as int);
    }
}
broadcast use lemma_run_step, lemma_pairs_push, lemma_blen_past;
pub open spec fn unplus(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s } }
pub open spec fn after_tel(s: Seq<char>) -> Seq<char> { if istarts(s, "Tel:"@) { s.skip(4) } else { s } }
/// a plus and something before the first separator
pub open spec fn has_code(s: Seq<char>) -> bool { s.len() > 1 && s[0] == '+' && !rsep(s[1]) }
pub open spec fn past_code(s: Seq<char>) -> Seq<char> { if has_code(s) { past(1, s.skip(1)) } else { s } }
pub open spec fn rfc(s: Seq<char>) -> Option<parser__helper__Number> {
    let a = after_tel(s);
    let b = past_code(a);
    let c = past(0, b);
    let m = params(c, Map::empty());
    if s.contains(' ') || run(0, b) == 0 || !(c.len() == 0 || c[0] == ';') { None }
    else {
        Some(parser__helper__Number {
            country: country__Source::Default,
            national: str_of(b.take(run(0, b) as int)),
            prefix: if has_code(a) { Some(str_of(a.skip(1).take(run(1, a.skip(1)) as int))) } else {
                match lookup(m, str_of("phone-context"@)) { Some(x) => Some(str_of(unplus(x@))), None => None }
            },
            extension: lookup(m, str_of("ext"@)),
            carrier: None,
        })
    }
}

fn <country::Source as std::default::Default>::default ()
  ensures[*,C21] r == country__Source::Default

fn <parser::helper::Number as std::default::Default>::default ()
  ensures[*,C21] r == (parser__helper__Number { country: country__Source::Default, national: str_of(Seq::empty()), prefix: None, extension: None, carrier: None })

fn parser::rfc3966::separator (c)
  ensures[*,C21] r == rsep(c)

fn <T as parser::helper::AsCharExt>::is_wide_digit (c)
  ensures[*,C21] r == is_d(c)

fn parser::rfc3966::number (c)
  ensures[*,C21] r == rk(0, c)

fn parser::rfc3966::digit (c)
  ensures[*,C21] r == (rk(0, c) && !rsep(c))

fn parser::rfc3966::pname (c)
  ensures[*,C21] r == rk(2, c)

fn parser::rfc3966::unreserved (c)
  ensures[*,C21] r ==> rk(3, c)
  ensures[*,C21] is_al(c) || is_d(c) || rsep(c) || c == '_' || c == '!' || c == '~' || c == '*' || c == '\u{27}' ==> r

fn parser::rfc3966::mark (c)
  ensures[*,C21] r == (rsep(c) || c == '_' || c == '!' || c == '~' || c == '*' || c == '\u{27}')

fn parser::rfc3966::parameter_unreserved (c)
  ensures[*,C21] r == (c == '[' || c == ']' || c == '/' || c == ':' || c == '&' || c == '+' || c == '$')

fn parser::rfc3966::pchar (c)
  ensures[*,C21] r == rk(3, c)

fn parser::rfc3966::check (i)
  ensures[*,C21] r is Ok == (i@.len() == 0 || i@[0] == ';'), r is Ok ==> r->Ok_0.0@ == i@, r is Err ==> r->Err_0 is Error

fn parser::rfc3966::prefix (i)
  ensures[*,C21] r is Ok == has_code(i@), r is Err ==> r->Err_0 is Error
  ensures[*,C21] r is Ok ==> r->Ok_0.0@ == past(1, i@.skip(1)) && r->Ok_0.1@ == i@.skip(1).take(run(1, i@.skip(1)) as int)
  loop 0 take_till1
    invariant past(1, cur0@) == past(1, src0), cur0@.len() <= src0.len()
    lensures cur0@ == past(1, src0)
    ldecreases cur0@.len()

fn parser::rfc3966::parameter (i)
  ensures[*,C21] r is Ok == is_param(i@), r is Err ==> r->Err_0 is Error
  ensures[*,C21] r is Ok ==> r->Ok_0.0@ == past(3, param_val(i@)) && r->Ok_0.1.0@ == param(i@).0@ && r->Ok_0.1.1@ == param(i@).1@
  loop 0 take_while
    invariant past(2, cur0@) == past(2, src0), cur0@.len() <= src0.len()
    lensures cur0@ == past(2, src0)
    ldecreases cur0@.len()
  loop 1 take_while
    invariant past(3, cur1@) == past(3, src1), cur1@.len() <= src1.len()
    lensures cur1@ == past(3, src1)
    ldecreases cur1@.len()

fn parser::rfc3966::parameters (i)
  ensures[*,C21] r is Ok == is_param(i@), r is Err ==> r->Err_0 is Error
  ensures[*,C21] r is Ok ==> r->Ok_0.1@ == params(i@, Map::empty())
  loop 0 many1
    invariant params(cur0@, pairs_onto(Map::empty(), acc0@)) == params(src0, Map::empty()), err0 is None, acc0@.len() == 0 ==> cur0@ == src0, acc0@.len() > 0 ==> is_param(src0)
    lensures pairs_onto(Map::empty(), acc0@) == params(src0, Map::empty()), err0 is None, (acc0@.len() == 0) == !is_param(src0)
    ldecreases cur0@.len()
    head proof { lemma_param_len(cur0@); lemma_past_blen(cur0@); }

fn parser::rfc3966::phone_number (i)
  ensures[*,C21] r is Ok == rfc(i@) is Some, r is Err ==> r->Err_0 is Error
  ensures[*,C21] r is Ok ==> r->Ok_0.1.national@ == (rfc(i@)->0).national@
  ensures[*,C21] r is Ok ==> r->Ok_0.1.prefix == (rfc(i@)->0).prefix
  ensures[*,C21] r is Ok ==> r->Ok_0.1.extension == (rfc(i@)->0).extension
  ensures[*,C21] r is Ok ==> r->Ok_0.1.country == country__Source::Default && r->Ok_0.1.carrier is None
  loop 0 take_while1
    invariant past(0, cur0@) == past(0, src0), cur0@.len() <= src0.len()
    lensures cur0@ == past(0, src0)
    ldecreases cur0@.len()

spec
pub open spec fn plain_re(p: Seq<char>) -> Re { Re { pat: p, ws: false, ic: false } }
/// where a number can begin
pub open spec fn start_re() -> Re { plain_re("[\\+\\x{FF0B}\\p{Nd}]"@) }
/// what is cut off at the end
pub open spec fn end_re() -> Re { plain_re("[[\\P{N}&&\\P{L}]&&[^#]]+$"@) }
/// where a second number begins
pub open spec fn second_re() -> Re { plain_re("[\\\\/] *x"@) }
pub open spec fn from_first(r: Re, s: Seq<char>) -> Seq<char> { match re_find(r, s) { Some(p) => s.take(p.0), None => s } }
/// the part of the text that may be a number
pub open spec fn extracted(s: Seq<char>) -> Option<Seq<char>> {
    match re_find(start_re(), s) {
        None => None,
        Some(p) => {
            let t = from_first(second_re(), from_first(end_re(), s.skip(p.0)));
            if t.len() == 0 { None } else { Some(t) }
        },
    }
}
pub open spec fn extn_digits() -> Seq<char> { "(\\p{Nd}{1,7})"@ }
pub open spec fn extn_text() -> Seq<char> {
    ";ext="@ + extn_digits() + "|[ \\x{00A0}\\t,]*(?:e?xt(?:ensi(?:o\\x{0301}?|\\x{00F3}))?n?|\\x{FF45}?\\x{FF58}\\x{FF54}\\x{FF4E}?|[,;x\\x{FF58}#\\x{FF03}~\\x{FF5E}]|int|anexo|\\x{FF49}\\x{FF4E}\\x{FF54})[:\\.\\x{FF0E}]?[ \\x{00A0}\\t,-]*"@
    + extn_digits() + "#?|[- ]+("@ + "\\p{Nd}"@ + "{1,5})#"@
}
/// a marker and the digits of the extension, at the end
pub open spec fn extn_re() -> Re { Re { pat: "(?:"@ + extn_text() + ")$"@, ws: false, ic: true } }
/// the first group that captured something
pub open spec fn first_group(s: Seq<char>, c: Seq<Option<(int, int)>>, i: int) -> Option<Str>
    decreases c.len() - i
{
    if i >= c.len() { None } else if c[i] is Some { Some(str_of(s.subrange((c[i]->0).0, (c[i]->0).1))) } else { first_group(s, c, i + 1) }
}
/// a number in another notation: the part before the extension, and the extension's digits
pub open spec fn natural(s: Seq<char>) -> Option<parser__helper__Number> {
    match extracted(s) {
        None => None,
        Some(t) => Some(parser__helper__Number {
            country: country__Source::Default,
            national: match re_find(extn_re(), t) { Some(p) => str_of(t.take(p.0)), None => str_of(t) },
            prefix: None,
            extension: match re_caps(extn_re(), t) { Some(c) => first_group(t, c, 1), None => None },
            carrier: None,
        }),
    }
}
/// what is read from a text
pub open spec fn front(s: Seq<char>) -> Option<parser__helper__Number> { if rfc(s) is Some { rfc(s) } else { natural(s) } }

static consts::VALID_START_CHAR ()
  start proof { reveal_strlit("[\\+\\x{FF0B}\\p{Nd}]"); }
  ensures[*,C20] r@ == start_re()
  end proof { reveal_strlit("[\\+\\x{FF0B}\\p{Nd}]"); assert(r@.pat =~= start_re().pat); }

static consts::UNWANTED_END_CHARS ()
  ensures[*,C20] r@ == end_re()

static consts::SECOND_NUMBER_START ()
  ensures[*,C20] r@ == second_re()

static consts::CAPTURING_EXTN_DIGITS ()
  ensures[*,C20] r@ == extn_digits()
  end proof { reveal_strlit("(\\p{Nd}{1,7})"); assert(r@ =~= extn_digits()); }

static consts::EXTN_PATTERNS_FOR_PARSING ()
  ensures[*,C20] r@ =~= extn_text()

static consts::EXTN_PATTERN ()
  ensures[*,C20] r@ == extn_re()
  end proof { assert(r@.pat =~= extn_re().pat); }

spec
pub broadcast proof fn lemma_ci_of(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures #[trigger] ci(s, blen(s.take(k)) as int) == k
{ lemma_ci(s, k); }
pub broadcast proof fn lemma_is_b_of(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures #[trigger] is_b(s, blen(s.take(k)) as int)
{ lemma_ci(s, k); }
pub broadcast proof fn lemma_blen_part(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures #[trigger] blen(s.take(k)) <= blen(s), blen(s.take(k)) + blen(s.skip(k)) == blen(s)
{ lemma_blen_take(s, k); }
broadcast use lemma_ci_of, lemma_is_b_of, lemma_blen_part;
pub open spec fn caps_of(s: Seq<char>, c: Seq<Option<(int, int)>>) -> Seq<Option<Match>> { Seq::new(c.len(), |i: int| cap_at(s, c, i)) }
/// the first of the groups from number i
pub proof fn lemma_first_group(s: Seq<char>, c: Seq<Option<(int, int)>>, i: int)
    requires 0 <= i <= c.len()
    ensures ({
        let m = somes(caps_of(s, c).skip(i));
        (first_group(s, c, i) is Some == (m.len() > 0)) && (m.len() > 0 ==> (first_group(s, c, i)->0)@ == m[0].h@.subrange(m[0].a@, m[0].b@))
    })
    decreases c.len() - i
{
    let m = caps_of(s, c).skip(i);
    if i < c.len() {
        assert(m.skip(1) =~= caps_of(s, c).skip(i + 1));
        assert(m[0] == cap_at(s, c, i));
        lemma_first_group(s, c, i + 1);
    }
}

fn parser::helper::extract (i)
  start hide(is_b); hide(ci); hide(ascii); hide(digits); let _ = str_len(i);
  start[C01,C02] proof {
    if re_find(start_re(), i@) is Some {
      let a = (re_find(start_re(), i@)->0).0;
      let u = i@.skip(a); let v = from_first(end_re(), u); let w = from_first(second_re(), v);
      lemma_ci(i@, a); lemma_blen_take(i@, a);
      assert(v =~= u.take(v.len() as int)); assert(w =~= u.take(w.len() as int));
      lemma_ci(i@, a + w.len());
      lemma_blen_take(i@.take(a + w.len()), a);
      assert(i@.take(a + w.len()).take(a) =~= i@.take(a)); assert(i@.take(a + w.len()).skip(a) =~= w);
      lemma_blen_part(i@, a + w.len());
    }
  }
  ensures[*,C20] r is Ok == extracted(i@) is Some, r is Err ==> r->Err_0 is Error
  ensures[*,C20] r is Ok ==> r->Ok_0.1@ == extracted(i@)->0

fn parser::natural::phone_number (i)
  start hide(is_b); hide(ci); hide(ascii); hide(digits); hide(extracted);
    proof {
      if extracted(i@) is Some && re_match(extn_re(), extracted(i@)->0) {
        let t = extracted(i@)->0; let c = re_caps(extn_re(), t)->0;
        lemma_first_group(t, c, 1);
      }
    }
  ensures[*,C20] r is Ok == natural(i@) is Some, r is Err ==> r->Err_0 is Error
  ensures[*,C20] r is Ok ==> r->Ok_0.1.national@ == (natural(i@)->0).national@
  ensures[*,C20] r is Ok ==> r->Ok_0.1.extension == (natural(i@)->0).extension
  ensures[*,C20] r is Ok ==> r->Ok_0.1.prefix is None && r->Ok_0.1.country == country__Source::Default && r->Ok_0.1.carrier is None

fn parser::parse_with::phone_number (i)
  ensures[*,C20,C21,C22] r is Ok == front(i@) is Some
  ensures[*,C20,C21,C22] r is Ok ==> r->Ok_0.1 == front(i@)->0
