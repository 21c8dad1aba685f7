// C14, C15, C16: formatting
spec
/// byte offsets of the ends
pub broadcast proof fn lemma_blen_ends(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures #![trigger blen(s.take(k))] (blen(s.take(k)) == 0 <==> k == 0) && (blen(s.take(k)) == blen(s) <==> k == s.len())
{
    lemma_blen_mono(s, 0, k);
    lemma_blen_mono(s, k, s.len() as int);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(s.take(s.len() as int) =~= s);
}
broadcast use lemma_blen_ends;
/// punctuation of phone numbers
pub open spec fn is_sep(c: char) -> bool {
    let n = c as u32;
    c == '-' || c == 'x' || c == ' ' || c == '(' || c == ')' || c == '.' || c == '[' || c == ']' || c == '/' || c == '~'
    || 0x2010 <= n <= 0x2015 || n == 0x2212 || n == 0x30FC || 0xFF0D <= n <= 0xFF0F || n == 0xA0 || n == 0xAD || n == 0x200B || n == 0x2060 || n == 0x3000
    || n == 0xFF08 || n == 0xFF09 || n == 0xFF3B || n == 0xFF3D || n == 0x2053 || n == 0x223C || n == 0xFF5E
}
pub open spec fn sep_re() -> Re { Re { pat: "[-x\\x{2010}-\\x{2015}\\x{2212}\\x{30FC}\\x{FF0D}-\\x{FF0F} \\x{00A0}\\x{00AD}\\x{200B}\\x{2060}\\x{3000}()\\x{FF08}\\x{FF09}\\x{FF3B}\\x{FF3D}.\\[\\]/~\\x{2053}\\x{223C}\\x{FF5E}]+"@, ws: false, ic: false } }
pub open spec fn first_group_re() -> Re { Re { pat: "(\\$\\d)"@, ws: false, ic: false } }
/// every run of separators turned into one hyphen
pub open spec fn collapse(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let t = collapse(s.drop_last());
        if !is_sep(s.last()) { t.push(s.last()) } else if s.len() > 1 && is_sep(s[s.len() - 2]) { t } else { t.push('-') }
    }
}
/// ASSUMED (regex): what replacing the runs of that class does
#[verifier::external_body]
pub broadcast proof fn axiom_collapse(s: Seq<char>)
    ensures #[trigger] re_replace_all(sep_re(), s, "-"@) == collapse(s)
{ }
broadcast use axiom_collapse;
/// the last leading digits match at the start, the pattern matches everything
pub open spec fn applies(f: metadata__format__Format, s: Seq<char>) -> bool {
    (f.leading_digits@.len() == 0 || find0(f.leading_digits@.last()@, s)) && whole(f.pattern@, s)
}
/// the first format of the list that applies
pub open spec fn first_that_applies(fs: Seq<metadata__format__Format>, s: Seq<char>) -> Option<metadata__format__Format>
    decreases fs.len()
{
    if fs.len() == 0 { None } else if applies(fs[0], s) { Some(fs[0]) } else { first_that_applies(fs.skip(1), s) }
}
pub open spec fn text_or(o: Option<Str>, d: Seq<char>) -> Seq<char> { match o { Some(x) => x@, None => d } }
/// the template of the format, the first group replaced by the rule
pub open spec fn template(m: metadata__metadata__Metadata, f: metadata__format__Format, rule: Option<Str>, carrier: Option<Str>) -> Seq<char> {
    let fg = first_group_re();
    match rule {
        None => f.format@,
        Some(t) => {
            let first = match re_find(fg, f.format@) { Some((a, b)) => f.format@.subrange(a, b), None => ""@ };
            let x = replaced(t@, "$NP"@, text_or(m.national_prefix, ""@));
            let y = replaced(x, "$FG"@, "$"@ + first);
            re_replace(fg, f.format@, replaced(y, "$CC"@, text_or(carrier, ""@)))
        }
    }
}
pub open spec fn body_text(s: Seq<char>, m: metadata__metadata__Metadata, f: metadata__format__Format, rule: Option<Str>, carrier: Option<Str>) -> Seq<char> {
    re_replace(f.pattern@, s, template(m, f, rule, carrier))
}
pub open spec fn fm_db(x: formatter__Formatter) -> metadata__database__Database { match x.database { Some(d) => d, None => metadata__database__DEFAULT_spec() } }
pub open spec fn fm_known(x: formatter__Formatter) -> bool { fm_db(x).by_code@.dom().contains(x.number.code.value) }
/// the main region of the code
pub open spec fn fm_meta(x: formatter__Formatter) -> metadata__metadata__Metadata { fm_db(x).by_code@[x.number.code.value]@[0] }
/// C16: the list of the mode
pub open spec fn fm_formats(x: formatter__Formatter) -> Seq<metadata__format__Format> {
    let m = fm_meta(x);
    if m.international_formats@.len() > 0 && !(x.mode is National) { m.international_formats@ } else { m.formats@ }
}
/// C16: the format used
pub open spec fn fm_format(x: formatter__Formatter) -> Option<metadata__format__Format> {
    match x.format { Some(f) => Some(f), None => first_that_applies(fm_formats(x), nn_str(x.number.national)) }
}
/// the national number, formatted without any prefix
pub open spec fn fm_plain(x: formatter__Formatter) -> Seq<char> {
    let s = nn_str(x.number.national);
    match fm_format(x) { Some(f) => body_text(s, fm_meta(x), f, None, None), None => s }
}
/// the national number, with carrier or national prefix if there are rules
pub open spec fn fm_national(x: formatter__Formatter) -> Seq<char> {
    let s = nn_str(x.number.national);
    match fm_format(x) {
        None => s,
        Some(f) => if x.number.carrier is Some && f.domestic_carrier is Some {
            body_text(s, fm_meta(x), f, f.domestic_carrier, Some((x.number.carrier->0).0))
        } else {
            body_text(s, fm_meta(x), f, f.national_prefix, None)
        }
    }
}
pub open spec fn fm_ext(x: formatter__Formatter, mark: Seq<char>) -> Seq<char> {
    match x.number.extension { Some(e) => mark + e.0@, None => Seq::empty() }
}
/// C15: what is written in each mode
pub open spec fn fm_text(x: formatter__Formatter) -> Seq<char> {
    let code = dec(x.number.code.value as nat);
    match x.mode {
        formatter__Mode::E164 => "+"@ + code + nn_str(x.number.national),
        formatter__Mode::International => "+"@ + code + " "@ + fm_plain(x) + fm_ext(x, text_or(fm_meta(x).preferred_extension_prefix, " ext. "@)),
        formatter__Mode::National => fm_national(x) + fm_ext(x, text_or(fm_meta(x).preferred_extension_prefix, " ext. "@)),
        formatter__Mode::Rfc3966 => "tel:+"@ + code + "-"@
            + (if fm_format(x) is Some { collapse(fm_plain(x)) } else { fm_plain(x) })
            + fm_ext(x, ";ext="@),
    }
}
/// the same, written to what has been written before, piece by piece
pub open spec fn fm_ext_out(o: Seq<char>, x: formatter__Formatter, mark: Seq<char>) -> Seq<char> {
    match x.number.extension { Some(e) => (o + mark) + e.0@, None => o }
}
pub open spec fn fm_out(o: Seq<char>, x: formatter__Formatter) -> Seq<char> {
    let code = dec(x.number.code.value as nat);
    match x.mode {
        formatter__Mode::E164 => ((o + "+"@) + code) + nn_str(x.number.national),
        formatter__Mode::International => fm_ext_out((((o + "+"@) + code) + " "@) + fm_plain(x), x, text_or(fm_meta(x).preferred_extension_prefix, " ext. "@)),
        formatter__Mode::National => fm_ext_out(o + fm_national(x), x, text_or(fm_meta(x).preferred_extension_prefix, " ext. "@)),
        formatter__Mode::Rfc3966 => fm_ext_out((((o + "tel:+"@) + code) + "-"@)
            + (if fm_format(x) is Some { collapse(fm_plain(x)) } else { fm_plain(x) }), x, ";ext="@),
    }
}
pub proof fn lemma_fm_out(o: Seq<char>, x: formatter__Formatter)
    ensures fm_out(o, x) == o + fm_text(x)
{
    assert(fm_out(o, x) =~= o + fm_text(x));
}
pub open spec fn f_wrote(a: Seq<char>, b: Seq<char>, w: Seq<char>) -> bool { b == a + w }
pub open spec fn fm_of(n: phone_number__PhoneNumber, d: Option<metadata__database__Database>) -> formatter__Formatter {
    formatter__Formatter { number: n, database: d, mode: formatter__Mode::E164, format: None }
}

static consts::SEPARATOR_PATTERN ()
  ensures[*,C15] r@ == sep_re()
  start proof { reveal_strlit("[-x\\x{2010}-\\x{2015}\\x{2212}\\x{30FC}\\x{FF0D}-\\x{FF0F} \\x{00A0}\\x{00AD}\\x{200B}\\x{2060}\\x{3000}()\\x{FF08}\\x{FF09}\\x{FF3B}\\x{FF3D}.\\[\\]/~\\x{2053}\\x{223C}\\x{FF5E}]+"); }
  end assert(r@.pat =~= sep_re().pat);

static consts::FIRST_GROUP ()
  ensures[*,C15] r@ == first_group_re()

fn formatter::formatter (s, fs)
  ensures[*,C16,C15] r == first_that_applies(fs@, s@)
  loop 0 for SeqV<metadata__format__Format>
    invariant first_that_applies(fs@, s@) == first_that_applies(it0@, s@)
    lensures first_that_applies(fs@, s@) is None
    ldecreases it0@.len()

fn formatter::replace (s, m, f, rule, carrier)
  ensures[*,C15] r@ == body_text(s@, m, f, rule, carrier)

fn <formatter::Formatter as std::fmt::Display>::fmt (x, f)
  requires x.database is Some ==> db_wf(x.database->0)
  ensures[*,C14,C15,C16] !fm_known(x) ==> r is Err
  ensures[*,C02] fm_known(x) && old(f).total@ ==> r is Ok
  ensures[*,C14] fm_known(x) && x.mode is E164 ==> wrote(*old(f), *final(f), r, fm_text(x))
  ensures[*,C15,C16] fm_known(x) && !(x.mode is E164) ==> wrote(*old(f), *final(f), r, fm_text(x))
  ensures[C17] fm_known(x) && all_keep(x) && r is Ok ==> exists|w: Seq<char>| f_wrote(old(f)@, final(f)@, w) && #[trigger] digits_kept(w, x)
  end proof { lemma_fm_out(old(f)@, x); }
  end[C17] proof { if fm_known(x) && all_keep(x) { digits_are_kept(x); } }

fn <phone_number::PhoneNumber as std::fmt::Display>::fmt (n, f)
  ensures[*,C14,C22] !fm_known(fm_of(n, None)) ==> r is Err
  ensures[*,C02] fm_known(fm_of(n, None)) && old(f).total@ ==> r is Ok
  ensures[*,C14,C22] fm_known(fm_of(n, None)) ==> wrote(*old(f), *final(f), r, "+"@ + dec(n.code.value as nat) + nn_str(n.national))

fn formatter::format (n)
  ensures[*,C14] r == fm_of(n, None)

fn formatter::format_with (db, n)
  ensures[*,C14] r == fm_of(n, Some(db))

fn phone_number::PhoneNumber::format (n)
  ensures[*,C14] r == fm_of(n, None)

fn phone_number::PhoneNumber::format_with (n, db)
  ensures[*,C14] r == fm_of(n, Some(db))

fn formatter::Formatter::database (x, db)
  ensures[*,C15,C16] r == (formatter__Formatter { database: Some(db), ..x })

fn formatter::Formatter::mode (x, m)
  ensures[*,C15,C16] r == (formatter__Formatter { mode: m, ..x })

fn formatter::Formatter::with (x, f)
  ensures[*,C15,C16] r == (formatter__Formatter { format: Some(f), ..x })

spec[C14]
/// nothing but the code and the national number matters
pub proof fn e164_is_bare(x: formatter__Formatter, y: formatter__Formatter)
    requires x.mode is E164, y.mode is E164, x.number.code.value == y.number.code.value, x.number.national == y.number.national
    ensures fm_text(x) == fm_text(y)
{ }
/// a plus and digits, the code without leading zeros
pub proof fn e164_digits(x: formatter__Formatter)
    requires x.mode is E164
    ensures fm_text(x).len() > 1, fm_text(x)[0] == '+', digits(fm_text(x).skip(1)), x.number.code.value > 0 ==> fm_text(x)[1] != '0'
{
    let c = dec(x.number.code.value as nat);
    let n = nn_str(x.number.national);
    reveal_strlit("+");
    assert(fm_text(x) =~= seq!['+'] + c + n);
    assert(fm_text(x).skip(1) =~= c + n);
    assert(digits(dec(nn_value(x.number.national) as nat)));
    assert(digits(zs(nn_zeros(x.number.national))));
    assert(digits(n));
    assert(fm_text(x)[1] == c[0]);
}
spec[C16]
/// the format is the first of its list that applies
pub proof fn first_applies(fs: Seq<metadata__format__Format>, s: Seq<char>)
    ensures
        first_that_applies(fs, s) is None <==> (forall|i: int| 0 <= i < fs.len() ==> !applies(#[trigger] fs[i], s)),
        first_that_applies(fs, s) is Some ==> exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == first_that_applies(fs, s)->0 && applies(fs[i], s)
            && forall|j: int| 0 <= j < i ==> !applies(#[trigger] fs[j], s)
    decreases fs.len()
{
    if fs.len() > 0 && !applies(fs[0], s) {
        let t = fs.skip(1);
        first_applies(t, s);
        if first_that_applies(fs, s) is Some {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == first_that_applies(t, s)->0 && applies(t[i], s)
                && forall|j: int| 0 <= j < i ==> !applies(#[trigger] t[j], s);
            assert(fs[i + 1] == t[i]);
            assert forall|j: int| 0 <= j < i + 1 implies !applies(#[trigger] fs[j], s) by { if j > 0 { assert(fs[j] == t[j - 1]); } }
        } else {
            assert forall|j: int| 0 <= j < fs.len() implies !applies(#[trigger] fs[j], s) by { if j > 0 { assert(fs[j] == t[j - 1]); } }
        }
    } else if fs.len() > 0 {
        assert(fs[0] == first_that_applies(fs, s)->0);
    }
}
/// a format given explicitly is used; without any the number is its digits
pub proof fn explicit_or_bare(x: formatter__Formatter)
    ensures x.format is Some ==> fm_format(x) == x.format,
        fm_format(x) is None ==> fm_plain(x) == nn_str(x.number.national) && fm_national(x) == nn_str(x.number.national)
{ }
