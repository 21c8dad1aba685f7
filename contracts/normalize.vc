// C05: digits of all scripts and vanity letters
spec
/// the keypad digit of a letter
pub open spec fn pad(c: char) -> char {
    let n = if is_lo(c) { c as int - 32 } else { c as int };
    if n <= 'C' as int { '2' } else if n <= 'F' as int { '3' } else if n <= 'I' as int { '4' } else if n <= 'L' as int { '5' }
    else if n <= 'O' as int { '6' } else if n <= 'S' as int { '7' } else if n <= 'V' as int { '8' } else { '9' }
}
/// v: letters count
pub open spec fn keymap(v: bool, c: char) -> Option<char> {
    if is_d(c) { Some(c) } else if v && is_al(c) { Some(pad(c)) } else { None }
}
pub open spec fn same_map(m: Map<char, char>, v: bool) -> bool { forall|c: char| #[trigger] lookup(m, c) == keymap(v, c) }
/// what one character is replaced by
pub open spec fn one(m: Map<char, char>, c: char) -> Seq<char> {
    if is_dg(c) { seq![dchar(ddv(c) as nat)] } else if lookup(m, c) is Some { seq![lookup(m, c)->0] } else { Seq::empty() }
}
pub open spec fn norm(m: Map<char, char>, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else { norm(m, s.drop_last()) + one(m, s.last()) }
}
/// C05: the digits a text stands for
pub open spec fn key1(v: bool, c: char) -> Seq<char> {
    if is_dg(c) { seq![dchar(ddv(c) as nat)] } else if v && is_al(c) { seq![pad(c)] } else { Seq::empty() }
}
pub open spec fn keys(v: bool, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else { keys(v, s.drop_last()) + key1(v, s.last()) }
}
pub proof fn lemma_is_d(c: char)
    ensures is_d(c) ==> is_dg(c) && dchar(ddv(c) as nat) == c, is_dg(c) ==> is_d(dchar(ddv(c) as nat)), is_al(c) ==> is_d(pad(c)) && !is_dg(c)
{ }
pub broadcast proof fn lemma_norm_keys(m: Map<char, char>, v: bool, s: Seq<char>)
    requires same_map(m, v)
    ensures #![trigger norm(m, s), same_map(m, v)] norm(m, s) == keys(v, s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_norm_keys(m, v, s.drop_last());
        lemma_is_d(s.last());
        let c = s.last();
        assert(lookup(m, c) == keymap(v, c));
        assert(one(m, c) =~= key1(v, c));
    }
}
/// digits are not changed
pub broadcast proof fn lemma_norm_digits(m: Map<char, char>, s: Seq<char>)
    requires digits(s)
    ensures #[trigger] norm(m, s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies is_d(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_norm_digits(m, s.drop_last());
        lemma_is_d(s.last());
        assert(norm(m, s) =~= s);
    }
}
pub broadcast proof fn lemma_keys_digits(v: bool, s: Seq<char>)
    ensures digits(#[trigger] keys(v, s)), digits(s) ==> keys(v, s) == s, keys(v, s).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keys_digits(v, s.drop_last());
        lemma_is_d(s.last());
        let a = keys(v, s.drop_last());
        let b = key1(v, s.last());
        assert forall|i: int| 0 <= i < (a + b).len() implies is_d(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
        if digits(s) {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies is_d(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
            assert(keys(v, s) =~= s);
        }
    }
}
pub open spec fn o_norm(m: Map<char, char>, o: Option<Str>) -> Option<Str> { match o { Some(x) => Some(str_of(norm(m, x@))), None => None } }
pub open spec fn o_keys(v: bool, o: Option<Str>) -> Option<Str> { match o { Some(x) => Some(str_of(keys(v, x@))), None => None } }
pub proof fn lemma_norm_step(m: Map<char, char>, s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures norm(m, s.take(k + 1)) == norm(m, s.take(k)) + one(m, s[k])
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
}
broadcast use lemma_norm_keys, lemma_keys_digits;
pub open spec fn alpha_phone_re() -> Re { Re { pat: "(?:.*?[A-Za-z]){3}.*"@, ws: false, ic: false } }
/// the number as written has (at least three) letters that count
pub open spec fn vanity(s: Seq<char>) -> bool { re_match(alpha_phone_re(), s) }
/// the number of ASCII letters
pub open spec fn letters(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { letters(s.drop_last()) + (if is_al(s.last()) { 1nat } else { 0 }) }
}
/// ASSUMED (regex): what that pattern matches in a line
#[verifier::external_body]
pub broadcast proof fn axiom_alpha_phone(s: Seq<char>)
    requires !s.contains('\n')
    ensures #[trigger] re_match(alpha_phone_re(), s) == (letters(s) >= 3)
{ }

static consts::ASCII_MAPPINGS ()
  ensures[*,C03,C05,C22] same_map(r@, false)
  end assert forall|c: char| #[trigger] lookup(r@, c) == keymap(false, c) by { }

static consts::ALPHA_MAPPINGS ()
  ensures[*,C05] forall|c: char| #[trigger] lookup(r@, c) == (if is_al(c) { Some(pad(c)) } else { None })
  end assert forall|c: char| #[trigger] lookup(r@, c) == (if is_al(c) { Some(pad(c)) } else { None }) by { }

static consts::ALPHA_PHONE_MAPPINGS ()
  ensures[*,C03,C05,C22] same_map(r@, true)
  end assert forall|c: char| #[trigger] lookup(r@, c) == keymap(true, c) by { assert(lookup(consts__ASCII_MAPPINGS_spec()@, c) == keymap(false, c)); let x = lookup(consts__ALPHA_MAPPINGS_spec()@, c); }

static consts::VALID_ALPHA_PHONE ()
  ensures[*,C05] r@ == alpha_phone_re()

fn parser::helper::normalize::act (s, m)
  ensures[*,C03,C05,C22] r@ == norm(m@, s@)
  end proof { assert(s@.take(s@.len() as int) =~= s@); if digits(s@) { lemma_norm_digits(m@, s@); } }
  loop 0 loop
    invariant chars.all@ == s@, 0 <= chars.pos@ <= s@.len(),
      owned is None ==> digits(s@.take(chars.pos@)),
      owned is Some ==> chars.pos@ == s@.len() && (owned->0)@ == norm(m@, s@)
    lensures chars.pos@ == s@.len()
    ldecreases s@.len() - chars.pos@
    head let ghost p0 = chars.pos@; proof { lemma_ci(s@, p0); if p0 < s@.len() { lemma_norm_step(m@, s@, p0); if digits(s@.take(p0)) { lemma_norm_digits(m@, s@.take(p0)); if is_d(s@[p0]) { lemma_is_d(s@[p0]); assert(s@.take(p0 + 1) =~= s@.take(p0).push(s@[p0])); } } } assert(s@.take(s@.len() as int) =~= s@); }
  loop 1 for CharIndices
    pre proof { assert(string@ =~= norm(m@, s@.take(chars.pos@))); }
    invariant chars.all@ == s@, 0 <= chars.pos@ <= s@.len(), string@ == norm(m@, s@.take(chars.pos@))
    lensures chars.pos@ == s@.len()
    ldecreases s@.len() - chars.pos@
    head let ghost p1 = chars.pos@; let ghost t1 = string@; proof { if p1 < s@.len() { lemma_norm_step(m@, s@, p1); lemma_is_d(s@[p1]); } }

fn parser::helper::normalize (n, m)
  ensures[*,C03,C05,C22] r.national@ == norm(m@, n.national@), r.prefix == o_norm(m@, n.prefix), r.extension == o_norm(m@, n.extension)
  ensures[*,C03,C05,C22] r.country == n.country, r.carrier == n.carrier
