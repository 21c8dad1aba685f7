// C17: the digits of the national number, in the output of International and RFC 3966
spec[C17]
/// a pattern of k capturing groups and nothing else: none nested, none repeated or optional
/// (d: open parentheses; n: groups so far)
pub open spec fn concat_from(p: Seq<char>, d: nat, n: nat) -> Option<nat>
    decreases p.len()
{
    if p.len() == 0 { if d == 0 { Some(n) } else { None } }
    else if p[0] == '(' {
        if d == 0 { if p.len() > 1 && p[1] == '?' { None } else { concat_from(p.skip(1), 1, n + 1) } }
        else if p.len() > 2 && p[1] == '?' && p[2] == ':' { concat_from(p.skip(3), d + 1, n) }
        else { None }
    }
    else if p[0] == ')' { if d == 0 { None } else { concat_from(p.skip(1), (d - 1) as nat, n) } }
    else if d == 0 { None }
    else if p[0] == '\\' { if p.len() > 1 && p[1] == 'd' { concat_from(p.skip(2), d, n) } else { None } }
    else if is_d(p[0]) || in_class(p[0]) { concat_from(p.skip(1), d, n) }
    else { None }
}
pub open spec fn in_class(c: char) -> bool { c == '[' || c == ']' || c == '-' || c == '{' || c == '}' || c == ',' || c == '|' || c == '?' || c == '*' || c == '+' || c == '.' }
/// the groups of a match lie one after the other, from a to b
pub open spec fn tiled(c: Seq<Option<(int, int)>>, i: int, k: int, a: int, b: int) -> bool
    decreases k - i + 1
{
    if i > k { a == b } else { 0 <= i < c.len() && c[i] is Some && (c[i]->0).0 == a && a <= (c[i]->0).1 <= b && tiled(c, i + 1, k, (c[i]->0).1, b) }
}
/// ASSUMED (regex): the groups of such a pattern tile its match
#[verifier::external_body]
pub proof fn axiom_tiled(r: Re, s: Seq<char>)
    requires concat_from(r.pat, 0, 0) is Some, re_caps(r, s) is Some
    ensures re_groups(r) == concat_from(r.pat, 0, 0)->0 + 1,
        tiled(re_caps(r, s)->0, 1, concat_from(r.pat, 0, 0)->0 as int, (re_find(r, s)->0).0, (re_find(r, s)->0).1)
{ }
pub open spec fn is_word(c: char) -> bool { is_d(c) || is_al(c) || c == '_' }
/// "$i" at the start of a template, i from 1 to 9
pub open spec fn refers(t: Seq<char>, i: int) -> bool {
    t.len() > 1 && t[0] == '$' && '1' <= t[1] && t[1] <= '9' && t[1] as int - '0' as int == i && (t.len() > 2 ==> !is_word(t[2]) && (t[2] as u32) < 0x80)
}
/// ASSUMED (regex): a template is expanded from left to right; "$i" stands for the text of group i
#[verifier::external_body]
pub proof fn axiom_expand(s: Seq<char>, c: Seq<Option<(int, int)>>, t: Seq<char>, i: int)
    ensures
        t.len() == 0 ==> expand(s, c, t) =~= Seq::<char>::empty(),
        t.len() > 0 && t[0] != '$' ==> expand(s, c, t) =~= seq![t[0]] + expand(s, c, t.skip(1)),
        refers(t, i) && 0 < i < c.len() && c[i] is Some ==> expand(s, c, t) =~= s.subrange((c[i]->0).0, (c[i]->0).1) + expand(s, c, t.skip(2)),
{ }
/// the template names the groups i to k in this order, with separators between them
pub open spec fn in_order(t: Seq<char>, i: int, k: int) -> bool
    decreases t.len()
{
    if t.len() == 0 { i == k + 1 }
    else if t[0] == '$' { i <= k && refers(t, i) && in_order(t.skip(2), i + 1, k) }
    else { is_sep(t[0]) && in_order(t.skip(1), i, k) }
}
/// a format that shows all groups of its pattern in order, and nothing else but separators
pub open spec fn keeps(f: metadata__format__Format) -> bool {
    let k = concat_from(f.pattern@.pat, 0, 0);
    k is Some && in_order(f.format@, 1, k->0 as int)
}
/// the digits of a text
pub open spec fn nums(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else if is_d(s.last()) { nums(s.drop_last()).push(s.last()) } else { nums(s.drop_last()) }
}
pub open spec fn num_or_sep(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_d(#[trigger] s[i]) || is_sep(s[i]) }
/// the digits of b are s, and all else are separators
pub open spec fn shows(b: Seq<char>, s: Seq<char>) -> bool { nums(b) == s && num_or_sep(b) }
pub proof fn lemma_nums_cat(a: Seq<char>, b: Seq<char>)
    ensures nums(a + b) == nums(a) + nums(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(nums(a) + nums(b) =~= nums(a)); } else {
        lemma_nums_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(nums(a + b) =~= nums(a) + nums(b));
    }
}
pub proof fn lemma_nums_digits(s: Seq<char>)
    requires digits(s)
    ensures nums(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(digits(s.drop_last()));
        lemma_nums_digits(s.drop_last());
        assert(is_d(s.last()));
        assert(nums(s) =~= s);
    }
}
pub proof fn lemma_shows_cat(a: Seq<char>, s: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires shows(a, s), shows(b, t)
    ensures shows(a + b, s + t)
{
    lemma_nums_cat(a, b);
    assert forall|i: int| 0 <= i < (a + b).len() implies is_d(#[trigger] (a + b)[i]) || is_sep((a + b)[i]) by {
        if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
    }
}
/// what is left of the template shows what is left of the number
pub proof fn lemma_expand(s: Seq<char>, c: Seq<Option<(int, int)>>, t: Seq<char>, i: int, k: int, a: int)
    requires digits(s), in_order(t, i, k), tiled(c, i, k, a, s.len() as int), 0 < i, 0 <= a <= s.len()
    ensures shows(expand(s, c, t), s.skip(a))
    decreases t.len()
{
    axiom_expand(s, c, t, i);
    if t.len() == 0 {
        assert(s.skip(a) =~= Seq::<char>::empty());
    } else if t[0] == '$' {
        let b = (c[i]->0).1;
        lemma_expand(s, c, t.skip(2), i + 1, k, b);
        let p = s.subrange(a, b);
        assert(digits(p));
        lemma_nums_digits(p);
        lemma_shows_cat(p, p, expand(s, c, t.skip(2)), s.skip(b));
        assert(p + s.skip(b) =~= s.skip(a));
    } else {
        lemma_expand(s, c, t.skip(1), i, k, a);
        let p = seq![t[0]];
        assert(!is_d(t[0]));
        assert(p.drop_last() =~= Seq::<char>::empty());
        assert(p.last() == t[0] && nums(p.drop_last()) == p.drop_last());
        assert(nums(p) =~= Seq::<char>::empty());
        lemma_shows_cat(p, Seq::<char>::empty(), expand(s, c, t.skip(1)), s.skip(a));
        assert(Seq::<char>::empty() + s.skip(a) =~= s.skip(a));
    }
}
/// a format that keeps the groups keeps the digits of every number it applies to
pub proof fn format_keeps(f: metadata__format__Format, s: Seq<char>, m: metadata__metadata__Metadata)
    requires keeps(f), whole(f.pattern@, s), digits(s)
    ensures shows(body_text(s, m, f, None, None), s)
{
    let c = re_caps(f.pattern@, s)->0;
    axiom_tiled(f.pattern@, s);
    lemma_expand(s, c, f.format@, 1, concat_from(f.pattern@.pat, 0, 0)->0 as int, 0);
    assert(s.take(0) + expand(s, c, f.format@) + s.skip(s.len() as int) =~= expand(s, c, f.format@));
    assert(s.skip(0) =~= s);
}
/// runs of separators turned into hyphens show the same digits
pub proof fn collapse_keeps(b: Seq<char>, s: Seq<char>)
    requires shows(b, s)
    ensures nums(collapse(b)) == s, forall|i: int| 0 <= i < collapse(b).len() ==> is_d(#[trigger] collapse(b)[i]) || collapse(b)[i] == '-'
    decreases b.len()
{
    if b.len() > 0 {
        let p = b.drop_last();
        assert(num_or_sep(p)) by { assert forall|i: int| 0 <= i < p.len() implies is_d(#[trigger] p[i]) || is_sep(p[i]) by { assert(p[i] == b[i]); } }
        collapse_keeps(p, nums(p));
        let t = collapse(p);
        assert(is_d(b.last()) || is_sep(b.last()));
        assert(t.push(b.last()).drop_last() =~= t);
        assert(t.push('-').drop_last() =~= t);
    }
}
/// after the code come the digits of the national number with nothing but separators
/// (RFC 3966: hyphens) between them, and after these an extension if there is one
pub open spec fn digits_kept(w: Seq<char>, x: formatter__Formatter) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| #![trigger a + b + c] w == a + b + c && nums(a) == dec(x.number.code.value as nat)
        && shows(b, nn_str(x.number.national)) && (x.number.extension is None ==> c.len() == 0)
        && (x.mode is Rfc3966 ==> forall|i: int| 0 <= i < b.len() ==> is_d(#[trigger] b[i]) || b[i] == '-')
}
/// the formats for International and RFC 3966 are of that kind: those of the shipped database are
/// (which is tested of each of them on every run), and which one is used does not matter
pub open spec fn all_keep(x: formatter__Formatter) -> bool {
    x.format is None && (x.mode is International || x.mode is Rfc3966)
    && forall|i: int| 0 <= i < fm_formats(x).len() ==> keeps(#[trigger] fm_formats(x)[i])
}
pub proof fn lemma_first_keeps(fs: Seq<metadata__format__Format>, s: Seq<char>)
    requires forall|i: int| 0 <= i < fs.len() ==> keeps(#[trigger] fs[i])
    ensures first_that_applies(fs, s) is Some ==> keeps(first_that_applies(fs, s)->0) && whole((first_that_applies(fs, s)->0).pattern@, s)
    decreases fs.len()
{
    if fs.len() > 0 {
        assert(keeps(fs[0]));
        if !applies(fs[0], s) {
            assert forall|i: int| 0 <= i < fs.skip(1).len() implies keeps(#[trigger] fs.skip(1)[i]) by { assert(fs.skip(1)[i] == fs[i + 1]); }
            lemma_first_keeps(fs.skip(1), s);
        }
    }
}
/// C17
pub proof fn digits_are_kept(x: formatter__Formatter)
    requires fm_known(x), all_keep(x)
    ensures digits_kept(fm_text(x), x)
{
    let s = nn_str(x.number.national);
    let code = dec(x.number.code.value as nat);
    assert(digits(dec(nn_value(x.number.national) as nat)));
    assert(digits(zs(nn_zeros(x.number.national))));
    assert(digits(s));
    lemma_first_keeps(fm_formats(x), s);
    lemma_nums_digits(s);
    lemma_nums_digits(code);
    let p = fm_plain(x);
    if fm_format(x) is Some { format_keeps(fm_format(x)->0, s, fm_meta(x)); }
    assert(shows(p, s));
    reveal_strlit("+"); reveal_strlit("tel:+"); reveal_strlit("-"); reveal_strlit(" ");
    if x.mode is International {
        let a = "+"@ + code + " "@;
        let c = fm_ext(x, text_or(fm_meta(x).preferred_extension_prefix, " ext. "@));
        lemma_nums_none("+"@); lemma_nums_none(" "@);
        lemma_nums_cat("+"@, code); lemma_nums_cat("+"@ + code, " "@);
        assert(nums(a) =~= code);
        assert(fm_text(x) =~= a + p + c);
    } else {
        let a = "tel:+"@ + code + "-"@;
        let b = if fm_format(x) is Some { collapse(p) } else { p };
        let c = fm_ext(x, ";ext="@);
        if fm_format(x) is Some { collapse_keeps(p, s); }
        assert(shows(b, s)) by { assert forall|i: int| 0 <= i < b.len() implies is_d(#[trigger] b[i]) || is_sep(b[i]) by { } }
        lemma_nums_none("tel:+"@); lemma_nums_none("-"@);
        lemma_nums_cat("tel:+"@, code); lemma_nums_cat("tel:+"@ + code, "-"@);
        assert(nums(a) =~= code);
        assert(fm_text(x) =~= a + b + c);
    }
}
pub proof fn lemma_nums_none(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !is_d(#[trigger] s[i])
    ensures nums(s) =~= Seq::<char>::empty()
    decreases s.len()
{
    if s.len() > 0 { lemma_nums_none(s.drop_last()); }
}
