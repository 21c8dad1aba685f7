// Theorems about parse_with, over the contracts of its parts
spec[C02,C03]
pub open spec fn pn_ok(db: metadata__database__Database, r: phone_number__PhoneNumber) -> bool {
    &&& db.by_code@.dom().contains(r.code.value)
    &&& digits(nn_str(r.national)) && 2 <= nn_str(r.national).len() <= 17
    &&& r.extension is Some ==> digits((r.extension->0).0@) && (r.extension->0).0@.len() > 0
    &&& r.carrier is Some ==> digits((r.carrier->0).0@)
}
pub proof fn lemma_cc_fields(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number)
    requires db_wf(db), cc(db, c, n) is Some
    ensures ({ let k = cc(db, c, n)->0;
        &&& digits(k.national@) && k.carrier == n.carrier
        &&& k.prefix is Some && int_ok((k.prefix->0)@, u16::MAX as nat) && db.by_code@.dom().contains(dec_val(int_text((k.prefix->0)@)) as u16)
        &&& k.extension is Some ==> digits((k.extension->0)@) })
{
    hide(d_match); hide(possible); hide(code_wf);
    let i = ip(idd_of(db, c), n);
    lemma_ip_digits(idd_of(db, c), n);
    lemma_cc_digits(db, c, n);
    if n.extension is Some { lemma_keys_digits(vanity(n.national@), (n.extension->0)@); }
    assert(i.extension is Some ==> digits((i.extension->0)@));
    assert(i.carrier == n.carrier);
    if i.country == country__Source::Default {
        let m = lookup(db.by_id@, str_of(id_str(c->0)))->0;
        let d = dec(m.country_code as nat);
        lemma_dec(m.country_code as nat);
        assert(db.by_id@.dom().contains(str_of(id_str(c->0))));
        assert(is_d(d[0]));
        assert(int_text(d) == d);
    }
}
pub proof fn lemma_np_carrier(m: metadata__metadata__Metadata, n: parser__helper__Number)
    requires digits(n.national@)
    ensures np(m, n).carrier is Some ==> np(m, n).carrier == n.carrier || digits((np(m, n).carrier->0)@)
{
    hide(d_match);
    let s = n.national@;
    if m.national_prefix_for_parsing is Some && find0((m.national_prefix_for_parsing->0)@, s) {
        let c = re_caps((m.national_prefix_for_parsing->0)@, s)->0;
        assert forall|i: int| (#[trigger] group(s, c, i)) is Some implies digits((group(s, c, i)->0)@) by {
            let t = s.subrange((c[i]->0).0, (c[i]->0).1);
            assert(span_ok(s, c[i]));
            assert forall|j: int| 0 <= j < t.len() implies is_d(#[trigger] t[j]) by { assert(t[j] == s[(c[i]->0).0 + j]); }
        }
    }
}
/// C03: whatever is parsed is well formed
pub proof fn parsed_is_well_formed(db: metadata__database__Database, c: Option<country__Id>, s: Seq<char>, r: phone_number__PhoneNumber)
    requires db_wf(db), front(s) is Some, finished(db, c, front(s)->0) is Some, is_pn(finished(db, c, front(s)->0)->0, r)
    ensures pn_ok(db, r)
{
    hide(cc); hide(np); hide(rfc); hide(natural); hide(meta_for); hide(len_spec); hide(viable);
    let n = front(s)->0;
    assert(n.carrier is None) by { reveal(rfc); reveal(natural); }
    let k = cc(db, c, n)->0;
    lemma_cc_fields(db, c, n);
    if meta_for(db, c, k) is Some { lemma_np_fields(meta_for(db, c, k)->0, k); lemma_np_carrier(meta_for(db, c, k)->0, k); }
    let q = finished(db, c, n)->0;
    lemma_nat_digits(q.national@);
}

spec[C06]
/// a plus sign and then a digit other than zero
pub open spec fn plus_first(s: Seq<char>) -> bool {
    s.len() > 0 && is_plus(s[0]) && rest(0, s).len() > 0 && ddv(rest(0, s)[0]) > 0
}
pub proof fn lemma_keys_first(v: bool, s: Seq<char>)
    requires s.len() > 0, is_dg(s[0])
    ensures keys(v, s).len() > 0, keys(v, s)[0] == dchar(ddv(s[0]) as nat)
    decreases s.len()
{
    let t = s.drop_last();
    if t.len() > 0 {
        assert(t[0] == s[0]);
        lemma_keys_first(v, t);
        assert((keys(v, t) + key1(v, s.last()))[0] == keys(v, t)[0]);
    } else {
        assert(keys(v, t) =~= Seq::empty());
        assert(keys(v, t) + key1(v, s.last()) =~= key1(v, s.last()));
    }
}
/// the plus signs of a part that begins where the text begins
pub proof fn lemma_plus_part(s: Seq<char>, k: int)
    requires plus_first(s), 0 < k <= s.len()
    ensures is_plus(s.take(k)[0]), rest(0, s.take(k)).len() < k, rest(0, s.take(k)).len() > 0 ==> rest(0, s.take(k))[0] == rest(0, s)[0]
    decreases s.len()
{
    let t = s.take(k);
    assert(t[0] == s[0]);
    lemma_rest_all(0, t.skip(1));
    assert(rest(0, t) == rest(0, t.skip(1)));
    assert(t.skip(1) =~= s.skip(1).take(k - 1));
    if k > 1 {
        if is_plus(s[1]) {
            assert(s.skip(1)[0] == s[1]);
            lemma_plus_part(s.skip(1), k - 1);
        } else {
            assert(s.skip(1)[0] == s[1]);
            assert(t.skip(1)[0] == s[1]);
        }
    }
}
/// a text with a plus as prefix, or a plus that is not followed by zero
pub open spec fn plussed(n: parser__helper__Number) -> bool {
    n.prefix is Some || (rest(0, n.national@).len() < n.national@.len() && !starts0(keys(vanity(n.national@), rest(0, n.national@))))
}
pub proof fn number_with_plus_ignores_region(db: metadata__database__Database, c: Option<country__Id>, d: Option<country__Id>, n: parser__helper__Number)
    requires plussed(n)
    ensures finished(db, c, n) == finished(db, d, n), cc(db, c, n) is Some ==> cc(db, c, n)->0.country == country__Source::Plus
{
    hide(cc_int); hide(viable); hide(nat_ok); hide(np_guarded); hide(meta_spec); hide(keys); hide(vanity); hide(rest);
    let i = ip(idd_of(db, c), n);
    assert(i == ip(idd_of(db, d), n));
    assert(i.country == country__Source::Plus);
    assert(cc(db, c, n) == cc(db, d, n));
    assert(cc_int(db, i) is Some ==> cc_int(db, i)->0.country == i.country) by { reveal(cc_int); }
}
/// C06: in a text that begins with a plus and a digit other than zero the region does not matter
pub proof fn text_with_plus_ignores_region(db: metadata__database__Database, c: Option<country__Id>, d: Option<country__Id>, s: Seq<char>)
    requires plus_first(s), front(s) is Some
    ensures finished(db, c, front(s)->0) == finished(db, d, front(s)->0)
{
    hide(finished); hide(viable); hide(params); hide(run); hide(rest); hide(keys); hide(vanity);
    let n = front(s)->0;
    if rfc(s) is Some {
        lemma_rfc_plus(s);
        if n.prefix is None { lemma_rfc_plus_part(s); }
    } else {
        axiom_start_plus(s);
        let a = s.skip(0);
        assert(a =~= s);
        lemma_from_first(end_re(), s);
        lemma_from_first(second_re(), from_first(end_re(), s));
        let t = from_first(second_re(), from_first(end_re(), s));
        lemma_from_first(extn_re(), t);
        assert(n.national@ == from_first(extn_re(), t));
        let k = n.national@.len() as int;
        assert(n.national@ =~= s.take(k));
        if k > 0 { lemma_plus_part(s, k); lemma_plus_starts(s, k); }
    }
    if n.national@.len() > 0 || n.prefix is Some { number_with_plus_ignores_region(db, c, d, n); }
    else { lemma_empty_fails(db, c, n); lemma_empty_fails(db, d, n); }
}
pub proof fn lemma_plus_starts(s: Seq<char>, k: int)
    requires plus_first(s), 0 < k <= s.len()
    ensures !starts0(keys(vanity(s.take(k)), rest(0, s.take(k))))
{
    lemma_plus_part(s, k);
    let r = rest(0, s.take(k));
    let v = vanity(s.take(k));
    if r.len() > 0 { lemma_keys_first(v, r); } else { lemma_keys_digits(v, r); }
}
pub proof fn lemma_from_first(r: Re, s: Seq<char>)
    ensures from_first(r, s).len() <= s.len(), from_first(r, s) == s.take(from_first(r, s).len() as int)
{ assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_empty_fails(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number)
    requires n.national@.len() == 0, n.prefix is None
    ensures finished(db, c, n) is None
{ lemma_viable_long(n.national@); lemma_ascii_blen(n.national@); }
/// ASSUMED (regex): the class of what a number can begin with contains both plus signs
#[verifier::external_body]
pub proof fn axiom_start_plus(s: Seq<char>)
    requires s.len() > 0, is_plus(s[0])
    ensures re_find(start_re(), s) == Some((0int, 1int))
{ }
/// an RFC 3966 text that begins with a plus
pub proof fn lemma_rfc_plus(s: Seq<char>)
    requires s.len() > 0, is_plus(s[0])
    ensures after_tel(s) == s
{ reveal_strlit("Tel:"); if istarts(s, "Tel:"@) { assert(ieq(s[0], "Tel:"@[0])); } }
pub proof fn lemma_rfc_plus_part(s: Seq<char>)
    requires plus_first(s), rfc(s) is Some, (rfc(s)->0).prefix is None
    ensures false
{
    hide(params);
    lemma_rfc_plus(s);
    lemma_rest_all(0, s);
    if !has_code(s) {
        assert(past_code(s) == s);
        assert(!rk(0, s[0]));
    }
}

spec[C07]
/// alike but for how the country code was found
pub open spec fn alike(a: parser__helper__Number, b: parser__helper__Number) -> bool {
    a.national == b.national && a.prefix == b.prefix && a.extension == b.extension && a.carrier == b.carrier
}
pub proof fn lemma_np_alike(m: metadata__metadata__Metadata, a: parser__helper__Number, b: parser__helper__Number)
    requires alike(a, b)
    ensures alike(np_guarded(m, a), np_guarded(m, b)), np_guarded(m, a).country == a.country
{ hide(d_match); hide(len_spec); }
pub proof fn lemma_cc_int_alike(db: metadata__database__Database, a: parser__helper__Number, b: parser__helper__Number)
    requires alike(a, b)
    ensures cc_int(db, a) is Some == cc_int(db, b) is Some, cc_int(db, a) is Some ==> alike(cc_int(db, a)->0, cc_int(db, b)->0) && cc_int(db, a)->0.country == a.country
{ hide(known); hide(code_len); }
/// C07: what follows the international prefix of the region is read as if a plus stood in its place
pub proof fn idd_reads_as_plus(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number, p: parser__helper__Number)
    requires
        n.prefix is None, rest(0, n.national@) == n.national@,
        idd_of(db, c) is Some, find0((idd_of(db, c)->0)@, keys(vanity(n.national@), n.national@)),
        ({ let t = keys(vanity(n.national@), n.national@);
           let u = t.skip((re_find((idd_of(db, c)->0)@, t)->0).1);
           !starts0(u) && p == (parser__helper__Number { national: str_of(seq!['+'] + u), ..n }) }),
        viable(n.national@), viable(p.national@),
        n.extension is Some ==> keys(true, (n.extension->0)@) == keys(false, (n.extension->0)@),
    ensures
        finished(db, c, n) is Some == finished(db, c, p) is Some,
        finished(db, c, n) is Some ==> alike(finished(db, c, n)->0, finished(db, c, p)->0)
            && finished(db, c, n)->0.country == country__Source::Idd && finished(db, c, p)->0.country == country__Source::Plus,
{
    hide(cc_int); hide(viable); hide(nat_ok); hide(np_guarded); hide(meta_spec); hide(keys); hide(vanity); hide(rest); hide(digits); hide(idd_of);
    let t = keys(vanity(n.national@), n.national@);
    let e = (re_find((idd_of(db, c)->0)@, t)->0).1;
    let u = t.skip(e);
    lemma_keys_digits(vanity(n.national@), n.national@);
    lemma_digits_skip(t, e);
    lemma_rest_plus(u);
    lemma_keys_digits(vanity(p.national@), u);
    let a = ip(idd_of(db, c), n);
    let b = ip(idd_of(db, c), p);
    let f = if n.extension is Some { keys(true, (n.extension->0)@) } else { Seq::empty() };
    assert(a.national == str_of(u) && b.national == str_of(u));
    assert(a.extension == b.extension);
    assert(alike(a, b));
    assert(a.country == country__Source::Idd && b.country == country__Source::Plus);
    lemma_cc_int_alike(db, a, b);
    lemma_cc_int_alike(db, b, a);
    if cc_int(db, a) is Some {
        let x = cc_int(db, a)->0;
        let y = cc_int(db, b)->0;
        assert(cc(db, c, n) == Some(x) && cc(db, c, p) == Some(y));
        assert(meta_for(db, c, x) == meta_for(db, c, y));
        if meta_for(db, c, x) is Some { lemma_np_alike(meta_for(db, c, x)->0, x, y); lemma_np_alike(meta_for(db, c, x)->0, y, x); }
    }
}
pub proof fn lemma_rest_plus(u: Seq<char>)
    requires digits(u)
    ensures rest(0, seq!['+'] + u) == u, (seq!['+'] + u).len() == u.len() + 1
{
    let s = seq!['+'] + u;
    assert(s.skip(1) =~= u);
    assert(rest(0, u) == u) by { if u.len() > 0 { assert(is_d(u[0])); } }
    assert(cls(0, s[0]));
}

spec[C08]
/// C08: stripping is undone, or leaves a number that is valid if it was before; the carrier is what was captured
pub proof fn stripped_only_when_safe(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number)
    requires n.carrier is None
    ensures ({
        let q = stripped(db, c, n);
        let m = meta_for(db, c, n)->0;
        let d = m.descriptors.general;
        &&& meta_for(db, c, n) is None ==> q == n
        // valid numbers stay valid
        &&& meta_for(db, c, n) is Some && d_match(d, n.national@) ==> d_match(d, q.national@)
        // only a match at the start is stripped
        &&& q.national != n.national ==> meta_for(db, c, n) is Some && match m.national_prefix_for_parsing {
            Some(re) => find0(re@, n.national@),
            None => m.national_prefix is Some && starts(n.national@, (m.national_prefix->0)@),
        }
        // and what is left is either the rest or what the rule says
        &&& meta_for(db, c, n) is Some ==> q.national == n.national || match m.national_prefix_for_parsing {
            None => q.national@ == n.national@.skip((m.national_prefix->0)@.len() as int),
            Some(re) => q.national@ == n.national@.skip((re_find(re@, n.national@)->0).1)
                || (m.national_prefix_transform_rule is Some && q.national@ == re_replace(re@, n.national@, (m.national_prefix_transform_rule->0)@)),
        }
        // a carrier code is one the pattern captured
        &&& q.carrier is Some ==> meta_for(db, c, n) is Some && m.national_prefix_for_parsing is Some && {
            let re = (m.national_prefix_for_parsing->0)@;
            let g = re_caps(re, n.national@)->0;
            re_groups(re) > 1 && find0(re, n.national@) && (q.carrier == group(n.national@, g, 1) || q.carrier == group(n.national@, g, g.len() - 1))
        }
        // the prefix, the extension and the source are not touched
        &&& q.prefix == n.prefix && q.extension == n.extension && q.country == n.country
    })
{ hide(d_match); hide(len_spec); hide(meta_for); }
/// C08: what is shorter than every possible length is not stripped down to
pub proof fn too_short_is_undone(m: metadata__metadata__Metadata, n: parser__helper__Number)
    requires ({
        let d = m.descriptors.general;
        let l = blen(np(m, n).national@) as u16;
        d.possible_length@.len() > 0
        && (forall|i: int| 0 <= i < d.possible_length@.len() ==> l < #[trigger] d.possible_length@[i]) && !d.possible_local_length@.contains(l)
    })
    ensures np_guarded(m, n) == n
{
    hide(np);
    let p = m.descriptors.general.possible_length@;
    assert((blen(np(m, n).national@) as u16) < p[0]);
}

spec[C20]
/// C20: with the extension or without it, the same number; the extension in digits is what it had
pub proof fn extension_is_only_split_off(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number, w: parser__helper__Number)
    requires w == (parser__helper__Number { extension: None, ..n })
    ensures
        finished(db, c, n) is Some == finished(db, c, w) is Some,
        finished(db, c, n) is Some ==> ({
            let a = finished(db, c, n)->0;
            let b = finished(db, c, w)->0;
            &&& a.national == b.national && a.prefix == b.prefix && a.country == b.country && a.carrier == b.carrier
            &&& b.extension is None
            &&& a.extension == o_keys(vanity(n.national@), n.extension)
        }),
{
    hide(d_match); hide(len_spec); hide(meta_spec); hide(known); hide(code_len); hide(keys); hide(vanity); hide(nat_ok); hide(viable); hide(int_ok);
    hide(possible); hide(re_replace);
    let x = cc(db, c, n);
    let y = cc(db, c, w);
    assert(x is Some == y is Some);
    if x is Some {
        let a = x->0; let b = y->0;
        assert(a.national == b.national && a.prefix == b.prefix && a.country == b.country && a.carrier == b.carrier);
        assert(meta_for(db, c, a) == meta_for(db, c, b));
    }
}
/// C20: no marker, or a marker without digits: no extension
pub proof fn no_marker_no_extension(s: Seq<char>)
    requires extracted(s) is Some, !re_match(extn_re(), extracted(s)->0)
    ensures natural(s) is Some && (natural(s)->0).extension is None && (natural(s)->0).national@ == extracted(s)->0
{ }

spec[C21]
/// the value of the last parameter of the name, else the one before
pub open spec fn last_of(s: Seq<char>, k: Str, v: Option<Str>) -> Option<Str>
    decreases s.len() when true via last_of_decreases
{
    if is_param(s) { last_of(past(3, param_val(s)), k, if param(s).0 == k { Some(param(s).1) } else { v }) } else { v }
}
#[via_fn]
proof fn last_of_decreases(s: Seq<char>, k: Str, v: Option<Str>) { lemma_param_len(s); }
/// C21: the last parameter of a name wins
pub proof fn last_parameter_wins(s: Seq<char>, m: Map<Str, Str>, k: Str)
    ensures lookup(params(s, m), k) == last_of(s, k, lookup(m, k))
    decreases s.len()
{
    if is_param(s) {
        lemma_param_len(s);
        last_parameter_wins(past(3, param_val(s)), m.insert(param(s).0, param(s).1), k);
    }
}
/// C21: where the country code comes from
pub proof fn rfc_code(db: metadata__database__Database, c: Option<country__Id>, s: Seq<char>)
    requires rfc(s) is Some
    ensures ({
        let n = rfc(s)->0;
        let a = after_tel(s);
        let v = vanity(n.national@);
        let t = keys(v, n.national@);
        let b = past(0, past_code(a));
        &&& has_code(a) ==> n.prefix == Some(str_of(a.skip(1).take(run(1, a.skip(1)) as int)))
        &&& !has_code(a) ==> (n.prefix is Some == last_of(b, str_of("phone-context"@), None) is Some)
            && (n.prefix is Some ==> (n.prefix->0)@ == unplus((last_of(b, str_of("phone-context"@), None)->0)@))
        &&& n.extension == last_of(b, str_of("ext"@), None)
        &&& n.prefix is Some ==> ({
            let p = keys(v, (n.prefix->0)@);
            // a known code is the code
            &&& known(db, p) && p.len() > 0 && t.len() > 2 ==> cc(db, c, n) is Some && (cc(db, c, n)->0).national@ == t && (cc(db, c, n)->0).prefix == Some(str_of(p))
            // otherwise it is read together with the digits that follow
            &&& !known(db, p) && p.len() > 0 ==> (cc(db, c, n) is Some == ((p + t).len() > 2 && !starts0(p + t) && code_len(db, p + t) > 0))
            &&& !known(db, p) && cc(db, c, n) is Some ==> (cc(db, c, n)->0).national@ == (p + t).skip(code_len(db, p + t) as int)
                && (cc(db, c, n)->0).prefix == Some(str_of((p + t).take(code_len(db, p + t) as int)))
            &&& cc(db, c, n) is Some ==> (cc(db, c, n)->0).country == country__Source::Plus
        })
    })
{
    hide(known); hide(code_len); hide(keys); hide(vanity); hide(params); hide(run); hide(istarts);
    let n = rfc(s)->0;
    let b = past(0, past_code(after_tel(s)));
    last_parameter_wins(b, Map::empty(), str_of("phone-context"@));
    last_parameter_wins(b, Map::empty(), str_of("ext"@));
    assert(lookup(Map::<Str, Str>::empty(), str_of("ext"@)) is None);
    assert(lookup(Map::<Str, Str>::empty(), str_of("phone-context"@)) is None);
    let i = ip(idd_of(db, c), n);
    assert(n.prefix is Some ==> cc(db, c, n) == cc_int(db, i));
}

spec[C22]
/// what parsing an E.164 text comes upon
pub open spec fn e164(code: u16, national: Seq<char>) -> Seq<char> { seq!['+'] + (dec(code as nat) + national) }
/// ASSUMED (regex): in a plus sign and digits there is no end to cut off, no second number and no extension
#[verifier::external_body]
pub proof fn axiom_bare(s: Seq<char>)
    requires s.len() > 1, s[0] == '+', digits(s.skip(1))
    ensures re_find(start_re(), s) == Some((0int, 1int)), re_caps(end_re(), s) is None, re_caps(second_re(), s) is None, re_caps(extn_re(), s) is None
{ }
pub proof fn lemma_bare(d: Seq<char>)
    requires digits(d), d.len() >= 3
    ensures ({ let s = seq!['+'] + d;
        front(s) == Some(parser__helper__Number { country: country__Source::Default, national: str_of(s), prefix: None, extension: None, carrier: None }) && viable(s) && rest(0, s) == d && s.len() == d.len() + 1 })
{
    hide(params);
    let s = seq!['+'] + d;
    assert(s.skip(1) =~= d);
    assert(s.skip(0) =~= s);
    axiom_bare(s);
    assert(cls(0, s[0]));
    assert forall|i: int| 0 <= i < d.len() implies is_d(d[i]) && is_dg(d[i]) && !is_plus(d[i]) && !cls(1, d[i]) && cls(3, d[i]) && rk(1, d[i]) by { assert(is_d(d[i])); }
    assert(rest(0, d) == d && rest(1, d) == d);
    let d1 = d.skip(1);
    assert(d1[0] == d[1]);
    assert(rest(1, d1) == d1);
    let d2 = d1.skip(1);
    assert(d2[0] == d[2]);
    assert(rest(1, d2) == d2);
    let d3 = d2.skip(1);
    assert(all_of(3, d3)) by { assert forall|i: int| 0 <= i < d3.len() implies cls(3, #[trigger] d3[i]) by { assert(d3[i] == d[i + 3]); } }
    assert(rest(0, s) == d);
    assert(v_long(s));
    assert(after_tel(s) == s) by { reveal_strlit("Tel:"); if istarts(s, "Tel:"@) { assert(ieq(s[0], "Tel:"@[0])); } }
    assert(has_code(s)) by { assert(s[1] == d[0]); }
    lemma_run_digits(d);
    assert(past(1, d) =~= Seq::empty());
    assert(past_code(s) == past(1, d));
    assert(run(0, past_code(s)) == 0);
    assert(rfc(s) is None);
}
pub proof fn lemma_run_digits(d: Seq<char>)
    requires digits(d)
    ensures run(1, d) == d.len()
    decreases d.len()
{
    if d.len() > 0 {
        assert(is_d(d[0]));
        assert(digits(d.skip(1))) by { assert forall|i: int| 0 <= i < d.skip(1).len() implies is_d(#[trigger] d.skip(1)[i]) by { assert(d.skip(1)[i] == d[i + 1]); } }
        lemma_run_digits(d.skip(1));
    }
}
/// the digits of a national number are those of a national number
pub proof fn lemma_nn_str(n: national_number__NationalNumber)
    ensures nat_ok(nn_str(n)), digits(nn_str(n)), nn_str(n).len() > 0
{
    let z = nn_zeros(n); let v = nn_value(n) as nat; let s = nn_str(n);
    lemma_unpack(n.value);
    lemma_dec(v);
    let d = dec(v);
    assert forall|i: int| 0 <= i < s.len() implies is_d(#[trigger] s[i]) by { if i >= z { assert(s[i] == d[i - z]); } }
    assert(!s.contains('+')) by { if s.contains('+') { let j = choose|j: int| 0 <= j < s.len() && s[j] == '+'; assert(is_d(s[j])); } }
    assert(s.skip(z as int) =~= d);
    assert(z <= 255);
    if v == 0 {
        assert(d =~= seq!['0']);
        lemma_lead_is(s, '0', s.len() as int);
    } else {
        assert(s[z as int] == d[0]);
        lemma_lead_is(s, '0', z as int);
    }
    assert(nn_lead(s) == z);
    assert(int_text(d) == d) by { assert(is_d(d[0])); }
}
/// C22: the E.164 form of a number is read as that number, whatever the region
pub proof fn e164_reads_back(db: metadata__database__Database, c: Option<country__Id>, r: phone_number__PhoneNumber)
    requires db_wf(db), db.by_code@.dom().contains(r.code.value), 1 <= r.code.value <= 999, 2 <= nn_str(r.national).len() <= 17,
        forall|k: int| 1 <= k < dec(r.code.value as nat).len() ==> !known(db, #[trigger] dec(r.code.value as nat).take(k)),
        meta_spec(db, r.code.value, nn_str(r.national).skip(lead(nn_str(r.national), '0') as int)) matches Some(m) ==> (match m.national_prefix_for_parsing {
            Some(re) => !find0(re@, nn_str(r.national)),
            None => m.national_prefix is Some ==> !starts(nn_str(r.national), (m.national_prefix->0)@),
        }),
    ensures ({
        let s = e164(r.code.value, nn_str(r.national));
        front(s) is Some && finished(db, c, front(s)->0) is Some && ({
            let q = finished(db, c, front(s)->0)->0;
            code_of(q) == r.code.value && nat_of(q.national@) == nn_str(r.national) && q.extension is None && q.carrier is None
        })
    })
{
    hide(meta_spec); hide(viable); hide(rfc); hide(natural); hide(nn_str); hide(find0); hide(starts); hide(d_match); hide(len_spec); hide(vanity); hide(nat_ok); hide(keys); hide(rest); hide(idd_of);
    let v = r.code.value;
    let ns = nn_str(r.national);
    let cv = dec(v as nat);
    let d = cv + ns;
    lemma_nn_str(r.national);
    lemma_dec(v as nat);
    lemma_digits_cat(cv, ns);
    lemma_dec_len(v as nat);
    lemma_bare(d);
    let s = e164(v, ns);
    let n = front(s)->0;
    lemma_keys_digits(vanity(s), d);
    let i = ip(idd_of(db, c), n);
    assert(d[0] == cv[0]);
    assert(i == (parser__helper__Number { country: country__Source::Plus, national: str_of(d), ..n }));
    assert(forall|k: int| 0 <= k <= cv.len() ==> d.take(k) =~= #[trigger] cv.take(k));
    assert(cv.take(cv.len() as int) =~= cv);
    assert(int_text(cv) == cv) by { assert(is_d(cv[0])); }
    assert(known(db, cv));
    assert(code_len(db, d) == cv.len()) by {
        if cv.len() > 1 { assert(!known(db, cv.take(1))); }
        if cv.len() > 2 { assert(!known(db, cv.take(2))); }
        assert(d.take(cv.len() as int) == cv);
    }
    assert(d.skip(cv.len() as int) =~= ns);
    let k = parser__helper__Number { country: country__Source::Plus, prefix: Some(str_of(cv)), national: str_of(ns), ..n };
    assert(cc_int(db, i) == Some(k));
    assert(cc(db, c, n) == Some(k));
    assert(code_of(k) == v);
    if meta_for(db, c, k) is Some { assert(np(meta_for(db, c, k)->0, k) == k); }
    assert(stripped(db, c, k) == k);
    lemma_nat_digits(ns);
}
pub proof fn lemma_dec_len(v: nat)
    requires 0 < v <= 999
    ensures 1 <= dec(v).len() <= 3
{ reveal_with_fuel(dec, 4); }

spec[C01,C02]
/// ASSUMED: the pinned patterns compile (every run of the harness compiles them)
pub open spec fn pinned(r: Re) -> bool {
    ||| !r.ws && !r.ic && (r.pat =~= "00"@ || r.pat =~= start_re().pat || r.pat =~= end_re().pat || r.pat =~= second_re().pat || r.pat =~= alpha_phone_re().pat
        || r.pat =~= first_group_re().pat || r.pat =~= sep_re().pat)
    ||| !r.ws && r.ic && r.pat =~= extn_re().pat
}
#[verifier::external_body]
pub broadcast proof fn axiom_pinned(r: Re)
    ensures pinned(r) ==> #[trigger] re_valid(r)
{ }
broadcast use axiom_pinned;

spec[C02]
/// C02: a parsed number can be written in every mode, with every format, by the database it was parsed with
pub proof fn parsed_can_be_written(db: metadata__database__Database, c: Option<country__Id>, s: Seq<char>, r: phone_number__PhoneNumber, x: formatter__Formatter)
    requires db_wf(db), front(s) is Some, finished(db, c, front(s)->0) is Some, is_pn(finished(db, c, front(s)->0)->0, r),
        x.number == r, fm_db(x) == db
    ensures fm_known(x)
{
    parsed_is_well_formed(db, c, s, r);
}
