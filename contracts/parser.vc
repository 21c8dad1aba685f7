// C06, C07, C08: country code, international and national prefix
spec
pub open spec fn starts0(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '0' }
pub open spec fn normed(v: bool, n: parser__helper__Number) -> parser__helper__Number {
    parser__helper__Number { national: str_of(keys(v, n.national@)), prefix: o_keys(v, n.prefix), extension: o_keys(v, n.extension), ..n }
}
/// the number in digits, its international prefix recognised and dropped
pub open spec fn ip(idd: Option<Regex>, n: parser__helper__Number) -> parser__helper__Number {
    let v = vanity(n.national@);
    if n.prefix is Some {
        parser__helper__Number { country: country__Source::Plus, ..normed(v, n) }
    } else {
        let w = rest(0, n.national@);
        let t = keys(v, w);
        let plus = w.len() < n.national@.len();
        let m = parser__helper__Number { national: str_of(t), country: if plus { country__Source::Plus } else { country__Source::Default }, ..normed(v, n) };
        if plus && !starts0(t) { m }
        else if idd is Some && find0((idd->0)@, t) {
            let u = t.skip((re_find((idd->0)@, t)->0).1);
            if starts0(u) { m } else {
                parser__helper__Number { national: str_of(u), country: if plus { country__Source::Plus } else { country__Source::Idd }, ..m }
            }
        } else { m }
    }
}
/// the international prefix of the region; 00 without a region
pub open spec fn idd_of(db: metadata__database__Database, c: Option<country__Id>) -> Option<Regex> {
    match c {
        None => Some(consts__DEFAULT_IDD_spec()),
        Some(i) => match lookup(db.by_id@, str_of(id_str(i))) { Some(m) => m.international_prefix, None => None },
    }
}
/// the digits are a code of the database
pub open spec fn known(db: metadata__database__Database, s: Seq<char>) -> bool {
    int_ok(s, u16::MAX as nat) && db.by_code@.dom().contains(dec_val(int_text(s)) as u16)
}
/// the shortest code of at most three digits that the digits begin with
pub open spec fn code_len(db: metadata__database__Database, s: Seq<char>) -> nat {
    if known(db, s.take(1)) { 1 } else if known(db, s.take(2)) { 2 } else if known(db, s.take(3)) { 3 } else { 0 }
}
pub open spec fn len_spec(d: metadata__descriptor__Descriptor, s: Seq<char>) -> validator__Validation {
    let l = blen(s) as u16;
    let p = d.possible_length@;
    if p.len() == 0 { validator__Validation::InvalidLength }
    else if d.possible_local_length@.contains(l) { validator__Validation::IsPossibleLocalOnly }
    else if l == p[0] { validator__Validation::IsPossible }
    else if l < p[0] { validator__Validation::TooShort }
    else if l > p.last() { validator__Validation::TooLong }
    else if p.contains(l) { validator__Validation::IsPossible }
    else { validator__Validation::InvalidLength }
}
pub open spec fn possible(d: metadata__descriptor__Descriptor, s: Seq<char>) -> bool {
    len_spec(d, s) == validator__Validation::IsPossible || len_spec(d, s) == validator__Validation::IsPossibleLocalOnly
}
/// an international number: the code from its prefix or from its first digits
pub open spec fn cc_int(db: metadata__database__Database, n: parser__helper__Number) -> Option<parser__helper__Number> {
    let k = n.prefix is Some && known(db, (n.prefix->0)@);
    let t = if n.prefix is Some && !k { (n.prefix->0)@ + n.national@ } else { n.national@ };
    if n.prefix is Some && (n.prefix->0)@.len() == 0 { None }
    else if t.len() <= 2 { None }
    else if k { Some(n) }
    else if starts0(t) { None }
    else {
        let l = code_len(db, t);
        if l == 0 { None } else { Some(parser__helper__Number { prefix: Some(str_of(t.take(l as int))), national: str_of(t.skip(l as int)), ..n }) }
    }
}
/// a number of the region, with or without the region's code
pub open spec fn cc_nat(m: metadata__metadata__Metadata, n: parser__helper__Number) -> parser__helper__Number {
    let c = dec(m.country_code as nat);
    let t = n.national@;
    let d = m.descriptors.general;
    if starts(t, c) && (!d_match(d, t) || !possible(d, t)) {
        parser__helper__Number { country: country__Source::Number, national: str_of(t.skip(c.len() as int)), prefix: Some(str_of(c)), ..n }
    } else {
        parser__helper__Number { prefix: Some(str_of(c)), ..n }
    }
}
pub open spec fn cc(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number) -> Option<parser__helper__Number> {
    let i = ip(idd_of(db, c), n);
    if i.country != country__Source::Default { cc_int(db, i) }
    else if c is None { None }
    else {
        match lookup(db.by_id@, str_of(id_str(c->0))) { Some(m) => Some(cc_nat(m, i)), None => None }
    }
}
pub proof fn lemma_ip_digits(idd: Option<Regex>, n: parser__helper__Number)
    ensures digits(ip(idd, n).national@), ip(idd, n).prefix is Some ==> digits((ip(idd, n).prefix->0)@)
{
    let v = vanity(n.national@);
    lemma_keys_digits(v, n.national@);
    let t = keys(v, rest(0, n.national@));
    lemma_keys_digits(v, rest(0, n.national@));
    if n.prefix is Some { lemma_keys_digits(v, (n.prefix->0)@); }
    else if idd is Some && find0((idd->0)@, t) { lemma_digits_skip(t, (re_find((idd->0)@, t)->0).1); }
}
pub broadcast proof fn lemma_digits_skip(s: Seq<char>, k: int)
    requires digits(s), 0 <= k <= s.len()
    ensures digits(#[trigger] s.skip(k))
{
    assert forall|i: int| 0 <= i < s.skip(k).len() implies is_d(#[trigger] s.skip(k)[i]) by { assert(s.skip(k)[i] == s[i + k]); }
}
pub broadcast proof fn lemma_digits_cat(s: Seq<char>, t: Seq<char>)
    requires digits(s), digits(t)
    ensures digits(#[trigger] (s + t))
{
    assert forall|i: int| 0 <= i < (s + t).len() implies is_d(#[trigger] (s + t)[i]) by { if i < s.len() { assert((s + t)[i] == s[i]); } else { assert((s + t)[i] == t[i - s.len()]); } }
}
pub broadcast proof fn lemma_digits_take(s: Seq<char>, k: int)
    requires digits(s), 0 <= k <= s.len()
    ensures digits(#[trigger] s.take(k)), blen(s.take(k)) == k
{
    assert forall|i: int| 0 <= i < s.take(k).len() implies is_d(#[trigger] s.take(k)[i]) by { assert(s.take(k)[i] == s[i]); }
    lemma_ascii_blen(s.take(k));
}
broadcast use lemma_digits_skip, lemma_digits_cat, lemma_digits_take;
/// the code read from up to three digits
pub proof fn lemma_code(s: Seq<char>, k: int)
    requires digits(s), 1 <= k <= s.len(), k <= 3, !starts0(s)
    ensures int_ok(s.take(k), u16::MAX as nat), int_text(s.take(k)) == s.take(k), dec(dec_val(s.take(k))) == s.take(k)
{
    let t = s.take(k);
    assert forall|i: int| 0 <= i < t.len() implies is_d(#[trigger] t[i]) by { assert(t[i] == s[i]); }
    assert(t[0] == s[0]);
    lemma_dec_val_bound(t);
    assert(pow10(3) == 1000 && pow10(2) == 100 && pow10(1) == 10) by (compute);
    lemma_dec_inv(t);
}

static consts::DEFAULT_IDD ()
  ensures[*,C07] r@ == (Re { pat: "00"@, ws: false, ic: false })

fn parser::helper::ignore_plus (i)
  ensures[*,C06] r is Ok == (i@.len() > 0 && is_plus(i@[0]))
  ensures[*,C06] r is Ok ==> (r->Ok_0).0@ == rest(0, i@) && (r->Ok_0).1@ == i@.take(i@.len() - rest(0, i@).len())
  ensures[*,C06] r is Err ==> r->Err_0 is Error
  loop 0 many1
    invariant rest(0, cur0@) == rest(0, src0), err0 is None, acc0@.len() == 0 ==> cur0@ == src0, acc0@.len() > 0 ==> src0.len() > 0 && is_plus(src0[0])
    lensures cur0@ == rest(0, src0), err0 is None, (acc0@.len() == 0) == !(src0.len() > 0 && is_plus(src0[0]))
    ldecreases cur0@.len()

fn parser::helper::trim (v, n)
  requires is_b(v@, n as int)
  ensures[*,C06] r@ == v@.skip(ci(v@, n as int))

fn parser::helper::international_prefix (idd, n)
  ensures[*,C06,C07,C22] r.national@ == ip(idd, n).national@
  ensures[*,C06,C07,C22] r.country == ip(idd, n).country
  ensures[*,C06,C07,C22] r.prefix == ip(idd, n).prefix
  ensures[*,C06,C07,C22] r.extension == ip(idd, n).extension
  ensures[*,C06,C07,C22] r.carrier == ip(idd, n).carrier
  start proof {
    let s = n.national@;
    lemma_ip_digits(idd, n);
    lemma_rest_all(0, s); lemma_rest_suffix(0, s);
    lemma_ci(s, s.len() - rest(0, s).len());
    lemma_keys_digits(vanity(s), rest(0, s));
    assert(s.skip(0) =~= s);
  }

fn validator::length (m, n, k)
  requires increasing(m.descriptors.general.possible_length@)
  ensures[*,C08] k == phone_number__Type::Unknown ==> r == len_spec(m.descriptors.general, n.national@)

fn validator::Validation::is_possible (v)
  ensures[*,C08] r == (v == validator__Validation::IsPossible || v == validator__Validation::IsPossibleLocalOnly)

fn parser::helper::country_code (db, c, n)
  requires db_wf(db)
  ensures[*,C03,C06,C07,C22] r is Ok == cc(db, c, n) is Some
  ensures[*,C03,C06,C07,C22] r is Ok ==> r->Ok_0.national@ == (cc(db, c, n)->0).national@
  ensures[*,C03,C06,C07,C22] r is Ok ==> r->Ok_0.country == (cc(db, c, n)->0).country
  ensures[*,C03,C06,C07,C22] r is Ok ==> r->Ok_0.prefix == (cc(db, c, n)->0).prefix
  ensures[*,C03,C06,C07,C22] r is Ok ==> r->Ok_0.extension == (cc(db, c, n)->0).extension
  ensures[*,C03,C06,C07,C22] r is Ok ==> r->Ok_0.carrier == (cc(db, c, n)->0).carrier
  start hide(digits); hide(ascii); hide(int_ok); hide(int_text); hide(starts); hide(rest); hide(is_b); hide(ci); hide(code_wf); hide(ip); hide(keys); hide(d_match); hide(len_spec); hide(vanity);
    proof { lemma_ip_digits(idd_of(db, c), n); }
  loop 0 for RangeV<usize>
    pre let ghost n0 = cur(n);
    invariant cur(n) == n0, 1 <= it0.start <= it0.end, it0.end == 4,
      digits(n0.national@), n0.national@.len() > 2, !starts0(n0.national@),
      forall|k: int| 1 <= k < it0.start ==> !known(db, #[trigger] n0.national@.take(k)),
      cc(db, c, n) == (if code_len(db, n0.national@) == 0 { None } else {
          let l = code_len(db, n0.national@) as int;
          Some(parser__helper__Number { prefix: Some(str_of(n0.national@.take(l))), national: str_of(n0.national@.skip(l)), ..n0 })
      })
    lensures cc(db, c, n) is None
    ldecreases it0.end - it0.start
    head proof { if it0.start < 4 { lemma_code(n0.national@, it0.start as int); } }
  loop 0 for RangeInc<usize>
    pre let ghost n0 = cur(n);
    invariant cur(n) == n0, 1 <= it0.start <= it0.end, it0.end == 3,
      digits(n0.national@), n0.national@.len() > 2, !starts0(n0.national@),
      forall|k: int| 1 <= k < it0.start ==> !known(db, #[trigger] n0.national@.take(k)),
      it0.done ==> it0.start == 3 && !known(db, n0.national@.take(3)),
      cc(db, c, n) == (if code_len(db, n0.national@) == 0 { None } else {
          let l = code_len(db, n0.national@) as int;
          Some(parser__helper__Number { prefix: Some(str_of(n0.national@.take(l))), national: str_of(n0.national@.skip(l)), ..n0 })
      })
    lensures cc(db, c, n) is None
    ldecreases it0.end - it0.start + (if it0.done { 0int } else { 1 })
    head proof { if !it0.done { lemma_code(n0.national@, it0.start as int); } }
  loop 0 loop
    pre let ghost n0 = cur(n);
    invariant cur(n) == n0, 1 <= L{usize} <= 4,
      digits(n0.national@), n0.national@.len() > 2, !starts0(n0.national@),
      forall|k: int| 1 <= k < L{usize} ==> !known(db, #[trigger] n0.national@.take(k)),
      cc(db, c, n) == (if code_len(db, n0.national@) == 0 { None } else {
          let l = code_len(db, n0.national@) as int;
          Some(parser__helper__Number { prefix: Some(str_of(n0.national@.take(l))), national: str_of(n0.national@.skip(l)), ..n0 })
      })
    lensures cc(db, c, n) is None
    ldecreases 4 - L{usize}
    head proof { if L{usize} < 4 { lemma_code(n0.national@, L{usize} as int); } }

spec
/// what group i of the match captured
pub open spec fn group(s: Seq<char>, c: Seq<Option<(int, int)>>, i: int) -> Option<Str> {
    if 0 <= i < c.len() && c[i] is Some { Some(str_of(s.subrange((c[i]->0).0, (c[i]->0).1))) } else { None }
}
/// without the national prefix, if it is safe to strip it
pub open spec fn np(m: metadata__metadata__Metadata, n: parser__helper__Number) -> parser__helper__Number {
    let s = n.national@;
    let d = m.descriptors.general;
    match m.national_prefix_for_parsing {
        None => match m.national_prefix {
            Some(p) => if starts(s, p@) && (!d_match(d, s) || d_match(d, s.skip(p@.len() as int))) {
                parser__helper__Number { national: str_of(s.skip(p@.len() as int)), ..n }
            } else { n },
            None => n,
        },
        Some(re) => if !find0(re@, s) { n } else {
            let c = re_caps(re@, s)->0;
            let last = group(s, c, c.len() - 1);
            if m.national_prefix_transform_rule is None || last is None {
                let t = s.skip((c[0]->0).1);
                if d_match(d, s) && !d_match(d, t) { n }
                else { parser__helper__Number { national: str_of(t), carrier: if re_groups(re@) > 1 { last } else { None }, ..n } }
            } else {
                let t = re_replace(re@, s, (m.national_prefix_transform_rule->0)@);
                if d_match(d, s) && !d_match(d, t) { n }
                else { parser__helper__Number { national: str_of(t), carrier: if re_groups(re@) > 2 { group(s, c, 1) } else { None }, ..n } }
            }
        },
    }
}
/// that, unless too little is left
pub open spec fn np_guarded(m: metadata__metadata__Metadata, n: parser__helper__Number) -> parser__helper__Number {
    let p = np(m, n);
    if len_spec(m.descriptors.general, p.national@) == validator__Validation::TooShort { n } else { p }
}
/// the metadata that decides about the national prefix
pub open spec fn meta_for(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number) -> Option<metadata__metadata__Metadata> {
    if c is Some && n.country == country__Source::Default { lookup(db.by_id@, str_of(id_str(c->0))) }
    else { meta_spec(db, code_of(n), n.national@.skip(lead(n.national@, '0') as int)) }
}
pub open spec fn code_of(n: parser__helper__Number) -> u16 {
    match n.prefix { Some(p) => dec_val(int_text(p@)) as u16, None => 0 }
}
pub open spec fn stripped(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number) -> parser__helper__Number {
    match meta_for(db, c, n) { Some(m) => np_guarded(m, n), None => n }
}
/// a number read from a text becomes a phone number
pub open spec fn finished(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number) -> Option<parser__helper__Number> {
    let w = match n.prefix { Some(p) => p@ + n.national@, None => n.national@ };
    if !viable(w) { None }
    else {
        match cc(db, c, n) {
            None => None,
            Some(k) => {
                let q = stripped(db, c, k);
                if 2 <= blen(q.national@) <= 17 && (q.prefix is Some ==> int_ok((q.prefix->0)@, u16::MAX as nat)) && nat_ok(q.national@) { Some(q) } else { None }
            },
        }
    }
}
/// what is in the phone number
pub open spec fn is_pn(n: parser__helper__Number, r: phone_number__PhoneNumber) -> bool {
    &&& r.code.value == code_of(n)
    &&& r.code.source == n.country
    &&& nn_str(r.national) == nat_of(n.national@)
    &&& r.extension is Some == (n.extension is Some && (n.extension->0)@.len() > 0)
    &&& r.extension is Some ==> (r.extension->0).0@ == (n.extension->0)@
    &&& r.carrier is Some == n.carrier is Some
    &&& r.carrier is Some ==> (r.carrier->0).0@ == (n.carrier->0)@
}
/// what is left to parse is digits
pub broadcast proof fn lemma_cc_digits(db: metadata__database__Database, c: Option<country__Id>, n: parser__helper__Number)
    requires (#[trigger] cc(db, c, n)) is Some
    ensures digits((cc(db, c, n)->0).national@)
{
    hide(ip); hide(known); hide(d_match); hide(possible);
    lemma_ip_digits(idd_of(db, c), n);
}
/// the national prefix has nothing to do with the code
pub broadcast proof fn lemma_np_fields(m: metadata__metadata__Metadata, n: parser__helper__Number)
    ensures (#[trigger] np(m, n)).prefix == n.prefix, np(m, n).country == n.country, np(m, n).extension == n.extension
{ }
/// the region of a number leads to its metadata
pub broadcast proof fn lemma_source(db: metadata__database__Database, code: u16, s: Seq<char>)
    requires db_wf(db)
    ensures
        meta_spec(db, code, s) == (match #[trigger] source_spec(db, code, s) {
            Some(Either::Left(i)) => Some(db.by_id@[str_of(id_str(i))]),
            Some(Either::Right(k)) => Some(db.by_code@[k]@[0]),
            None => None,
        }),
        source_spec(db, code, s) matches Some(Either::Left(i)) ==> db.by_id@.dom().contains(str_of(id_str(i))),
        source_spec(db, code, s) matches Some(Either::Right(k)) ==> k == code && db.by_code@.dom().contains(k) && db.by_code@[k]@.len() > 0,
        meta_spec(db, code, s) is Some ==> meta_wf(meta_spec(db, code, s)->0),
{
    lemma_region(db, code, s);
    if region_spec(db, code, s) is Some {
        let g = region_spec(db, code, s)->0;
        lemma_id(g@);
        assert(str_of(g@) == g);
    }
}
broadcast use lemma_cc_digits, lemma_np_fields, lemma_source;

fn parser::helper::national_number (m, n)
  requires meta_wf(m), digits(n.national@)
  ensures[*,C08,C22] r.national@ == np(m, n).national@
  ensures[*,C08,C22] r.carrier == np(m, n).carrier
  ensures[*,C08,C22] r.country == n.country && r.prefix == n.prefix && r.extension == n.extension

fn parser::parse_with (db, c, s)
  requires db_wf(db)
  ensures[*,C02,C03,C05,C06,C07,C08,C20,C21,C22] r is Ok ==> front(s@) is Some && finished(db, c, front(s@)->0) is Some && is_pn(finished(db, c, front(s@)->0)->0, r->Ok_0)
  ensures[*,C06,C07,C20,C21,C22] front(s@) is Some && finished(db, c, front(s@)->0) is Some ==> r is Ok
  start hide(digits); hide(ascii); hide(int_ok); hide(int_text); hide(cc); hide(np); hide(front); hide(len_spec); hide(viable); hide(nat_of); hide(nat_ok); hide(lead); hide(source_spec); hide(meta_spec); hide(code_wf); hide(nn_str);

fn parser::parse (c, s)
  ensures[*,C02,C03,C05,C06,C07,C08,C20,C21,C22] r is Ok ==> front(s@) is Some && finished(metadata__database__DEFAULT_spec(), c, front(s@)->0) is Some && is_pn(finished(metadata__database__DEFAULT_spec(), c, front(s@)->0)->0, r->Ok_0)
  ensures[*,C06,C07,C20,C21,C22] front(s@) is Some && finished(metadata__database__DEFAULT_spec(), c, front(s@)->0) is Some ==> r is Ok

fn <phone_number::PhoneNumber as std::str::FromStr>::from_str (s)
  ensures[*,C02,C03,C05,C06,C08,C20,C21,C22] r is Ok ==> front(s@) is Some && finished(metadata__database__DEFAULT_spec(), None, front(s@)->0) is Some && is_pn(finished(metadata__database__DEFAULT_spec(), None, front(s@)->0)->0, r->Ok_0)
  ensures[*,C06,C07,C20,C21,C22] front(s@) is Some && finished(metadata__database__DEFAULT_spec(), None, front(s@)->0) is Some ==> r is Ok
