// C18: the database and what it was built from
spec
pub open spec fn seqv<T>(s: Seq<T>) -> SeqV<T> { SeqV { s: Ghost(s) } }
pub open spec fn re_of(p: Seq<char>) -> Re { Re { pat: p, ws: true, ic: false } }
pub open spec fn regex_of(p: Seq<char>) -> Regex { Regex { r: Ghost(re_of(p)) } }

/// what the parts of the loaded metadata become; *_ok: they are accepted
pub open spec fn desc_ok(d: metadata__loader__Descriptor) -> bool {
    d.national_number is Some && re_valid(re_of(anchored_pat((d.national_number->0)@)))
}
pub open spec fn desc_fn(d: metadata__loader__Descriptor) -> metadata__descriptor__Descriptor {
    metadata__descriptor__Descriptor {
        national_number: regex_of(anchored_pat((d.national_number->0)@)),
        possible_length: d.possible_length,
        possible_local_length: d.possible_local_length,
        example: d.example,
    }
}
pub open spec fn odesc_ok(d: Option<metadata__loader__Descriptor>) -> bool { d is Some ==> desc_ok(d->0) }
pub open spec fn odesc_fn(d: Option<metadata__loader__Descriptor>) -> Option<metadata__descriptor__Descriptor> {
    match d { Some(x) => Some(desc_fn(x)), None => None }
}
pub open spec fn ore_ok(d: Option<Str>) -> bool { d is Some ==> re_valid(re_of((d->0)@)) }
pub open spec fn ore_fn(d: Option<Str>) -> Option<Regex> { match d { Some(x) => Some(regex_of(x@)), None => None } }
pub open spec fn res_ok(s: Seq<Str>) -> bool { forall|i: int| 0 <= i < s.len() ==> re_valid(re_of(#[trigger] s[i]@)) }
pub open spec fn res_fn(s: Seq<Str>) -> Seq<Regex> { Seq::new(s.len(), |i: int| regex_of(s[i]@)) }
pub open spec fn fmt_ok(f: metadata__loader__Format) -> bool {
    f.pattern is Some && re_valid(re_of((f.pattern->0)@)) && f.format is Some && res_ok(f.leading_digits@)
}
pub open spec fn fmt_fn(f: metadata__loader__Format) -> metadata__format__Format {
    metadata__format__Format {
        pattern: regex_of((f.pattern->0)@),
        format: f.format->0,
        leading_digits: seqv(res_fn(f.leading_digits@)),
        national_prefix: f.national_prefix_formatting_rule,
        national_prefix_optional: f.national_prefix_optional_when_formatting,
        domestic_carrier: f.domestic_carrier,
    }
}
pub open spec fn fmts_ok(s: Seq<metadata__loader__Format>) -> bool { forall|i: int| 0 <= i < s.len() ==> fmt_ok(#[trigger] s[i]) }
pub open spec fn fmts_fn(s: Seq<metadata__loader__Format>) -> Seq<metadata__format__Format> { Seq::new(s.len(), |i: int| fmt_fn(s[i])) }

/// lengths that some description other than noInternational lists
pub open spec fn lst(d: metadata__loader__Descriptor, local: bool) -> Seq<u16> { if local { d.possible_local_length@ } else { d.possible_length@ } }
pub open spec fn has_len(d: Option<metadata__loader__Descriptor>, l: bool, x: u16) -> bool { d is Some && lst(d->0, l).contains(x) }
#[verifier::opaque]
pub open spec fn any_of(m: metadata__loader__Metadata, l: bool, x: u16) -> bool {
    has_len(m.general, l, x) || has_len(m.fixed_line, l, x) || has_len(m.mobile, l, x) || has_len(m.toll_free, l, x) || has_len(m.premium_rate, l, x)
    || has_len(m.shared_cost, l, x) || has_len(m.personal_number, l, x) || has_len(m.voip, l, x) || has_len(m.pager, l, x) || has_len(m.uan, l, x)
    || has_len(m.emergency, l, x) || has_len(m.voicemail, l, x) || has_len(m.short_code, l, x) || has_len(m.standard_rate, l, x) || has_len(m.carrier, l, x)
}
pub open spec fn any_len(m: metadata__loader__Metadata, x: u16) -> bool { any_of(m, false, x) }
pub open spec fn any_local(m: metadata__loader__Metadata, x: u16) -> bool { any_of(m, true, x) }
/// some description of the list lists x
pub open spec fn any_in(s: Seq<metadata__loader__Descriptor>, l: bool, x: u16) -> bool
    decreases s.len()
{ s.len() > 0 && (any_in(s.drop_last(), l, x) || lst(s.last(), l).contains(x)) }
pub open spec fn any_opt(s: Seq<Option<metadata__loader__Descriptor>>, l: bool, x: u16) -> bool
    decreases s.len()
{ s.len() > 0 && (any_opt(s.drop_last(), l, x) || has_len(s.last(), l, x)) }
pub broadcast proof fn lemma_any_opt_push(s: Seq<Option<metadata__loader__Descriptor>>, d: Option<metadata__loader__Descriptor>, l: bool, x: u16)
    ensures #[trigger] any_opt(s.push(d), l, x) == (any_opt(s, l, x) || has_len(d, l, x))
{ assert(s.push(d).drop_last() =~= s); }
pub broadcast proof fn lemma_any_opt_empty(l: bool, x: u16)
    ensures #[trigger] any_opt(Seq::empty(), l, x) == false
{ }
pub broadcast proof fn lemma_any_in_push(s: Seq<metadata__loader__Descriptor>, d: metadata__loader__Descriptor, l: bool, x: u16)
    ensures #[trigger] any_in(s.push(d), l, x) == (any_in(s, l, x) || lst(d, l).contains(x))
{ assert(s.push(d).drop_last() =~= s); }
pub proof fn lemma_any_opt_front(s: Seq<Option<metadata__loader__Descriptor>>, l: bool, x: u16)
    requires s.len() > 0
    ensures any_opt(s, l, x) == (has_len(s[0], l, x) || any_opt(s.skip(1), l, x))
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); }
    else { lemma_any_opt_front(s.drop_last(), l, x); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); }
}
pub proof fn lemma_any_in_front(s: Seq<metadata__loader__Descriptor>, d: metadata__loader__Descriptor, l: bool, x: u16)
    ensures any_in(seq![d] + s, l, x) == (lst(d, l).contains(x) || any_in(s, l, x))
    decreases s.len()
{
    let t = seq![d] + s;
    if s.len() == 0 { assert(t.drop_last() =~= s); assert(t.last() == d); assert(!any_in(s, l, x)); assert(any_in(t, l, x) == lst(d, l).contains(x)); }
    else { lemma_any_in_front(s.drop_last(), d, l, x); assert(t.drop_last() =~= seq![d] + s.drop_last()); assert(t.last() == s.last()); assert(t.len() > 0); assert(any_in(t, l, x) == (any_in(t.drop_last(), l, x) || lst(t.last(), l).contains(x))); }
}
pub broadcast proof fn lemma_any_somes(s: Seq<Option<metadata__loader__Descriptor>>, l: bool, x: u16)
    ensures #[trigger] any_in(somes(s), l, x) == any_opt(s, l, x)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_any_somes(s.skip(1), l, x);
        lemma_any_opt_front(s, l, x);
        if s[0] is Some { lemma_any_in_front(somes(s.skip(1)), s[0]->0, l, x); }
    }
}
broadcast use lemma_any_opt_push, lemma_any_opt_empty, lemma_any_in_push, lemma_any_somes;
/// the increasing sequence of the elements
pub open spec fn is_lens(m: metadata__loader__Metadata, s: Seq<u16>) -> bool { increasing(s) && forall|x: u16| #[trigger] s.contains(x) == any_len(m, x) }
pub open spec fn is_locals(m: metadata__loader__Metadata, s: Seq<u16>) -> bool {
    increasing(s) && forall|x: u16| #[trigger] s.contains(x) == (any_local(m, x) && !any_len(m, x))
}
pub open spec fn lens_fn(m: metadata__loader__Metadata) -> Seq<u16> { choose|s: Seq<u16>| is_lens(m, s) }
pub open spec fn locals_fn(m: metadata__loader__Metadata) -> Seq<u16> { choose|s: Seq<u16>| is_locals(m, s) }
/// increasing sequences of the same elements are the same
pub proof fn lemma_increasing(a: Seq<u16>, b: Seq<u16>)
    requires increasing(a), increasing(b), forall|x: u16| #[trigger] a.contains(x) == b.contains(x)
    ensures a =~= b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
    } else {
        let x = a.last();
        assert(a.contains(x)) by { assert(a[a.len() - 1] == x); }
        assert(b.contains(x));
        assert(b.contains(b.last())) by { assert(b[b.len() - 1] == b.last()); }
        assert(a.contains(b.last()));
        assert(a.last() == b.last());
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|y: u16| #[trigger] c.contains(y) == d.contains(y) by {
            assert(a.contains(y) == b.contains(y));
            if c.contains(y) {
                let i = choose|i: int| 0 <= i < c.len() && c[i] == y; assert(a[i] == y);
                let j = choose|j: int| 0 <= j < b.len() && b[j] == y;
                assert(y < x); assert(d[j] == y);
            }
            if d.contains(y) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert(b[i] == y);
                let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
                assert(y < x); assert(c[j] == y);
            }
        }
        lemma_increasing(c, d);
        assert(a =~= c.push(x)); assert(b =~= d.push(x));
    }
}
pub broadcast proof fn lemma_lens(m: metadata__loader__Metadata, s: Seq<u16>)
    requires #[trigger] is_lens(m, s)
    ensures s == lens_fn(m)
{
    let t = lens_fn(m);
    assert(is_lens(m, t));
    assert forall|x: u16| #[trigger] s.contains(x) == t.contains(x) by {}
    lemma_increasing(s, t);
}
pub broadcast proof fn lemma_locals(m: metadata__loader__Metadata, s: Seq<u16>)
    requires #[trigger] is_locals(m, s)
    ensures s == locals_fn(m)
{
    let t = locals_fn(m);
    assert(is_locals(m, t));
    assert forall|x: u16| #[trigger] s.contains(x) == t.contains(x) by {}
    lemma_increasing(s, t);
}
broadcast use lemma_lens, lemma_locals;
/// the elements less than n
pub open spec fn below(p: spec_fn(u16) -> bool, n: nat) -> Seq<u16>
    decreases n
{ if n == 0 { Seq::empty() } else if p((n - 1) as u16) { below(p, (n - 1) as nat).push((n - 1) as u16) } else { below(p, (n - 1) as nat) } }
pub proof fn lemma_below(p: spec_fn(u16) -> bool, n: nat)
    requires n <= 65536
    ensures increasing(below(p, n)), forall|x: u16| #[trigger] below(p, n).contains(x) == (x < n && p(x))
    decreases n
{
    if n > 0 {
        let s = below(p, (n - 1) as nat);
        lemma_below(p, (n - 1) as nat);
        let y = (n - 1) as u16;
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) < y by { assert(s.contains(s[i])); }
        if p(y) {
            assert forall|x: u16| #[trigger] s.push(y).contains(x) == (x < n && p(x)) by { lemma_push_contains(s, y, x); assert(s.contains(x) == (x < n - 1 && p(x))); }
        }
    }
}
pub proof fn lemma_lens_exists(m: metadata__loader__Metadata)
    ensures is_lens(m, lens_fn(m))
{
    lemma_below(|x: u16| any_len(m, x), 65536);
    assert(is_lens(m, below(|x: u16| any_len(m, x), 65536)));
}
pub open spec fn lmeta_ok(m: metadata__loader__Metadata) -> bool {
    &&& m.general is Some && odesc_ok(m.general)
    &&& odesc_ok(m.fixed_line) && odesc_ok(m.mobile) && odesc_ok(m.toll_free) && odesc_ok(m.premium_rate) && odesc_ok(m.shared_cost)
    &&& odesc_ok(m.personal_number) && odesc_ok(m.voip) && odesc_ok(m.pager) && odesc_ok(m.uan) && odesc_ok(m.emergency)
    &&& odesc_ok(m.voicemail) && odesc_ok(m.short_code) && odesc_ok(m.standard_rate) && odesc_ok(m.carrier) && odesc_ok(m.no_international)
    &&& m.id is Some && m.country_code is Some
    &&& ore_ok(m.international_prefix) && ore_ok(m.national_prefix_for_parsing) && ore_ok(m.leading_digits)
    &&& fmts_ok(m.formats@) && fmts_ok(m.international_formats@)
}
pub open spec fn meta_fn(m: metadata__loader__Metadata) -> metadata__metadata__Metadata {
    metadata__metadata__Metadata {
        descriptors: metadata__metadata__Descriptors {
            general: metadata__descriptor__Descriptor {
                possible_length: seqv(lens_fn(m)),
                possible_local_length: seqv(locals_fn(m)),
                ..desc_fn(m.general->0)
            },
            fixed_line: odesc_fn(m.fixed_line),
            mobile: odesc_fn(m.mobile),
            toll_free: odesc_fn(m.toll_free),
            premium_rate: odesc_fn(m.premium_rate),
            shared_cost: odesc_fn(m.shared_cost),
            personal_number: odesc_fn(m.personal_number),
            voip: odesc_fn(m.voip),
            pager: odesc_fn(m.pager),
            uan: odesc_fn(m.uan),
            emergency: odesc_fn(m.emergency),
            voicemail: odesc_fn(m.voicemail),
            short_code: odesc_fn(m.short_code),
            standard_rate: odesc_fn(m.standard_rate),
            carrier: odesc_fn(m.carrier),
            no_international: odesc_fn(m.no_international),
        },
        id: m.id->0,
        country_code: m.country_code->0,
        international_prefix: ore_fn(m.international_prefix),
        preferred_international_prefix: m.preferred_international_prefix,
        national_prefix: m.national_prefix,
        preferred_extension_prefix: m.preferred_extension_prefix,
        national_prefix_for_parsing: ore_fn(m.national_prefix_for_parsing),
        national_prefix_transform_rule: m.national_prefix_transform_rule,
        formats: seqv(fmts_fn(m.formats@)),
        international_formats: seqv(fmts_fn(m.international_formats@)),
        main_country_for_code: m.main_country_for_code,
        leading_digits: ore_fn(m.leading_digits),
        mobile_number_portable: m.mobile_number_portable,
    }
}
/// by identifier: the one given last
pub open spec fn ids_fn(ls: Seq<metadata__loader__Metadata>) -> Map<Str, metadata__metadata__Metadata>
    decreases ls.len()
{
    if ls.len() == 0 { Map::empty() } else { ids_fn(ls.drop_last()).insert(meta_fn(ls.last()).id, meta_fn(ls.last())) }
}
/// those with the code: a main country first, otherwise in the order given
pub open spec fn ordered(ls: Seq<metadata__loader__Metadata>, c: u16) -> Seq<metadata__metadata__Metadata>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else {
        let m = meta_fn(ls.last());
        let o = ordered(ls.drop_last(), c);
        if m.country_code != c { o } else if m.main_country_for_code { o.insert(0, m) } else { o.push(m) }
    }
}
pub open spec fn ids_in_order(ms: Seq<metadata__metadata__Metadata>) -> Seq<Str> { Seq::new(ms.len(), |i: int| ms[i].id) }
pub open spec fn codes_are(ls: Seq<metadata__loader__Metadata>, m: Map<u16, SeqV<metadata__metadata__Metadata>>) -> bool {
    &&& forall|c: u16| #[trigger] m.dom().contains(c) == (ordered(ls, c).len() > 0)
    &&& forall|c: u16| m.dom().contains(c) ==> (#[trigger] m[c])@ == ordered(ls, c)
}
pub open spec fn regions_are(ls: Seq<metadata__loader__Metadata>, m: Map<u16, SeqV<Str>>) -> bool {
    &&& forall|c: u16| #[trigger] m.dom().contains(c) == (ordered(ls, c).len() > 0)
    &&& forall|c: u16| m.dom().contains(c) ==> (#[trigger] m[c])@ == ids_in_order(ordered(ls, c))
}
pub proof fn lemma_meta_wf(l: metadata__loader__Metadata)
    ensures meta_wf(meta_fn(l))
{
    let d = meta_fn(l).descriptors;
    lemma_lens_exists(l);
    assert(d.general.possible_length@ == lens_fn(l));
    assert(desc_fn(l.general->0).national_number@.pat == anchored_pat(((l.general->0).national_number->0)@));
    assert forall|x: metadata__loader__Descriptor| anchored(#[trigger] desc_fn(x).national_number@) by {
        assert(desc_fn(x).national_number@.pat == anchored_pat((x.national_number->0)@));
    }
}
pub proof fn lemma_ordered(ls: Seq<metadata__loader__Metadata>, c: u16)
    ensures forall|j: int| 0 <= j < ordered(ls, c).len() ==> (#[trigger] ordered(ls, c)[j]).country_code == c && meta_wf(ordered(ls, c)[j])
        && ids_fn(ls).dom().contains(ordered(ls, c)[j].id)
    decreases ls.len()
{
    if ls.len() > 0 {
        let m = meta_fn(ls.last());
        let o = ordered(ls.drop_last(), c);
        lemma_ordered(ls.drop_last(), c);
        lemma_meta_wf(ls.last());
        assert forall|j: int| 0 <= j < ordered(ls, c).len() implies (#[trigger] ordered(ls, c)[j]).country_code == c && meta_wf(ordered(ls, c)[j])
            && ids_fn(ls).dom().contains(ordered(ls, c)[j].id) by {
            let x = ordered(ls, c)[j];
            assert(x == m && m.country_code == c || (0 <= j < o.len() && x == o[j]) || (0 <= j - 1 < o.len() && x == o[j - 1]));
        }
    }
}
pub proof fn lemma_ids(ls: Seq<metadata__loader__Metadata>)
    ensures forall|i: Str| #[trigger] ids_fn(ls).dom().contains(i) ==> meta_wf(ids_fn(ls)[i]) && ids_fn(ls)[i].id == i
        && ordered(ls, ids_fn(ls)[i].country_code).len() > 0
    decreases ls.len()
{
    if ls.len() > 0 {
        lemma_ids(ls.drop_last());
        lemma_meta_wf(ls.last());
        let m = meta_fn(ls.last());
        assert forall|i: Str| #[trigger] ids_fn(ls).dom().contains(i) implies ordered(ls, ids_fn(ls)[i].country_code).len() > 0 by {
            let o = ordered(ls.drop_last(), ids_fn(ls)[i].country_code);
            if i != m.id { assert(ids_fn(ls.drop_last()).dom().contains(i)); assert(o.len() > 0); }
            assert(o.insert(0, m).len() > 0 && o.push(m).len() > 0);
        }
    }
}
pub open spec fn db_built(ls: Seq<metadata__loader__Metadata>, db: metadata__database__Database) -> bool {
    db.by_id@ == ids_fn(ls) && codes_are(ls, db.by_code@) && regions_are(ls, db.regions@)
}
pub proof fn lemma_built(ls: Seq<metadata__loader__Metadata>, db: metadata__database__Database)
    requires db_built(ls, db)
    ensures db_wf(db)
{
    lemma_ids(ls);
    assert forall|c: u16| #[trigger] db.by_code@.dom().contains(c) implies code_wf(db, c) by {
        lemma_ordered(ls, c);
        assert(db.regions@.dom().contains(c));
        let rs = db.regions@[c]@;
        let ms = db.by_code@[c]@;
        assert(ms == ordered(ls, c));
        assert forall|j: int| 0 <= j < rs.len() implies db.by_id@.dom().contains(#[trigger] rs[j]) by {
            assert(ids_fn(ls).dom().contains(ordered(ls, c)[j].id));
        }
    }
    assert forall|c: u16| #[trigger] db.regions@.dom().contains(c) implies db.by_code@.dom().contains(c) by {
        assert(ordered(ls, c).len() > 0);
    }
}
pub broadcast proof fn lemma_ids_insert(o: Seq<metadata__metadata__Metadata>, m: metadata__metadata__Metadata)
    ensures #[trigger] ids_in_order(o.insert(0, m)) == ids_in_order(o).insert(0, m.id)
{ assert(ids_in_order(o.insert(0, m)) =~= ids_in_order(o).insert(0, m.id)); }
pub broadcast proof fn lemma_ids_push(o: Seq<metadata__metadata__Metadata>, m: metadata__metadata__Metadata)
    ensures #[trigger] ids_in_order(o.push(m)) == ids_in_order(o).push(m.id)
{ assert(ids_in_order(o.push(m)) =~= ids_in_order(o).push(m.id)); }
/// what a step does to the lists of all codes
pub proof fn lemma_ordered_step(ls: Seq<metadata__loader__Metadata>, k: int)
    requires 0 <= k < ls.len()
    ensures ({ let m = meta_fn(ls[k]); forall|c: u16| #![trigger ordered(ls.take(k + 1), c)] #![trigger ordered(ls.take(k), c)]
        ordered(ls.take(k + 1), c) == (if m.country_code != c { ordered(ls.take(k), c) }
            else if m.main_country_for_code { ordered(ls.take(k), c).insert(0, m) } else { ordered(ls.take(k), c).push(m) })
        && ids_in_order(ordered(ls.take(k + 1), c)) == (if m.country_code != c { ids_in_order(ordered(ls.take(k), c)) }
            else if m.main_country_for_code { ids_in_order(ordered(ls.take(k), c)).insert(0, m.id) } else { ids_in_order(ordered(ls.take(k), c)).push(m.id) })
        && (ordered(ls.take(k), c).len() == 0 ==> ordered(ls.take(k), c) == Seq::<metadata__metadata__Metadata>::empty()
            && ids_in_order(ordered(ls.take(k), c)) == Seq::<Str>::empty()) })
{
    broadcast use lemma_ids_insert, lemma_ids_push;
    lemma_step(ls, k);
    assert forall|c: u16| ordered(ls.take(k), c).len() == 0 implies ordered(ls.take(k), c) == Seq::<metadata__metadata__Metadata>::empty()
            && ids_in_order(#[trigger] ordered(ls.take(k), c)) == Seq::<Str>::empty() by {
        assert(ordered(ls.take(k), c) =~= Seq::empty());
        assert(ids_in_order(ordered(ls.take(k), c)) =~= Seq::empty());
    }
}
/// one more
pub proof fn lemma_step(ls: Seq<metadata__loader__Metadata>, k: int)
    requires 0 <= k < ls.len()
    ensures ls.take(k + 1).drop_last() =~= ls.take(k), ls.take(k + 1).last() == ls[k]
{ }

fn metadata::database::general_lengths::merge (result, lengths)
  ensures forall|x: u16| #[trigger] final(result)@.contains(x) == (old(result)@.contains(x) || lengths@.contains(x))
  ensures nodup(old(result)@) ==> nodup(final(result)@)
  loop 0 for SeqV<u16>
    invariant forall|x: u16| #[trigger] result@.contains(x) == (old(result)@.contains(x) || src0.take(src0.len() - it0@.len()).contains(x)),
      it0@ =~= src0.skip(src0.len() - it0@.len()), it0@.len() <= src0.len(), src0 == lengths@,
      nodup(old(result)@) ==> nodup(result@)
    lensures forall|x: u16| #[trigger] result@.contains(x) == (old(result)@.contains(x) || lengths@.contains(x)),
      nodup(old(result)@) ==> nodup(result@)
    ldecreases it0@.len()
    head proof {
      let k = src0.len() - it0@.len();
      if k == src0.len() { assert(src0.take(k) =~= src0); }
      else {
        assert(src0.take(k + 1) =~= src0.take(k).push(src0[k]));
        assert forall|x: u16| #[trigger] src0.take(k + 1).contains(x) == (src0.take(k).contains(x) || x == src0[k]) by {
          lemma_push_contains(src0.take(k), src0[k], x);
        }
        assert forall|x: u16| #[trigger] result@.push(src0[k]).contains(x) == (result@.contains(x) || x == src0[k]) by {
          lemma_push_contains(result@, src0[k], x);
        }
      }
    }

spec
pub proof fn lemma_push_contains(s: Seq<u16>, y: u16, x: u16)
    ensures s.push(y).contains(x) == (s.contains(x) || x == y)
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(y)[i] == x); }
    if x == y { assert(s.push(y)[s.len() as int] == x); }
    if s.push(y).contains(x) && x != y { let i = choose|i: int| 0 <= i < s.push(y).len() && s.push(y)[i] == x; assert(s[i] == x); }
}

spec
pub proof fn lemma_push_nodup(s: Seq<u16>, y: u16)
    requires nodup(s), !s.contains(y)
    ensures nodup(s.push(y))
{
    assert forall|i: int, j: int| 0 <= i < j < s.push(y).len() implies s.push(y)[i] != s.push(y)[j] by { assert(s.contains(s[i])); }
}

fn metadata::database::general_lengths (m)
  ensures[*,C18] increasing(r.0@)
  ensures[*,C18] forall|x: u16| #[trigger] r.0@.contains(x) == any_len(m, x)
  ensures[*,C18] is_lens(m, r.0@)
  ensures[*,C18] r.0@ == lens_fn(m)
  ensures[*,C18] increasing(r.1@)
  ensures[*,C18] forall|x: u16| #[trigger] r.1@.contains(x) == (any_local(m, x) && !any_len(m, x))
  ensures[*,C18] is_locals(m, r.1@)
  ensures[*,C18] r.1@ == locals_fn(m)
  end proof { lemma_lens(m, r.0@); lemma_locals(m, r.1@); }
  loop 0 for It<metadata__loader__Descriptor>
    invariant it0@ =~= src0.skip(src0.len() - it0@.len()), it0@.len() <= src0.len(), nodup(possible@), nodup(local@),
      forall|x: u16| #[trigger] possible@.contains(x) == any_in(src0.take(src0.len() - it0@.len()), false, x),
      forall|x: u16| #[trigger] local@.contains(x) == any_in(src0.take(src0.len() - it0@.len()), true, x)
    lensures nodup(possible@), nodup(local@),
      forall|x: u16| #[trigger] possible@.contains(x) == any_len(m, x),
      forall|x: u16| #[trigger] local@.contains(x) == any_local(m, x)
    ldecreases it0@.len()
    head proof {
      let k = src0.len() - it0@.len();
      reveal(any_of);
      if k == src0.len() { assert(src0.take(k) =~= src0); }
      else { assert(src0.take(k + 1) =~= src0.take(k).push(src0[k])); }
    }
  loop 1 retain
    invariant it1@ =~= src1.skip(src1.len() - it1@.len()), it1@.len() <= src1.len(), nodup(src1) ==> nodup(out1@), increasing(src1) ==> increasing(out1@),
      forall|x: u16| #[trigger] out1@.contains(x) == (src1.take(src1.len() - it1@.len()).contains(x) && !any_len(m, x))
    lensures nodup(src1) ==> nodup(out1@), increasing(src1) ==> increasing(out1@), forall|x: u16| #[trigger] out1@.contains(x) == (src1.contains(x) && !any_len(m, x))
    ldecreases it1@.len()
    head proof {
      let k = src1.len() - it1@.len();
      if k == src1.len() { assert(src1.take(k) =~= src1); }
      else {
        assert(src1.take(k + 1) =~= src1.take(k).push(src1[k]));
        assert forall|x: u16| #[trigger] src1.take(k + 1).contains(x) == (src1.take(k).contains(x) || x == src1[k]) by {
          lemma_push_contains(src1.take(k), src1[k], x);
        }
        assert forall|x: u16| #[trigger] out1@.push(src1[k]).contains(x) == (out1@.contains(x) || x == src1[k]) by {
          lemma_push_contains(out1@, src1[k], x);
        }
        if increasing(src1) {
          assert forall|i: int| 0 <= i < out1@.len() implies (#[trigger] out1@[i]) < src1[k] by {
            assert(out1@.contains(out1@[i])); assert(src1.take(k).contains(out1@[i]));
            let j = choose|j: int| 0 <= j < k && src1.take(k)[j] == out1@[i]; assert(src1[j] == out1@[i]);
          }
        }
        if nodup(src1) && nodup(out1@) {
          if src1.take(k).contains(src1[k]) { let i = choose|i: int| 0 <= i < k && src1.take(k)[i] == src1[k]; assert(src1[i] == src1[k]); }
          if !out1@.contains(src1[k]) { lemma_push_nodup(out1@, src1[k]); }
        }
      }
    }

fn metadata::database::Database::from (ls)
  ensures[*,C18,C19] r is Ok == (forall|i: int| 0 <= i < ls@.len() ==> lmeta_ok(#[trigger] ls@[i]))
  ensures[*,C18,C09] r is Ok ==> db_built(ls@, r->Ok_0)
  ensures[*,C18,C09] r is Ok ==> db_wf(r->Ok_0)
  loop 0 for SeqV<metadata__loader__Metadata>
    invariant it0@ =~= src0.skip(src0.len() - it0@.len()), it0@.len() <= src0.len(), src0 == ls@,
      forall|i: int| 0 <= i < src0.len() - it0@.len() ==> lmeta_ok(#[trigger] src0[i]),
      by_id@ == ids_fn(src0.take(src0.len() - it0@.len())),
      codes_are(src0.take(src0.len() - it0@.len()), by_code@),
      regions_are(src0.take(src0.len() - it0@.len()), regions@)
    lensures by_id@ == ids_fn(src0), codes_are(src0, by_code@), regions_are(src0, regions@), 
      forall|i: int| 0 <= i < src0.len() ==> lmeta_ok(#[trigger] src0[i])
    ldecreases it0@.len()
    head proof {
      let k = src0.len() - it0@.len();
      if k == src0.len() { assert(src0.take(k) =~= src0); }
      else { assert(it0@[0] == src0[k]); lemma_step(src0, k); lemma_ordered_step(src0, k); }
    }
    after proof { lemma_built(src0, metadata__database__Database { by_id: by_id, by_code: by_code, regions: regions }); }

fn metadata::database::Database::from::regex (v)
  ensures[*,C18,C19] r is Ok == re_valid(re_of(v@))
  ensures[*,C18,C09] r is Ok ==> r->Ok_0 == regex_of(v@)

fn metadata::database::Database::from::descriptor (d)
  ensures[*,C18,C19] r is Ok == desc_ok(d)
  ensures[*,C18,C09] r is Ok ==> r->Ok_0 == desc_fn(d)

fn metadata::database::Database::from::format (f)
  ensures[*,C18,C19] r is Ok == fmt_ok(f)
  ensures[*,C18,C09] r is Ok ==> r->Ok_0 == fmt_fn(f)
  loop 0 iter map collect
    invariant err0 is None, it0@ =~= src0.skip(src0.len() - it0@.len()), it0@.len() <= src0.len(),
      acc0@ =~= res_fn(src0.take(src0.len() - it0@.len())), res_ok(src0.take(src0.len() - it0@.len()))
    lensures err0 is None ==> acc0@ =~= res_fn(src0) && res_ok(src0), err0 is Some ==> !res_ok(src0)
    ldecreases it0@.len()
    head proof {
      let k = src0.len() - it0@.len();
      if k == src0.len() { assert(src0.take(k) =~= src0); }
      else {
        assert(it0@[0] == src0[k]);
        assert(src0.take(k + 1) =~= src0.take(k).push(src0[k]));
        assert(res_fn(src0.take(k + 1)) =~= res_fn(src0.take(k)).push(res_fn(src0)[k]));
      }
    }

fn metadata::database::Database::from::metadata (m)
  opts split
  ensures[*,C18,C19] r is Ok == lmeta_ok(m)
  ensures[*,C18,C09] r is Ok ==> r->Ok_0 == meta_fn(m)
  start hide(desc_ok); hide(desc_fn); hide(fmt_ok); hide(fmt_fn); hide(re_of); hide(regex_of); hide(is_lens); hide(is_locals); hide(any_len); hide(any_local); hide(increasing);
  loop 0 iter map collect
    invariant err0 is None, it0@ =~= src0.skip(src0.len() - it0@.len()), it0@.len() <= src0.len(),
      acc0@ =~= fmts_fn(src0.take(src0.len() - it0@.len())), fmts_ok(src0.take(src0.len() - it0@.len()))
    lensures err0 is None ==> acc0@ =~= fmts_fn(src0) && fmts_ok(src0), err0 is Some ==> !fmts_ok(src0)
    ldecreases it0@.len()
    head proof {
      let k = src0.len() - it0@.len();
      if k == src0.len() { assert(src0.take(k) =~= src0); }
      else {
        assert(it0@[0] == src0[k]);
        assert(src0.take(k + 1) =~= src0.take(k).push(src0[k]));
        assert(fmts_fn(src0.take(k + 1)) =~= fmts_fn(src0.take(k)).push(fmts_fn(src0)[k]));
      }
    }
  loop 1 iter map collect
    invariant err1 is None, it1@ =~= src1.skip(src1.len() - it1@.len()), it1@.len() <= src1.len(),
      acc1@ =~= fmts_fn(src1.take(src1.len() - it1@.len())), fmts_ok(src1.take(src1.len() - it1@.len()))
    lensures err1 is None ==> acc1@ =~= fmts_fn(src1) && fmts_ok(src1), err1 is Some ==> !fmts_ok(src1)
    ldecreases it1@.len()
    head proof {
      let k = src1.len() - it1@.len();
      if k == src1.len() { assert(src1.take(k) =~= src1); }
      else {
        assert(it1@[0] == src1[k]);
        assert(src1.take(k + 1) =~= src1.take(k).push(src1[k]));
        assert(fmts_fn(src1.take(k + 1)) =~= fmts_fn(src1.take(k)).push(fmts_fn(src1)[k]));
      }
    }
