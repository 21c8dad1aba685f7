// C19: the loader, as a function of the events that the XML reader gives
spec[C19]
broadcast use axiom_utf8_dec;
pub type Items = Seq<XmlItem>;
pub type Attrs = Seq<Result<XmlAttr, ext__quick_xml__events__attributes__AttrError>>;
pub type LM = metadata__loader__Metadata;
pub type LF = metadata__loader__Format;
pub type LD = metadata__loader__Descriptor;
/// a function has read what f says, and left the rest; or refused it
pub open spec fn read_as<T, E>(r: Result<T, E>, after: Items, f: Option<(T, Items)>) -> bool {
    match f { Some(x) => r is Ok && r->Ok_0 == x.0 && after =~= x.1, None => r is Err }
}
pub open spec fn is_name(t: XmlTag, n: Seq<char>) -> bool { t.name@ =~= utf8(n) }
/// key and value of an attribute
pub open spec fn attr_of(a: Result<XmlAttr, ext__quick_xml__events__attributes__AttrError>) -> Option<(Seq<char>, Str)> {
    match a {
        Ok(x) => match (utf8_dec(x.key@), utf8_dec(x.value@)) { (Some(k), Some(v)) => Some((k, str_of(v))), _ => None },
        Err(_) => None,
    }
}
/// the text up to the end of the element
pub open spec fn text_fn(ev: Items, name: Seq<u8>, acc: Seq<char>) -> Option<(Str, Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(t)) => match utf8_dec(t.t@) { Some(s) => text_fn(ev.drop_first(), name, acc + s), None => None },
        Ok(XmlEvent::End(t)) => if t.name@ =~= name { Some((str_of(acc), ev.drop_first())) } else { None },
        _ => None,
    } }
}
/// the elements in `open` are ended, in this order from the last
pub open spec fn ignore_fn(ev: Items, open: Seq<SeqV<u8>>) -> Option<((), Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(_)) | Ok(XmlEvent::Comment(_)) | Ok(XmlEvent::Empty(_)) => ignore_fn(ev.drop_first(), open),
        Ok(XmlEvent::Start(t)) => ignore_fn(ev.drop_first(), open.push(t.name)),
        Ok(XmlEvent::End(t)) =>
            if open.len() == 0 || !(open.last()@ =~= t.name@) { None }
            else if open.len() == 1 { Some(((), ev.drop_first())) }
            else { ignore_fn(ev.drop_first(), open.drop_last()) },
        _ => None,
    } }
}
pub open spec fn bool_of(s: Seq<char>) -> Option<bool> {
    if s =~= "true"@ { Some(true) } else if s =~= "false"@ { Some(false) } else { None }
}
pub open spec fn u16_of(s: Seq<char>) -> Option<u16> {
    if int_ok(s, u16::MAX as nat) { Some(dec_val(int_text(s)) as u16) } else { None }
}
pub open spec fn format_attrs(s: Attrs, f: LF) -> Option<LF>
    decreases s.len()
{
    if s.len() == 0 { Some(f) } else { match attr_of(s[0]) {
        None => None,
        Some((k, v)) =>
            if k =~= "pattern"@ { format_attrs(s.drop_first(), LF { pattern: Some(v), ..f }) }
            else if k =~= "nationalPrefixFormattingRule"@ { format_attrs(s.drop_first(), LF { national_prefix_formatting_rule: Some(v), ..f }) }
            else if k =~= "nationalPrefixOptionalWhenFormatting"@ {
                match bool_of(v@) { Some(b) => format_attrs(s.drop_first(), LF { national_prefix_optional_when_formatting: b, ..f }), None => None }
            }
            else if k =~= "carrierCodeFormattingRule"@ { format_attrs(s.drop_first(), LF { domestic_carrier: Some(v), ..f }) }
            else { None },
    } }
}
pub open spec fn with_format(f: LF, v: Option<Str>) -> Option<LF> {
    match v { Some(x) => Some(LF { format: Some(x), ..f }), None => None }
}
pub open spec fn format_fn(ev: Items, name: Seq<u8>, f: LF, intl: Option<Str>) -> Option<((LF, Option<LF>), Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(_)) | Ok(XmlEvent::Comment(_)) => format_fn(ev.drop_first(), name, f, intl),
        Ok(XmlEvent::Start(t)) => match text_fn(ev.drop_first(), t.name@, Seq::empty()) {
            Some((x, rest)) => if rest.len() >= ev.len() { None }
                else if is_name(t, "leadingDigits"@) { format_fn(rest, name, LF { leading_digits: seqv(f.leading_digits@.push(x)), ..f }, intl) }
                else if is_name(t, "format"@) { format_fn(rest, name, LF { format: Some(x), ..f }, Some(x)) }
                else if is_name(t, "intlFormat"@) { format_fn(rest, name, f, if x@ =~= "NA"@ { None } else { Some(x) }) }
                else { None },
            None => None,
        },
        Ok(XmlEvent::End(t)) => if t.name@ =~= name { Some(((f, with_format(f, intl)), ev.drop_first())) } else { None },
        _ => None,
    } }
}
pub open spec fn one_format(ev: Items, m: LM, t: XmlTag) -> Option<((LF, Option<LF>), Items)> {
    match format_attrs(t.attrs@, m.defaults.format) { Some(f) => format_fn(ev, t.name@, f, None), None => None }
}
pub open spec fn formats_fn(ev: Items, m: LM, name: Seq<u8>, n: Seq<LF>, i: Seq<LF>) -> Option<((SeqV<LF>, SeqV<LF>), Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(_)) | Ok(XmlEvent::Comment(_)) => formats_fn(ev.drop_first(), m, name, n, i),
        Ok(XmlEvent::Start(t)) => if !is_name(t, "numberFormat"@) { None } else { match one_format(ev.drop_first(), m, t) {
            Some((x, rest)) => if rest.len() >= ev.len() { None }
                else { formats_fn(rest, m, name, n.push(x.0), match x.1 { Some(y) => i.push(y), None => i }) },
            None => None,
        } },
        Ok(XmlEvent::End(t)) => if t.name@ =~= name { Some(((seqv(n), seqv(i)), ev.drop_first())) } else { None },
        _ => None,
    } }
}
/// a..=b
pub open spec fn range_fn(a: int, b: int) -> Seq<u16> {
    if a > b { Seq::empty() } else { Seq::new((b - a + 1) as nat, |i: int| (a + i) as u16) }
}
/// a length, or a range of lengths in brackets
pub open spec fn part_fn(p: Seq<char>) -> Option<Seq<u16>> {
    if p.len() > 0 && p[0] == '[' {
        let q = p.skip(1);
        if q.len() == 0 || q.last() != ']' || !q.drop_last().contains('-') { None } else {
            let k = pos_of(q.drop_last(), '-');
            match (u16_of(q.drop_last().take(k)), u16_of(q.drop_last().skip(k + 1))) {
                (Some(a), Some(b)) => Some(range_fn(a as int, b as int)),
                _ => None,
            }
        }
    } else { match u16_of(p) { Some(n) => Some(seq![n]), None => None } }
}
pub open spec fn parts_fn(ps: Seq<Str>, acc: Seq<u16>) -> Option<Seq<u16>>
    decreases ps.len()
{
    if ps.len() == 0 { Some(acc) } else { match part_fn(trimmed(ps[0]@)) { Some(l) => parts_fn(ps.drop_first(), acc + l), None => None } }
}
/// the lengths that a text lists
pub open spec fn lengths_fn(s: Seq<char>) -> Option<Seq<u16>> { parts_fn(splits(s, ','), Seq::empty()) }
pub open spec fn length_attrs(s: Attrs, d: LD) -> Option<LD>
    decreases s.len()
{
    if s.len() == 0 { Some(d) } else { match attr_of(s[0]) {
        None => None,
        Some((k, v)) => match lengths_fn(v@) {
            None => None,
            Some(l) =>
                if k =~= "national"@ { length_attrs(s.drop_first(), LD { possible_length: seqv(l), ..d }) }
                else if k =~= "localOnly"@ { length_attrs(s.drop_first(), LD { possible_local_length: seqv(l), ..d }) }
                else { None },
        },
    } }
}
pub open spec fn descriptor_fn(ev: Items, name: Seq<u8>, d: LD) -> Option<(LD, Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(_)) | Ok(XmlEvent::Comment(_)) => descriptor_fn(ev.drop_first(), name, d),
        Ok(XmlEvent::Start(t)) => match text_fn(ev.drop_first(), t.name@, Seq::empty()) {
            Some((x, rest)) => if rest.len() >= ev.len() { None }
                else if is_name(t, "nationalNumberPattern"@) { descriptor_fn(rest, name, LD { national_number: Some(x), ..d }) }
                else if is_name(t, "exampleNumber"@) { descriptor_fn(rest, name, LD { example: Some(x), ..d }) }
                else { None },
            None => None,
        },
        Ok(XmlEvent::Empty(t)) => if !is_name(t, "possibleLengths"@) { None } else { match length_attrs(t.attrs@, d) {
            Some(e) => descriptor_fn(ev.drop_first(), name, e),
            None => None,
        } },
        Ok(XmlEvent::End(t)) => if t.name@ =~= name { Some((d, ev.drop_first())) } else { None },
        _ => None,
    } }
}
pub open spec fn lf0() -> LF {
    LF { pattern: None, format: None, leading_digits: seqv(Seq::empty()), national_prefix_formatting_rule: None,
        national_prefix_optional_when_formatting: false, domestic_carrier: None }
}
pub open spec fn ld0() -> LD {
    LD { national_number: None, possible_length: seqv(Seq::empty()), possible_local_length: seqv(Seq::empty()), example: None }
}
pub open spec fn lm0() -> LM {
    LM { general: None, fixed_line: None, mobile: None, toll_free: None, premium_rate: None, shared_cost: None, personal_number: None,
        voip: None, pager: None, uan: None, emergency: None, voicemail: None, short_code: None, standard_rate: None, carrier: None,
        no_international: None, id: None, country_code: None, international_prefix: None, preferred_international_prefix: None,
        national_prefix: None, preferred_extension_prefix: None, national_prefix_for_parsing: None, national_prefix_transform_rule: None,
        formats: seqv(Seq::empty()), international_formats: seqv(Seq::empty()), main_country_for_code: false, leading_digits: None,
        mobile_number_portable: false, defaults: metadata__loader__Defaults { format: lf0(), descriptor: ld0() } }
}
pub open spec fn with_default(m: LM, f: LF) -> LM {
    LM { defaults: metadata__loader__Defaults { format: f, ..m.defaults }, ..m }
}
/// the metadata with one more attribute
pub open spec fn territory_attr(k: Seq<char>, v: Str, m: LM) -> Option<LM> {
    if k =~= "id"@ { Some(LM { id: Some(v), ..m }) }
    else if k =~= "countryCode"@ { match u16_of(v@) { Some(n) => Some(LM { country_code: Some(n), ..m }), None => None } }
    else if k =~= "internationalPrefix"@ { Some(LM { international_prefix: Some(v), ..m }) }
    else if k =~= "preferredInternationalPrefix"@ { Some(LM { preferred_international_prefix: Some(v), ..m }) }
    else if k =~= "nationalPrefix"@ { Some(LM { national_prefix: Some(v), ..m }) }
    else if k =~= "preferredExtnPrefix"@ { Some(LM { preferred_extension_prefix: Some(v), ..m }) }
    else if k =~= "nationalPrefixForParsing"@ { Some(LM { national_prefix_for_parsing: Some(v), ..m }) }
    else if k =~= "nationalPrefixTransformRule"@ { Some(LM { national_prefix_transform_rule: Some(v), ..m }) }
    else if k =~= "mainCountryForCode"@ { match bool_of(v@) { Some(b) => Some(LM { main_country_for_code: b, ..m }), None => None } }
    else if k =~= "leadingDigits"@ { Some(LM { leading_digits: Some(v), ..m }) }
    else if k =~= "mobileNumberPortableRegion"@ { match bool_of(v@) { Some(b) => Some(LM { mobile_number_portable: b, ..m }), None => None } }
    else if k =~= "nationalPrefixFormattingRule"@ { Some(with_default(m, LF { national_prefix_formatting_rule: Some(v), ..m.defaults.format })) }
    else if k =~= "nationalPrefixOptionalWhenFormatting"@ {
        match bool_of(v@) { Some(b) => Some(with_default(m, LF { national_prefix_optional_when_formatting: b, ..m.defaults.format })), None => None }
    }
    else if k =~= "carrierCodeFormattingRule"@ { Some(with_default(m, LF { domestic_carrier: Some(v), ..m.defaults.format })) }
    else { None }
}
pub open spec fn territory_attrs(s: Attrs, m: LM) -> Option<LM>
    decreases s.len()
{
    if s.len() == 0 { Some(m) } else { match attr_of(s[0]) {
        None => None,
        Some((k, v)) => match territory_attr(k, v, m) { Some(n) => territory_attrs(s.drop_first(), n), None => None },
    } }
}
/// the metadata with one more description
pub open spec fn with_desc(t: XmlTag, d: LD, m: LM) -> Option<LM> {
    if is_name(t, "generalDesc"@) { Some(LM { general: Some(d), ..m }) }
    else if is_name(t, "fixedLine"@) { Some(LM { fixed_line: Some(d), ..m }) }
    else if is_name(t, "mobile"@) { Some(LM { mobile: Some(d), ..m }) }
    else if is_name(t, "tollFree"@) { Some(LM { toll_free: Some(d), ..m }) }
    else if is_name(t, "premiumRate"@) { Some(LM { premium_rate: Some(d), ..m }) }
    else if is_name(t, "sharedCost"@) { Some(LM { shared_cost: Some(d), ..m }) }
    else if is_name(t, "personalNumber"@) { Some(LM { personal_number: Some(d), ..m }) }
    else if is_name(t, "voip"@) { Some(LM { voip: Some(d), ..m }) }
    else if is_name(t, "pager"@) { Some(LM { pager: Some(d), ..m }) }
    else if is_name(t, "uan"@) { Some(LM { uan: Some(d), ..m }) }
    else if is_name(t, "emergency"@) { Some(LM { emergency: Some(d), ..m }) }
    else if is_name(t, "voicemail"@) { Some(LM { voicemail: Some(d), ..m }) }
    else if is_name(t, "noInternationalDialling"@) { Some(LM { no_international: Some(d), ..m }) }
    else { None }
}
/// the metadata with what one more element holds
pub open spec fn element_fn(t: XmlTag, ev: Items, m: LM) -> Option<(LM, Items)> {
    if is_name(t, "references"@) || is_name(t, "areaCodeOptional"@) {
        match ignore_fn(ev, seq![t.name]) { Some((_, rest)) => Some((m, rest)), None => None }
    } else if is_name(t, "availableFormats"@) {
        match formats_fn(ev, m, t.name@, Seq::empty(), Seq::empty()) {
            Some((x, rest)) => Some((LM { formats: x.0, international_formats: x.1, ..m }, rest)),
            None => None,
        }
    } else {
        match descriptor_fn(ev, t.name@, m.defaults.descriptor) {
            Some((d, rest)) => match with_desc(t, d, m) { Some(n) => Some((n, rest)), None => None },
            None => None,
        }
    }
}
pub open spec fn territory_fn(ev: Items, m: LM) -> Option<(LM, Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(_)) | Ok(XmlEvent::Comment(_)) => territory_fn(ev.drop_first(), m),
        Ok(XmlEvent::Start(t)) => match element_fn(t, ev.drop_first(), m) {
            Some((n, rest)) => if rest.len() >= ev.len() { None } else { territory_fn(rest, n) },
            None => None,
        },
        Ok(XmlEvent::End(t)) => if is_name(t, "territory"@) { Some((m, ev.drop_first())) } else { None },
        _ => None,
    } }
}
pub open spec fn one_territory(t: XmlTag, ev: Items) -> Option<(LM, Items)> {
    match territory_attrs(t.attrs@, lm0()) { Some(m) => territory_fn(ev, m), None => None }
}
pub open spec fn territories_fn(ev: Items, acc: Seq<LM>) -> Option<(SeqV<LM>, Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(_)) | Ok(XmlEvent::Comment(_)) => territories_fn(ev.drop_first(), acc),
        Ok(XmlEvent::Start(t)) => if is_name(t, "territory"@) { match one_territory(t, ev.drop_first()) {
            Some((m, rest)) => if rest.len() >= ev.len() { None } else { territories_fn(rest, acc.push(m)) },
            None => None,
        } } else { match ignore_fn(ev.drop_first(), seq![t.name]) {
            Some((_, rest)) => if rest.len() >= ev.len() { None } else { territories_fn(rest, acc) },
            None => None,
        } },
        Ok(XmlEvent::End(t)) => if is_name(t, "territories"@) { Some((seqv(acc), ev.drop_first())) } else { None },
        _ => None,
    } }
}
pub open spec fn metadata_fn(ev: Items, acc: Seq<LM>) -> Option<(SeqV<LM>, Items)>
    decreases ev.len()
{
    if ev.len() == 0 { None } else { match ev[0] {
        Ok(XmlEvent::Text(_)) | Ok(XmlEvent::Comment(_)) | Ok(XmlEvent::DocType(_)) => metadata_fn(ev.drop_first(), acc),
        Ok(XmlEvent::Start(t)) => if is_name(t, "phoneNumberMetadata"@) { metadata_fn(ev.drop_first(), acc) }
            else if is_name(t, "territories"@) { match territories_fn(ev.drop_first(), Seq::empty()) {
                Some((l, rest)) => if rest.len() >= ev.len() { None } else { metadata_fn(rest, acc + l@) },
                None => None,
            } } else { match ignore_fn(ev.drop_first(), seq![t.name]) {
                Some((_, rest)) => if rest.len() >= ev.len() { None } else { metadata_fn(rest, acc) },
                None => None,
            } },
        Ok(XmlEvent::End(t)) => if is_name(t, "phoneNumberMetadata"@) { Some((seqv(acc), ev.drop_first())) } else { None },
        _ => None,
    } }
}
/// the metadata in a text, if it is metadata
pub open spec fn loaded(s: XmlSource) -> Option<Seq<LM>> {
    match metadata_fn(xml_events(s), Seq::empty()) { Some((l, _)) => Some(l@), None => None }
}
/// no two elements of a territory have the same name
pub proof fn lemma_names()
    ensures
        utf8("references"@) != utf8("areaCodeOptional"@),
        utf8("references"@) != utf8("generalDesc"@),
        utf8("references"@) != utf8("fixedLine"@),
        utf8("references"@) != utf8("mobile"@),
        utf8("references"@) != utf8("tollFree"@),
        utf8("references"@) != utf8("premiumRate"@),
        utf8("references"@) != utf8("sharedCost"@),
        utf8("references"@) != utf8("personalNumber"@),
        utf8("references"@) != utf8("voip"@),
        utf8("references"@) != utf8("pager"@),
        utf8("references"@) != utf8("uan"@),
        utf8("references"@) != utf8("emergency"@),
        utf8("references"@) != utf8("voicemail"@),
        utf8("references"@) != utf8("noInternationalDialling"@),
        utf8("references"@) != utf8("availableFormats"@),
        utf8("areaCodeOptional"@) != utf8("generalDesc"@),
        utf8("areaCodeOptional"@) != utf8("fixedLine"@),
        utf8("areaCodeOptional"@) != utf8("mobile"@),
        utf8("areaCodeOptional"@) != utf8("tollFree"@),
        utf8("areaCodeOptional"@) != utf8("premiumRate"@),
        utf8("areaCodeOptional"@) != utf8("sharedCost"@),
        utf8("areaCodeOptional"@) != utf8("personalNumber"@),
        utf8("areaCodeOptional"@) != utf8("voip"@),
        utf8("areaCodeOptional"@) != utf8("pager"@),
        utf8("areaCodeOptional"@) != utf8("uan"@),
        utf8("areaCodeOptional"@) != utf8("emergency"@),
        utf8("areaCodeOptional"@) != utf8("voicemail"@),
        utf8("areaCodeOptional"@) != utf8("noInternationalDialling"@),
        utf8("areaCodeOptional"@) != utf8("availableFormats"@),
        utf8("generalDesc"@) != utf8("fixedLine"@),
        utf8("generalDesc"@) != utf8("mobile"@),
        utf8("generalDesc"@) != utf8("tollFree"@),
        utf8("generalDesc"@) != utf8("premiumRate"@),
        utf8("generalDesc"@) != utf8("sharedCost"@),
        utf8("generalDesc"@) != utf8("personalNumber"@),
        utf8("generalDesc"@) != utf8("voip"@),
        utf8("generalDesc"@) != utf8("pager"@),
        utf8("generalDesc"@) != utf8("uan"@),
        utf8("generalDesc"@) != utf8("emergency"@),
        utf8("generalDesc"@) != utf8("voicemail"@),
        utf8("generalDesc"@) != utf8("noInternationalDialling"@),
        utf8("generalDesc"@) != utf8("availableFormats"@),
        utf8("fixedLine"@) != utf8("mobile"@),
        utf8("fixedLine"@) != utf8("tollFree"@),
        utf8("fixedLine"@) != utf8("premiumRate"@),
        utf8("fixedLine"@) != utf8("sharedCost"@),
        utf8("fixedLine"@) != utf8("personalNumber"@),
        utf8("fixedLine"@) != utf8("voip"@),
        utf8("fixedLine"@) != utf8("pager"@),
        utf8("fixedLine"@) != utf8("uan"@),
        utf8("fixedLine"@) != utf8("emergency"@),
        utf8("fixedLine"@) != utf8("voicemail"@),
        utf8("fixedLine"@) != utf8("noInternationalDialling"@),
        utf8("fixedLine"@) != utf8("availableFormats"@),
        utf8("mobile"@) != utf8("tollFree"@),
        utf8("mobile"@) != utf8("premiumRate"@),
        utf8("mobile"@) != utf8("sharedCost"@),
        utf8("mobile"@) != utf8("personalNumber"@),
        utf8("mobile"@) != utf8("voip"@),
        utf8("mobile"@) != utf8("pager"@),
        utf8("mobile"@) != utf8("uan"@),
        utf8("mobile"@) != utf8("emergency"@),
        utf8("mobile"@) != utf8("voicemail"@),
        utf8("mobile"@) != utf8("noInternationalDialling"@),
        utf8("mobile"@) != utf8("availableFormats"@),
        utf8("tollFree"@) != utf8("premiumRate"@),
        utf8("tollFree"@) != utf8("sharedCost"@),
        utf8("tollFree"@) != utf8("personalNumber"@),
        utf8("tollFree"@) != utf8("voip"@),
        utf8("tollFree"@) != utf8("pager"@),
        utf8("tollFree"@) != utf8("uan"@),
        utf8("tollFree"@) != utf8("emergency"@),
        utf8("tollFree"@) != utf8("voicemail"@),
        utf8("tollFree"@) != utf8("noInternationalDialling"@),
        utf8("tollFree"@) != utf8("availableFormats"@),
        utf8("premiumRate"@) != utf8("sharedCost"@),
        utf8("premiumRate"@) != utf8("personalNumber"@),
        utf8("premiumRate"@) != utf8("voip"@),
        utf8("premiumRate"@) != utf8("pager"@),
        utf8("premiumRate"@) != utf8("uan"@),
        utf8("premiumRate"@) != utf8("emergency"@),
        utf8("premiumRate"@) != utf8("voicemail"@),
        utf8("premiumRate"@) != utf8("noInternationalDialling"@),
        utf8("premiumRate"@) != utf8("availableFormats"@),
        utf8("sharedCost"@) != utf8("personalNumber"@),
        utf8("sharedCost"@) != utf8("voip"@),
        utf8("sharedCost"@) != utf8("pager"@),
        utf8("sharedCost"@) != utf8("uan"@),
        utf8("sharedCost"@) != utf8("emergency"@),
        utf8("sharedCost"@) != utf8("voicemail"@),
        utf8("sharedCost"@) != utf8("noInternationalDialling"@),
        utf8("sharedCost"@) != utf8("availableFormats"@),
        utf8("personalNumber"@) != utf8("voip"@),
        utf8("personalNumber"@) != utf8("pager"@),
        utf8("personalNumber"@) != utf8("uan"@),
        utf8("personalNumber"@) != utf8("emergency"@),
        utf8("personalNumber"@) != utf8("voicemail"@),
        utf8("personalNumber"@) != utf8("noInternationalDialling"@),
        utf8("personalNumber"@) != utf8("availableFormats"@),
        utf8("voip"@) != utf8("pager"@),
        utf8("voip"@) != utf8("uan"@),
        utf8("voip"@) != utf8("emergency"@),
        utf8("voip"@) != utf8("voicemail"@),
        utf8("voip"@) != utf8("noInternationalDialling"@),
        utf8("voip"@) != utf8("availableFormats"@),
        utf8("pager"@) != utf8("uan"@),
        utf8("pager"@) != utf8("emergency"@),
        utf8("pager"@) != utf8("voicemail"@),
        utf8("pager"@) != utf8("noInternationalDialling"@),
        utf8("pager"@) != utf8("availableFormats"@),
        utf8("uan"@) != utf8("emergency"@),
        utf8("uan"@) != utf8("voicemail"@),
        utf8("uan"@) != utf8("noInternationalDialling"@),
        utf8("uan"@) != utf8("availableFormats"@),
        utf8("emergency"@) != utf8("voicemail"@),
        utf8("emergency"@) != utf8("noInternationalDialling"@),
        utf8("emergency"@) != utf8("availableFormats"@),
        utf8("voicemail"@) != utf8("noInternationalDialling"@),
        utf8("voicemail"@) != utf8("availableFormats"@),
        utf8("noInternationalDialling"@) != utf8("availableFormats"@),
{
    reveal_strlit("references");
    reveal_strlit("areaCodeOptional");
    reveal_strlit("generalDesc");
    reveal_strlit("fixedLine");
    reveal_strlit("mobile");
    reveal_strlit("tollFree");
    reveal_strlit("premiumRate");
    reveal_strlit("sharedCost");
    reveal_strlit("personalNumber");
    reveal_strlit("voip");
    reveal_strlit("pager");
    reveal_strlit("uan");
    reveal_strlit("emergency");
    reveal_strlit("voicemail");
    reveal_strlit("noInternationalDialling");
    reveal_strlit("availableFormats");
    assert("references"@[0] != "sharedCost"@[0]);
    assert("areaCodeOptional"@[1] != "availableFormats"@[1]);
    assert("generalDesc"@[0] != "premiumRate"@[0]);
    assert("fixedLine"@[0] != "emergency"@[0]);
    assert("fixedLine"@[0] != "voicemail"@[0]);
    assert("emergency"@[0] != "voicemail"@[0]);
    axiom_utf8_dec("references"@);
    axiom_utf8_dec("areaCodeOptional"@);
    axiom_utf8_dec("generalDesc"@);
    axiom_utf8_dec("fixedLine"@);
    axiom_utf8_dec("mobile"@);
    axiom_utf8_dec("tollFree"@);
    axiom_utf8_dec("premiumRate"@);
    axiom_utf8_dec("sharedCost"@);
    axiom_utf8_dec("personalNumber"@);
    axiom_utf8_dec("voip"@);
    axiom_utf8_dec("pager"@);
    axiom_utf8_dec("uan"@);
    axiom_utf8_dec("emergency"@);
    axiom_utf8_dec("voicemail"@);
    axiom_utf8_dec("noInternationalDialling"@);
    axiom_utf8_dec("availableFormats"@);
}
/// r is the database of all that the source holds, or its refusal
pub open spec fn is_loaded(s: XmlSource, r: Result<metadata__database__Database, error__LoadMetadata>) -> bool {
    match loaded(s) {
        Some(ls) => {
            &&& r is Ok == (forall|i: int| 0 <= i < ls.len() ==> lmeta_ok(#[trigger] ls[i]))
            &&& r is Ok ==> db_built(ls, r->Ok_0) && db_wf(r->Ok_0)
        }
        None => r is Err,
    }
}

fn metadata::loader::descriptor::lengths (s)
  ensures[C19] match lengths_fn(s@) { Some(l) => r is Ok && r->Ok_0@ =~= l, None => r is Err }
  loop 0 for It<Str>
    invariant[C19] lengths_fn(s@) == parts_fn(it0@, L{SeqV<u16>}@)
    lensures[C19] lengths_fn(s@) == Some(L{SeqV<u16>}@)
    ldecreases[C19] it0@.len()
    head[C19] let ghost len0_ = L{SeqV<u16>}@; assert forall|n: u16| #[trigger] len0_.push(n) =~= len0_ + seq![n] by {}; 
  loop 1 for RangeInc<u16>
    pre[C19] let ghost acc1_ = L{SeqV<u16>}@; let ghost r1_ = it1;
    invariant[C19] it1.end == r1_.end, !r1_.done,
      !it1.done ==> it1.start == r1_.start || r1_.start <= it1.start <= it1.end,
      L{SeqV<u16>}@ =~= acc1_ + (if it1.done { range_fn(r1_.start as int, r1_.end as int) } else { range_fn(r1_.start as int, it1.start - 1) })
    lensures[C19] L{SeqV<u16>}@ =~= acc1_ + range_fn(r1_.start as int, r1_.end as int)
    ldecreases[C19] if it1.done || it1.start > it1.end { 0int } else { it1.end - it1.start + 1 }

fn metadata::loader::text (r, name) -> x
  ensures[C19] read_as(x, final(r)@, text_fn(old(r)@, name@, Seq::empty()))
  ensures[C19] x is Ok ==> final(r)@.len() <= old(r)@.len()
  loop 0 loop
    invariant[C19] text_fn(old(r)@, name@, Seq::empty()) == text_fn(r@, name@, L{Str}@), r@.len() <= old(r)@.len()
    ldecreases[C19] r@.len()

fn metadata::loader::ignore (r, name) -> x
  ensures[C19] read_as(x, final(r)@, ignore_fn(old(r)@, seq![name]))
  ensures[C19] x is Ok ==> final(r)@.len() <= old(r)@.len()
  loop 0 loop
    invariant[C19] ignore_fn(old(r)@, seq![name]) == ignore_fn(r@, L{SeqV<SeqV<u8>>}@), r@.len() <= old(r)@.len(), L{SeqV<SeqV<u8>>}@.len() > 0
    ldecreases[C19] r@.len()

fn metadata::loader::format (r, m, name, e) -> x
  ensures[C19] name@ =~= e.name@ ==> read_as(x, final(r)@, one_format(old(r)@, m, e))
  ensures[C19] x is Ok ==> final(r)@.len() <= old(r)@.len()
  loop 0
    invariant[C19] format_attrs(e.attrs@, m.defaults.format) == format_attrs(it0@, L{metadata__loader__Format}), r@ == old(r)@
    lensures[C19] format_attrs(e.attrs@, m.defaults.format) == Some(L{metadata__loader__Format}), r@ == old(r)@
    ldecreases[C19] it0@.len()
  loop 1 loop
    pre[C19] let ghost f1_ = L{metadata__loader__Format};
    invariant[C19] format_fn(old(r)@, name@, f1_, None) == format_fn(r@, name@, L{metadata__loader__Format}, L{Option<Str>}), r@.len() <= old(r)@.len()
    ldecreases[C19] r@.len()

fn metadata::loader::formats (r, m, name) -> x
  ensures[C19] read_as(x, final(r)@, formats_fn(old(r)@, m, name@, Seq::empty(), Seq::empty()))
  ensures[C19] x is Ok ==> final(r)@.len() <= old(r)@.len()
  loop 0 loop
    invariant[C19] formats_fn(old(r)@, m, name@, Seq::empty(), Seq::empty())
        == formats_fn(r@, m, name@, L{SeqV<metadata__loader__Format>}@, L{SeqV<metadata__loader__Format>#1}@), r@.len() <= old(r)@.len()
    ldecreases[C19] r@.len()

fn metadata::loader::descriptor (r, m, name) -> x
  ensures[C19] read_as(x, final(r)@, descriptor_fn(old(r)@, name@, m.defaults.descriptor))
  ensures[C19] x is Ok ==> final(r)@.len() <= old(r)@.len()
  loop 0 loop
    invariant[C19] descriptor_fn(old(r)@, name@, m.defaults.descriptor) == descriptor_fn(r@, name@, L{metadata__loader__Descriptor}), r@.len() <= old(r)@.len()
    ldecreases[C19] r@.len()
    head[C19] let ghost r0_ = r@;
  loop 1
    pre[C19] let ghost d1_ = L{metadata__loader__Descriptor}; let ghost s1_ = it1@;
    invariant[C19] length_attrs(s1_, d1_) == length_attrs(it1@, L{metadata__loader__Descriptor}), r@ == r0_.drop_first()
    lensures[C19] length_attrs(s1_, d1_) == Some(L{metadata__loader__Descriptor}), r@ == r0_.drop_first()
    ldecreases[C19] it1@.len()

fn metadata::loader::territory (r, e) -> x
  ensures[C19] read_as(x, final(r)@, one_territory(e, old(r)@))
  start[C19] hide(ignore_fn); hide(formats_fn); hide(descriptor_fn); hide(text_fn); hide(format_fn); hide(length_attrs); hide(format_attrs); proof { lemma_names(); }
  ensures[C19] x is Ok ==> final(r)@.len() <= old(r)@.len()
  loop 0
    invariant[C19] territory_attrs(e.attrs@, lm0()) == territory_attrs(it0@, L{metadata__loader__Metadata}), r@ == old(r)@
    lensures[C19] territory_attrs(e.attrs@, lm0()) == Some(L{metadata__loader__Metadata}), r@ == old(r)@
    ldecreases[C19] it0@.len()
  loop 1 loop
    pre[C19] let ghost m1_ = L{metadata__loader__Metadata};
    invariant[C19] territory_fn(old(r)@, m1_) == territory_fn(r@, L{metadata__loader__Metadata}), r@.len() <= old(r)@.len()
    ldecreases[C19] r@.len()

fn metadata::loader::territories (r) -> x
  ensures[C19] read_as(x, final(r)@, territories_fn(old(r)@, Seq::empty()))
  ensures[C19] x is Ok ==> final(r)@.len() <= old(r)@.len()
  loop 0 loop
    invariant[C19] territories_fn(old(r)@, Seq::empty()) == territories_fn(r@, L{SeqV<metadata__loader__Metadata>}@), r@.len() <= old(r)@.len()
    ldecreases[C19] r@.len()

fn metadata::loader::metadata (r) -> x
  ensures[C19] read_as(x, final(r)@, metadata_fn(old(r)@, Seq::empty()))
  loop 0 loop
    invariant[C19] metadata_fn(old(r)@, Seq::empty()) == metadata_fn(r@, L{SeqV<metadata__loader__Metadata>}@), r@.len() <= old(r)@.len()
    ldecreases[C19] r@.len()

fn metadata::loader::load (s)
  ensures[C19] match loaded(s) { Some(l) => r is Ok && r->Ok_0@ =~= l, None => r is Err }

fn metadata::database::Database::parse (s)
  ensures[C19] is_loaded(text_source(s@), r)

fn metadata::database::Database::load (p)
  ensures[C19] r is Ok ==> exists|f: ext__std__fs__File| is_loaded(#[trigger] file_source(f), r)
