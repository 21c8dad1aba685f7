//! The properties of databases and of loading them.
use crate::checks::*;
use crate::dbs::*;
use crate::gen::*;
use crate::xml::*;
use phonenumber::metadata::loader;
use phonenumber::metadata::{Database, Descriptor, Format, Metadata};

fn cmp<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: {a:?}, expected {b:?}"))
    }
}

fn sorted(v: &[u16]) -> Vec<u16> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn desc(what: &str, d: Option<&Descriptor>, r: Option<&RDesc>) -> Result<(), String> {
    match (d, r) {
        (None, None) => Ok(()),
        (Some(d), Some(r)) => {
            cmp(&format!("{what} lengths"), sorted(d.possible_length()), sorted(&r.lens))?;
            cmp(&format!("{what} local lengths"), sorted(d.possible_local_length()), sorted(&r.local))?;
            cmp(&format!("{what} example"), d.example(), r.example.as_deref())?;
            // the example is a match of both or of neither
            let mut probes: Vec<String> = vec!["1".into(), "12345678".into()];
            if let Some(e) = &r.example {
                probes.push(e.clone());
                probes.push(format!("{e}1"));
                probes.push(format!("1{e}"));
            }
            for p in probes {
                let a = d.is_match(&p);
                if a != r.is_match(&p) {
                    return Err(format!("{what} matches {p}: {a}"));
                }
            }
            Ok(())
        }
        (d, _) => Err(format!("{what} is there: {}", d.is_some())),
    }
}

fn formats(what: &str, f: &[Format], r: &[RFmt]) -> Result<(), String> {
    cmp(&format!("{what} count"), f.len(), r.len())?;
    for (i, (f, r)) in f.iter().zip(r).enumerate() {
        let what = format!("{what} {i}");
        cmp(&format!("{what} pattern"), f.pattern().as_str(), r.pattern.as_str())?;
        cmp(&format!("{what} format"), f.format(), r.format.as_str())?;
        cmp(&format!("{what} leading"), f.leading_digits().iter().map(|x| x.as_str()).collect::<Vec<_>>(), r.leading.iter().map(|x| x.as_str()).collect())?;
        cmp(&format!("{what} rule"), f.national_prefix(), r.np_rule.as_deref())?;
        cmp(&format!("{what} optional"), f.is_national_prefix_optional(), r.np_opt)?;
        cmp(&format!("{what} carrier"), f.domestic_carrier(), r.carrier.as_deref())?;
    }
    Ok(())
}

pub fn meta(m: &Metadata, r: &RMeta) -> Result<(), String> {
    let what = &r.id;
    cmp("id", m.id(), r.id.as_str())?;
    cmp(&format!("{what} code"), m.country_code(), r.code)?;
    cmp(&format!("{what} idd"), m.international_prefix().map(|r| r.as_str()), r.idd.as_ref().map(|r| r.as_str()))?;
    cmp(&format!("{what} preferred idd"), m.preferred_international_prefix(), r.pref_idd.as_deref())?;
    cmp(&format!("{what} national prefix"), m.national_prefix(), r.np.as_deref())?;
    cmp(&format!("{what} extension prefix"), m.preferred_extension_prefix(), r.ext_prefix.as_deref())?;
    cmp(&format!("{what} prefix pattern"), m.national_prefix_for_parsing().map(|r| r.as_str()), r.np_parse.as_ref().map(|r| r.as_str()))?;
    cmp(&format!("{what} transform"), m.national_prefix_transform_rule(), r.transform.as_deref())?;
    cmp(&format!("{what} main"), m.is_main_country_for_code(), r.main)?;
    cmp(&format!("{what} leading digits"), m.leading_digits().map(|r| r.as_str()), r.leading.as_ref().map(|r| r.as_str()))?;
    cmp(&format!("{what} portable"), m.is_mobile_number_portable(), r.mnp)?;
    formats(&format!("{what} format"), m.formats(), &r.formats)?;
    formats(&format!("{what} international format"), m.international_formats(), &r.intl)?;
    let d = m.descriptors();
    desc(&format!("{what} general"), Some(d.general()), r.descs.get("generalDesc"))?;
    for (k, x) in [
        ("fixedLine", d.fixed_line()),
        ("mobile", d.mobile()),
        ("tollFree", d.toll_free()),
        ("premiumRate", d.premium_rate()),
        ("sharedCost", d.shared_cost()),
        ("personalNumber", d.personal_number()),
        ("voip", d.voip()),
        ("pager", d.pager()),
        ("uan", d.uan()),
        ("emergency", d.emergency()),
        ("voicemail", d.voicemail()),
        ("noInternationalDialling", d.no_international()),
        ("shortCode", d.short_code()),
        ("standardRate", d.standard_rate()),
        ("carrier", d.carrier()),
    ] {
        desc(&format!("{what} {k}"), x, r.descs.get(k))?;
    }
    Ok(())
}

/// what the indexes of db say agrees with the list
fn index(db: &Database, rf: &RDb) -> Result<(), String> {
    let mut ids: Vec<String> = db.iter().map(|m| m.id().to_string()).collect();
    ids.sort();
    let mut want: Vec<String> = rf.by_id.keys().cloned().collect();
    want.sort();
    cmp("ids", ids, want)?;
    for (id, &i) in &rf.by_id {
        let m = db.by_id(id.as_str()).ok_or(format!("no metadata for {id}"))?;
        meta(m, &rf.metas[i])?;
    }
    for id in ["", "XX", "us", "0"] {
        cmp("an id that is not there", db.by_id(id).is_some(), rf.by_id.contains_key(id))?;
    }
    for c in 0..1100u16 {
        let a: Option<Vec<String>> = db.by_code(&c).map(|v| v.iter().map(|m| m.id().to_string()).collect());
        let b: Option<Vec<String>> = db.region(&c).map(|v| v.iter().map(|m| m.to_string()).collect());
        let w: Option<Vec<String>> = rf.by_code.get(&c).map(|v| v.iter().map(|&i| rf.metas[i].id.clone()).collect());
        cmp(&format!("metadata of code {c}"), a, w.clone())?;
        cmp(&format!("regions of code {c}"), b, w)?;
        if let Some(v) = db.by_code(&c) {
            for (m, &i) in v.iter().zip(&rf.by_code[&c]) {
                meta(m, &rf.metas[i])?;
            }
        }
    }
    Ok(())
}

// an element: id|code|main|k=lens/local|...
const FIELDS: usize = 16;

fn nums(s: &str) -> Vec<u16> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn build(x: &[String]) -> (Vec<loader::Metadata>, RDb) {
    let mut a = vec![];
    let mut b = vec![];
    for e in x {
        let p: Vec<&str> = e.split('|').collect();
        let mut m = loader::Metadata { id: Some(p[0].into()), country_code: Some(p[1].parse().unwrap()), main_country_for_code: p[2] == "1", ..Default::default() };
        let mut r = RMeta { id: p[0].into(), code: p[1].parse().unwrap(), main: p[2] == "1", ..Default::default() };
        let (mut lens, mut local) = (vec![], vec![]);
        for f in &p[3..] {
            let (k, v) = f.split_once('=').unwrap();
            let k: usize = k.parse().unwrap();
            let (l, o) = v.split_once('/').unwrap();
            let (l, o) = (nums(l), nums(o));
            let d = loader::Descriptor { national_number: Some(format!("\\d{k}")), possible_length: l.clone(), possible_local_length: o.clone(), example: Some(format!("{k}")) };
            let slot = match k {
                0 => &mut m.general,
                1 => &mut m.fixed_line,
                2 => &mut m.mobile,
                3 => &mut m.toll_free,
                4 => &mut m.premium_rate,
                5 => &mut m.shared_cost,
                6 => &mut m.personal_number,
                7 => &mut m.voip,
                8 => &mut m.pager,
                9 => &mut m.uan,
                10 => &mut m.emergency,
                11 => &mut m.voicemail,
                12 => &mut m.short_code,
                13 => &mut m.standard_rate,
                14 => &mut m.carrier,
                _ => &mut m.no_international,
            };
            *slot = Some(d);
            if k < 15 {
                lens.extend(l.clone());
                local.extend(o.clone());
            }
            const N: [&str; 16] = [
                "generalDesc", "fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan", "emergency", "voicemail",
                "shortCode", "standardRate", "carrier", "noInternationalDialling",
            ];
            r.descs.insert(N[k], RDesc { pattern: format!("\\d{k}"), re: rx(&format!("^(?:\\d{k}\n)$")), lens: l, local: o, example: Some(format!("{k}")) });
        }
        lens.sort();
        lens.dedup();
        local.sort();
        local.dedup();
        local.retain(|x| !lens.contains(x));
        let g = r.descs.get_mut("generalDesc").unwrap();
        g.lens = lens;
        g.local = local;
        a.push(m);
        b.push(r);
    }
    (a, RDb::index(b))
}

pub fn c18(c: &Case, dbs: &[Db]) -> Out {
    if c.x.is_empty() {
        index(dbs[c.db].real, &dbs[c.db].rf)?;
        // exact order of the lengths of the types
        return Ok(true);
    }
    let (a, b) = build(&c.x);
    let db = Database::from(a).map_err(|e| format!("cannot be indexed: {e}"))?;
    index(&db, &b)?;
    Ok(true)
}

pub fn gen18(g: &mut Gen, _: &[Db]) -> Case {
    let n = 1 + g.rng.below(6);
    let mut x = vec![];
    for _ in 0..n {
        let mut e = format!("{}|{}|{}", g.rng.s(&["US", "CA", "BS", "GB", "001", "ZZ", "IT"]), g.rng.s(&["1", "1", "44", "800", "999"]), g.rng.below(2));
        for k in 0..FIELDS {
            if k == 0 || g.rng.p(1, 5) {
                let mut l = |g: &mut Gen| -> String {
                    let n = if k == 0 { 0 } else { g.rng.below(4) };
                    let mut v: Vec<u16> = (0..n).map(|_| 2 + g.rng.below(14) as u16).collect();
                    v.sort();
                    v.dedup();
                    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                };
                let (a, b) = (l(g), l(g));
                e += &format!("|{k}={a}/{b}");
            }
        }
        x.push(e);
    }
    Case { db: 0, region: None, s: String::new(), x }
}

pub fn fixed18(dbs: &[Db]) -> Vec<Case> {
    (0..dbs.len()).map(|db| Case { db, region: None, s: String::new(), x: vec![] }).collect()
}

// ------------------------------------------------------------------- loading

fn one(general: &str, rest: &str, attrs: &str) -> String {
    format!("<phoneNumberMetadata><territories><territory {attrs}>{general}{rest}</territory></territories></phoneNumberMetadata>")
}

const GENERAL: &str = "<generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc>";
const ATTRS: &str = "id=\"US\" countryCode=\"1\"";

fn lens_xml(spec: &str) -> String {
    one(GENERAL, &format!("<mobile><possibleLengths national=\"{spec}\" localOnly=\"{spec}\"/><nationalNumberPattern>\\d+</nationalNumberPattern></mobile>"), ATTRS)
}

/// x[0]: any | err | lens; x[1]: the lengths
pub fn c19(c: &Case) -> Out {
    let r = Database::parse(&c.s);
    // as a file, too, where that is a difference
    let l = loader::load(std::io::Cursor::new(c.s.as_bytes()));
    match c.x[0].as_str() {
        "err" => match r {
            Ok(_) => Err("it is loaded without an error".into()),
            Err(_) => Ok(true),
        },
        "lens" => {
            let r = r.map_err(|e| format!("cannot be loaded: {e}"))?;
            let want = nums(&c.x[1]);
            let m = r.by_id("US").ok_or("no metadata")?;
            let d = m.descriptors().mobile().ok_or("no descriptor")?;
            cmp("lengths", d.possible_length().to_vec(), want.clone())?;
            cmp("local lengths", d.possible_local_length().to_vec(), want)?;
            Ok(true)
        }
        "ok" => {
            let r = r.map_err(|e| format!("cannot be loaded: {e}"))?;
            index(&r, &RDb::load(&c.s))?;
            Ok(true)
        }
        _ => {
            // whatever was read can be indexed, or is reported
            Ok(l.is_ok() || r.is_ok() || c.s.len() > 40)
        }
    }
}

/// the lengths a text lists
fn listed(s: &str) -> Option<Vec<u16>> {
    fn num(s: &str) -> Option<u16> {
        let s = s.strip_prefix('+').unwrap_or(s);
        if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        s.bytes().try_fold(0u32, |n, b| Some(n * 10 + (b - b'0') as u32).filter(|n| *n < 65536)).map(|n| n as u16)
    }
    let mut out = vec![];
    for p in s.split(',') {
        let p = p.trim();
        match p.chars().next() {
            Some('[') => {
                let i = p.find('-')?;
                if !p.ends_with(']') {
                    return None;
                }
                out.extend(num(&p[1..i])?..=num(&p[i + 1..p.len() - 1])?);
            }
            _ => out.push(num(p)?),
        }
    }
    Some(out)
}

pub fn fixed19() -> Vec<Case> {
    let mk = |s: String, x: &[&str]| Case { db: 0, region: None, s, x: x.iter().map(|x| x.to_string()).collect() };
    let mut out = vec![];
    for s in [
        one("", "", ATTRS),
        one(GENERAL, "", "id=\"US\""),
        one(GENERAL, "", "countryCode=\"1\""),
        one("<generalDesc></generalDesc>", "", ATTRS),
        one(GENERAL, "<mobile></mobile>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat><format>$1</format></numberFormat></availableFormats>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"\\d\"></numberFormat></availableFormats>", ATTRS),
        one("<generalDesc><nationalNumberPattern>(</nationalNumberPattern></generalDesc>", "", ATTRS),
        one(GENERAL, "<mobile><nationalNumberPattern>[</nationalNumberPattern></mobile>", ATTRS),
        one(GENERAL, "", "id=\"US\" countryCode=\"70000\""),
        one(GENERAL, "", "id=\"US\" countryCode=\"-1\""),
        one(GENERAL, "", "id=\"US\" countryCode=\"1\" internationalPrefix=\"(\""),
        one(GENERAL, "", "id=\"US\" countryCode=\"1\" nationalPrefixForParsing=\"(\""),
        one(GENERAL, "", "id=\"US\" countryCode=\"1\" leadingDigits=\"(\""),
        one(GENERAL, "", "id=\"US\" countryCode=\"1\" mainCountryForCode=\"yes\""),
        one(GENERAL, "", "id=\"US\" countryCode=\"1\" other=\"yes\""),
        one(GENERAL, "<other/>", ATTRS),
        one(GENERAL, "<other></other>", ATTRS),
        one(GENERAL, "<mobile><other/></mobile>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"(\"><format>$1</format></numberFormat></availableFormats>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"1\"><leadingDigits>(</leadingDigits><format>$1</format></numberFormat></availableFormats>", ATTRS),
        one(GENERAL, "<mobile><possibleLengths national=\"4\" other=\"5\"/><nationalNumberPattern>\\d</nationalNumberPattern></mobile>", ATTRS),
        one(GENERAL, "<mobile><possibleLengths national=\"4\" national=\"5\"/><nationalNumberPattern>\\d</nationalNumberPattern></mobile>", ATTRS),
        one(GENERAL, "<mobile><possibleLengths national=\"4\"></possibleLengths><nationalNumberPattern>\\d</nationalNumberPattern></mobile>", ATTRS),
        one(GENERAL, "<mobile><nationalNumberPattern><a>1</a></nationalNumberPattern></mobile>", ATTRS),
        one(GENERAL, "<mobile><nationalNumberPattern>1</exampleNumber></mobile>", ATTRS),
        one(GENERAL, "<mobile><nationalNumberPattern>1</nationalNumberPattern></fixedLine>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"1\" other=\"1\"><format>1</format></numberFormat></availableFormats>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"1\" nationalPrefixOptionalWhenFormatting=\"1\"><format>1</format></numberFormat></availableFormats>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"1\"><other>1</other><format>1</format></numberFormat></availableFormats>", ATTRS),
        one(GENERAL, "<availableFormats><other pattern=\"1\"><format>1</format></other></availableFormats>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"1\"><format>1</format></availableFormats>", ATTRS),
        one(GENERAL, "<availableFormats><numberFormat pattern=\"1\"><intlFormat>1</intlFormat></numberFormat></availableFormats>", ATTRS),
        one(GENERAL, "<references><a></b></references>", ATTRS),
        one(GENERAL, "<areaCodeOptional></references>", ATTRS),
        one(GENERAL, "", "id=\"US\" countryCode=\"1\" mobileNumberPortableRegion=\"\""),
        one(GENERAL, "", "id=\"US\" countryCode=\"1\" nationalPrefixOptionalWhenFormatting=\"no\""),
        one(GENERAL, "", "id=\"US\" id=\"US\" countryCode=\"1\""),
        one(GENERAL, "<![CDATA[x]]>", ATTRS),
        "<phoneNumberMetadata><territories></phoneNumberMetadata>".into(),
        "<phoneNumberMetadata></territories>".into(),
        "<phoneNumberMetadata><territories></territories>".into(),
        "<phoneNumberMetadata><territories/></phoneNumberMetadata>".into(),
        "<phoneNumberMetadata><territories><territory/></territories></phoneNumberMetadata>".into(),
        "<phoneNumberMetadata><territories><territory></territory></territories></phoneNumberMetadata>".into(),
        "".into(),
        "x".into(),
        "<phoneNumberMetadata/>".into(),
        "<phoneNumberMetadata><territories><territory".into(),
        "<phoneNumberMetadata><territories>".into(),
        format!("<phoneNumberMetadata><territories><territory {ATTRS}>{GENERAL}</territories></phoneNumberMetadata>"),
        format!("<phoneNumberMetadata><territories><territory {ATTRS}>{GENERAL}<references>"),
        format!("<phoneNumberMetadata><territories><territory {ATTRS}>{GENERAL}<references><a></references>"),
        format!("<phoneNumberMetadata><territories><territory {ATTRS}>{GENERAL}<mobile><exampleNumber>"),
        format!("<phoneNumberMetadata><territories><territory {ATTRS}>{GENERAL}<availableFormats>"),
    ] {
        out.push(mk(s, &["err"]));
    }
    for s in ["", "a", "[4-", "[4-]", "[-6]", "4-6", "4,", ",4", "4,,5", "[a-b]", "4a", "-4", "70000", "[1-70000]", "[99999-1]", "4 5", "[4-6-8]", "(4-6)", "[5]", "[4-6", "4-6]", "[5", "5]", "[", "]", "[]", "[-]", "[ 4-6]", "[4 -6]", "[4-6]]", "[[4-6]]", "[4,6]", "3,[5]", "[5],3", "[4-6,8"] {
        out.push(mk(lens_xml(s), &["err"]));
    }
    for (s, w) in [
        ("4", "4"),
        ("4,5", "4,5"),
        (" 4 , 7 ", "4,7"),
        ("[4-6]", "4,5,6"),
        ("[4-4]", "4"),
        ("[4-6],8", "4,5,6,8"),
        ("3,[5-7],[9-10],12", "3,5,6,7,9,10,12"),
        ("[65534-65535]", "65534,65535"),
        ("[0-1]", "0,1"),
    ] {
        out.push(mk(lens_xml(s), &["lens", w]));
    }
    let deep = 200_000;
    out.push(mk(one(GENERAL, &format!("<references>{}{}</references>", "<a>".repeat(deep), "</a>".repeat(deep)), ATTRS), &["any"]));
    out.push(mk(format!("<phoneNumberMetadata>{}{}</phoneNumberMetadata>", "<a>".repeat(deep), "</a>".repeat(deep)), &["any"]));
    out.push(mk(one(GENERAL, "<references><a><a></a></a><b/></references>", ATTRS), &["ok"]));
    out.push(mk(ODD.into(), &["ok"]));
    for s in ["", "<", "a", "<a/>", "<phoneNumberMetadata/>", "<phoneNumberMetadata></phoneNumberMetadata>", "</a>", "\u{feff}", "<!--", "<?xml?>", "<![CDATA[x]]>"] {
        out.push(mk(s.into(), &["any"]));
    }
    out
}

pub fn gen19(g: &mut Gen) -> Case {
    if g.rng.p(1, 4) {
        // a length specification, with the lengths it stands for
        let mut spec = vec![];
        let mut want = vec![];
        for _ in 0..1 + g.rng.below(4) {
            let a = g.rng.below(20) as u16;
            if g.rng.p(1, 2) {
                let b = a + g.rng.below(6) as u16;
                spec.push(format!("[{a}-{b}]"));
                want.extend(a..=b);
            } else {
                spec.push(a.to_string());
                want.push(a);
            }
        }
        let sep = g.rng.s(&[",", ", ", " ,"]);
        return Case { db: 0, region: None, s: lens_xml(&spec.join(sep)), x: vec!["lens".into(), want.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")] };
    }
    if g.rng.p(1, 6) {
        let n = g.rng.below(8);
        let spec: String = if g.rng.p(1, 3) {
            (0..n).map(|_| g.rng.s(&["[", "]", "-", ",", "4", "6", " ", "65536", "a", "+"])).collect()
        } else {
            let (a, b) = (g.rng.s(&["4", "", "6", "5"]), g.rng.s(&["6", "", "4", "12"]));
            let (o, d, c) = (g.rng.s(&["[", "[", "", " ["]), g.rng.s(&["-", "-", "", "--", ","]), g.rng.s(&["]", "]", "", "] "]));
            format!("{}{o}{a}{d}{b}{c}{}", g.rng.s(&["", "", "3,"]), g.rng.s(&["", "", ",8"]))
        };
        let x = match listed(&spec) {
            Some(v) => vec!["lens".into(), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")],
            None => vec!["err".into()],
        };
        return Case { db: 0, region: None, s: lens_xml(&spec), x };
    }
    // a small piece of metadata, damaged
    let base = if g.rng.p(1, 2) {
        ODD.to_string()
    } else {
        one(
            GENERAL,
            "<references><sourceUrl>x</sourceUrl></references><mobile><possibleLengths national=\"[4-6]\"/><exampleNumber>1</exampleNumber><nationalNumberPattern>\\d</nationalNumberPattern></mobile><availableFormats><numberFormat pattern=\"(\\d)\"><leadingDigits>1</leadingDigits><format>$1</format><intlFormat>NA</intlFormat></numberFormat></availableFormats>",
            "id=\"US\" countryCode=\"1\" mainCountryForCode=\"true\" nationalPrefix=\"1\"",
        )
    };
    let mut v: Vec<char> = base.chars().collect();
    // drop an element, cut, or disturb characters
    match g.rng.below(4) {
        0 => {
            let at: Vec<usize> = (0..v.len()).filter(|&i| v[i] == '<').collect();
            let i = *g.rng.pick(&at);
            let e = (i..v.len()).find(|&j| v[j] == '>').unwrap_or(v.len() - 1);
            v.drain(i..=e);
        }
        1 => {
            let n = g.rng.below(v.len());
            v.truncate(n);
        }
        2 => {
            let at: Vec<usize> = (0..v.len()).filter(|&i| v[i] == '<').collect();
            let i = *g.rng.pick(&at);
            for (k, c) in g.rng.s(&["<other>", "</other>", "<other/>", "<!-- x -->", "<![CDATA[1]]>", "<mobile>", "<territory id=\"A\">", "&amp;", "<references>", "text", "<?pi?>"]).chars().enumerate() {
                v.insert(i + k, c);
            }
        }
        _ => {
            for _ in 0..1 + g.rng.below(4) {
                let i = g.rng.below(v.len());
                let c = g.rng.s(&["<", ">", "\"", "/", "=", "(", "[", "9", "-", "x", " ", "é", "&", "\u{0}"]).chars().next().unwrap();
                if g.rng.p(1, 2) {
                    v[i] = c;
                } else {
                    v.insert(i, c);
                }
            }
        }
    }
    Case { db: 0, region: None, s: v.into_iter().collect(), x: vec!["any".into()] }
}
