//! One executable contract per property: a case holds or it does not.
use crate::dbs::Db;
use crate::gen::*;
use crate::refimpl::*;
use crate::xml::*;
use phonenumber::metadata::Database;
use phonenumber::{country, Mode, NationalNumber, PhoneNumber};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct Case {
    pub db: usize,
    pub region: Option<String>,
    pub s: String,
    pub x: Vec<String>,
}

impl Case {
    pub fn json(&self, dbs: &[Db]) -> Value {
        json!({"db": self.db, "database": dbs[self.db].name, "region": self.region, "input": self.s, "x": self.x})
    }
    pub fn from_json(v: &Value) -> Case {
        Case {
            db: v["db"].as_u64().unwrap() as usize,
            region: v["region"].as_str().map(Into::into),
            s: v["input"].as_str().unwrap().into(),
            x: v["x"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        }
    }
}

/// Ok(true): held and was not trivial
pub type Out = Result<bool, String>;

pub fn rid(r: Option<&str>) -> Option<country::Id> {
    r.and_then(|r| r.parse().ok())
}

pub fn parse(db: &Db, region: Option<&str>, s: &str) -> Option<PhoneNumber> {
    phonenumber::parse_with(db.real, rid(region), s).ok()
}

pub fn view(p: &PhoneNumber) -> Parsed {
    Parsed {
        code: p.code().value(),
        national: p.national().to_string(),
        ext: p.extension().map(|e| e.as_ref().to_string()),
        carrier: p.carrier().map(|e| e.as_ref().to_string()),
        source: match p.code().source() {
            country::Source::Plus => "Plus",
            country::Source::Idd => "Idd",
            country::Source::Number => "Number",
            country::Source::Default => "Default",
        },
    }
}

/// a number with exactly these parts
pub fn make(code: u16, source: &str, national: &str, ext: Option<&str>, carrier: Option<&str>) -> Option<PhoneNumber> {
    let n: NationalNumber = national.parse().ok()?;
    let v = json!({"code": {"value": code, "source": source}, "national": serde_json::to_value(n).ok()?, "extension": ext, "carrier": carrier});
    serde_json::from_value(v).ok()
}

fn show(p: &PhoneNumber, db: &Database, mode: Mode) -> Option<String> {
    let mut s = String::new();
    write!(s, "{}", p.format_with(db).mode(mode)).ok()?;
    Some(s)
}

pub const MODES: [(&str, Mode); 4] = [("E164", Mode::E164), ("International", Mode::International), ("National", Mode::National), ("Rfc3966", Mode::Rfc3966)];

fn cmp(what: &str, got: &Option<Parsed>, want: &Option<Parsed>) -> Out {
    if got == want {
        Ok(want.is_some())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

fn nosrc(p: Option<Parsed>) -> Option<Parsed> {
    p.map(|p| Parsed { source: "", ..p })
}

/// the number the case stands for, for the properties of a number
/// the formats of International and RFC 3966
fn used(m: &phonenumber::Metadata) -> &[phonenumber::metadata::Format] {
    if m.international_formats().is_empty() {
        m.formats()
    } else {
        m.international_formats()
    }
}

/// a pattern of capturing groups and nothing else, and a template that names them in order with
/// separators between them: `keeps` in contracts/digits.vc
fn keeps(pat: &str, template: &str) -> bool {
    let p: Vec<char> = pat.chars().collect();
    let (mut i, mut depth, mut groups) = (0, 0, 0);
    while i < p.len() {
        match p[i] {
            '(' if depth == 0 => {
                if p.get(i + 1) == Some(&'?') {
                    return false;
                }
                depth = 1;
                groups += 1;
            }
            '(' => {
                if p.get(i + 1) != Some(&'?') || p.get(i + 2) != Some(&':') {
                    return false;
                }
                depth += 1;
                i += 2;
            }
            ')' => {
                if depth == 0 {
                    return false;
                }
                depth -= 1;
            }
            _ if depth == 0 => return false,
            '\\' => {
                if p.get(i + 1) != Some(&'d') {
                    return false;
                }
                i += 1;
            }
            '0'..='9' | '[' | ']' | '-' | '{' | '}' | ',' | '|' | '?' | '*' | '+' | '.' => (),
            _ => return false,
        }
        i += 1;
    }
    if depth != 0 {
        return false;
    }
    let t: Vec<char> = template.chars().collect();
    let (mut i, mut next) = (0, 1u32);
    while i < t.len() {
        if t[i] == '$' {
            if next > 9 || t.get(i + 1) != char::from_digit(next, 10).as_ref() {
                return false;
            }
            if t.get(i + 2).is_some_and(|c| !c.is_ascii() || c.is_ascii_alphanumeric() || *c == '_') {
                return false;
            }
            next += 1;
            i += 2;
        } else if punct(t[i]) {
            i += 1;
        } else {
            return false;
        }
    }
    next == groups + 1
}

fn number(c: &Case) -> Option<PhoneNumber> {
    let o = |i: usize| c.x.get(i).and_then(|s| s.strip_prefix('='));
    make(c.x[0].parse().ok()?, "default", &c.s, o(1), o(2))
}

pub fn check(prop: &str, c: &Case, dbs: &[Db]) -> Out {
    let db = &dbs[c.db];
    let region = c.region.as_deref();
    match prop {
        "C01" => {
            let a = parse(db, region, &c.s);
            let _ = phonenumber::is_viable(&c.s);
            Ok(a.is_some() || c.s.len() > 3)
        }
        "C02" => {
            let p = if c.x.is_empty() { parse(db, region, &c.s) } else { number(c) };
            let p = match p {
                Some(p) => p,
                None => return Ok(false),
            };
            for (n, m) in MODES {
                if show(&p, db.real, m).is_none() {
                    return Err(format!("formatting {:?} as {n} fails", view(&p)));
                }
            }
            let _ = p.is_valid_with(db.real);
            let _ = p.number_type_with(db.real);
            let _ = p.metadata(db.real).map(|m| m.id().to_string());
            let _ = (p.is_valid(), p.number_type(), p.country().id().is_ok());
            if let Some(ms) = db.real.by_code(&p.code().value()) {
                for f in ms.iter().flat_map(|m| m.formats().iter().chain(m.international_formats())).take(12) {
                    let mut s = String::new();
                    for (_, m) in MODES {
                        if write!(s, "{}", p.format_with(db.real).mode(m).with(f)).is_err() {
                            return Err(format!("formatting {:?} with an explicit format fails", view(&p)));
                        }
                    }
                }
            }
            Ok(true)
        }
        "C03" => {
            let p = match parse(db, region, &c.s) {
                Some(p) => view(&p),
                None => return Ok(false),
            };
            if db.real.by_code(&p.code).is_none_or(|v| v.is_empty()) {
                return Err(format!("country code {} is not in the database", p.code));
            }
            if p.national.len() < 2 || p.national.len() > 17 || !p.national.bytes().all(|b| b.is_ascii_digit()) {
                return Err(format!("national number {:?}", p.national));
            }
            if p.ext.as_ref().is_some_and(|e| e.is_empty() || !e.bytes().all(|b| b.is_ascii_digit())) {
                return Err(format!("extension {:?}", p.ext));
            }
            if p.carrier.as_ref().is_some_and(|e| !e.bytes().all(|b| b.is_ascii_digit())) {
                return Err(format!("carrier {:?}", p.carrier));
            }
            Ok(true)
        }
        "C04" => {
            if c.x.len() == 2 {
                let (v, z): (u64, u8) = (c.x[0].parse().unwrap(), c.x[1].parse().unwrap());
                let n = NationalNumber::new(v, z);
                if n.is_ok() != (v < 1 << 56) {
                    return Err(format!("new({v}, {z}) is_ok: {}", n.is_ok()));
                }
                if let Ok(n) = n {
                    if n.value() != v || n.zeros() != z || u64::from(n) != v || n.to_string() != "0".repeat(z as usize) + &v.to_string() {
                        return Err(format!("new({v}, {z}) has value {} zeros {} u64 {} text {}", n.value(), n.zeros(), u64::from(n), n));
                    }
                }
                return Ok(true);
            }
            let s = &c.s;
            if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
                if let Ok(n) = s.parse::<NationalNumber>() {
                    return Err(format!("{s:?} is read as {n}"));
                }
                return Ok(true);
            }
            let lead = s.bytes().take_while(|&b| b == b'0').count();
            let z = if lead == s.len() { lead - 1 } else { lead };
            let v = s[z..].parse::<u64>().ok().filter(|&v| v < 1 << 56);
            let n = s.parse::<NationalNumber>().ok();
            match (v, n) {
                (Some(v), Some(n)) if z <= 255 => {
                    if n.to_string() != *s || n.value() != v || n.zeros() as usize != z || u64::from(n) != v {
                        return Err(format!("{s:?} is read as {n} (value {}, zeros {})", n.value(), n.zeros()));
                    }
                    Ok(true)
                }
                (Some(_), None) if z > 255 => Ok(true),
                (None, None) => Ok(true),
                (v, n) => Err(format!("{s:?} is read as {:?}, value {v:?}", n.map(|n| n.to_string()))),
            }
        }
        "C05" | "C08" | "C20" | "C21" => {
            let got = parse(db, region, &c.s).map(|p| view(&p));
            let want = db.rf.parse(region, &c.s);
            if prop == "C20" && c.x.len() == 2 {
                // the number without the extension, and the extension
                let base = parse(db, region, &c.x[0]).map(|p| view(&p));
                if let Some(b) = base {
                    if b.ext.is_none() && db.rf.parse(region, &c.x[0]).is_some() && want.is_some() {
                        let w = Some(Parsed { ext: Some(c.x[1].clone()), ..b });
                        if want == w {
                            return cmp("extension", &got, &w);
                        }
                    }
                }
            }
            match prop {
                "C20" => {
                    if got.is_some() == want.is_some() && got.as_ref().map(|p| &p.ext) != want.as_ref().map(|p| &p.ext) {
                        return Err(format!("extension: got {got:?}, expected {want:?}"));
                    }
                    cmp("number with extension", &nosrc(got), &nosrc(want))
                }
                "C21" => cmp("RFC 3966 number", &got, &want),
                "C05" => cmp("normalised number", &nosrc(got), &nosrc(want)),
                _ => cmp("national number and carrier", &nosrc(got), &nosrc(want)),
            }
        }
        "C06" => {
            let a = parse(db, None, &c.s).map(|p| view(&p));
            for r in &c.x {
                let b = parse(db, Some(r), &c.s).map(|p| view(&p));
                if a != b {
                    return Err(format!("without a region {a:?}, with region {r} {b:?}"));
                }
            }
            cmp("number with a plus", &a, &db.rf.parse(None, &c.s))
        }
        "C07" => {
            let a = parse(db, region, &c.s).map(|p| view(&p));
            let b = parse(db, region, &c.x[0]).map(|p| view(&p));
            let want = db.rf.parse(region, &c.s);
            if a.as_ref().is_some_and(|a| a.source != "Idd") {
                return Err(format!("{:?} is not taken as international: {a:?}", c.s));
            }
            if nosrc(a.clone()) != nosrc(b.clone()) {
                return Err(format!("{:?} gives {a:?}, {:?} gives {b:?}", c.s, c.x[0]));
            }
            cmp("international prefix", &a, &want)
        }
        "C09" => {
            let p = match number(c) {
                Some(p) => p,
                None => return Ok(false),
            };
            let got = format!("{:?}", p.number_type_with(db.real));
            let want = db.rf.kind_of(p.code().value(), &c.s);
            if got != want {
                return Err(format!("+{} {} is of type {got}, expected {want}", p.code().value(), c.s));
            }
            Ok(want != "Unknown")
        }
        "C10" => {
            let p = match number(c) {
                Some(p) => p,
                None => return Ok(false),
            };
            let code = p.code().value();
            let (t, v) = (format!("{:?}", p.number_type_with(db.real)), p.is_valid_with(db.real));
            if v != (t != "Unknown") {
                return Err(format!("+{code} {} is of type {t} and valid: {v}", c.s));
            }
            let (m, w) = (p.metadata(db.real).map(|m| m.id().to_string()), db.rf.source(code, &c.s).map(|m| m.id.clone()));
            if m != w {
                return Err(format!("+{code} {} belongs to {m:?}, expected {w:?}", c.s));
            }
            if v != (db.rf.kind_of(code, &c.s) != "Unknown") {
                return Err(format!("+{code} {} is valid: {v}", c.s));
            }
            if c.db == 0 {
                let id = p.country().id().ok().flatten().map(|i| i.as_ref().to_string());
                let w = w.filter(|w| valid_id(w));
                if id != w || p.is_valid() != v || format!("{:?}", p.number_type()) != t {
                    return Err(format!("+{code} {} is of country {id:?}, expected {w:?}", c.s));
                }
            }
            Ok(v)
        }
        "C12" => {
            let (a, b) = (phonenumber::is_viable(&c.s), viable(&c.s));
            if a != b {
                return Err(format!("{:?} is viable: {a}, expected {b}", c.s));
            }
            Ok(b)
        }
        "C13" => {
            let o = |i: usize| c.x[i].strip_prefix('=');
            let mk = |i: usize| make(c.x[i].parse().ok()?, &c.x[i + 1], &c.x[i + 2], o(i + 3), o(i + 4));
            let (a, b) = match (mk(0), mk(5)) {
                (Some(a), Some(b)) => (a, b),
                _ => return Ok(false),
            };
            let same = [0, 2, 3, 4].iter().all(|&i| c.x[i] == c.x[5 + i]);
            if (a == b) != same || (b == a) != same {
                return Err(format!("{:?} == {:?} is {}", view(&a), view(&b), a == b));
            }
            let h = |p: &PhoneNumber| {
                let mut h = DefaultHasher::new();
                p.hash(&mut h);
                h.finish()
            };
            let hc = |p: &PhoneNumber| {
                let mut h = DefaultHasher::new();
                p.code().hash(&mut h);
                h.finish()
            };
            if same && (h(&a) != h(&b) || hc(&a) != hc(&b)) {
                return Err(format!("{:?} and {:?} are equal with different hashes", view(&a), view(&b)));
            }
            if (a.code() == b.code()) != (c.x[0] == c.x[5]) {
                return Err(format!("country codes {:?} == {:?} is {}", a.code(), b.code(), a.code() == b.code()));
            }
            if a.clone() != a {
                return Err(format!("{:?} is not equal to itself", view(&a)));
            }
            Ok(true)
        }
        "C14" => {
            let p = match number(c) {
                Some(p) => p,
                None => return Ok(false),
            };
            let want = format!("+{}{}", p.code().value(), c.s);
            for (what, got) in [("default mode", show(&p, db.real, Mode::E164))] {
                if got.as_deref() != Some(want.as_str()) {
                    return Err(format!("{what}: {got:?}, expected {want:?}"));
                }
            }
            if p.format_with(db.real).to_string() != want {
                return Err(format!("the default mode writes {}, expected {want:?}", p.format_with(db.real)));
            }
            if c.db == 0 && (p.to_string() != want || p.format().to_string() != want) {
                return Err(format!("it is displayed as {p}, expected {want:?}"));
            }
            let f = db.real.by_code(&p.code().value()).and_then(|m| m[0].formats().first());
            if let Some(f) = f {
                let got = p.format_with(db.real).with(f).to_string();
                if got != want {
                    return Err(format!("with an explicit format it is {got:?}, expected {want:?}"));
                }
            }
            Ok(true)
        }
        "C15" | "C16" => {
            let p = match number(c) {
                Some(p) => p,
                None => return Ok(false),
            };
            let v = view(&p);
            let mut nt = false;
            for (n, m) in &MODES[1..] {
                let got = show(&p, db.real, *m);
                let want = db.rf.format(v.code, &v.national, v.ext.as_deref(), v.carrier.as_deref(), n, None);
                if got != want {
                    return Err(format!("{n} of {v:?}: {got:?}, expected {want:?}"));
                }
            }
            // an explicit format takes precedence
            if let (Some(ms), Some(r)) = (db.real.by_code(&v.code), db.rf.code(v.code).first()) {
                nt = rule(&r.formats, &v.national).is_some();
                for (f, g) in ms[0].formats().iter().zip(&r.formats).take(if prop == "C15" { 3 } else { 0 }) {
                    for (n, m) in &MODES[1..] {
                        let mut got = String::new();
                        write!(got, "{}", p.format_with(db.real).mode(*m).with(f)).map_err(|_| "fails".to_string())?;
                        let want = db.rf.format(v.code, &v.national, v.ext.as_deref(), v.carrier.as_deref(), n, Some(g));
                        if Some(&got) != want.as_ref() {
                            return Err(format!("{n} of {v:?} with an explicit format: {got:?}, expected {want:?}"));
                        }
                    }
                }
            }
            Ok(nt)
        }
        "C17" => {
            if c.x[0] == "formats" {
                // what the theorem assumes of the shipped formats
                for m in db.real.by_code(&c.s.parse().unwrap()).ok_or("no metadata")? {
                    for f in used(m) {
                        if !keeps(f.pattern().as_str(), f.format()) {
                            return Err(format!("the format {:?} of {:?} does not show the groups of its pattern", f.format(), f.pattern().as_str()));
                        }
                    }
                }
                return Ok(true);
            }
            let p = match number(c) {
                Some(p) => p,
                None => return Ok(false),
            };
            let v = view(&p);
            let ms = match db.real.by_code(&v.code) {
                Some(ms) => ms,
                None => return Ok(false),
            };
            if !used(ms[0]).iter().all(|f| keeps(f.pattern().as_str(), f.format())) {
                return Ok(false);
            }
            // what the theorem assumes of the regex crate
            for f in used(ms[0]) {
                if let Some(caps) = f.pattern().captures(&v.national) {
                    let all = caps.get(0).unwrap();
                    let mut at = all.start();
                    let mut want = f.format().to_string();
                    for i in 1..caps.len() {
                        let g = caps.get(i).filter(|g| g.start() == at).ok_or(format!("ASSUMPTION: the groups of {:?} do not tile {:?}", f.pattern().as_str(), v.national))?;
                        at = g.end();
                        want = want.replace(&format!("${i}"), g.as_str());
                    }
                    let got = f.pattern().replace(&v.national, f.format());
                    if at != all.end() || got != format!("{}{want}{}", &v.national[..all.start()], &v.national[all.end()..]) {
                        return Err(format!("ASSUMPTION: {:?} replaced by {:?} in {:?} gives {got:?}", f.pattern().as_str(), f.format(), v.national));
                    }
                }
            }
            for (n, m) in MODES.iter().filter(|m| m.0 == "International" || m.0 == "Rfc3966") {
                let got = show(&p, db.real, *m).ok_or(format!("{n} of {v:?} fails"))?;
                let code = v.code.to_string();
                let rest = got.find(&code).map(|i| &got[i + code.len()..]).ok_or(format!("{n} of {v:?} is {got:?}, without its code"))?;
                let mut left = v.national.as_str();
                let mut after = rest;
                for (i, ch) in rest.char_indices() {
                    if left.is_empty() {
                        after = &rest[i..];
                        break;
                    }
                    after = "";
                    if ch.is_ascii_digit() {
                        left = left.strip_prefix(ch).ok_or(format!("{n} of {v:?} is {got:?}"))?;
                    } else if !punct(ch) || (*n == "Rfc3966" && ch != '-') {
                        return Err(format!("{n} of {v:?} is {got:?}, which has more than separators"));
                    }
                }
                if !left.is_empty() || (v.ext.is_none() && !after.chars().all(punct)) {
                    return Err(format!("{n} of {v:?} is {got:?}"));
                }
            }
            Ok(used(ms[0]).iter().any(|f| f.pattern().is_match(&v.national)))
        }
        "C18" => crate::meta::c18(c, dbs),
        "C19" => crate::meta::c19(c),
        "C22" => {
            let p = match parse(db, region, &c.s) {
                Some(p) => view(&p),
                None => return Ok(false),
            };
            // the national prefix would be taken off again
            let m = db.rf.source(p.code, p.national.trim_start_matches('0'));
            let amb = m.is_some_and(|m| match (&m.np_parse, &m.np) {
                (Some(r), _) => r.find(&p.national).is_some_and(|x| x.start() == 0 && x.end() > 0),
                (None, Some(x)) => p.national.starts_with(x.as_str()),
                _ => false,
            });
            let cs = p.code.to_string();
            let free = (1..cs.len()).all(|l| !db.rf.by_code.contains_key(&cs[..l].parse().unwrap()));
            if amb || !free || cs.len() > 3 || p.code == 0 {
                return Ok(false);
            }
            let real = make(p.code, "default", &p.national, None, None);
            let text = match real {
                Some(r) => show(&r, db.real, Mode::E164).ok_or("cannot be formatted")?,
                None => return Ok(false),
            };
            for r in c.x.iter().map(|r| Some(r.as_str())).chain([None, region]) {
                let b = parse(db, r, &text).map(|p| view(&p));
                let ok = b.as_ref().is_some_and(|b| b.code == p.code && b.national == p.national && b.ext.is_none() && b.carrier.is_none());
                if !ok {
                    return Err(format!("{p:?} is written as {text}, which is read as {b:?} (region {r:?})"));
                }
            }
            Ok(true)
        }
        p => panic!("no property {p}"),
    }
}

// ------------------------------------------------------------------ generation

pub struct Plan {
    pub exhaustive: Vec<Case>,
}

fn opt(s: Option<String>) -> String {
    match s {
        Some(s) => format!("={s}"),
        None => String::new(),
    }
}

fn pick_db(g: &mut Gen, dbs: &[Db]) -> usize {
    match g.rng.below(10) {
        0..=5 => 0,
        6 | 7 => 1,
        _ => 2.min(dbs.len() - 1),
    }
}

/// a number as a case: code, extension and carrier in x
fn number_case(g: &mut Gen, dbs: &[Db], db: usize) -> Case {
    let d = &dbs[db];
    let m = g.meta(d);
    let n = g.national(m);
    let e = if g.rng.p(1, 2) { Some(g.digits(1, 7)) } else { None };
    let c = if g.rng.p(1, 2) { Some(g.digits(1, 3)) } else { None };
    Case { db, region: None, s: n, x: vec![m.code.to_string(), opt(e), opt(c)] }
}

pub fn generate(prop: &str, g: &mut Gen, dbs: &[Db]) -> Case {
    let db = pick_db(g, dbs);
    let d = &dbs[db];
    let text_case = |g: &mut Gen| {
        let (region, s) = g.text(d);
        Case { db, region, s, x: vec![] }
    };
    match prop {
        "C01" | "C03" | "C22" => {
            let mut c = if g.rng.p(1, 4) {
                let m = g.meta(d);
                Case { db, region: g.region(d, m), s: g.soup(14), x: vec![] }
            } else {
                text_case(g)
            };
            if prop == "C01" && g.rng.p(1, 2000) {
                let n = 65530 + g.rng.below(20);
                c.s = format!("{}{}", c.s, g.digits(n, n));
            }
            if prop == "C22" {
                c.x = (0..2).map(|_| g.rng.s(&REGIONS).to_string()).collect();
            }
            c
        }
        "C02" => {
            if g.rng.p(1, 2) {
                text_case(g)
            } else {
                number_case(g, dbs, db)
            }
        }
        "C04" => {
            if g.rng.p(1, 2) {
                let b = g.rng.below(65);
                let v = if b == 64 { g.rng.next() } else { (g.rng.next() & ((1u64 << b) - 1)).wrapping_add(if g.rng.p(1, 2) { 1 << b.min(63) } else { 0 }) };
                let v = match g.rng.below(12) {
                    0 => (1 << 56) - 1,
                    1 => 1 << 56,
                    2 => 0,
                    _ => v,
                };
                return Case { db: 0, region: None, s: String::new(), x: vec![v.to_string(), (g.rng.next() as u8).to_string()] };
            }
            let z = match g.rng.below(8) {
                0 => g.rng.below(300),
                1 => 254 + g.rng.below(4),
                _ => g.rng.below(4),
            };
            let s = "0".repeat(z) + &g.digits(0, 21);
            let s = if g.rng.p(1, 10) { "0".repeat(z) + &((1u64 << 56) - 1 + g.rng.below(3) as u64).to_string() } else { s };
            Case { db: 0, region: None, s, x: vec![] }
        }
        "C05" => {
            let m = g.meta(d);
            let n = g.national(m);
            let v = if g.rng.p(1, 2) { g.vanity(&n) } else { n };
            let lead = match g.rng.below(4) {
                0 => g.prefix(m),
                1 => format!("+{}", m.code),
                2 => String::new(),
                _ => format!("{}{}", g.idd(m), m.code),
            };
            let mut s = format!("{lead}{v}");
            if g.rng.p(2, 3) {
                s = g.punctuate(&s);
            }
            if g.rng.p(2, 3) {
                s = g.script(&s);
            }
            if g.rng.p(1, 6) {
                s.push_str(g.rng.s(&["a", "ab", "abc", "x", "*", "*a*b", "B-C", "z9Z9Z"]));
            }
            Case { db, region: g.region(d, m), s, x: vec![] }
        }
        "C06" => {
            let m = g.meta(d);
            let n = g.national(m);
            let pre = if g.rng.p(1, 5) { g.prefix(m) } else { String::new() };
            let pre = if pre.starts_with('0') && m.code == 0 { String::new() } else { pre };
            let body = format!("{}{pre}{n}", m.code);
            let body = if g.rng.p(1, 8) { g.idd(m).trim_start_matches('0').to_string() + &body } else { body };
            let mut s = body.clone();
            if g.rng.p(1, 3) {
                s = g.punctuate(&s);
            }
            if g.rng.p(1, 6) {
                s = g.script(&s);
            }
            let s = format!("{}{s}", g.rng.s(&["+", "+", "+", "\u{FF0B}", "++", "tel:+"]));
            let mut x: Vec<String> = vec![];
            for _ in 0..5 {
                let id = if g.rng.p(1, 3) { m.id.clone() } else { g.rng.pick(&dbs[0].rf.metas).id.clone() };
                if valid_id(&id) {
                    x.push(id);
                }
            }
            // only if what follows the plus is not a zero
            let first = s.chars().find_map(dig);
            let s = if first == Some('0') { format!("+{}{n}", m.code) } else { s };
            Case { db, region: None, s, x }
        }
        "C07" => loop {
            let m = g.meta(d);
            let region = if g.rng.p(1, 6) { None } else if valid_id(&m.id) { Some(m.id.clone()) } else { None };
            let t = g.meta(d);
            let idd = if region.is_none() { "00".to_string() } else { g.idd(m) };
            let n = g.national(t);
            let mut body = format!("{}{n}", t.code);
            if g.rng.p(1, 3) {
                body = g.digits(2, 14);
            }
            let full = format!("{idd}{body}");
            let re = match &region {
                None => rx("00"),
                Some(_) => match &m.idd {
                    Some(r) => r.clone(),
                    None => continue,
                },
            };
            match re.find(&full) {
                Some(f) if f.start() == 0 && f.end() > 0 && !full[f.end()..].starts_with('0') => {
                    let rest = full[f.end()..].to_string();
                    let sep = if g.rng.p(1, 3) { g.rng.s(&[" ", "-"]) } else { "" };
                    return Case { db, region, s: format!("{}{sep}{}", &full[..f.end()], rest), x: vec![format!("+{rest}")] };
                }
                _ => continue,
            }
        },
        "C08" => {
            let m = g.meta(d);
            let n = g.national(m);
            let p = g.prefix(m);
            let intl = g.rng.p(1, 3);
            let s = if intl { format!("+{}{p}{n}", m.code) } else { format!("{p}{n}") };
            let s = if g.rng.p(1, 6) { g.punctuate(&s) } else { s };
            let region = if intl { g.region(d, m) } else if valid_id(&m.id) { Some(m.id.clone()) } else { g.region(d, m) };
            Case { db, region, s, x: vec![] }
        }
        "C09" | "C10" | "C14" => {
            let mut c = number_case(g, dbs, db);
            if prop != "C14" && g.rng.p(1, 3) {
                // the type of a number of another region with the same code
                let code: u16 = c.x[0].parse().unwrap();
                let ms = d.rf.code(code);
                let m: &RMeta = ms[g.rng.below(ms.len())];
                c.s = g.national(m);
            }
            if g.rng.p(1, 40) {
                c.s = "0".repeat(1 + g.rng.below(20)) + &c.s;
            }
            if prop != "C14" && g.rng.p(1, 30) {
                c.x[0] = g.rng.below(1000).to_string();
            }
            c
        }
        "C15" | "C16" => number_case(g, dbs, db),
        "C17" => {
            let mut c = number_case(g, dbs, db);
            if g.rng.p(1, 2) {
                c.x[1].clear();
            }
            c
        }
        "C12" => {
            let s = if g.rng.p(1, 3) {
                text_case(g).s
            } else if g.rng.p(1, 2) {
                const T: [&str; 22] = [
                    "1", "2", "0", "9", "٣", "９", "-", " ", "x", "*", "(", ")", "a", "Z", "+", "＋", "\u{2013}", "\u{FF0E}", ".", "#", "\u{966}", "\u{1D7CE}",
                ];
                let n = g.rng.below(9);
                (0..n).map(|_| g.rng.s(&T)).collect()
            } else {
                // one arbitrary character somewhere in a viable number
                let b = match g.rng.below(4) {
                    0 => 0x80,
                    1 => 0x3100,
                    2 => 0x10000,
                    _ => 0x10_ffff,
                };
                let ch = loop {
                    if let Some(c) = char::from_u32(g.rng.below(b) as u32) {
                        break c;
                    }
                };
                let n = 2 + g.rng.below(5);
                let mut v: Vec<char> = g.digits(n, n).chars().collect();
                let i = g.rng.below(v.len() + 1);
                v.insert(i, ch);
                v.into_iter().collect()
            };
            Case { db: 0, region: None, s, x: vec![] }
        }
        "C13" => {
            let mut part = |g: &mut Gen| {
                let c = number_case(g, dbs, 0);
                let src = g.rng.s(&["plus", "idd", "number", "default"]);
                vec![c.x[0].clone(), src.to_string(), c.s, c.x[1].clone(), c.x[2].clone()]
            };
            let a = part(g);
            let mut b = a.clone();
            b[1] = part(g)[1].clone();
            if g.rng.p(1, 2) {
                let o = part(g);
                let i = *g.rng.pick(&[0, 2, 3, 4]);
                b[i] = o[i].clone();
            }
            if g.rng.p(1, 8) {
                b[2] = format!("0{}", b[2]);
            }
            Case { db: 0, region: None, s: String::new(), x: a.into_iter().chain(b).collect() }
        }
        "C20" => {
            let m = g.meta(d);
            let n = g.national(m);
            let (lead, region) = match g.rng.below(3) {
                0 => (format!("+{}", m.code), g.region(d, m)),
                1 => (g.prefix(m), Some(m.id.clone()).filter(|i| valid_id(i))),
                _ => (String::new(), Some(m.id.clone()).filter(|i| valid_id(i))),
            };
            let base = format!("{lead}{n}");
            let base = if g.rng.p(1, 4) { g.punctuate(&base) } else { base };
            if g.rng.p(1, 6) {
                // two extensions, or none that is well formed
                let e = match g.rng.below(4) {
                    0 => format!(" x{}/x{}", g.digits(1, 4), g.digits(1, 4)),
                    1 => format!(" ext. {}", g.digits(8, 12)),
                    2 => format!(" x{}\\ x{}", g.digits(1, 4), g.digits(1, 4)),
                    _ => g.rng.s(&[" ext.", " x", "#", ";ext=", " ext abc", ",,", ";ext=a", " -#"]).to_string(),
                };
                return Case { db, region, s: format!("{base}{e}"), x: vec![] };
            }
            let (e, digits) = g.ext();
            Case { db, region, s: format!("{base}{e}"), x: vec![base, digits] }
        }
        "C21" => loop {
            let (region, s) = g.text(d);
            let m = g.meta(d);
            let s = if rfc3966(&s).is_some() && (s.contains("tel:") || s.contains(';')) {
                s
            } else {
                let n = g.national(m);
                let sep = g.rng.s(&["-", "", ".", "-", "("]);
                match g.rng.below(5) {
                    0 => format!("tel:{n};phone-context=+{}", m.code),
                    1 => format!("tel:+{}{sep}{n};ext={}", m.code, g.digits(0, 8)),
                    2 => format!("tel:+{}{sep}{n}", m.code),
                    3 => {
                        let k = 1 + g.rng.below(n.len().max(1));
                        let k = k.min(n.len());
                        format!("tel:+{}{}{sep}{};phone-context=+{}", m.code, &n[..k], &n[k..], g.digits(1, 3))
                    }
                    _ => format!("Tel:{n};isub=1;phone-context=+{};ext={};ext={}", m.code, g.digits(1, 4), g.digits(1, 5)),
                }
            };
            return Case { db, region, s, x: vec![] };
        },
        "C18" => crate::meta::gen18(g, dbs),
        "C19" => crate::meta::gen19(g),
        p => panic!("no property {p}"),
    }
}

/// the cases that are tried on every run
pub fn fixed(prop: &str, dbs: &[Db]) -> Vec<Case> {
    let mut out = vec![];
    let mk = |db: usize, region: Option<&str>, s: &str| Case { db, region: region.map(Into::into), s: s.into(), x: vec![] };
    match prop {
        "C01" | "C03" | "C20" | "C21" | "C05" | "C08" => {
            let odd = [
                "", "+", "++", "0", "00", "000", "+0", "+00", "tel:", "tel:+", "tel:+-", "+1", "+12", "+1;", ";ext=", "1;ext=1", "tel:1;phone-context=", "tel:123;phone-context=+",
                "tel:123;phone-context=abc", "tel:1234567;phone-context=+1", "tel:+-123", "+(", "12", "123", "+１２３", "٣٣٣٣٣٣٣", "1-800-FLOWERS", "1 800 abc", "+1 1", "ＡＢＣ", "x", "#", "12#", "123 #1", "5#5#",
                "+800 1234 5678", "011 800 12345678", "+99999", "+9", "+979123456789", "tel:+65536-1234567", "tel:+99999-1234567", "tel:70000;phone-context=70000",
            ];
            for db in 0..dbs.len() {
                for s in odd {
                    for r in [None, Some("US"), Some("IT"), Some("BR"), Some("AQ"), Some("NL"), Some("FR"), Some("BE"), Some("TA"), Some("AC")] {
                        out.push(mk(db, r, s));
                    }
                }
            }
            if prop == "C01" {
                // everything short
                let t = ["1", "0", "+", "x", "#", ";", "-", "a", "٣", ";ext=", "tel:", "\u{FF0B}"];
                for a in t {
                    for b in t {
                        for c in t {
                            for d in t {
                                out.push(mk(0, None, &format!("{a}{b}{c}{d}")));
                                out.push(mk(1, Some("FR"), &format!("{a}{b}{c}{d}")));
                            }
                        }
                    }
                }
            }
        }
        "C12" => {
            let t = ["1", "٣", "x", "*", "+", "a", "-", "#", " "];
            let mut all = vec![String::new()];
            for _ in 0..5 {
                let mut next = vec![];
                for s in &all {
                    for c in t {
                        next.push(format!("{s}{c}"));
                    }
                }
                out.extend(next.iter().map(|s| mk(0, None, s)));
                all = next;
            }
            // every character, as a digit, between digits and at the start
            for n in 0..0x20000u32 {
                if let Some(c) = char::from_u32(n) {
                    out.push(mk(0, None, &format!("1{c}2")));
                    if n < 0x3100 || (0xff00..0x10000).contains(&n) {
                        out.push(mk(0, None, &format!("12{c}3")));
                        out.push(mk(0, None, &format!("{c}123")));
                        out.push(mk(0, None, &format!("123{c}")));
                        out.push(mk(0, None, &format!("{c}{c}")));
                    }
                }
            }
        }
        "C04" => {
            for n in 0..100000u32 {
                out.push(mk(0, None, &n.to_string()));
                out.push(mk(0, None, &format!("{n:07}")));
            }
            for s in ["+", "+5", "0+5", "00+12", "-5", "1 2", "1_000", " 1", "12a", "٣٣", "1+2", "0x10"] {
                out.push(mk(0, None, s));
            }
            for z in 0..300 {
                out.push(mk(0, None, &"0".repeat(z)));
                out.push(mk(0, None, &("0".repeat(z) + "7")));
            }
        }
        "C09" | "C10" | "C14" | "C15" | "C16" | "C02" => {
            for (i, d) in dbs.iter().enumerate() {
                for m in &d.rf.metas {
                    let mut ks: Vec<_> = m.descs.iter().collect();
                    ks.sort_by_key(|k| k.0);
                    for (_, k) in ks {
                        if let Some(e) = &k.example {
                            for x in [vec![m.code.to_string(), "=12".into(), "=15".into()], vec![m.code.to_string(), String::new(), String::new()]] {
                                out.push(Case { db: i, region: None, s: e.clone(), x: x.clone() });
                                out.push(Case { db: i, region: None, s: format!("{e}5"), x: x.clone() });
                                out.push(Case { db: i, region: None, s: e[..e.len() - 1].into(), x });
                            }
                        }
                    }
                }
            }
        }
        "C17" => {
            for m in &dbs[0].rf.metas {
                out.push(Case { db: 0, region: None, s: m.code.to_string(), x: vec!["formats".into()] });
            }
            for (i, d) in dbs.iter().enumerate() {
                for m in &d.rf.metas {
                    let mut ks: Vec<_> = m.descs.iter().collect();
                    ks.sort_by_key(|k| k.0);
                    for e in ks.into_iter().filter_map(|(_, k)| k.example.as_ref()) {
                        for x in ["=12", ""] {
                            out.push(Case { db: i, region: None, s: e.clone(), x: vec![m.code.to_string(), x.into(), String::new()] });
                        }
                    }
                }
            }
        }
        "C18" => out = crate::meta::fixed18(dbs),
        "C19" => out = crate::meta::fixed19(),
        "C22" => {
            for (i, d) in dbs.iter().enumerate() {
                for m in &d.rf.metas {
                    for k in m.descs.values() {
                        if let Some(e) = &k.example {
                            out.push(Case { db: i, region: None, s: format!("+{}{e}", m.code), x: vec!["US".into(), "IT".into()] });
                        }
                    }
                }
            }
        }
        _ => {}
    }
    out
}
