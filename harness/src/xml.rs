//! An independent reader of the metadata format: the reference side of the
//! executable contracts does not share code with /repo.
use regex::{Regex, RegexBuilder};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct RDesc {
    pub pattern: String,
    pub re: Regex,
    pub lens: Vec<u16>,
    pub local: Vec<u16>,
    pub example: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct RFmt {
    pub pattern: String,
    pub re: Option<Regex>,
    pub format: String,
    pub leading: Vec<Regex>,
    pub np_rule: Option<String>,
    pub np_opt: bool,
    pub carrier: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct RMeta {
    pub id: String,
    pub code: u16,
    pub idd: Option<Regex>,
    pub pref_idd: Option<String>,
    pub np: Option<String>,
    pub ext_prefix: Option<String>,
    pub np_parse: Option<Regex>,
    pub transform: Option<String>,
    pub formats: Vec<RFmt>,
    pub intl: Vec<RFmt>,
    pub main: bool,
    pub leading: Option<Regex>,
    pub mnp: bool,
    pub descs: HashMap<&'static str, RDesc>,
}

pub struct RDb {
    pub metas: Vec<RMeta>,
    pub by_id: HashMap<String, usize>,
    pub by_code: HashMap<u16, Vec<usize>>,
}

pub const KINDS: [&str; 14] = [
    "generalDesc", "fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan", "emergency",
    "voicemail", "noInternationalDialling", "carrier",
];

pub fn rx(p: &str) -> Regex {
    RegexBuilder::new(p).ignore_whitespace(true).build().unwrap()
}

#[derive(Debug)]
enum Tok {
    Open(String, Vec<(String, String)>, bool),
    Close(String),
    Text(String),
}

fn tokens(s: &str) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let r = &s[i..];
        if r.starts_with("<!--") {
            i += r.find("-->").unwrap() + 3;
        } else if r.starts_with("<?") {
            i += r.find("?>").unwrap() + 2;
        } else if r.starts_with("<!DOCTYPE") {
            let e = match (r.find('['), r.find('>')) {
                (Some(a), Some(b)) if a < b => r.find("]>").unwrap() + 2,
                (_, Some(b)) => b + 1,
                _ => panic!(),
            };
            i += e;
        } else if r.starts_with('<') {
            let e = r.find('>').unwrap();
            let body = &r[1..e];
            i += e + 1;
            if let Some(n) = body.strip_prefix('/') {
                out.push(Tok::Close(n.trim().into()));
                continue;
            }
            let (body, empty) = match body.strip_suffix('/') {
                Some(b) => (b, true),
                None => (body, false),
            };
            let n = body.find(char::is_whitespace).unwrap_or(body.len());
            let mut attrs = vec![];
            let mut rest = body[n..].trim_start();
            while !rest.is_empty() {
                let eq = rest.find('=').unwrap();
                let k = rest[..eq].trim().to_string();
                let v = rest[eq + 1..].trim_start();
                let q = v.chars().next().unwrap();
                let v = &v[1..];
                let e = v.find(q).unwrap();
                attrs.push((k, v[..e].to_string()));
                rest = v[e + 1..].trim_start();
            }
            out.push(Tok::Open(body[..n].into(), attrs, empty));
        } else {
            let e = r.find('<').unwrap_or(r.len());
            out.push(Tok::Text(r[..e].into()));
            i += e;
        }
    }
    out
}

pub fn lengths(v: &str) -> Vec<u16> {
    let mut out = vec![];
    for p in v.split(',') {
        let p = p.trim();
        if let Some(p) = p.strip_prefix('[') {
            let p = p.strip_suffix(']').unwrap_or(p);
            let (a, b) = p.split_once('-').unwrap();
            let (a, b): (u16, u16) = (a.parse().unwrap(), b.parse().unwrap());
            out.extend(a..=b);
        } else {
            out.push(p.parse().unwrap());
        }
    }
    out
}

fn skip_to(t: &[Tok], mut i: usize) -> usize {
    // behind the element opened at i
    let mut depth = 0;
    loop {
        match &t[i] {
            Tok::Open(_, _, false) => depth += 1,
            Tok::Close(_) => depth -= 1,
            _ => {}
        }
        i += 1;
        if depth == 0 {
            return i;
        }
    }
}

fn text_of(t: &[Tok], i: usize) -> String {
    let mut s = String::new();
    for x in &t[i + 1..] {
        match x {
            Tok::Text(y) => s.push_str(y),
            _ => break,
        }
    }
    s
}

impl RDb {
    pub fn load(s: &str) -> RDb {
        let t = tokens(s);
        let mut metas = vec![];
        let mut i = 0;
        while i < t.len() {
            if let Tok::Open(n, a, false) = &t[i] {
                if n == "territory" {
                    let e = skip_to(&t, i);
                    metas.push(territory(&t[i + 1..e - 1], a));
                    i = e;
                    continue;
                }
            }
            i += 1;
        }
        RDb::index(metas)
    }

    pub fn index(metas: Vec<RMeta>) -> RDb {
        let mut by_id = HashMap::new();
        let mut by_code: HashMap<u16, Vec<usize>> = HashMap::new();
        for (i, m) in metas.iter().enumerate() {
            by_id.insert(m.id.clone(), i);
            let v = by_code.entry(m.code).or_default();
            if m.main {
                v.insert(0, i);
            } else {
                v.push(i);
            }
        }
        RDb { metas, by_id, by_code }
    }

    pub fn meta(&self, id: &str) -> Option<&RMeta> {
        self.by_id.get(id).map(|&i| &self.metas[i])
    }

    pub fn code(&self, c: u16) -> Vec<&RMeta> {
        self.by_code.get(&c).map(|v| v.iter().map(|&i| &self.metas[i]).collect()).unwrap_or_default()
    }
}

fn territory(t: &[Tok], attrs: &[(String, String)]) -> RMeta {
    let mut m = RMeta::default();
    let mut d = RFmt::default();
    for (k, v) in attrs {
        let v = v.clone();
        match k.as_str() {
            "id" => m.id = v,
            "countryCode" => m.code = v.parse().unwrap(),
            "internationalPrefix" => m.idd = Some(rx(&v)),
            "preferredInternationalPrefix" => m.pref_idd = Some(v),
            "nationalPrefix" => m.np = Some(v),
            "preferredExtnPrefix" => m.ext_prefix = Some(v),
            "nationalPrefixForParsing" => m.np_parse = Some(rx(&v)),
            "nationalPrefixTransformRule" => m.transform = Some(v),
            "mainCountryForCode" => m.main = v == "true",
            "leadingDigits" => m.leading = Some(rx(&v)),
            "mobileNumberPortableRegion" => m.mnp = v == "true",
            "nationalPrefixFormattingRule" => d.np_rule = Some(v),
            "nationalPrefixOptionalWhenFormatting" => d.np_opt = v == "true",
            "carrierCodeFormattingRule" => d.carrier = Some(v),
            k => panic!("{k}"),
        }
    }
    let mut i = 0;
    while i < t.len() {
        if let Tok::Open(n, _, false) = &t[i] {
            let e = skip_to(t, i);
            let inner = &t[i + 1..e - 1];
            if let Some(k) = KINDS.iter().find(|k| *k == n) {
                m.descs.insert(k, descriptor(inner));
            } else if n == "availableFormats" {
                let mut j = 0;
                while j < inner.len() {
                    if let Tok::Open(_, a, false) = &inner[j] {
                        let e = skip_to(inner, j);
                        let (f, g) = fmt(&inner[j + 1..e - 1], a, &d);
                        m.formats.push(f);
                        m.intl.extend(g);
                        j = e;
                    } else {
                        j += 1;
                    }
                }
            }
            i = e;
        } else {
            i += 1;
        }
    }
    // the general lengths: all lengths of the types a number can be dialled as
    let (mut p, mut l) = (vec![], vec![]);
    for (k, d) in &m.descs {
        if *k != "noInternationalDialling" {
            p.extend(d.lens.iter().copied());
            l.extend(d.local.iter().copied());
        }
    }
    p.sort();
    p.dedup();
    l.sort();
    l.dedup();
    l.retain(|x| !p.contains(x));
    let g = m.descs.get_mut("generalDesc").unwrap();
    g.lens = p;
    g.local = l;
    m
}

fn descriptor(t: &[Tok]) -> RDesc {
    let (mut p, mut lens, mut local, mut example) = (None, vec![], vec![], None);
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::Open(n, a, true) if n == "possibleLengths" => {
                for (k, v) in a {
                    match k.as_str() {
                        "national" => lens = lengths(v),
                        "localOnly" => local = lengths(v),
                        _ => panic!(),
                    }
                }
            }
            Tok::Open(n, _, false) if n == "nationalNumberPattern" => p = Some(text_of(t, i)),
            Tok::Open(n, _, false) if n == "exampleNumber" => example = Some(text_of(t, i)),
            _ => {}
        }
    }
    let p = p.unwrap();
    RDesc { re: rx(&format!("^(?:{p}\n)$")), pattern: p, lens, local, example }
}

fn fmt(t: &[Tok], a: &[(String, String)], d: &RFmt) -> (RFmt, Option<RFmt>) {
    let mut f = d.clone();
    for (k, v) in a {
        match k.as_str() {
            "pattern" => {
                f.pattern = v.clone();
                f.re = Some(rx(v));
            }
            "nationalPrefixFormattingRule" => f.np_rule = Some(v.clone()),
            "nationalPrefixOptionalWhenFormatting" => f.np_opt = v == "true",
            "carrierCodeFormattingRule" => f.carrier = Some(v.clone()),
            _ => panic!(),
        }
    }
    let mut intl = None;
    for (i, x) in t.iter().enumerate() {
        if let Tok::Open(n, _, false) = x {
            match n.as_str() {
                "leadingDigits" => f.leading.push(rx(&text_of(t, i))),
                "format" => {
                    f.format = text_of(t, i);
                    intl = Some(f.format.clone());
                }
                "intlFormat" => {
                    let x = text_of(t, i);
                    intl = if x == "NA" { None } else { Some(x) };
                }
                _ => panic!(),
            }
        }
    }
    let g = intl.map(|x| RFmt { format: x, ..f.clone() });
    (f, g)
}
