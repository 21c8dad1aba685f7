//! What the properties demand, written down independently of /repo.
use crate::xml::*;
use regex::{Regex, RegexBuilder};
use std::collections::HashMap;
use std::sync::LazyLock;

pub const SCRIPTS: [u32; 16] = [
    0x30, 0x660, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xa66, 0xae6, 0xb66, 0xbe6, 0xc66, 0xce6, 0xd66, 0xe50, 0xed0, 0xff10,
];

/// the value of a decimal digit of a supported script
pub fn dig(c: char) -> Option<char> {
    let n = c as u32;
    SCRIPTS.iter().find(|&&b| b <= n && n < b + 10).map(|b| char::from_u32('0' as u32 + n - b).unwrap())
}

pub fn keypad(c: char) -> Option<char> {
    Some(match c.to_ascii_uppercase() {
        'A'..='C' => '2',
        'D'..='F' => '3',
        'G'..='I' => '4',
        'J'..='L' => '5',
        'M'..='O' => '6',
        'P'..='S' => '7',
        'T'..='V' => '8',
        'W'..='Z' => '9',
        _ => return None,
    })
}

pub fn punct(c: char) -> bool {
    matches!(
        c,
        '-' | 'x' | '\u{2010}'..='\u{2015}' | '\u{2212}' | '\u{30FC}' | '\u{FF0D}'..='\u{FF0F}' | ' ' | '\u{A0}' | '\u{AD}' | '\u{200B}'
            | '\u{2060}' | '\u{3000}' | '(' | ')' | '\u{FF08}' | '\u{FF09}' | '\u{FF3B}' | '\u{FF3D}' | '.' | '[' | ']' | '/' | '~' | '\u{2053}'
            | '\u{223C}' | '\u{FF5E}'
    )
}

pub fn plus(c: char) -> bool {
    c == '+' || c == '\u{FF0B}'
}

pub fn viable(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    if s.len() < 2 {
        return false;
    }
    if c.len() == 2 && c.iter().all(|&c| dig(c).is_some()) {
        return true;
    }
    let mut i = 0;
    while i < c.len() && plus(c[i]) {
        i += 1;
    }
    for _ in 0..3 {
        while i < c.len() && (punct(c[i]) || c[i] == '*') {
            i += 1;
        }
        if i >= c.len() || dig(c[i]).is_none() {
            return false;
        }
        i += 1;
    }
    c[i..].iter().all(|&c| punct(c) || c == '*' || dig(c).is_some() || c.is_ascii_alphabetic())
}

/// at least three letters: they are keypad digits, otherwise they do not count
pub fn normalize(s: &str, like: &str) -> String {
    // the vanity pattern does not reach over line breaks
    let alpha = like.split('\n').any(|l| l.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3);
    s.chars().filter_map(|c| dig(c).or(if alpha { keypad(c) } else { None })).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Raw {
    pub national: String,
    pub prefix: Option<String>,
    pub ext: Option<String>,
}

static START: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[+\x{FF0B}\p{Nd}]").unwrap());
static END: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[^\p{N}\p{L}#]+$").unwrap());
static SECOND: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[\\/] *x").unwrap());
static EXT: LazyLock<Regex> = LazyLock::new(|| {
    let d = r"(\p{Nd}{1,7})";
    let sp = r"[ \x{A0}\t,]*";
    let word = r"(?:e?xt(?:ensi(?:o\x{301}?|\x{F3}))?n?|\x{FF45}?\x{FF58}\x{FF54}\x{FF4E}?|[,;x\x{FF58}#\x{FF03}~\x{FF5E}]|int|anexo|\x{FF49}\x{FF4E}\x{FF54})";
    RegexBuilder::new(&format!(r"(?:;ext={d}|{sp}{word}[:\.\x{{FF0E}}]?[ \x{{A0}}\t,-]*{d}#?|[- ]+(\p{{Nd}}{{1,5}})#)$")).case_insensitive(true).build().unwrap()
});

pub fn natural(s: &str) -> Option<Raw> {
    let s = &s[START.find(s)?.start()..];
    let s = match END.find(s) {
        Some(m) => &s[..m.start()],
        None => s,
    };
    let s = match SECOND.find(s) {
        Some(m) => &s[..m.start()],
        None => s,
    };
    if s.is_empty() {
        return None;
    }
    match EXT.captures(s) {
        Some(c) => Some(Raw {
            national: s[..c.get(0).unwrap().start()].into(),
            prefix: None,
            ext: (1..c.len()).find_map(|i| c.get(i)).map(|m| m.as_str().into()),
        }),
        None => Some(Raw { national: s.into(), prefix: None, ext: None }),
    }
}

fn sep(c: char) -> bool {
    matches!(c, '-' | '.' | '(' | ')')
}

pub fn rfc3966(s: &str) -> Option<Raw> {
    if s.contains(' ') {
        return None;
    }
    let mut c: &str = s;
    if c.len() >= 4 && c.is_char_boundary(4) && c[..4].eq_ignore_ascii_case("tel:") {
        c = &c[4..];
    }
    let mut prefix = None;
    if let Some(r) = c.strip_prefix('+') {
        let e = r.find(sep).unwrap_or(r.len());
        if e > 0 {
            prefix = Some(r[..e].to_string());
            c = &r[e..];
        }
    }
    let e = c.find(|x: char| !(x.is_ascii_hexdigit() || sep(x))).unwrap_or(c.len());
    let national = c[..e].to_string();
    c = &c[e..];
    if national.is_empty() || !(c.is_empty() || c.starts_with(';')) {
        return None;
    }
    let mut params: HashMap<String, String> = HashMap::new();
    while let Some(r) = c.strip_prefix(';') {
        let k = r.find(|x: char| !(x.is_ascii_alphanumeric() || x == '-')).unwrap_or(r.len());
        if !r[k..].starts_with('=') {
            break;
        }
        let v = &r[k + 1..];
        let e = v.find(|x: char| !(x.is_ascii_alphanumeric() || "[]/:&+$-_.!~*'()".contains(x))).unwrap_or(v.len());
        params.insert(r[..k].into(), v[..e].into());
        c = &v[e..];
    }
    let prefix = prefix.or_else(|| params.get("phone-context").map(|s| s.strip_prefix('+').unwrap_or(s).to_string()));
    Some(Raw { national, prefix, ext: params.get("ext").cloned() })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Parsed {
    pub code: u16,
    pub national: String,
    pub ext: Option<String>,
    pub carrier: Option<String>,
    pub source: &'static str,
}

impl RDesc {
    pub fn is_match(&self, s: &str) -> bool {
        (self.lens.is_empty() || self.lens.iter().any(|&l| l as usize == s.len())) && self.re.is_match(s)
    }
}

impl RMeta {
    pub fn general(&self) -> &RDesc {
        &self.descs["generalDesc"]
    }
}

const IDS: &str = "AC AD AE AF AG AI AL AM AO AR AS AT AU AW AX AZ BA BB BD BE BF BG BH BI BJ BL BM BN BO BQ BR BS BT BW BY BZ CA CC CD CF CG CH CI CK CL CM CN CO CR CU CV CW CX CY CZ DE DJ DK DM DO DZ EC EE EG EH ER ES ET FI FJ FK FM FO FR GA GB GD GE GF GG GH GI GL GM GN GP GQ GR GT GU GW GY HK HN HR HT HU ID IE IL IM IN IO IQ IR IS IT JE JM JO JP KE KG KH KI KM KN KP KR KW KY KZ LA LB LC LI LK LR LS LT LU LV LY MA MC MD ME MF MG MH MK ML MM MN MO MP MQ MR MS MT MU MV MW MX MY MZ NA NC NE NF NG NI NL NO NP NR NU NZ OM PA PE PF PG PH PK PL PM PR PS PT PW PY QA RE RO RS RU RW SA SB SC SD SE SG SH SI SJ SK SL SM SN SO SR SS ST SV SX SY SZ TA TC TD TG TH TJ TK TL TM TN TO TR TT TV TW TZ UA UG US UY UZ VA VC VE VG VI VN VU WF WS XK YE YT ZA ZM ZW";
/// the CLDR identifiers the crate knows
pub fn valid_id(id: &str) -> bool {
    id.len() == 2 && IDS.split(' ').any(|i| i == id)
}

/// shorter than every possible length
fn too_short(m: &RMeta, s: &str) -> bool {
    let g = m.general();
    !g.lens.is_empty() && !g.local.iter().any(|&l| l as usize == s.len()) && s.len() < g.lens[0] as usize
}

fn possible(m: &RMeta, s: &str) -> bool {
    let g = m.general();
    !g.lens.is_empty() && (g.local.iter().any(|&l| l as usize == s.len()) || g.lens.iter().any(|&l| l as usize == s.len()))
}

/// national number and carrier without the national prefix
pub fn strip(m: &RMeta, n: &str) -> (String, Option<String>) {
    let keep = (n.to_string(), None);
    let was = m.general().is_match(n);
    let re = match &m.np_parse {
        Some(re) => re,
        None => {
            return match &m.np {
                Some(p) if n.starts_with(p.as_str()) && (!was || m.general().is_match(&n[p.len()..])) => (n[p.len()..].into(), None),
                _ => keep,
            }
        }
    };
    let c = match re.captures(n) {
        Some(c) if c.get(0).unwrap().start() == 0 => c,
        _ => return keep,
    };
    let last = c.get(c.len() - 1).map(|m| m.as_str().to_string());
    let (rest, carrier) = match (&m.transform, &last) {
        (Some(t), Some(_)) => (re.replace(n, t.as_str()).into_owned(), c.get(1).filter(|_| c.len() > 2)),
        _ => (n[c.get(0).unwrap().end()..].to_string(), c.get(c.len() - 1).filter(|_| c.len() > 1)),
    };
    if was && !m.general().is_match(&rest) {
        return keep;
    }
    (rest, carrier.map(|m| m.as_str().into()))
}

impl RDb {
    /// the metadata a number belongs to
    pub fn source(&self, code: u16, national: &str) -> Option<&RMeta> {
        let rs = self.code(code);
        if rs.is_empty() {
            return None;
        }
        if rs.len() == 1 {
            if rs[0].id == "001" {
                return Some(rs[0]);
            }
            return if valid_id(&rs[0].id) { self.meta(&rs[0].id) } else { None };
        }
        for r in rs {
            let m = self.meta(&r.id)?;
            let hit = match &m.leading {
                Some(l) => l.find(national).is_some_and(|x| x.start() == 0),
                None => kind(m, national) != "Unknown",
            };
            if hit {
                return if valid_id(&m.id) { Some(m) } else { None };
            }
        }
        None
    }

    pub fn parse(&self, region: Option<&str>, s: &str) -> Option<Parsed> {
        let raw = rfc3966(s).or_else(|| natural(s))?;
        if !viable(&format!("{}{}", raw.prefix.as_deref().unwrap_or(""), raw.national)) {
            return None;
        }
        let like = raw.national.clone();
        let rm = region.and_then(|r| self.meta(r));
        let ext = raw.ext.map(|e| normalize(&e, &like)).filter(|e| !e.is_empty());
        let mut source = "Default";
        let mut n;
        if let Some(p) = &raw.prefix {
            let p = normalize(p, &like);
            source = "Plus";
            n = normalize(&raw.national, &like);
            if p.is_empty() {
                return None;
            }
            let known = p.parse::<u16>().ok().filter(|c| self.by_code.contains_key(c));
            match known {
                Some(c) => {
                    if n.len() <= 2 {
                        return None;
                    }
                    return self.finish(region, c, source, n, ext);
                }
                None => n = format!("{p}{n}"),
            }
        } else {
            let k = raw.national.find(|c| !plus(c)).unwrap_or(raw.national.len());
            if k > 0 {
                source = "Plus";
            }
            n = normalize(&raw.national[k..], &like);
            if k == 0 || n.starts_with('0') {
                static D: LazyLock<Regex> = LazyLock::new(|| Regex::new("00").unwrap());
                let idd = match region {
                    None => Some(&*D),
                    Some(_) => rm.and_then(|m| m.idd.as_ref()),
                };
                if let Some(m) = idd.and_then(|r| r.find(&n)) {
                    if m.start() == 0 && !n[m.end()..].starts_with('0') {
                        if source == "Default" {
                            source = "Idd";
                        }
                        n = n[m.end()..].to_string();
                    }
                }
            }
        }
        if source == "Default" {
            let m = rm?;
            let code = m.code.to_string();
            if n.starts_with(&code) && (!m.general().is_match(&n) || !possible(m, &n)) {
                source = "Number";
                n = n[code.len()..].to_string();
            }
            return self.finish(region, m.code, source, n, ext);
        }
        if n.len() <= 2 || n.starts_with('0') {
            return None;
        }
        for l in 1..=3 {
            let c: u16 = n[..l].parse().unwrap();
            if self.by_code.contains_key(&c) {
                return self.finish(region, c, source, n[l..].to_string(), ext);
            }
        }
        None
    }

    fn finish(&self, region: Option<&str>, code: u16, source: &'static str, mut n: String, ext: Option<String>) -> Option<Parsed> {
        let m = match region {
            Some(r) if source == "Default" => self.meta(r),
            _ => self.source(code, n.trim_start_matches('0')),
        };
        let mut carrier = None;
        if let Some(m) = m {
            let (t, c) = strip(m, &n);
            if !too_short(m, &t) {
                n = t;
                carrier = c;
            }
        }
        if n.len() < 2 || n.len() > 17 || !n.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let z = n.chars().take_while(|&c| c == '0').count();
        if z < n.len() && n[z..].parse::<u64>().ok()? >= 1 << 56 {
            return None;
        }
        Some(Parsed { code, national: n, ext, carrier, source })
    }

    pub fn kind_of(&self, code: u16, national: &str) -> &'static str {
        self.source(code, national).map(|m| kind(m, national)).unwrap_or("Unknown")
    }

    pub fn format(&self, code: u16, n: &str, ext: Option<&str>, carrier: Option<&str>, mode: &str, with: Option<&RFmt>) -> Option<String> {
        let m = *self.code(code).first()?;
        let list = if m.intl.is_empty() || mode == "National" { &m.formats } else { &m.intl };
        let f = with.or_else(|| rule(list, n).map(|i| &list[i]));
        let pe = format!("{}{}", m.ext_prefix.as_deref().unwrap_or(" ext. "), ext.unwrap_or(""));
        let pe = if ext.is_some() { pe } else { String::new() };
        Some(match mode {
            "E164" => format!("+{code}{n}"),
            "International" => format!("+{code} {}{pe}", f.map(|f| apply(f, n, None)).unwrap_or(n.into())),
            "National" => {
                let body = match f {
                    None => n.to_string(),
                    Some(f) => {
                        let rule = match (carrier, &f.carrier) {
                            (Some(_), Some(r)) => Some(r),
                            _ => f.np_rule.as_ref(),
                        };
                        let cc = if carrier.is_some() && f.carrier.is_some() { carrier.unwrap() } else { "" };
                        apply(f, n, rule.map(|r| (r.as_str(), m.np.as_deref().unwrap_or(""), cc)))
                    }
                };
                body + &pe
            }
            _ => {
                static SEP: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[-x\x{2010}-\x{2015}\x{2212}\x{30FC}\x{FF0D}-\x{FF0F} \x{A0}\x{AD}\x{200B}\x{2060}\x{3000}()\x{FF08}\x{FF09}\x{FF3B}\x{FF3D}.\[\]/~\x{2053}\x{223C}\x{FF5E}]+").unwrap());
                let b = f.map(|f| apply(f, n, None)).unwrap_or(n.into());
                let b = if f.is_some() { SEP.replace_all(&b, "-").into_owned() } else { b };
                format!("tel:+{code}-{b}{}", ext.map(|e| format!(";ext={e}")).unwrap_or_default())
            }
        })
    }
}

pub fn rule(list: &[RFmt], n: &str) -> Option<usize> {
    list.iter().position(|f| {
        f.leading.last().is_none_or(|l| l.find(n).is_some_and(|m| m.start() == 0))
            && f.re.as_ref().unwrap().find(n).is_some_and(|m| m.start() == 0 && m.end() == n.len())
    })
}

fn apply(f: &RFmt, n: &str, rule: Option<(&str, &str, &str)>) -> String {
    let re = f.re.as_ref().unwrap();
    let t = match rule {
        None => f.format.clone(),
        Some((rule, np, cc)) => {
            static G: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"\$\d").unwrap());
            let first = G.find(&f.format).map(|m| m.as_str()).unwrap_or("");
            let r = rule.replace("$NP", np).replace("$FG", &format!("${first}")).replace("$CC", cc);
            G.replace(&f.format, r.as_str()).into_owned()
        }
    };
    re.replace(n, t.as_str()).into_owned()
}

pub fn kind(m: &RMeta, n: &str) -> &'static str {
    let is = |k: &str| m.descs.get(k).is_some_and(|d| d.is_match(n));
    if !m.general().is_match(n) {
        return "Unknown";
    }
    for (k, t) in [
        ("premiumRate", "PremiumRate"),
        ("tollFree", "TollFree"),
        ("sharedCost", "SharedCost"),
        ("voip", "Voip"),
        ("personalNumber", "PersonalNumber"),
        ("pager", "Pager"),
        ("uan", "Uan"),
        ("voicemail", "Voicemail"),
    ] {
        if is(k) {
            return t;
        }
    }
    let same = m.descs.get("fixedLine").map(|d| &d.pattern) == m.descs.get("mobile").map(|d| &d.pattern);
    match (is("fixedLine"), is("mobile")) {
        (true, b) => {
            if b || same {
                "FixedLineOrMobile"
            } else {
                "FixedLine"
            }
        }
        (false, true) => "Mobile",
        _ => "Unknown",
    }
}
