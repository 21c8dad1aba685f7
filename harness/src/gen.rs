use crate::dbs::Db;
use crate::refimpl::SCRIPTS;
use crate::xml::RMeta;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn p(&mut self, n: usize, of: usize) -> bool {
        self.below(of) < n
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn s(&mut self, s: &[&'static str]) -> &'static str {
        s[self.below(s.len())]
    }
}

pub struct Known {
    pub db: usize,
    pub id: String,
    pub code: u16,
    pub national: String,
}

pub struct Gen {
    pub rng: Rng,
}

const PUNCT: [&str; 20] = [
    " ", "-", " ", "-", ".", "(", ")", "/", "~", "\u{2010}", "\u{2015}", "\u{2212}", "\u{30FC}", "\u{FF0D}", "\u{FF0E}", "\u{A0}", "\u{3000}", "\u{FF08}",
    "[", "x",
];
const IDDS: [&str; 24] = [
    "00", "011", "0011", "001", "007", "010", "000", "0010", "00190", "810", "119", "009", "99900", "0014", "0018", "00414", "00700", "990", "99", "98", "9",
    "0015", "00499", "00365",
];
const JUNK: [&str; 18] = ["a", "Tel: ", "abc", "  ", "(", "*", "#", "é", "\u{301}", "=", ";", "\n", "\t", "😀", "½", "²", "tel:", ","];

pub const REGIONS: [&str; 12] = ["US", "GB", "IT", "FR", "DE", "BR", "RU", "KZ", "NZ", "AR", "MX", "ZW"];

impl Gen {
    pub fn digits(&mut self, lo: usize, hi: usize) -> String {
        let n = lo + self.rng.below(hi - lo + 1);
        (0..n).map(|_| char::from(b'0' + self.rng.below(10) as u8)).collect()
    }

    pub fn meta<'a>(&mut self, db: &'a Db) -> &'a RMeta {
        // spread over the regions, the ones with a shared code more often
        let m = self.rng.pick(&db.rf.metas);
        m
    }

    /// a national number that often is valid, or nearly so
    pub fn national(&mut self, m: &RMeta) -> String {
        let ex: Vec<&String> = {
            let mut v: Vec<_> = m.descs.iter().filter_map(|(k, d)| d.example.as_ref().map(|e| (*k, e))).collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect()
        };
        let mut s = if ex.is_empty() || self.rng.p(1, 12) {
            let ls = &m.general().lens;
            let n = if ls.is_empty() { 2 + self.rng.below(12) } else { *self.rng.pick(ls) as usize };
            self.digits(n, n)
        } else {
            (*self.rng.pick(&ex)).clone()
        };
        // change some of its digits, rarely the length
        if self.rng.p(2, 3) && !s.is_empty() {
            let k = 1 + self.rng.below(3);
            let mut b = s.into_bytes();
            for _ in 0..k {
                let l = b.len();
                let i = if self.rng.p(1, 2) { l - 1 - self.rng.below(l.min(5)) } else { self.rng.below(l) };
                b[i] = b'0' + self.rng.below(10) as u8;
            }
            s = String::from_utf8(b).unwrap();
        }
        if self.rng.p(1, 8) {
            let i = self.rng.below(s.len() + 1);
            if self.rng.p(1, 2) && !s.is_empty() {
                s.remove(i.min(s.len() - 1));
            } else {
                let d = self.digits(1, 3);
                s.insert_str(i, &d);
            }
        }
        if self.rng.p(1, 25) {
            s = "0".repeat(1 + self.rng.below(3)) + &s;
        }
        s
    }

    pub fn idd(&mut self, m: &RMeta) -> String {
        if let Some(re) = &m.idd {
            let c: Vec<&str> = IDDS.iter().copied().filter(|x| re.find(x).is_some_and(|f| f.start() == 0 && f.end() == x.len() && !x.is_empty())).collect();
            if !c.is_empty() && !self.rng.p(1, 12) {
                return self.rng.pick(&c).to_string();
            }
        }
        self.rng.s(&IDDS).to_string()
    }

    pub fn prefix(&mut self, m: &RMeta) -> String {
        match &m.np {
            Some(p) if !self.rng.p(1, 4) => p.clone(),
            _ => {
                if m.np_parse.is_some() && self.rng.p(3, 4) {
                    let head = self.rng.s(&["0", "1", "8", "", "01", "044", "15", "06", "9"]);
                    let tail = self.digits(0, 3);
                    head.to_string() + &tail
                } else {
                    self.rng.s(&["0", "1", "8", "", "00", "06"]).to_string()
                }
            }
        }
    }

    /// the region a number of m is asked about from
    pub fn region(&mut self, db: &Db, m: &RMeta) -> Option<String> {
        if self.rng.p(1, 5) {
            return None;
        }
        let id = if self.rng.p(2, 3) {
            m.id.clone()
        } else if self.rng.p(1, 4) {
            self.rng.s(&REGIONS).to_string()
        } else {
            self.rng.pick(&db.rf.metas).id.clone()
        };
        if crate::refimpl::valid_id(&id) {
            Some(id)
        } else {
            None
        }
    }

    pub fn script(&mut self, s: &str) -> String {
        let b = *self.rng.pick(&SCRIPTS);
        let mix = self.rng.p(1, 3);
        s.chars()
            .map(|c| {
                if c.is_ascii_digit() && (!mix || self.rng.p(1, 2)) {
                    let b = if mix { *self.rng.pick(&SCRIPTS) } else { b };
                    char::from_u32(b + (c as u32 - 48)).unwrap()
                } else {
                    c
                }
            })
            .collect()
    }

    pub fn punctuate(&mut self, s: &str) -> String {
        let k = self.rng.below(5);
        let mut v: Vec<String> = s.chars().map(|c| c.to_string()).collect();
        for _ in 0..k {
            let i = self.rng.below(v.len() + 1);
            let p = self.rng.s(&PUNCT);
            v.insert(i, p.into());
        }
        v.concat()
    }

    pub fn vanity(&mut self, s: &str) -> String {
        let n = s.chars().count();
        let k = 1 + self.rng.below(8);
        let upper = self.rng.below(3);
        s.chars()
            .enumerate()
            .map(|(i, c)| {
                if i + k >= n && c.is_ascii_digit() {
                    let l = ["", "", "ABC", "DEF", "GHI", "JKL", "MNO", "PQRS", "TUV", "WXYZ"][c as usize - 48];
                    if l.is_empty() {
                        return c;
                    }
                    let x = l.as_bytes()[self.rng.below(l.len())] as char;
                    match upper {
                        0 => x,
                        1 => x.to_ascii_lowercase(),
                        _ => {
                            if self.rng.p(1, 2) {
                                x
                            } else {
                                x.to_ascii_lowercase()
                            }
                        }
                    }
                } else {
                    c
                }
            })
            .collect()
    }

    pub fn ext(&mut self) -> (String, String) {
        let d = self.digits(1, 7);
        let forms = [
            ";ext=", " ext. ", " ext ", "ext", " extn ", " x", "x", " X", " #", "#", ", ", ",", " int ", " anexo ", " xtn ", " Extension ", " extensi\u{F3}n ",
            "\u{FF58}", "\u{FF03}", "~", " ext:", ";", " EXT=", " \u{FF45}\u{FF58}\u{FF54}\u{FF4E} ", " \u{FF49}\u{FF4E}\u{FF54}", "xt", "extensio\u{301}n", " x. -", "\t,ext",
        ];
        if self.rng.p(1, 10) {
            let d = self.digits(1, 5);
            return (format!("{}{d}#", self.rng.s(&["-", " ", " - ", "--"])), d);
        }
        let f = *self.rng.pick(&forms);
        let d2 = if self.rng.p(1, 6) { self.script(&d) } else { d.clone() };
        let tail = if self.rng.p(1, 6) { "#" } else { "" };
        (format!("{f}{d2}{tail}"), d)
    }

    /// (region, text) for a number of db, of any supported shape
    pub fn text(&mut self, db: &Db) -> (Option<String>, String) {
        let m = self.meta(db);
        let n = self.national(m);
        let region = self.region(db, m);
        let mut body = n.clone();
        if self.rng.p(1, 10) {
            body = self.vanity(&body);
        }
        let tel = self.rng.p(1, 8);
        let lead = match self.rng.below(10) {
            0 | 1 => format!("+{}", m.code),
            2 => format!("{}{}", self.idd(m), m.code),
            3 => format!("{}", m.code),
            4 | 5 | 6 => self.prefix(m),
            7 => format!("+{}{}", m.code, self.prefix(m)),
            8 => String::new(),
            _ => match self.rng.below(4) {
                0 => format!("\u{FF0B}{}", m.code),
                1 => format!("++{}", m.code),
                2 => format!("+{}{}", self.idd(m), m.code),
                _ => format!("{}+{}", self.idd(m), m.code),
            },
        };
        let mut s = format!("{lead}{body}");
        if tel {
            let sep = self.rng.s(&["-", "", ".", "(", "--"]);
            s = format!("{lead}{sep}{body}");
            if self.rng.p(1, 2) {
                let d = self.rng.s(&["-", ".", "(", ")"]);
                let i = self.rng.below(s.chars().count() + 1);
                let i = s.char_indices().nth(i).map_or(s.len(), |(i, _)| i);
                s.insert_str(i, d);
            }
            if self.rng.p(2, 3) {
                s = format!("{}{s}", self.rng.s(&["tel:", "Tel:", "TEL:"]));
            }
            for _ in 0..self.rng.below(4) {
                let v = match self.rng.below(7) {
                    0 => format!(";phone-context=+{}", m.code),
                    1 => format!(";phone-context={}", m.code),
                    2 => format!(";phone-context=+{}{}", m.code, self.digits(1, 3)),
                    3 => format!(";phone-context={}", self.rng.s(&["example.com", "", "+", "+a", "abc", "+1", "+44", "+999", "+0", "70000"])),
                    4 => format!(";ext={}", self.digits(0, 9)),
                    5 => format!(";isub={}", self.digits(1, 4)),
                    _ => format!(";{}={}", self.rng.s(&["ext", "", "foo", "phone-contex", "Ext"]), self.rng.s(&["12", "a1b2", "", "x-3", "abc"])),
                };
                s.push_str(&v);
            }
        } else {
            if self.rng.p(1, 3) {
                s = self.punctuate(&s);
            }
            if self.rng.p(1, 6) {
                s = self.script(&s);
            }
            if self.rng.p(1, 6) {
                s.push_str(&self.ext().0);
            }
        }
        if self.rng.p(1, 12) {
            // anything goes
            for _ in 0..1 + self.rng.below(3) {
                let mut v: Vec<char> = s.chars().collect();
                let i = self.rng.below(v.len() + 1);
                match self.rng.below(3) {
                    0 if i < v.len() => {
                        v.remove(i);
                    }
                    1 => {
                        let j = self.rng.s(&JUNK);
                        for (k, c) in j.chars().enumerate() {
                            v.insert(i + k, c);
                        }
                    }
                    _ => {
                        v.truncate(i);
                    }
                }
                s = v.into_iter().collect();
            }
        }
        (region, s)
    }

    /// short strings over everything that means something
    pub fn soup(&mut self, max: usize) -> String {
        const T: [&str; 56] = [
            "0", "1", "2", "4", "7", "00", "0", "1", "9", "31", "+", "+", "\u{FF0B}", "-", " ", ".", "(", ")", "x", "#", "*", ";", "=", ",", "~", "/", "\\", "a", "e", "Z", "ext",
            ";ext=", "phone-context", ";phone-context=", ";phone-context=+", "tel:", "Tel:", "\u{660}", "\u{667}", "\u{FF11}", "\u{966}", "\u{e59}", "\u{1D7CE}", "²", "é", "😀", "\u{301}", "\n", "\u{0}",
            "ABC", "12", "001", "800", "\u{2010}", "98", "97",
        ];
        let n = self.rng.below(max + 1);
        (0..n).map(|_| self.rng.s(&T)).collect()
    }
}
