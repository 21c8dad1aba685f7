use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::{HirId, MatchSource};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

pub type R = Result<String, String>;

pub struct Loop {
    pub kind: String,
}

#[derive(Default)]
pub struct FnOut {
    pub params: Vec<(String, String)>,
    pub ret: String,
    pub body: String,
    pub loops: Vec<String>,
    pub calls: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub externals: BTreeSet<String>,
    pub span: String,
    pub error: Option<String>,
}

#[derive(Clone, Copy)]
pub struct Frame<'tcx> {
    pub thir: &'tcx Thir<'tcx>,
    pub owner: LocalDefId,
    pub args: Option<GenericArgsRef<'tcx>>,
    pub inst: usize,
}

pub struct Tr<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub contracted: BTreeSet<String>,
    pub opaque: BTreeSet<String>,
    pub types: BTreeMap<String, String>,
    pub ext_types: BTreeSet<String>,
    pub statics: BTreeMap<String, (String, DefId)>,
    pub fr: Frame<'tcx>,
    pub names: HashMap<(usize, HirId), String>,
    pub used: HashMap<String, usize>,
    pub closures: HashMap<(usize, HirId), (ExprId, Frame<'tcx>)>,
    /// closures that are functions of their own: bound to a name that has a contract
    pub lifted: HashMap<(usize, HirId), String>,
    pub lifted_fns: Vec<(String, FnOut)>,
    pub over: HashMap<(usize, ExprId), String>,
    pub out: FnOut,
    pub fresh: usize,
    pub insts: usize,
    pub stack: Vec<DefId>,
    /// inside an inlined body: `return` must have been eliminated
    pub inlining: usize,
    /// ghost mirrors of fn predicates: names of functions whose spec twin is used
    pub self_param: Option<String>,
    /// what the pattern under translation also requires (comparisons with texts)
    pub conds: Vec<String>,
}

pub fn mangle(p: &str) -> String {
    let mut s = String::new();
    let p = p.replace("::", "__");
    for c in p.chars() {
        if c.is_ascii_alphanumeric() || c == '_' {
            s.push(c)
        } else if c == ' ' || c == '<' || c == '>' || c == '\'' || c == '&' || c == ',' {
        } else {
            s.push('_')
        }
    }
    s
}

/// def_path_str without generic arguments (`::<...>`) and lifetimes.
pub fn norm_path(p: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let rest: String = b[i + 3..].iter().take(5).collect();
            if rest.starts_with("impl ") {
                out.push_str("::");
                i += 2;
                continue;
            }
            // skip the balanced generic list
            let mut d = 0;
            i += 2;
            while i < b.len() {
                if b[i] == '<' {
                    d += 1
                }
                if b[i] == '>' {
                    d -= 1;
                    if d == 0 {
                        i += 1;
                        break;
                    }
                }
                i += 1;
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

pub fn strip_lt(p: &str) -> String {
    // drop <'a, 'b> lists and 'a tokens in paths of inherent impls of generic types
    let mut s = p.to_string();
    while let Some(i) = s.find("<'") {
        let Some(j) = s[i..].find('>') else { break };
        s.replace_range(i..i + j + 1, "");
    }
    s
}

impl<'tcx> Tr<'tcx> {
    pub fn path(&self, d: DefId) -> String {
        strip_lt(&norm_path(&rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }

    pub fn fresh(&mut self) -> String {
        self.fresh += 1;
        format!("t{}_", self.fresh)
    }

    pub fn e(&self, id: ExprId) -> &'tcx Expr<'tcx> {
        &self.fr.thir.exprs[id]
    }

    pub fn mono(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = match self.fr.args {
            Some(a) => ty::EarlyBinder::bind(self.tcx, t).instantiate(self.tcx, a).skip_norm_wip(),
            None => t,
        };
        self.tcx.erase_and_anonymize_regions(t)
    }

    pub fn ety(&self, id: ExprId) -> Ty<'tcx> {
        self.mono(self.e(id).ty)
    }

    pub fn ets(&mut self, id: ExprId) -> R {
        let t = self.ety(id);
        self.ty(t)
    }

    /// peel scopes and trivial wrappers
    pub fn peel(&self, mut id: ExprId) -> ExprId {
        loop {
            match self.e(id).kind {
                ExprKind::Scope { value, .. } => id = value,
                ExprKind::ValueExpr { source }
                | ExprKind::PlaceTypeAscription { source, .. }
                | ExprKind::ValueTypeAscription { source, .. } => id = source,
                _ => return id,
            }
        }
    }

    pub fn peel_refs(&self, id: ExprId) -> ExprId {
        let mut id = self.peel(id);
        loop {
            match self.e(id).kind {
                ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } => id = self.peel(arg),
                ExprKind::PointerCoercion { source, .. } => id = self.peel(source),
                _ => return id,
            }
        }
    }

    // ---------------------------------------------------------------- types

    fn param_subst(&self, p: ty::ParamTy) -> Option<String> {
        // `S: AsRef<str>`, `String: Borrow<Q>`, `u16: Borrow<Q>`, `T: AsChar`, `T: Into<String>`
        let mut owner = self.fr.owner.to_def_id();
        let tcx = self.tcx;
        loop {
            let preds = tcx.clauses_of(owner);
            let mut cur = Some(preds);
            while let Some(pr) = cur {
                for (c, _) in pr.clauses {
                    if let ty::ClauseKind::Trait(t) = c.kind().skip_binder() {
                        let tp = self.path(t.trait_ref.def_id);
                        let st = t.trait_ref.self_ty();
                        let is_self = matches!(st.kind(), ty::Param(q) if q.index == p.index);
                        if is_self && tp.ends_with("AsRef") | tp.ends_with("Into") {
                            let a = t.trait_ref.args.type_at(1);
                            if a.is_str() || format!("{a}").ends_with("String") {
                                return Some("Str".into());
                            }
                        }
                        if is_self && tp.ends_with("AsChar") {
                            return Some("char".into());
                        }
                        if is_self && tp.ends_with("BufRead") {
                            return Some("XmlSource".into());
                        }
                        if is_self && tp.ends_with("AsRef") && format!("{}", t.trait_ref.args.type_at(1)).ends_with("Path") {
                            return Some("PathV".into());
                        }
                        if is_self && tp.ends_with("Hasher") {
                            return Some("HasherV".into());
                        }
                        if tp.ends_with("borrow::Borrow") {
                            let a = t.trait_ref.args.type_at(1);
                            if matches!(a.kind(), ty::Param(q) if q.index == p.index) {
                                let s = format!("{st}");
                                if s.ends_with("String") {
                                    return Some("Str".into());
                                }
                                return Some(s);
                            }
                        }
                    }
                }
                cur = pr.parent.map(|d| tcx.clauses_of(d));
            }
            match tcx.opt_parent(owner) {
                Some(p) if tcx.def_kind(owner) == DefKind::Closure => owner = p,
                _ => return None,
            }
        }
    }

    pub fn ty(&mut self, t: Ty<'tcx>) -> R {
        let t = self.mono_again(t);
        Ok(match t.kind() {
            ty::Bool => "bool".into(),
            ty::Char => "char".into(),
            ty::Int(i) => i.name_str().into(),
            ty::Uint(i) => i.name_str().into(),
            ty::Str => "Str".into(),
            ty::Never => "!".into(),
            ty::Ref(_, inner, m) => {
                let s = self.ty(*inner)?;
                if m.is_mut() {
                    format!("&mut {s}")
                } else {
                    s
                }
            }
            ty::RawPtr(inner, _) => self.ty(*inner)?,
            ty::Slice(x) => format!("SeqV<{}>", self.ty(*x)?),
            ty::Array(x, _) => format!("SeqV<{}>", self.ty(*x)?),
            ty::Tuple(ts) => {
                let mut v = vec![];
                for x in ts.iter() {
                    v.push(self.ty(x)?);
                }
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            ty::Param(p) => match self.param_subst(*p) {
                Some(s) => s,
                None => return Err(format!("type parameter {p}")),
            },
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = |i: usize| args.types().nth(i).unwrap();
                match p.as_str() {
                    "std::string::String" => "Str".into(),
                    "std::borrow::Cow" | "std::sync::Arc" | "std::rc::Rc" | "std::boxed::Box"
                    | "once_cell::sync::Lazy" | "std::sync::LazyLock" | "once_cell::unsync::Lazy" => {
                        self.ty(a(0))?
                    }
                    "std::vec::Vec" => format!("SeqV<{}>", self.ty(a(0))?),
                    "std::option::Option" => format!("Option<{}>", self.ty(a(0))?),
                    "std::result::Result" => {
                        format!("Result<{}, {}>", self.ty(a(0))?, self.ty(a(1))?)
                    }
                    "either::Either" => format!("Either<{}, {}>", self.ty(a(0))?, self.ty(a(1))?),
                    "std::collections::HashMap" => {
                        format!("MapV<{}, {}>", self.ty(a(0))?, self.ty(a(1))?)
                    }
                    "std::fmt::Formatter" => "Fmt".into(),
                    "std::fmt::Error" => "FmtError".into(),
                    "std::num::ParseIntError" => "ParseIntError".into(),
                    "std::num::TryFromIntError" => "TryFromIntError".into(),
                    "regex::Regex" => "Regex".into(),
                    "regex::Match" => "Match".into(),
                    "regex::Captures" => "Captures".into(),
                    "nom::Err" => "NomErr".into(),
                    "nom::error::Error" => "NomE".into(),
                    "std::slice::Iter" | "std::vec::IntoIter" | "std::array::IntoIter" => format!("It<{}>", self.ty(a(0))?),
                    "std::str::Chars" => "It<char>".into(),
                    "std::str::CharIndices" => "CharIndices".into(),
                    "regex::SubCaptureMatches" => "It<Option<Match>>".into(),
                    "std::iter::Skip" | "std::iter::ByRefSized" | "std::iter::Copied" | "std::iter::Cloned" => self.ty(a(0))?,
                    "std::str::Split" => "It<Str>".into(),
                    "std::collections::hash_map::Keys" => format!("It<{}>", self.ty(a(0))?),
                    "std::collections::hash_map::Values" => format!("It<{}>", self.ty(a(1))?),
                    "std::collections::hash_map::Iter" => format!("It<({}, {})>", self.ty(a(0))?, self.ty(a(1))?),
                    "std::iter::Flatten" => {
                        let s = self.ty(a(0))?;
                        match s.strip_prefix("It<Option<").and_then(|x| x.strip_suffix(">>")) {
                            Some(x) => format!("It<{x}>"),
                            None => return Err(format!("external type {t}")),
                        }
                    }
                    "quick_xml::Reader" => "XmlReader".into(),
                    "std::path::Path" | "std::path::PathBuf" => "PathV".into(),
                    "std::io::Cursor" | "std::io::BufReader" => "XmlSource".into(),
                    "quick_xml::events::Event" => "XmlEvent".into(),
                    "quick_xml::events::BytesStart" | "quick_xml::events::BytesEnd" => "XmlTag".into(),
                    "quick_xml::events::BytesText" => "XmlText".into(),
                    "quick_xml::events::BytesCData" | "quick_xml::events::BytesDecl"
                    | "quick_xml::events::BytesPI" | "quick_xml::events::BytesRef" => "XmlOther".into(),
                    "quick_xml::name::QName" => "SeqV<u8>".into(),
                    "quick_xml::events::attributes::Attributes" => {
                        self.ext_types.insert("ext__quick_xml__events__attributes__AttrError".into());
                        "It<Result<XmlAttr, ext__quick_xml__events__attributes__AttrError>>".into()
                    }
                    "quick_xml::events::attributes::Attribute" => "XmlAttr".into(),
                    "std::ops::Range" if matches!(a(0).kind(), ty::Int(_) | ty::Uint(_)) => {
                        format!("RangeV<{}>", self.ty(a(0))?)
                    }
                    "std::ops::RangeInclusive" if matches!(a(0).kind(), ty::Int(_) | ty::Uint(_)) => {
                        format!("RangeInc<{}>", self.ty(a(0))?)
                    }
                    _ if def.did().is_local() => {
                        self.local_adt(*def)?
                    }
                    _ => {
                        if args.types().next().is_some() {
                            return Err(format!("external type {t}"));
                        }
                        let m = format!("ext__{}", mangle(&p));
                        self.ext_types.insert(m.clone());
                        m
                    }
                }
            }
            _ => return Err(format!("type {t}")),
        })
    }

    fn mono_again(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        if let (Some(a), true) = (self.fr.args, t.has_param()) {
            ty::EarlyBinder::bind(self.tcx, t).instantiate(self.tcx, a).skip_norm_wip()
        } else {
            t
        }
    }

    fn local_adt(&mut self, def: ty::AdtDef<'tcx>) -> R {
        let p = self.path(def.did());
        let m = mangle(&p);
        if self.types.contains_key(&m) {
            return Ok(m);
        }
        self.types.insert(m.clone(), String::new());
        let opaque = format!(
            "#[verifier::external_body]\n#[derive(Clone, Copy)]\npub struct {m} {{ _p: usize }}\n"
        );
        if self.opaque.contains(&p) {
            self.types.insert(m.clone(), opaque);
            return Ok(m);
        }
        let save = self.fr.args;
        self.fr.args = None;
        let mut s = String::new();
        let res: Result<(), String> = (|| {
            s.push_str("#[derive(Clone, Copy)]\n");
            if def.is_struct() {
                let v = def.non_enum_variant();
                if v.ctor.is_some() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(format!("pub {}", self.ty(t)?));
                    }
                    let _ = write!(s, "pub struct {m}({});\n", fs.join(", "));
                } else {
                    let _ = write!(s, "pub struct {m} {{\n");
                    for f in v.fields.iter() {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ts = self.ty(t)?;
                        let _ = write!(s, "    pub {}: {},\n", f.name, ts);
                    }
                    s.push_str("}\n");
                }
            } else if def.is_enum() {
                let _ = write!(s, "pub enum {m} {{\n");
                for v in def.variants().iter() {
                    match v.ctor_kind() {
                        Some(rustc_hir::def::CtorKind::Const) => {
                            let _ = write!(s, "    {},\n", v.name);
                        }
                        Some(rustc_hir::def::CtorKind::Fn) => {
                            let mut fs = vec![];
                            for f in v.fields.iter() {
                                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                fs.push(self.ty(t)?);
                            }
                            let _ = write!(s, "    {}({}),\n", v.name, fs.join(", "));
                        }
                        None => {
                            let _ = write!(s, "    {} {{\n", v.name);
                            for f in v.fields.iter() {
                                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let ts = self.ty(t)?;
                                let _ = write!(s, "        {}: {},\n", f.name, ts);
                            }
                            s.push_str("    },\n");
                        }
                    }
                }
                s.push_str("}\n");
            } else {
                return Err("union".into());
            }
            Ok(())
        })();
        self.fr.args = save;
        match res {
            Ok(()) => self.types.insert(m.clone(), s),
            Err(_) => self.types.insert(m.clone(), opaque),
        };
        Ok(m)
    }

    // ------------------------------------------------------------ variables

    pub fn bind(&mut self, id: HirId, name: &str) -> String {
        let key = (self.fr.inst, id);
        if let Some(n) = self.names.get(&key) {
            return n.clone();
        }
        let base = if name == "self" { "self_" } else { name };
        let c = self.used.entry(base.to_string()).or_insert(0);
        let n = if *c == 0 { base.to_string() } else { format!("{base}_{c}") };
        *c += 1;
        self.names.insert(key, n.clone());
        n
    }

    pub fn var(&self, id: HirId) -> R {
        self.names
            .get(&(self.fr.inst, id))
            .cloned()
            .ok_or_else(|| format!("unbound variable {}", self.tcx.hir_name(id)))
    }

    // ------------------------------------------------------------- patterns

    pub fn pat(&mut self, p: &Pat<'tcx>) -> R {
        Ok(match &p.kind {
            PatKind::Wild => "_".into(),
            PatKind::Missing => "_".into(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let n = self.bind(var.0, name.as_str());
                let by_mut_ref = matches!(mode.0, rustc_hir::ByRef::Yes(_, m) if m.is_mut());
                let m = if by_mut_ref {
                    "ref mut "
                } else if mode.1.is_mut() {
                    "mut "
                } else {
                    ""
                };
                match subpattern {
                    None => format!("{m}{n}"),
                    Some(s) => {
                        // `name @ "text"`
                        if let Some(c) = self.text_pat(s, &n)? {
                            self.conds.push(c);
                            return Ok(format!("{m}{n}"));
                        }
                        format!("{m}{n} @ {}", self.pat(s)?)
                    }
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                let path = self.variant_path(*adt_def, v)?;
                self.ctor_pat(&path, v, subpatterns)?
            }
            PatKind::Leaf { subpatterns } => {
                let t = self.mono(p.ty);
                match t.kind() {
                    ty::Tuple(ts) => {
                        let mut v = vec!["_".to_string(); ts.len()];
                        for f in subpatterns {
                            v[f.field.index()] = self.pat(&f.pattern)?;
                        }
                        if v.len() == 1 {
                            format!("({},)", v[0])
                        } else {
                            format!("({})", v.join(", "))
                        }
                    }
                    ty::Adt(def, _) => {
                        let path = self.ty(t)?;
                        let v = def.non_enum_variant();
                        self.ctor_pat(&path, v, subpatterns)?
                    }
                    _ => return Err("leaf pattern".into()),
                }
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                self.pat(subpattern)?
            }
            PatKind::Constant { value } => {
                let t = self.mono(p.ty);
                match t.kind() {
                    ty::Char => {
                        let c = value.try_to_leaf().map(|s| s.to_u32()).ok_or("char pattern")?;
                        char_lit(char::from_u32(c).unwrap())
                    }
                    ty::Bool => {
                        let c = value.try_to_leaf().ok_or("bool pattern")?;
                        if c.to_u8() != 0 { "true".into() } else { "false".into() }
                    }
                    ty::Uint(_) => {
                        let c = value.try_to_leaf().ok_or("int pattern")?;
                        format!("{}{}", c.to_bits_unchecked(), t)
                    }
                    _ => self.text_binder(p)?,
                }
            }
            PatKind::Range(r) => {
                let t = self.mono(p.ty);
                let g = |b: &PatRangeBoundary<'tcx>| -> Result<u128, String> {
                    match b {
                        PatRangeBoundary::Finite(v) => Ok(v.to_leaf().to_bits_unchecked()),
                        _ => Err("open range pattern".into()),
                    }
                };
                let (lo, hi) = (g(&r.lo)?, g(&r.hi)?);
                let f = |x: u128| -> String {
                    if t.is_char() {
                        char_lit(char::from_u32(x as u32).unwrap())
                    } else {
                        format!("{x}")
                    }
                };
                let op = if r.end == rustc_hir::RangeEnd::Included { "..=" } else { ".." };
                format!("{}{}{}", f(lo), op, f(hi))
            }
            PatKind::Or { pats } => {
                let mut v = vec![];
                let mut cs = vec![];
                let at = self.fresh;
                let save = std::mem::take(&mut self.conds);
                for q in pats.iter() {
                    self.fresh = at;
                    v.push(self.pat(q)?);
                    cs.push(std::mem::take(&mut self.conds));
                }
                self.conds = save;
                if cs.iter().any(|c| !c.is_empty()) {
                    // the alternatives differ in the texts only
                    if v.iter().any(|x| *x != v[0]) {
                        return Err("alternatives of a pattern".into());
                    }
                    let d: Vec<String> = cs.iter().map(|c| if c.is_empty() { "true".into() } else { format!("({})", c.join(" && ")) }).collect();
                    self.conds.push(format!("({})", d.join(" || ")));
                    v.truncate(1);
                }
                v.join(" | ")
            }
            PatKind::Slice { .. } | PatKind::Array { .. } => self.text_binder(p)?,
            k => return Err(format!("pattern {}", format!("{k:?}").chars().take(60).collect::<String>())),
        })
    }

    fn text_binder(&mut self, p: &Pat<'tcx>) -> R {
        let n = self.fresh();
        match self.text_pat(p, &n)? {
            Some(c) => {
                self.conds.push(c);
                Ok(n)
            }
            None => Err(format!("pattern of type {}", p.ty)),
        }
    }

    /// `n == p` if the pattern is a constant text or byte string
    fn text_pat(&mut self, p: &Pat<'tcx>, n: &str) -> Result<Option<String>, String> {
        let mut q = p;
        while let PatKind::Deref { subpattern, .. } = &q.kind {
            q = subpattern;
        }
        let mut t = self.mono(q.ty);
        while let ty::Ref(_, x, _) = t.kind() {
            t = *x;
        }
        let u8_ = self.tcx.types.u8;
        let raw = match &q.kind {
            PatKind::Constant { value } => match value.try_to_raw_bytes(self.tcx) {
                Some(b) => b.to_vec(),
                None => {
                    let Some(l) = value.valtree.try_to_branch() else { return Ok(None) };
                    let mut o = vec![];
                    for c in l.iter() {
                        match c.to_value().valtree.try_to_leaf() {
                            Some(b) if b.size().bytes() == 1 => o.push(b.to_u8()),
                            _ => return Ok(None),
                        }
                    }
                    o
                }
            },
            PatKind::Slice { prefix, slice: None, suffix } | PatKind::Array { prefix, slice: None, suffix } => {
                let mut o = vec![];
                for x in prefix.iter().chain(suffix.iter()) {
                    match &x.kind {
                        PatKind::Constant { value } if x.ty == u8_ => {
                            o.push(value.try_to_leaf().ok_or("byte pattern")?.to_u8())
                        }
                        _ => return Ok(None),
                    }
                }
                o
            }
            _ => return Ok(None),
        };
        match t.kind() {
            ty::Str => {
                let b = String::from_utf8(raw).map_err(|_| "string pattern")?;
                Ok(Some(format!("str_eq({n}, {})", self.str_lit(&b))))
            }
            ty::Slice(x) | ty::Array(x, _) if *x == u8_ => Ok(Some(format!("seq_eq({n}, {})", self.byte_lit(&raw)?))),
            _ => Ok(None),
        }
    }

    fn byte_lit(&mut self, b: &[u8]) -> R {
        let s = std::str::from_utf8(b).map_err(|_| "byte string".to_string())?;
        Ok(format!("str_as_bytes({})", self.str_lit(s)))
    }

    fn pat_if(&mut self, p: &Pat<'tcx>) -> R {
        let save = std::mem::take(&mut self.conds);
        let p = self.pat(p)?;
        let c = std::mem::replace(&mut self.conds, save);
        Ok(if c.is_empty() { p } else { format!("{p} if {}", c.join(" && ")) })
    }

    /// `pattern [if guard]`
    fn arm_head(&mut self, arm: &Arm<'tcx>) -> R {
        let save = std::mem::take(&mut self.conds);
        let p = self.pat(&arm.pattern)?;
        let mut c = std::mem::replace(&mut self.conds, save);
        if let Some(g) = arm.guard {
            if self.has_let(g) {
                return Err("let in guard".into());
            }
            c.push(self.ex(g)?);
        }
        Ok(if c.is_empty() { p } else { format!("{p} if {}", c.join(" && ")) })
    }

    fn ctor_pat(&mut self, path: &str, v: &ty::VariantDef, subs: &[FieldPat<'tcx>]) -> R {
        Ok(match v.ctor_kind() {
            Some(rustc_hir::def::CtorKind::Const) => path.to_string(),
            Some(rustc_hir::def::CtorKind::Fn) => {
                let mut a = vec!["_".to_string(); v.fields.len()];
                for f in subs {
                    a[f.field.index()] = self.pat(&f.pattern)?;
                }
                format!("{path}({})", a.join(", "))
            }
            None => {
                let mut a = vec![];
                for f in subs {
                    let n = v.fields[f.field].name.to_string();
                    a.push(format!("{n}: {}", self.pat(&f.pattern)?));
                }
                a.push("..".into());
                format!("{path} {{ {} }}", a.join(", "))
            }
        })
    }

    pub fn variant_path(&mut self, def: ty::AdtDef<'tcx>, v: &ty::VariantDef) -> R {
        let p = self.path(def.did());
        let n = v.name.to_string();
        Ok(match p.as_str() {
            "std::option::Option" | "std::result::Result" => n,
            "either::Either" => format!("Either::{n}"),
            "nom::Err" => format!("NomErr::{n}"),
            "quick_xml::events::Event" => format!("XmlEvent::{n}"),
            _ if def.did().is_local() => {
                let m = self.local_adt(def)?;
                if self.opaque.contains(&p) {
                    return Err(format!("variant of opaque type {p}"));
                }
                format!("{m}::{n}")
            }
            _ => return Err(format!("variant of external type {p}")),
        })
    }

    // ---------------------------------------------------------- expressions

    /// Translate `id` in value position.
    pub fn ex(&mut self, id: ExprId) -> R {
        if let Some(s) = self.over.get(&(self.fr.thir as *const _ as usize, id)) {
            return Ok(s.clone());
        }
        let e = self.e(id);
        Ok(match &e.kind {
            ExprKind::Scope { value, .. } => self.ex(*value)?,
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => self.ex(*source)?,
            ExprKind::NeverToAny { source } => self.ex(*source)?,
            ExprKind::If { cond, then, else_opt, .. } => {
                self.prebind(*cond)?;
                let t = self.ex_block(*then)?;
                let f = match else_opt {
                    Some(x) => self.ex_block(*x)?,
                    None => "{ }".into(),
                };
                self.cond(*cond, t, f)?
            }
            ExprKind::Call { fun, args, .. } => self.call(id, *fun, args)?,
            ExprKind::Deref { arg } => {
                let t = self.ety(*arg);
                let s = self.ex(*arg)?;
                match t.kind() {
                    ty::Ref(_, _, m) if m.is_mut() && !s.starts_with("rb_") => format!("(*{s})"),
                    _ => s,
                }
            }
            ExprKind::Binary { op, lhs, rhs } => {
                let (a, b) = (self.ex(*lhs)?, self.ex(*rhs)?);
                let t = self.ety(*lhs);
                if !(t.is_integral() || t.is_char() || t.is_bool()) {
                    return Err(format!("binary operator on {t}"));
                }
                use rustc_middle::mir::BinOp::*;
                let o = match op {
                    Add => "+", Sub => "-", Mul => "*", Div => "/", Rem => "%",
                    BitXor => "^", BitAnd => "&", BitOr => "|", Shl => "<<", Shr => ">>",
                    Eq => "==", Lt => "<", Le => "<=", Ne => "!=", Ge => ">=", Gt => ">",
                    _ => return Err(format!("operator {op:?}")),
                };
                format!("({a} {o} {b})")
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                if self.has_let(*lhs) || self.has_let(*rhs) {
                    self.cond(id, "{ true }".into(), "{ false }".into())?
                } else {
                    let (a, b) = (self.ex(*lhs)?, self.ex(*rhs)?);
                    let o = match op {
                        LogicalOp::And => "&&",
                        LogicalOp::Or => "||",
                    };
                    format!("({a} {o} {b})")
                }
            }
            ExprKind::Let { .. } => self.cond(id, "{ true }".into(), "{ false }".into())?,
            ExprKind::Unary { op, arg } => {
                let a = self.ex(*arg)?;
                match op {
                    rustc_middle::mir::UnOp::Not => format!("(!{a})"),
                    rustc_middle::mir::UnOp::Neg => format!("(-{a})"),
                    _ => return Err("unary".into()),
                }
            }
            ExprKind::Cast { source } => {
                let t = self.ety(id);
                let s = self.ety(*source);
                let a = self.ex(*source)?;
                if t.is_integral() && (s.is_integral() || s.is_char() || s.is_bool()) {
                    format!("({a} as {t})")
                } else {
                    return Err(format!("cast {s} as {t}"));
                }
            }
            ExprKind::PointerCoercion { source, .. } => {
                let t = self.ety(id);
                if t.is_fn_ptr() {
                    return Err("function pointer".into());
                }
                self.ex(*source)?
            }
            ExprKind::Loop { body } => {
                let n = self.loop_mark("loop");
                format!("{n} {}", self.ex_block(*body)?)
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                self.match_(id, *scrutinee, arms, *match_source)?
            }
            ExprKind::Block { block } => {
                if let Some(s) = self.fmt_block(*block)? {
                    return Ok(s);
                }
                self.block(*block)?
            }
            ExprKind::Assign { lhs, rhs } => {
                let r = self.ex(*rhs)?;
                let l = self.place(*lhs)?;
                format!("{{ {l} = {r}; }}")
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let r = self.ex(*rhs)?;
                let l = self.place(*lhs)?;
                use rustc_middle::mir::AssignOp::*;
                let o = match op {
                    AddAssign => "+", SubAssign => "-", MulAssign => "*", DivAssign => "/",
                    RemAssign => "%", BitXorAssign => "^", BitAndAssign => "&",
                    BitOrAssign => "|", ShlAssign => "<<", ShrAssign => ">>",
                };
                format!("{{ {l} = {l} {o} {r}; }}")
            }
            ExprKind::Field { lhs, name, variant_index } => {
                let l = self.ex(*lhs)?;
                let f = self.field_name(*lhs, *variant_index, *name)?;
                format!("{l}.{f}")
            }
            ExprKind::Index { lhs, index } => {
                let (a, b) = (self.ex(*lhs)?, self.ex(*index)?);
                format!("seq_index({a}, {b})")
            }
            ExprKind::VarRef { id } => self.var(id.0)?,
            ExprKind::UpvarRef { var_hir_id, .. } => self.var(var_hir_id.0)?,
            ExprKind::Borrow { borrow_kind, arg } => {
                let is_mut = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                if is_mut {
                    // reborrow of a mutable reference: pass it on
                    let p = self.peel(*arg);
                    if let ExprKind::Deref { arg: inner } = self.e(p).kind {
                        let t = self.ety(inner);
                        if matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()) {
                            return self.ex(inner);
                        }
                    }
                    // a borrow of a temporary is a fresh variable
                    match self.e(p).kind {
                        ExprKind::VarRef { .. } | ExprKind::UpvarRef { .. } | ExprKind::Field { .. } => {
                            format!("&mut {}", self.place(*arg)?)
                        }
                        _ => format!("&mut {}", self.ex(*arg)?),
                    }
                } else {
                    self.ex(*arg)?
                }
            }
            ExprKind::Break { value, .. } => {
                if value.is_some() {
                    return Err("break with value".into());
                }
                "break".into()
            }
            ExprKind::Continue { .. } => "continue".into(),
            ExprKind::Return { value } => {
                if self.inlining > 0 {
                    return Err("return in inlined body".into());
                }
                match value {
                    Some(v) => format!("return {}", self.ex(*v)?),
                    None => "return ()".into(),
                }
            }
            ExprKind::Tuple { fields } => {
                let mut v = vec![];
                for f in fields.iter() {
                    v.push(self.ex(*f)?);
                }
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            ExprKind::Array { fields } => {
                let t = self.ets(id)?;
                let mut v = vec![];
                for f in fields.iter() {
                    v.push(self.ex(*f)?);
                }
                let n = self.fresh();
                let mut s = format!("{{ let mut {n}: {t} = seq_new();");
                for x in v {
                    let _ = write!(s, " seq_push(&mut {n}, {x});");
                }
                format!("{s} {n} }}")
            }
            ExprKind::Adt(a) => self.adt(id, a)?,
            ExprKind::Closure(_) => return Err("closure value".into()),
            ExprKind::Literal { lit, neg } => self.literal(id, lit, *neg)?,
            ExprKind::NonHirLiteral { lit, .. } => {
                let t = self.ety(id);
                if t.is_bool() {
                    (if lit.to_bits_unchecked() != 0 { "true" } else { "false" }).into()
                } else {
                    format!("{}{}", lit.to_bits_unchecked(), t)
                }
            }
            ExprKind::NamedConst { def_id, .. } => self.named_const(*def_id)?,
            ExprKind::StaticRef { def_id, .. } => {
                let p = self.path(*def_id);
                let n = mangle(&p);
                let t = self.tcx.type_of(*def_id).instantiate_identity().skip_norm_wip();
                let ts = self.ty(t)?;
                self.out.calls.insert(p.clone());
                self.statics.insert(p, (ts, *def_id));
                format!("{n}()")
            }
            ExprKind::ZstLiteral { .. } => {
                let t = self.ety(id);
                return Err(format!("function value {t}"));
            }
            k => {
                let s = format!("{k:?}");
                return Err(format!("expression {}", s.chars().take(40).collect::<String>()));
            }
        })
    }

    pub fn ex_block(&mut self, id: ExprId) -> R {
        let s = self.ex(id)?;
        if s.starts_with('{') && self.is_block_str(&s) {
            Ok(s)
        } else {
            Ok(format!("{{ {s} }}"))
        }
    }

    fn is_block_str(&self, s: &str) -> bool {
        // does the first `{` close at the end?
        let mut d = 0i32;
        let mut it = s.char_indices().peekable();
        let b = s.as_bytes();
        while let Some((i, c)) = it.next() {
            match c {
                '"' => {
                    // skip string literal
                    let mut j = i + 1;
                    while j < b.len() && b[j] != b'"' {
                        if b[j] == b'\\' {
                            j += 1;
                        }
                        j += 1;
                    }
                    while let Some(&(k, _)) = it.peek() {
                        if k <= j {
                            it.next();
                        } else {
                            break;
                        }
                    }
                }
                '\'' => {
                    // char literal such as '{' (always written '\u{..}' or 'x')
                    let rest = &s[i + 1..];
                    if let Some(k) = rest.find('\'') {
                        if k > 0 && k <= 10 && (rest.starts_with('\\') || rest.chars().nth(1) == Some('\'')) {
                            while let Some(&(m, _)) = it.peek() {
                                if m <= i + 1 + k {
                                    it.next();
                                } else {
                                    break;
                                }
                            }
                        }
                    }
                }
                '{' => d += 1,
                '}' => {
                    d -= 1;
                    if d == 0 {
                        return i + 1 == s.len();
                    }
                }
                _ => {}
            }
        }
        false
    }

    pub fn place(&mut self, id: ExprId) -> R {
        let e = self.e(id);
        match &e.kind {
            ExprKind::Scope { value, .. } => self.place(*value),
            ExprKind::VarRef { id } => self.var(id.0),
            ExprKind::UpvarRef { .. } => Err("assignment to captured variable".into()),
            ExprKind::Field { lhs, name, variant_index } => {
                let l = self.place(*lhs)?;
                let f = self.field_name(*lhs, *variant_index, *name)?;
                Ok(format!("{l}.{f}"))
            }
            ExprKind::Deref { arg } => {
                let t = self.ety(*arg);
                let s = self.ex(*arg)?;
                match t.kind() {
                    ty::Ref(_, _, m) if m.is_mut() && !s.starts_with("rb_") => Ok(format!("(*{s})")),
                    _ => Ok(s),
                }
            }
            _ => Err("place".into()),
        }
    }

    fn field_name(&self, lhs: ExprId, vi: rustc_abi::VariantIdx, f: rustc_abi::FieldIdx) -> R {
        let t = self.ety(lhs);
        Ok(match t.kind() {
            ty::Adt(def, _) => {
                if def.is_enum() {
                    return Err("enum field".into());
                }
                if !def.did().is_local() {
                    return Err(format!("field of {t}"));
                }
                def.variant(vi).fields[f].name.to_string()
            }
            ty::Tuple(_) => format!("{}", f.index()),
            _ => return Err(format!("field of {t}")),
        })
    }

    fn literal(&mut self, id: ExprId, lit: &rustc_hir::Lit, neg: bool) -> R {
        let t = self.ety(id);
        Ok(match lit.node {
            rustc_ast::LitKind::Int(n, _) => {
                if neg {
                    format!("(-{}{})", n.get(), t)
                } else {
                    format!("{}{}", n.get(), t)
                }
            }
            rustc_ast::LitKind::Char(c) => char_lit(c),
            rustc_ast::LitKind::Bool(b) => format!("{b}"),
            rustc_ast::LitKind::Str(s, _) => self.str_lit(s.as_str()),
            rustc_ast::LitKind::Byte(b) => format!("{b}u8"),
            // an embedded file: nothing is claimed about its bytes
            rustc_ast::LitKind::ByteStr(ref b, _) if b.as_byte_str().len() > 4096 => "some_bytes()".to_string(),
            rustc_ast::LitKind::ByteStr(ref b, _) => self.byte_lit(b.as_byte_str())?,
            _ => return Err("literal".into()),
        })
    }

    pub fn str_lit(&mut self, s: &str) -> String {
        let q = str_quote(s);
        format!("({{ proof {{ reveal_strlit({q}); }} lit({q}) }})")
    }

    pub fn named_const(&mut self, d: DefId) -> R {
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        if t.is_integral() || t.is_char() || t.is_bool() {
            if let Ok(v) = self.tcx.const_eval_poly(d) {
                if let Some(s) = v.try_to_scalar_int() {
                    let b = s.to_bits_unchecked();
                    return Ok(if t.is_char() {
                        char_lit(char::from_u32(b as u32).unwrap())
                    } else if t.is_bool() {
                        format!("{}", b != 0)
                    } else {
                        format!("{b}{t}")
                    });
                }
            }
            return Err("constant".into());
        }
        let Some(l) = d.as_local() else { return Err("external constant".into()) };
        let (thir, root) = self.thir(l)?;
        let save = self.fr;
        self.insts += 1;
        self.fr = Frame { thir, owner: l, args: None, inst: self.insts };
        let r = self.ex(root);
        self.fr = save;
        r
    }

    pub fn thir(&self, d: LocalDefId) -> Result<(&'tcx Thir<'tcx>, ExprId), String> {
        let (st, root) = self.tcx.thir_body(d).map_err(|_| "no thir".to_string())?;
        let g = st.borrow();
        let p: &Thir<'tcx> = &*g;
        // the THIR lives in the arena and is never stolen (-Zno-steal-thir)
        let p: &'tcx Thir<'tcx> = unsafe { std::mem::transmute(p) };
        Ok((p, root))
    }

    fn adt(&mut self, id: ExprId, a: &AdtExpr<'tcx>) -> R {
        let def = a.adt_def;
        let v = def.variant(a.variant_index);
        let p = self.path(def.did());
        if p == "std::borrow::Cow" {
            return self.ex(a.fields[0].expr);
        }
        let path = if def.is_enum() {
            match self.variant_path(def, v) {
                // a value of an external type: nothing is claimed about it
                Err(_) if !def.did().is_local() && v.ctor_kind() == Some(rustc_hir::def::CtorKind::Const) => {
                    return Ok(format!("ext_val::<{}>()", self.ets(id)?));
                }
                r => r?,
            }
        } else if def.did().is_local() {
            self.ets(id)?
        } else {
            match p.as_str() {
                "std::fmt::Error" => return Ok("FmtError".into()),
                "std::ops::Range" => {
                    let mut f = vec![String::new(); 2];
                    for x in a.fields.iter() {
                        f[x.name.index()] = self.ex(x.expr)?;
                    }
                    return Ok(format!("RangeV {{ start: {}, end: {} }}", f[0], f[1]));
                }
                _ => return Err(format!("constructor of external type {p}")),
            }
        };
        let base = match &a.base {
            AdtExprBase::None => None,
            AdtExprBase::Base(fru) => {
                // only the fields that are not given are read from the base
                let s = self.ex(fru.base)?;
                let n = self.fresh();
                Some((n, s))
            }
            _ => return Err("default fields".into()),
        };
        let mut given: Vec<Option<String>> = vec![None; v.fields.len()];
        for x in a.fields.iter() {
            given[x.name.index()] = Some(self.ex(x.expr)?);
        }
        let mut out = String::new();
        match v.ctor_kind() {
            Some(rustc_hir::def::CtorKind::Const) => out.push_str(&path),
            Some(rustc_hir::def::CtorKind::Fn) => {
                let g: Option<Vec<String>> = given.into_iter().collect();
                let _ = write!(out, "{path}({})", g.ok_or("base of tuple struct")?.join(", "));
            }
            None => {
                let mut fs = vec![];
                for (i, f) in v.fields.iter().enumerate() {
                    let val = match &given[i] {
                        Some(s) => s.clone(),
                        None => format!("{}.{}", base.as_ref().ok_or("missing field")?.0, f.name),
                    };
                    fs.push(format!("{}: {}", f.name, val));
                }
                let _ = write!(out, "{path} {{ {} }}", fs.join(", "));
            }
        }
        Ok(match base {
            Some((n, s)) => format!("{{ let {n} = {s}; {out} }}"),
            None => out,
        })
    }

    pub fn has_let(&self, id: ExprId) -> bool {
        match self.e(id).kind {
            ExprKind::Scope { value, .. } => self.has_let(value),
            ExprKind::Let { .. } => true,
            ExprKind::LogicalOp { lhs, rhs, .. } => self.has_let(lhs) || self.has_let(rhs),
            _ => false,
        }
    }

    /// `if cond { t } else { f }`, with let chains.
    pub fn cond(&mut self, c: ExprId, t: String, f: String) -> R {
        let p = self.peel(c);
        match &self.e(p).kind {
            ExprKind::LogicalOp { op: LogicalOp::And, lhs, rhs } if self.has_let(*lhs) || self.has_let(*rhs) => {
                // bindings of lhs are in scope in rhs: translate lhs first
                self.prebind(*lhs)?;
                let inner = self.cond(*rhs, t, f.clone())?;
                self.cond(*lhs, format!("{{ {inner} }}"), f)
            }
            ExprKind::Let { expr, pat } => {
                let s = self.ex(*expr)?;
                let q = self.pat_if(pat)?;
                Ok(format!("match {s} {{ {q} => {t} _ => {f} }}"))
            }
            _ => {
                let s = self.ex(p)?;
                Ok(format!("if {s} {t} else {f}"))
            }
        }
    }

    fn prebind(&mut self, c: ExprId) -> Result<(), String> {
        let p = self.peel(c);
        match &self.e(p).kind {
            ExprKind::LogicalOp { lhs, rhs, .. } => {
                self.prebind(*lhs)?;
                self.prebind(*rhs)
            }
            ExprKind::Let { pat, .. } => self.pat_if(pat).map(|_| ()),
            _ => Ok(()),
        }
    }

    pub fn loop_mark(&mut self, kind: &str) -> String {
        let n = self.out.loops.len();
        self.out.loops.push(kind.to_string());
        format!("/*@LOOP {n}@*/")
    }

    fn match_(&mut self, id: ExprId, scrut: ExprId, arms: &[ArmId], src: MatchSource) -> R {
        match src {
            MatchSource::TryDesugar(_) => {
                if self.inlining > 0 {
                    return Err("? in inlined body".into());
                }
                let (x, arg) = self.try_arg(scrut)?;
                let s = self.ex(x)?;
                let ret = self.ret_ty()?;
                self.try_match(&s, arg, ret, |v| v, |e| format!("return {e}"))
            }
            MatchSource::ForLoopDesugar => self.for_loop(id, scrut, arms),
            MatchSource::Normal | MatchSource::Postfix => {
                if let Some(s) = self.cow_match(scrut, arms)? {
                    return Ok(s);
                }
                if let Some(s) = self.str_match(scrut, arms)? {
                    return Ok(s);
                }
                let s = self.ex(scrut)?;
                let mut out = format!("match {s} {{ ");
                for &a in arms {
                    let arm = &self.fr.thir.arms[a];
                    let p = self.arm_head(arm)?;
                    let b = self.ex_block(arm.body)?;
                    let _ = write!(out, "{p} => {b} ");
                }
                out.push('}');
                Ok(out)
            }
            _ => Err("match source".into()),
        }
    }

    /// `match cow { Borrowed(x) => .., Owned(y) => .. }`: which of the two it
    /// is has been erased, so every arm has to do.
    fn cow_match(&mut self, scrut: ExprId, arms: &[ArmId]) -> Result<Option<String>, String> {
        let st = self.mono_again(self.ety(scrut));
        let mut st = st;
        while let ty::Ref(_, x, _) = st.kind() {
            st = *x;
        }
        let ty::Adt(def, _) = st.kind() else { return Ok(None) };
        if self.path(def.did()) != "std::borrow::Cow" {
            return Ok(None);
        }
        let s = self.ex(scrut)?;
        let n = self.fresh();
        let mut out = format!("{{ let {n} = {s}; ");
        for (i, &a) in arms.iter().enumerate() {
            let arm = &self.fr.thir.arms[a];
            if arm.guard.is_some() {
                return Err("guard in match on Cow".into());
            }
            let mut p = &*arm.pattern;
            while let PatKind::Deref { subpattern, .. } = &p.kind {
                p = subpattern;
            }
            let q = match &p.kind {
                PatKind::Variant { subpatterns, .. } if subpatterns.len() == 1 => self.pat(&subpatterns[0].pattern)?,
                PatKind::Variant { .. } | PatKind::Wild => "_".to_string(),
                _ => self.pat(p)?,
            };
            let b = self.ex_block(arm.body)?;
            let b = format!("{{ let {q} = {n}; {b} }}");
            if i + 1 == arms.len() {
                let _ = write!(out, "{b}");
            } else {
                let _ = write!(out, "if cow_nd() {b} else ");
            }
        }
        out.push_str(" }");
        Ok(Some(out))
    }

    /// `match string { "a" => .., _ => .. }` as an if chain
    fn str_match(&mut self, scrut: ExprId, arms: &[ArmId]) -> Result<Option<String>, String> {
        let st = self.ety(scrut);
        if self.ty(st)? != "Str" {
            return Ok(None);
        }
        let mut consts: Vec<(Option<Vec<String>>, ArmId)> = vec![];
        for &a in arms {
            let arm = &self.fr.thir.arms[a];
            if arm.guard.is_some() {
                return Err("guard in string match".into());
            }
            let mut p = &*arm.pattern;
            while let PatKind::Deref { subpattern, .. } = &p.kind {
                p = subpattern;
            }
            let mut lits = vec![];
            let alts: Vec<&Pat<'tcx>> = match &p.kind {
                PatKind::Or { pats } => pats.iter().collect(),
                _ => vec![p],
            };
            let mut wild = false;
            for q in alts {
                let mut q = q;
                while let PatKind::Deref { subpattern, .. } = &q.kind {
                    q = subpattern;
                }
                match &q.kind {
                    PatKind::Constant { value } => {
                        let raw = match value.try_to_raw_bytes(self.tcx) {
                            Some(b) => b.to_vec(),
                            None => {
                                let l = value.valtree.try_to_branch().ok_or("string pattern")?;
                                let mut o = vec![];
                                for c in l.iter() {
                                    match c.to_value().valtree.try_to_leaf() {
                                        Some(b) if b.size().bytes() == 1 => o.push(b.to_u8()),
                                        _ => return Err("string pattern".into()),
                                    }
                                }
                                o
                            }
                        };
                        let s = String::from_utf8(raw).map_err(|_| "string pattern")?;
                        lits.push(s.to_string());
                    }
                    PatKind::Wild => wild = true,
                    PatKind::Binding { .. } => return Ok(None),
                    _ => return Err("string pattern".into()),
                }
            }
            consts.push((if wild { None } else { Some(lits) }, a));
        }
        let n = self.fresh();
        let s = self.ex(scrut)?;
        let mut out = format!("{{ let {n} = {s}; ");
        let mut tail = String::new();
        for (c, a) in consts {
            let body = self.fr.thir.arms[a].body;
            let b = self.ex_block(body)?;
            match c {
                None => {
                    let _ = write!(out, "{b}");
                    out.push_str(&tail);
                    out.push_str(" }");
                    return Ok(Some(out));
                }
                Some(l) => {
                    let c: Vec<String> =
                        l.iter().map(|x| format!("str_eq({n}, {})", self.str_lit(x))).collect();
                    let _ = write!(out, "if {} {b} else {{ ", c.join(" || "));
                    tail.push_str(" }");
                }
            }
        }
        Err("string match without default".into())
    }

    /// the operand of `?`: returns (expr, its type)
    pub fn try_arg(&self, scrut: ExprId) -> Result<(ExprId, Ty<'tcx>), String> {
        let p = self.peel(scrut);
        if let ExprKind::Call { args, .. } = &self.e(p).kind {
            let a = args[0];
            return Ok((a, self.ety(a)));
        }
        Err("? operand".into())
    }

    pub fn ret_ty(&self) -> Result<Ty<'tcx>, String> {
        match self.fr.thir.body_type {
            BodyTy::Fn(sig) => Ok(self.mono(sig.output())),
            _ => Err("return type".into()),
        }
    }

    pub fn try_match(
        &mut self,
        s: &str,
        arg: Ty<'tcx>,
        ret: Ty<'tcx>,
        ok: impl FnOnce(String) -> String,
        err: impl FnOnce(String) -> String,
    ) -> R {
        let ty::Adt(def, a) = arg.kind() else { return Err("? type".into()) };
        let p = self.path(def.did());
        let v = self.fresh();
        match p.as_str() {
            "std::option::Option" => {
                Ok(format!("match {s} {{ Some({v}) => {{ {} }} None => {{ {} }} }}", ok(v.clone()), err("None".into())))
            }
            "std::result::Result" => {
                let ety = a.type_at(1);
                let ty::Adt(_, ra) = ret.kind() else { return Err("? return type".into()) };
                let rty = ra.type_at(1);
                let x = self.fresh();
                let c = self.convert(x.clone(), ety, rty)?;
                Ok(format!(
                    "match {s} {{ Ok({v}) => {{ {} }} Err({x}) => {{ {} }} }}",
                    ok(v.clone()),
                    err(format!("Err({c})"))
                ))
            }
            _ => Err(format!("? on {p}")),
        }
    }

    /// From::from
    pub fn convert(&mut self, x: String, from: Ty<'tcx>, to: Ty<'tcx>) -> R {
        let (a, b) = (self.ty(from)?, self.ty(to)?);
        if a == b {
            return Ok(x);
        }
        let tr = self.tcx.get_diagnostic_item(rustc_span::sym::From).ok_or("From")?;
        let m = self.tcx.associated_item_def_ids(tr)[0];
        let args = self.tcx.mk_args(&[to.into(), from.into()]);
        self.call_def(m, args, vec![(x, None)], vec![from], to)
    }

    fn for_loop(&mut self, _id: ExprId, scrut: ExprId, arms: &[ArmId]) -> R {
        // match into_iter(x) { mut iter => loop { match next(&mut iter) { None => break, Some(p) => body } } }
        let p = self.peel(scrut);
        let ExprKind::Call { args, .. } = &self.e(p).kind else { return Err("for".into()) };
        let src = args[0];
        let lp = self.peel(self.fr.thir.arms[arms[0]].body);
        let ExprKind::Loop { body } = self.e(lp).kind else { return Err("for: loop".into()) };
        let mut b = self.peel(body);
        if let ExprKind::Block { block } = self.e(b).kind {
            let bl = &self.fr.thir.blocks[block];
            b = match (bl.stmts.first(), bl.expr) {
                (Some(s), _) => match self.fr.thir.stmts[*s].kind {
                    StmtKind::Expr { expr, .. } => expr,
                    _ => return Err("for: stmt".into()),
                },
                (None, Some(e)) => e,
                _ => return Err("for: body".into()),
            };
        }
        let b = self.peel(b);
        let ExprKind::Match { arms: inner, .. } = &self.e(b).kind else { return Err("for: match".into()) };
        let mut some = None;
        for &a in inner.iter() {
            if let PatKind::Variant { subpatterns, .. } = &self.fr.thir.arms[a].pattern.kind {
                if let Some(f) = subpatterns.first() {
                    some = Some((&f.pattern, self.fr.thir.arms[a].body));
                }
            }
        }
        let (pat, body) = some.ok_or("for: some arm")?;
        // unroll over an array literal
        let arr = self.peel_refs(src);
        let arr = self.strip_flatten(arr);
        if let (ExprKind::Array { fields }, flat) = (&self.e(arr.0).kind, arr.1) {
            if fields.len() <= 4 && !self.has_break(body) {
                let mut out = String::from("{ ");
                for f in fields.iter() {
                    let v = self.ex(*f)?;
                    let save = (self.names.clone(), self.out.loops.len());
                    let q = self.pat(pat)?;
                    let bs = self.ex_block(body)?;
                    if self.out.loops.len() != save.1 {
                        return Err("loop in unrolled loop".into());
                    }
                    if flat {
                        let _ = write!(out, "match {v} {{ Some({q}) => {bs} None => {{ }} }} ");
                    } else {
                        let _ = write!(out, "{{ let {q} = {v}; {bs} }} ");
                    }
                }
                out.push('}');
                return Ok(out);
            }
        }
        let n = self.out.loops.len();
        let (base, stages) = self.stages(src);
        let src = if stages.is_empty() { src } else { base };
        let it_t = self.ety(src);
        let init = self.ex(src)?;
        let ity = self.ty(it_t)?;
        let itn = format!("it{n}");
        let (decl, itx, kind) = if let Some(inner) = ity.strip_prefix("&mut ") {
            (String::new(), init.trim_start_matches("&mut ").to_string(), inner.to_string())
        } else {
            let into = if ity.starts_with("SeqV<") {
                format!("seq_into_iter({init})")
            } else {
                init
            };
            (format!("let mut {itn} = {into};"), itn.clone(), ity.clone())
        };
        let mark = self.loop_mark(&format!("for {kind}"));
        let f = if kind.starts_with("RangeV") {
            "range_next"
        } else if kind.starts_with("RangeInc") {
            "range_inc_next"
        } else if kind.starts_with("CharIndices") {
            "char_indices_next"
        } else {
            "it_next"
        };
        if !stages.is_empty() {
            let item = self.item_ty(it_t);
            let (open, cur, close) = self.stage_code(n, &stages, item)?;
            let q = self.pat(pat)?;
            let bs = self.ex_block(body)?;
            return Ok(format!(
                "{{ {decl} {mark} {{ match {f}(&mut {itx}) {{ None => {{ break }} Some(x{n}) => {{ {open}{{ let {q} = {cur}; {bs} }}{close} }} }} }} /*@AFTER {n}@*/ }}"
            ));
        }
        let q = self.pat(pat)?;
        let bs = self.ex_block(body)?;
        Ok(format!(
            "{{ {decl} {mark} {{ match {f}(&mut {itx}) {{ None => {{ break }} Some({q}) => {bs} }} }} /*@AFTER {n}@*/ }}"
        ))
    }

    /// `[..].into_iter().flatten()`: (array, flattened)
    fn strip_flatten(&self, id: ExprId) -> (ExprId, bool) {
        let mut id = self.peel_refs(id);
        let mut flat = false;
        loop {
            if let ExprKind::Call { ty, args, .. } = &self.e(id).kind {
                if let ty::FnDef(d, _) = ty.kind() {
                    let p = self.path(*d);
                    if p == "std::iter::Iterator::flatten" && !flat {
                        flat = true;
                        id = self.peel_refs(args[0]);
                        continue;
                    }
                    if p == "std::iter::IntoIterator::into_iter" || p.ends_with("::iter") {
                        id = self.peel_refs(args[0]);
                        continue;
                    }
                }
            }
            return (id, flat);
        }
    }

    pub fn has_break(&self, id: ExprId) -> bool {
        self.any(id, &|e| matches!(e.kind, ExprKind::Break { .. } | ExprKind::Continue { .. }))
    }

    pub fn has_return(&self, id: ExprId) -> bool {
        self.any(id, &|e| {
            matches!(e.kind, ExprKind::Return { .. })
                || matches!(e.kind, ExprKind::Match { match_source: MatchSource::TryDesugar(_), .. })
        })
    }

    /// does any expression below `id` (closures excluded) satisfy `f`?
    pub fn any(&self, id: ExprId, f: &dyn Fn(&Expr<'tcx>) -> bool) -> bool {
        struct V<'a, 'tcx> {
            thir: &'a Thir<'tcx>,
            f: &'a dyn Fn(&Expr<'tcx>) -> bool,
            hit: bool,
            over: &'a HashMap<(usize, ExprId), String>,
        }
        use rustc_middle::thir::visit::{self, Visitor};
        impl<'a, 'tcx> Visitor<'a, 'tcx> for V<'a, 'tcx> {
            fn thir(&self) -> &'a Thir<'tcx> {
                self.thir
            }
            fn visit_expr(&mut self, e: &'a Expr<'tcx>) {
                if self.hit {
                    return;
                }
                let base = self.thir.exprs.raw.as_ptr() as usize;
                let idx = (e as *const _ as usize - base) / std::mem::size_of::<Expr<'tcx>>();
                if self.over.contains_key(&(self.thir as *const _ as usize, ExprId::from_usize(idx))) {
                    return;
                }
                if (self.f)(e) {
                    self.hit = true;
                    return;
                }
                visit::walk_expr(self, e);
            }
        }
        let mut v = V { thir: self.fr.thir, f, hit: false, over: &self.over };
        v.visit_expr(&self.fr.thir.exprs[id]);
        v.hit
    }

    pub fn children(&self, id: ExprId) -> Vec<ExprId> {
        struct V<'a, 'tcx> {
            thir: &'a Thir<'tcx>,
            depth: usize,
            out: Vec<ExprId>,
        }
        use rustc_middle::thir::visit::{self, Visitor};
        impl<'a, 'tcx> Visitor<'a, 'tcx> for V<'a, 'tcx> {
            fn thir(&self) -> &'a Thir<'tcx> {
                self.thir
            }
            fn visit_expr(&mut self, e: &'a Expr<'tcx>) {
                if self.depth == 1 {
                    let base = self.thir.exprs.raw.as_ptr() as usize;
                    let idx = (e as *const _ as usize - base) / std::mem::size_of::<Expr<'tcx>>();
                    self.out.push(ExprId::from_usize(idx));
                    return;
                }
                self.depth += 1;
                visit::walk_expr(self, e);
                self.depth -= 1;
            }
        }
        let mut v = V { thir: self.fr.thir, depth: 0, out: vec![] };
        v.visit_expr(&self.fr.thir.exprs[id]);
        v.out
    }

    fn block(&mut self, b: BlockId) -> R {
        let bl = &self.fr.thir.blocks[b];
        if bl.targeted_by_break {
            return Err("labelled block".into());
        }
        let mut out = String::from("{ ");
        for s in bl.stmts.iter() {
            let st = self.stmt(*s)?;
            out.push_str(&st);
        }
        if let Some(e) = bl.expr {
            out.push_str(&self.ex(e)?);
        }
        out.push_str(" }");
        Ok(out)
    }

    /// a closure that captures nothing but closures, as a function
    fn lift(&mut self, c: ExprId) -> Option<FnOut> {
        let ExprKind::Closure(k) = &self.e(c).kind else { return None };
        let l = k.closure_id;
        let out = std::mem::take(&mut self.out);
        let (names, used, over, conds) =
            (std::mem::take(&mut self.names), std::mem::take(&mut self.used), std::mem::take(&mut self.over), std::mem::take(&mut self.conds));
        let (fr, inlining) = (self.fr, std::mem::replace(&mut self.inlining, 0));
        let r = (|| -> Result<(), String> {
            self.out.ret = {
                let t = self.closure_ret(c);
                self.ty(t)?
            };
            let (thir, root) = self.thir(l)?;
            self.fr = Frame { thir, owner: l, ..fr };
            let mut pre = String::new();
            for (i, p) in thir.params.iter().skip(1).enumerate() {
                let t = self.mono(p.ty);
                let t = self.ty(t)?;
                let n = format!("arg{i}");
                if let Some(pat) = &p.pat {
                    let q = self.pat(pat)?;
                    let _ = write!(pre, "let {q} = {n}; ");
                }
                self.out.params.push((n, t));
            }
            let b = self.ex(root)?;
            if !self.conds.is_empty() {
                return Err("text in a pattern".into());
            }
            self.out.body = format!("{pre}{b}");
            Ok(())
        })();
        let lo = self.tcx.sess.source_map().lookup_char_pos(self.tcx.def_span(l.to_def_id()).lo());
        self.out.span = format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line);
        self.fr = fr;
        self.inlining = inlining;
        self.names = names;
        self.used = used;
        self.over = over;
        self.conds = conds;
        let f = std::mem::replace(&mut self.out, out);
        r.ok().map(|_| f)
    }

    /// closures bound by let are inlined where they are used
    fn closure_let(&mut self, pattern: &Pat<'tcx>, init: ExprId) -> bool {
        let p = self.peel(init);
        if let ExprKind::Closure(_) = self.e(p).kind {
            if let PatKind::Binding { var, .. } = &pattern.kind {
                self.closures.insert((self.fr.inst, var.0), (p, self.fr));
                let path = format!("{}::{}", self.path(self.stack[0]), self.tcx.hir_name(var.0));
                if self.fr.inst == 0 && self.contracted.contains(&path) {
                    if let Some(f) = self.lift(p) {
                        self.lifted.insert((self.fr.inst, var.0), path.clone());
                        self.lifted_fns.push((path, f));
                    }
                }
                return true;
            }
        }
        false
    }

    fn stmt(&mut self, s: StmtId) -> R {
        match &self.fr.thir.stmts[s].kind {
            StmtKind::Expr { expr, .. } => {
                let x = self.ex(*expr)?;
                Ok(format!("{x}; "))
            }
            StmtKind::Let { pattern, initializer, else_block, .. } => {
                let Some(init) = initializer else {
                    let t = self.mono(pattern.ty);
                    let ts = self.ty(t)?;
                    let p = self.pat(pattern)?;
                    return Ok(format!("let {p}: {ts}; "));
                };
                if self.closure_let(pattern, *init) {
                    return Ok(String::new());
                }
                let s = self.ex(*init)?;
                match else_block {
                    None => self.let_line(pattern, &s),
                    Some(eb) => {
                        let el = self.block(*eb)?;
                        self.let_else(pattern, &s, &el)
                    }
                }
            }
        }
    }

    fn let_line(&mut self, pattern: &Pat<'tcx>, s: &str) -> R {
        let t = self.mono(pattern.ty);
        let p = self.pat(pattern)?;
        Ok(match self.ty(t) {
            Ok(ts) if ts != "!" => format!("let {p}: {ts} = {s}; "),
            _ => format!("let {p} = {s}; "),
        })
    }

    fn pat_vars(&mut self, pattern: &Pat<'tcx>) -> Vec<(String, bool)> {
        let mut v = vec![];
        let mut ids = vec![];
        pattern.walk_always(|p| {
            if let PatKind::Binding { name, var, mode, is_primary: true, .. } = &p.kind {
                ids.push((var.0, name.to_string(), mode.1.is_mut()));
            }
        });
        for (id, n, m) in ids {
            v.push((self.bind(id, &n), m));
        }
        v
    }

    fn let_else(&mut self, pattern: &Pat<'tcx>, s: &str, el: &str) -> R {
        let p = self.pat_if(pattern)?;
        let vars = self.pat_vars(pattern);
        let l: Vec<String> =
            vars.iter().map(|(n, m)| if *m { format!("mut {n}") } else { n.clone() }).collect();
        let r: Vec<String> = vars.iter().map(|(n, _)| n.clone()).collect();
        let (l, r) = if l.len() == 1 {
            (l[0].clone(), r[0].clone())
        } else {
            (format!("({})", l.join(", ")), format!("({})", r.join(", ")))
        };
        Ok(format!("let {l} = match {s} {{ {p} => {{ {r} }} _ => {el} }}; "))
    }

    // ---------------------------------------------------- return elimination

    /// Translate `id`, whose value is passed to `k`, into an expression whose value is the
    /// value of the whole (inlined) body; `return e` becomes `e`.
    pub fn cps(&mut self, id: ExprId, k: &mut dyn FnMut(&mut Self, String) -> R) -> R {
        if !self.has_return(id) {
            let s = self.ex(id)?;
            return k(self, s);
        }
        if self.any(id, &|e| matches!(e.kind, ExprKind::Loop { .. })) {
            return Err("return inside a loop of an inlined body".into());
        }
        match &self.e(id).kind {
            ExprKind::Scope { value, .. } => self.cps(*value, k),
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => self.cps(*source, k),
            ExprKind::Return { value } => match value {
                Some(v) => self.cps(*v, &mut |_, s| Ok(s)),
                None => Ok("()".into()),
            },
            ExprKind::Block { block } => {
                let bl = &self.fr.thir.blocks[*block];
                if bl.targeted_by_break {
                    return Err("labelled block".into());
                }
                self.cps_stmts(&bl.stmts, bl.expr, k)
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                if self.has_return(*cond) {
                    if self.has_let(*cond) {
                        // `if let p = x? { .. }`
                        let p = self.peel(*cond);
                        if let ExprKind::Let { expr, .. } = self.e(p).kind {
                            return self.hoist(id, expr, k);
                        }
                        return Err("return in let chain".into());
                    }
                    return self.hoist(id, *cond, k);
                }
                self.prebind(*cond)?;
                let t = self.cps(*then, k)?;
                let f = match else_opt {
                    Some(x) => self.cps(*x, k)?,
                    None => k(self, "()".into())?,
                };
                self.cond(*cond, format!("{{ {t} }}"), format!("{{ {f} }}"))
            }
            ExprKind::Match { scrutinee, arms, match_source } => match match_source {
                MatchSource::TryDesugar(_) => {
                    let (x, arg) = self.try_arg(*scrutinee)?;
                    let ret = self.ret_ty()?;
                    self.cps(x, &mut |me, s| {
                        let v = me.fresh();
                        let body = k(me, v.clone())?;
                        me.try_match(&s, arg, ret, |w| format!("let {v} = {w}; {body}"), |e| e)
                    })
                }
                MatchSource::Normal | MatchSource::Postfix => {
                    if self.has_return(*scrutinee) {
                        return self.hoist(id, *scrutinee, k);
                    }
                    let s = self.ex(*scrutinee)?;
                    let mut out = format!("match {s} {{ ");
                    for &a in arms.iter() {
                        let arm = &self.fr.thir.arms[a];
                        let p = self.arm_head(arm)?;
                        let b = self.cps(arm.body, k)?;
                        let _ = write!(out, "{p} => {{ {b} }} ");
                    }
                    out.push('}');
                    Ok(out)
                }
                _ => Err("match source in inlined body".into()),
            },
            _ => {
                for c in self.children(id) {
                    if self.has_return(c) {
                        return self.hoist(id, c, k);
                    }
                }
                Err("return elimination".into())
            }
        }
    }

    fn hoist(&mut self, id: ExprId, c: ExprId, k: &mut dyn FnMut(&mut Self, String) -> R) -> R {
        let key = (self.fr.thir as *const _ as usize, c);
        self.cps(c, &mut |me, s| {
            let t = me.fresh();
            me.over.insert(key, t.clone());
            let r = me.cps(id, k);
            me.over.remove(&key);
            Ok(format!("{{ let {t} = {s}; {} }}", r?))
        })
    }

    fn cps_stmts(
        &mut self,
        stmts: &[StmtId],
        tail: Option<ExprId>,
        k: &mut dyn FnMut(&mut Self, String) -> R,
    ) -> R {
        let Some((&s, rest)) = stmts.split_first() else {
            return match tail {
                Some(e) => self.cps(e, k),
                None => k(self, "()".into()),
            };
        };
        match &self.fr.thir.stmts[s].kind {
            StmtKind::Expr { expr, .. } => {
                if !self.has_return(*expr) {
                    let x = self.ex(*expr)?;
                    let r = self.cps_stmts(rest, tail, k)?;
                    return Ok(format!("{{ {x}; {r} }}"));
                }
                // diverging statement: the rest is dead
                if self.e(*expr).ty.is_never() {
                    return self.cps(*expr, &mut |_, s| Ok(s));
                }
                self.cps(*expr, &mut |me, s| {
                    let r = me.cps_stmts(rest, tail, k)?;
                    Ok(format!("{{ {s}; {r} }}"))
                })
            }
            StmtKind::Let { pattern, initializer, else_block, .. } => {
                let Some(init) = initializer else { return Err("uninitialised let".into()) };
                if self.closure_let(pattern, *init) {
                    return self.cps_stmts(rest, tail, k);
                }
                match else_block {
                    None => self.cps(*init, &mut |me, s| {
                        let l = me.let_line(pattern, &s)?;
                        let r = me.cps_stmts(rest, tail, k)?;
                        Ok(format!("{{ {l} {r} }}"))
                    }),
                    Some(eb) => {
                        let eb = *eb;
                        self.cps(*init, &mut |me, s| {
                            let p = me.pat(pattern)?;
                            let bl = &me.fr.thir.blocks[eb];
                            let el = me.cps_stmts(&bl.stmts, bl.expr, &mut |_, s| Ok(s))?;
                            let r = me.cps_stmts(rest, tail, k)?;
                            Ok(format!("match {s} {{ {p} => {{ {r} }} _ => {{ {el} }} }}"))
                        })
                    }
                }
            }
        }
    }

    // --------------------------------------------------------------- driver

    pub fn function(&mut self, d: LocalDefId) -> FnOut {
        self.names.clear();
        self.used.clear();
        self.closures.clear();
        self.lifted.clear();
        self.over.clear();
        self.fresh = 0;
        self.insts = 0;
        self.inlining = 0;
        self.out = FnOut::default();
        self.conds.clear();
        self.stack = vec![d.to_def_id()];
        let sp = self.tcx.def_span(d.to_def_id());
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        self.out.span = format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line);
        let r = (|| -> Result<(), String> {
            let (thir, root) = self.thir(d)?;
            self.fr = Frame { thir, owner: d, args: None, inst: 0 };
            let mut pre = String::new();
            if let BodyTy::Fn(sig) = thir.body_type {
                for (i, p) in thir.params.iter().enumerate() {
                    let t = self.ty(p.ty)?;
                    let n = format!("arg{i}");
                    if let Some(pat) = &p.pat {
                        let q = self.pat(pat)?;
                        let _ = write!(pre, "let {q} = {n}; ");
                    }
                    self.out.params.push((n, t));
                }
                let o = sig.output();
                self.out.ret = self.ty(o)?;
            }
            let b = self.ex(root)?;
            self.out.body = format!("{pre}{b}");
            if !self.conds.is_empty() {
                return Err("text in a pattern".into());
            }
            Ok(())
        })();
        if let Err(e) = r {
            self.out.error = Some(e);
        }
        std::mem::take(&mut self.out)
    }

    /// a `static X: Lazy<T> = Lazy::new(|| body)` as a function
    pub fn static_(&mut self, d: LocalDefId) -> FnOut {
        self.names.clear();
        self.used.clear();
        self.closures.clear();
        self.lifted.clear();
        self.over.clear();
        self.fresh = 0;
        self.insts = 0;
        self.inlining = 0;
        self.out = FnOut::default();
        self.conds.clear();
        self.stack = vec![d.to_def_id()];
        let r = (|| -> Result<(), String> {
            let (thir, root) = self.thir(d)?;
            self.fr = Frame { thir, owner: d, args: None, inst: 0 };
            let t = self.tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip();
            self.out.ret = self.ty(t)?;
            let p = self.peel(root);
            let ExprKind::Call { args, .. } = &self.e(p).kind else { return Err("static".into()) };
            let a = args[0];
            self.out.body = self.apply(a, vec![], vec![])?;
            Ok(())
        })();
        if let Err(e) = r {
            self.out.error = Some(e);
        }
        std::mem::take(&mut self.out)
    }
}

pub fn char_lit(c: char) -> String {
    if c.is_ascii_graphic() && c != '\'' && c != '\\' && c != '{' && c != '}' && c != '"' || c == ' ' {
        format!("'{c}'")
    } else {
        format!("'\\u{{{:x}}}'", c as u32)
    }
}

/// the text of a translated string literal
pub fn lit_text(e: &str) -> Option<String> {
    let e = e.strip_prefix("({ proof { reveal_strlit(\"")?.strip_suffix("\") })")?;
    let (a, b) = e.split_once("\"); } lit(\"")?;
    if a != b {
        return None;
    }
    let mut o = String::new();
    let mut i = a.chars();
    while let Some(c) = i.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match i.next()? {
            'u' => {
                if i.next()? != '{' {
                    return None;
                }
                let h: String = i.by_ref().take_while(|c| *c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            c => o.push(c),
        }
    }
    Some(o)
}

/// is the character `c` (an expression without effects) in the text `l`
pub fn contains_char(l: &str, c: &str) -> String {
    match lit_text(l) {
        Some(t) if t.is_empty() => "false".to_string(),
        Some(t) => format!("({})", t.chars().map(|x| format!("{c} == {}", char_lit(x))).collect::<Vec<_>>().join(" || ")),
        None => format!("str_contains_char({l}, {c})"),
    }
}

pub fn str_quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if c.is_ascii_graphic() || c == ' ' => o.push(c),
            c => {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
        }
    }
    o.push('"');
    o
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_list<'a>(v: impl Iterator<Item = &'a String>) -> String {
    format!("[{}]", v.map(|s| json(s)).collect::<Vec<_>>().join(", "))
}

fn fn_json(p: &str, f: &FnOut) -> String {
    let params: Vec<String> =
        f.params.iter().map(|(n, t)| format!("[{}, {}]", json(n), json(t))).collect();
    format!(
        "{{\"path\": {}, \"name\": {}, \"span\": {}, \"params\": [{}], \"ret\": {}, \"body\": {}, \"loops\": {}, \"calls\": {}, \"inlined\": {}, \"externals\": {}, \"error\": {}}}",
        json(p),
        json(&mangle(p)),
        json(&f.span),
        params.join(", "),
        json(&f.ret),
        json(&f.body),
        json_list(f.loops.iter()),
        json_list(f.calls.iter()),
        json_list(f.inlined.iter()),
        json_list(f.externals.iter()),
        match &f.error {
            Some(e) => json(e),
            None => "null".into(),
        }
    )
}

fn lines(var: &str) -> BTreeSet<String> {
    std::env::var(var)
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty())
        .collect()
}

pub fn run(tcx: TyCtxt<'_>) {
    let contracted = lines("VX_CONTRACTED");
    let opaque = lines("VX_OPAQUE");
    let Ok(out) = std::env::var("VX_OUT") else { return };
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let Some(&first) = owners.iter().find(|d| matches!(tcx.def_kind(**d), DefKind::Fn)) else { return };
    let mut me = Tr {
        tcx,
        contracted: contracted.clone(),
        opaque,
        types: BTreeMap::new(),
        ext_types: BTreeSet::new(),
        statics: BTreeMap::new(),
        fr: Frame {
            thir: {
                let (st, _) = tcx.thir_body(first).ok().unwrap();
                let g = st.borrow();
                let p: &Thir<'_> = &*g;
                unsafe { std::mem::transmute(p) }
            },
            owner: first,
            args: None,
            inst: 0,
        },
        names: HashMap::new(),
        used: HashMap::new(),
        closures: HashMap::new(),
        lifted: HashMap::new(),
        lifted_fns: vec![],
        over: HashMap::new(),
        out: FnOut::default(),
        fresh: 0,
        insts: 0,
        stack: vec![],
        inlining: 0,
        self_param: None,
        conds: vec![],
    };
    let mut fns = vec![];
    let mut seen = BTreeSet::new();
    let mut all = vec![];
    for d in owners {
        let k = tcx.def_kind(d);
        let p = me.path(d.to_def_id());
        match k {
            DefKind::Fn | DefKind::AssocFn => {
                all.push(p.clone());
                if contracted.contains(&p) {
                    seen.insert(p.clone());
                    let f = me.function(d);
                    fns.push((p, f));
                    for (p, f) in std::mem::take(&mut me.lifted_fns) {
                        all.push(p.clone());
                        seen.insert(p.clone());
                        fns.push((p, f));
                    }
                }
            }
            DefKind::Static { .. } => {
                all.push(p.clone());
                if contracted.contains(&p) {
                    seen.insert(p.clone());
                    let f = me.static_(d);
                    fns.push((p, f));
                }
            }
            _ => {}
        }
    }
    let mut s = String::from("{\n\"functions\": [\n");
    s.push_str(&fns.iter().map(|(p, f)| fn_json(p, f)).collect::<Vec<_>>().join(",\n"));
    s.push_str("\n],\n\"types\": {\n");
    s.push_str(
        &me.types
            .iter()
            .map(|(k, v)| format!("{}: {}", json(k), json(v)))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("\n},\n\"ext_types\": ");
    s.push_str(&json_list(me.ext_types.iter()));
    s.push_str(",\n\"statics\": {\n");
    s.push_str(
        &me.statics
            .iter()
            .map(|(k, v)| format!("{}: {}", json(k), json(&v.0)))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("\n},\n\"missing\": ");
    let missing: Vec<String> = contracted.iter().filter(|c| !seen.contains(*c)).cloned().collect();
    s.push_str(&json_list(missing.iter()));
    s.push_str(",\n\"all\": ");
    s.push_str(&json_list(all.iter()));
    s.push_str("\n}\n");
    std::fs::write(out, s).expect("write VX_OUT");
}
