// Calls: local functions (by contract or inlined), std/nom/regex functions (mapped to the
// assumed contracts of the prelude or to their definition), format_args!.
use crate::tr::*;
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty};
use std::fmt::Write as _;

pub enum Part {
    Lit(String),
    Disp(ExprId),
    /// `{:?}`: a text about which nothing is known
    Debug,
}

pub type Args<'tcx> = Vec<(String, Option<ExprId>)>;

/// `@`, or a block that only gives it a name
fn is_identity(s: &str) -> bool {
    let s = s.trim();
    if s == "@" {
        return true;
    }
    let Some(s) = s.strip_prefix("{ let ").and_then(|s| s.strip_suffix(" }")) else { return false };
    let Some((decl, rest)) = s.split_once(" = @; ") else { return false };
    decl.split(':').next().unwrap().trim() == rest.trim()
}

impl<'tcx> Tr<'tcx> {
    fn tyenv(&self) -> ty::TypingEnv<'tcx> {
        ty::TypingEnv::post_analysis(self.tcx, self.fr.owner.to_def_id())
    }

    fn fndef(&self, id: ExprId) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        match self.ety(id).kind() {
            ty::FnDef(d, a) => Some((*d, a.skip_binder())),
            _ => None,
        }
    }

    pub fn call(&mut self, id: ExprId, fun: ExprId, args: &[ExprId]) -> R {
        let ret = self.ety(id);
        if let Some((d, g)) = self.fndef(fun) {
            let p = self.path(d);
            match p.as_str() {
                "std::ops::FnMut::call_mut" | "std::ops::Fn::call" | "std::ops::FnOnce::call_once" => {
                    let t = self.peel_refs(args[1]);
                    let ExprKind::Tuple { fields } = &self.e(t).kind else {
                        return Err("call arguments".into());
                    };
                    let mut v = vec![];
                    let mut ts = vec![];
                    for f in fields.iter() {
                        v.push(self.ex(*f)?);
                        ts.push(self.ety(*f));
                    }
                    return self.apply(args[0], v, ts);
                }
                _ => {}
            }
            let tys: Vec<Ty<'tcx>> = args.iter().map(|a| self.ety(*a)).collect();
            let a: Args<'tcx> = args.iter().map(|a| (String::new(), Some(*a))).collect();
            return self.call_def(d, g, a, tys, ret);
        }
        Err(format!("call through {}", self.ety(fun)))
    }

    fn a(&mut self, args: &Args<'tcx>, i: usize) -> R {
        let (s, e) = &args[i];
        match e {
            Some(e) if s.is_empty() => self.ex(*e),
            _ => Ok(s.clone()),
        }
    }

    fn all(&mut self, args: &Args<'tcx>) -> Result<Vec<String>, String> {
        (0..args.len()).map(|i| self.a(args, i)).collect()
    }

    fn panic_(&mut self, ret: Ty<'tcx>) -> R {
        if ret.is_never() {
            return Ok("vpanic::<()>()".into());
        }
        let t = self.ty(ret)?;
        Ok(format!("vpanic::<{t}>()"))
    }

    /// Call of a function item.
    pub fn call_def(
        &mut self,
        d: DefId,
        g: GenericArgsRef<'tcx>,
        args: Args<'tcx>,
        tys: Vec<Ty<'tcx>>,
        ret: Ty<'tcx>,
    ) -> R {
        // constructors used as functions
        if let DefKind::Ctor(of, _) = self.tcx.def_kind(d) {
            let v = self.all(&args)?;
            let parent = self.tcx.parent(d);
            let adt = match of {
                CtorOf::Struct => parent,
                CtorOf::Variant => self.tcx.parent(parent),
            };
            if self.path(adt) == "std::borrow::Cow" {
                return Ok(v[0].clone());
            }
            if self.path(adt) == "quick_xml::Error" && v.len() == 1 {
                self.ty(ret)?;
                return Ok("xml_error()".into());
            }
            let def = self.tcx.adt_def(adt);
            let variant = match of {
                CtorOf::Struct => def.non_enum_variant(),
                CtorOf::Variant => def.variant_with_id(parent),
            };
            let path = if def.is_enum() { self.variant_path(def, variant)? } else { self.ty(ret)? };
            return Ok(format!("{path}({})", v.join(", ")));
        }
        let tp = self.path(d);
        // trait methods: resolve
        let mut d2 = d;
        let mut g2 = g;
        if !self.has_params(g) || self.tcx.trait_of_assoc(d).is_none() {
            if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(
                self.tcx,
                self.tyenv(),
                d,
                self.tcx.erase_and_anonymize_regions(g),
            ) {
                d2 = i.def_id();
                g2 = i.args;
            }
        } else if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(
            self.tcx,
            self.tyenv(),
            d,
            self.tcx.erase_and_anonymize_regions(g),
        ) {
            d2 = i.def_id();
            g2 = i.args;
        }
        let is_trait = self.tcx.trait_of_assoc(d).is_some();
        if d2.is_local() && !(is_trait && self.tcx.trait_of_assoc(d2).is_some()) {
            return self.local_call(d2, g2, args, tys, ret, &tp);
        }
        self.external(&tp, d2, g, args, tys, ret)
    }

    fn has_params(&self, g: GenericArgsRef<'tcx>) -> bool {
        use ty::TypeVisitableExt;
        g.has_param()
    }

    fn local_call(
        &mut self,
        d: DefId,
        g: GenericArgsRef<'tcx>,
        args: Args<'tcx>,
        tys: Vec<Ty<'tcx>>,
        ret: Ty<'tcx>,
        tp: &str,
    ) -> R {
        let p = self.path(d);
        if self.contracted.contains(&p) {
            let v = self.all(&args)?;
            self.out.calls.insert(p.clone());
            return Ok(format!("{}({})", mangle(&p), v.join(", ")));
        }
        let derived = self.tcx.impl_of_assoc(d).map(|i| self.tcx.is_automatically_derived(i)).unwrap_or(false);
        if derived {
            match tp {
                "std::clone::Clone::clone" => return self.a(&args, 0),
                "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" => {
                    let t = self.peel_ty(tys[0]);
                    if let ty::Adt(def, _) = t.kind() {
                        if def.is_enum() {
                            let v = self.all(&args)?;
                            let n = if tp.ends_with("ne") { "!" } else { "" };
                            return Ok(format!("({n}eq_any({}, {}))", v[0], v[1]));
                        }
                    }
                }
                _ => {}
            }
        }
        if tp == "std::cmp::PartialEq::ne" {
            return Err("ne".into());
        }
        if let ty::FnDef(..) = self.tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
        } else {
            return Err(format!("call of {p}"));
        }
        if self.stack.contains(&d) {
            return Err(format!("recursive call of {p} without contract"));
        }
        let l = d.as_local().unwrap();
        let v = self.all(&args)?;
        let (thir, root) = self.thir(l)?;
        self.out.inlined.insert(p);
        self.stack.push(d);
        let save = self.fr;
        self.insts += 1;
        let r = {
            self.fr = Frame { thir, owner: l, args: Some(g), inst: self.insts };
            self.inline_body(root, 0, v, tys)
        };
        self.fr = save;
        self.stack.pop();
        r
    }

    /// `{ let p = arg; ..; body }` in the current frame (skip: parameters without argument)
    fn inline_body(&mut self, root: ExprId, skip: usize, v: Vec<String>, _tys: Vec<Ty<'tcx>>) -> R {
        let thir = self.fr.thir;
        let mut pre = String::new();
        let mut v = v.into_iter();
        // evaluate the arguments before binding parameters (names are unique per instance
        // except for closures, whose parameters shadow)
        let mut tmp = vec![];
        for p in thir.params.iter().skip(skip) {
            let s = v.next().ok_or("arguments")?;
            tmp.push((p, s));
        }
        let many = tmp.len() > 1;
        let mut lets = String::new();
        for (p, s) in tmp {
            let t = self.mono(p.ty);
            let ts = self.ty(t)?;
            let s = if many {
                let n = self.fresh();
                let _ = write!(pre, "let {n}: {ts} = {s}; ");
                n
            } else {
                s
            };
            match &p.pat {
                Some(pat) => {
                    let q = self.pat(pat)?;
                    let _ = write!(lets, "let {q}: {ts} = {s}; ");
                }
                None => {
                    let _ = write!(lets, "let _: {ts} = {s}; ");
                }
            }
        }
        self.inlining += 1;
        let r = if self.has_return(root) {
            self.cps(root, &mut |_, s| Ok(s))
        } else {
            self.ex(root)
        };
        self.inlining -= 1;
        Ok(format!("{{ {pre}{lets}{} }}", r?))
    }

    /// Apply a callable expression to argument strings.
    pub fn apply(&mut self, f: ExprId, v: Vec<String>, tys: Vec<Ty<'tcx>>) -> R {
        let f = self.peel_refs(f);
        match &self.e(f).kind {
            ExprKind::VarRef { id } => {
                let key = (self.fr.inst, id.0);
                self.apply_var(key, v, tys)
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                let key = (self.fr.inst, var_hir_id.0);
                self.apply_var(key, v, tys)
            }
            ExprKind::Closure(c) => {
                let l = c.closure_id;
                let (thir, root) = self.thir(l)?;
                let save = self.fr;
                self.fr = Frame { thir, owner: l, args: save.args, inst: save.inst };
                let r = self.inline_body(root, 1, v, tys);
                self.fr = save;
                r
            }
            ExprKind::ZstLiteral { .. } => {
                let Some((d, g)) = self.fndef(f) else { return Err("callable".into()) };
                let ret = self.tcx.fn_sig(d).instantiate(self.tcx, g).skip_norm_wip().skip_binder().output();
                let ret = self.mono(ret);
                let a: Args<'tcx> = v.into_iter().map(|s| (s, None)).collect();
                self.call_def(d, g, a, tys, ret)
            }
            ExprKind::Call { fun, args, .. } => {
                let Some((d, g)) = self.fndef(*fun) else { return Err("callable".into()) };
                let p = self.path(d);
                if p.starts_with("nom::") {
                    return self.nom(&p, g, args, v);
                }
                Err(format!("function returned by {p}"))
            }
            k => Err(format!("callable {}", format!("{k:?}").chars().take(30).collect::<String>())),
        }
    }

    fn apply_var(&mut self, key: (usize, rustc_hir::HirId), v: Vec<String>, tys: Vec<Ty<'tcx>>) -> R {
        if let Some(p) = self.lifted.get(&key).cloned() {
            let s = format!("{}({})", mangle(&p), v.join(", "));
            self.out.calls.insert(p);
            return Ok(s);
        }
        let Some((c, fr)) = self.closures.get(&key).copied() else {
            return Err("call of a function parameter".into());
        };
        let save = self.fr;
        self.fr = fr;
        let r = self.apply(c, v, tys);
        self.fr = save;
        r
    }

    pub fn peel_ty(&self, mut t: Ty<'tcx>) -> Ty<'tcx> {
        loop {
            match t.kind() {
                ty::Ref(_, x, _) => t = *x,
                ty::Adt(d, a) => {
                    let p = self.path(d.did());
                    match p.as_str() {
                        "std::sync::Arc" | "std::boxed::Box" | "std::rc::Rc" | "std::borrow::Cow" => {
                            t = a.types().next().unwrap()
                        }
                        _ => return t,
                    }
                }
                _ => return t,
            }
        }
    }

    // ------------------------------------------------------------ formatting

    /// Decode the lowering of format_args!.
    fn parts(&mut self, id: ExprId) -> Result<Vec<Part>, String> {
        let mut id = self.peel_refs(id);
        let mut lets: Vec<ExprId> = vec![];
        loop {
            match &self.e(id).kind {
                ExprKind::Block { block } => {
                    let b = &self.fr.thir.blocks[*block];
                    for s in b.stmts.iter() {
                        match &self.fr.thir.stmts[*s].kind {
                            StmtKind::Let { initializer: Some(i), .. } => lets.push(self.peel_refs(*i)),
                            _ => return Err("format_args".into()),
                        }
                    }
                    id = self.peel_refs(b.expr.ok_or("format_args")?);
                }
                _ => break,
            }
        }
        let ExprKind::Call { fun, args, .. } = &self.e(id).kind else { return Err("format_args call".into()) };
        let Some((d, _)) = self.fndef(*fun) else { return Err("format_args fn".into()) };
        let p = self.path(d);
        if p.ends_with("::from_str") || p.ends_with("::from_str_nonconst") {
            let l = self.peel_refs(args[0]);
            if let ExprKind::Literal { lit, .. } = &self.e(l).kind {
                if let rustc_ast::LitKind::Str(s, _) = lit.node {
                    return Ok(vec![Part::Lit(s.to_string())]);
                }
            }
            return Err("format_args str".into());
        }
        if !p.ends_with("Arguments::new") {
            return Err(format!("format_args {p}"));
        }
        let l = self.peel_refs(args[0]);
        let bytes: Vec<u8> = match &self.e(l).kind {
            ExprKind::Literal { lit, .. } => match &lit.node {
                rustc_ast::LitKind::ByteStr(b, _) => b.as_byte_str().to_vec(),
                _ => return Err("format template".into()),
            },
            _ => return Err("format template".into()),
        };
        // arguments
        let mut list: Vec<Option<ExprId>> = vec![];
        let mut tuple: Option<Vec<ExprId>> = None;
        let mut arr: Option<ExprId> = None;
        for x in &lets {
            match &self.e(*x).kind {
                ExprKind::Tuple { fields } => tuple = Some(fields.to_vec()),
                ExprKind::Array { .. } => arr = Some(*x),
                _ => return Err("format args let".into()),
            }
        }
        if arr.is_none() {
            arr = Some(self.peel_refs(args[1]));
        }
        let ExprKind::Array { fields } = &self.e(arr.unwrap()).kind else { return Err("format args".into()) };
        for f in fields.iter() {
            let f = self.peel_refs(*f);
            let ExprKind::Call { fun, args, .. } = &self.e(f).kind else { return Err("format arg".into()) };
            let Some((d, _)) = self.fndef(*fun) else { return Err("format arg".into()) };
            let p = self.path(d);
            if p.ends_with("Argument::new_debug") {
                list.push(None);
                continue;
            }
            if !p.ends_with("Argument::new_display") {
                return Err(format!("format argument {p}"));
            }
            let mut a = self.peel_refs(args[0]);
            if let (ExprKind::Field { name, .. }, Some(t)) = (&self.e(a).kind, &tuple) {
                a = t[name.index()];
            }
            list.push(Some(a));
        }
        let mut out = vec![];
        let mut i = 0;
        let mut next = 0usize;
        let part = |e: Option<ExprId>| e.map_or(Part::Debug, Part::Disp);
        loop {
            let b = *bytes.get(i).ok_or("format template")?;
            i += 1;
            if b == 0 {
                break;
            }
            if b < 0x80 {
                let s = bytes.get(i..i + b as usize).ok_or("format template")?;
                i += b as usize;
                out.push(Part::Lit(String::from_utf8_lossy(s).into_owned()));
                continue;
            }
            if b == 0x80 {
                let n = u16::from_le_bytes([bytes[i], bytes[i + 1]]) as usize;
                i += 2;
                out.push(Part::Lit(String::from_utf8_lossy(&bytes[i..i + n]).into_owned()));
                i += n;
                continue;
            }
            if b == 0xC0 {
                out.push(part(*list.get(next).ok_or("format template")?));
                next += 1;
                continue;
            }
            if b == 0xC8 {
                let n = u16::from_le_bytes([bytes[i], bytes[i + 1]]) as usize;
                i += 2;
                out.push(part(*list.get(n).ok_or("format template")?));
                next = n + 1;
                continue;
            }
            return Err("format options".into());
        }
        Ok(out)
    }

    /// A block that is the lowering of `format!`: `{ let res = fmt::format(..); res }`
    pub fn fmt_block(&mut self, _b: BlockId) -> Result<Option<String>, String> {
        Ok(None)
    }

    /// Display::fmt(v, f): an expression of type Result<(), FmtError>
    fn display(&mut self, t: Ty<'tcx>, v: &str, f: &str) -> R {
        let ts = self.ty(t)?;
        match ts.as_str() {
            "Str" => return Ok(format!("fmt_str({f}, {v})")),
            "char" => return Ok(format!("fmt_char({f}, {v})")),
            "u8" | "u16" | "u32" | "u64" | "usize" => return Ok(format!("fmt_uint({f}, {v} as u64)")),
            _ => {}
        }
        let t = self.peel_ty(t);
        let tr = self.tcx.get_diagnostic_item(rustc_span::sym::Display).ok_or("Display")?;
        let m = self.tcx.associated_item_def_ids(tr)[0];
        let fm = self.fmt_ty()?;
        let args = self.tcx.mk_args(&[t.into()]);
        self.call_def(m, args, vec![(v.into(), None), (f.into(), None)], vec![t, fm], fm)
    }

    fn fmt_ty(&self) -> Result<Ty<'tcx>, String> {
        Ok(self.tcx.types.unit)
    }

    fn write_parts(&mut self, f: &str, parts: Vec<Part>) -> R {
        let mut calls = vec![];
        for p in parts {
            match p {
                Part::Lit(s) => {
                    let l = self.str_lit(&s);
                    calls.push(format!("fmt_str({f}, {l})"))
                }
                Part::Disp(e) => {
                    let t = self.ety(e);
                    let v = self.ex(e)?;
                    calls.push(self.display(t, &v, f)?);
                }
                Part::Debug => calls.push(format!("fmt_str({f}, debug_text())")),
            }
        }
        let mut out = "Ok(())".to_string();
        let mut first = true;
        for c in calls.into_iter().rev() {
            if first {
                out = c;
                first = false;
            } else {
                let n = self.fresh();
                out = format!("(match {c} {{ Ok(_) => {{ {out} }} Err({n}) => {{ Err({n}) }} }})");
            }
        }
        Ok(out)
    }

    fn format_(&mut self, parts: Vec<Part>) -> R {
        let b = self.fresh();
        let mut out = format!("{{ let mut {b} = fmt_new(); ");
        for p in parts {
            match p {
                Part::Lit(s) => {
                    let l = self.str_lit(&s);
                    let _ = write!(out, "buf_str(&mut {b}, {l}); ");
                }
                Part::Disp(e) => {
                    let t = self.ety(e);
                    let v = self.ex(e)?;
                    let s = self.buf(t, &v, &b)?;
                    out.push_str(&s);
                }
                Part::Debug => {
                    let _ = write!(out, "buf_str(&mut {b}, debug_text()); ");
                }
            }
        }
        Ok(format!("{out} fmt_finish({b}) }}"))
    }

    fn buf(&mut self, t: Ty<'tcx>, v: &str, b: &str) -> R {
        let ts = self.ty(t)?;
        Ok(match ts.as_str() {
            "Str" => format!("buf_str(&mut {b}, {v}); "),
            "char" => format!("buf_char(&mut {b}, {v}); "),
            "u8" | "u16" | "u32" | "u64" | "usize" => format!("buf_uint(&mut {b}, {v} as u64); "),
            _ => {
                let d = self.display(t, v, &format!("&mut {b}"))?;
                format!("match {d} {{ Ok(_) => {{ }} Err(_) => {{ vpanic::<()>() }} }} ")
            }
        })
    }

    // -------------------------------------------------------------- equality

    fn eq(&mut self, t: Ty<'tcx>, a: &str, b: &str) -> R {
        let t = self.peel_ty(t);
        let ts = self.ty(t)?;
        if ts == "Str" {
            return Ok(format!("str_eq({a}, {b})"));
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => return Ok(format!("({a} == {b})")),
            ty::Tuple(ts) if ts.is_empty() => return Ok("true".into()),
            ty::Slice(x) | ty::Array(x, _) if x.is_integral() => return Ok(format!("seq_eq({a}, {b})")),
            ty::Adt(def, g) => {
                let p = self.path(def.did());
                if p == "std::option::Option" {
                    let (x, y) = (self.fresh(), self.fresh());
                    let inner = self.eq(g.type_at(0), &x, &y)?;
                    return Ok(format!(
                        "(match ({a}, {b}) {{ (Some({x}), Some({y})) => {{ {inner} }} (None, None) => {{ true }} _ => {{ false }} }})"
                    ));
                }
                if p == "std::vec::Vec" && g.type_at(0).is_integral() {
                    return Ok(format!("seq_eq({a}, {b})"));
                }
                if def.did().is_local() {
                    let tr = self.tcx.lang_items().eq_trait().ok_or("PartialEq")?;
                    let m = self.tcx.associated_item_def_ids(tr)[0];
                    let args = self.tcx.mk_args(&[t.into(), t.into()]);
                    let bt = self.tcx.types.bool;
                    return self.call_def(m, args, vec![(a.into(), None), (b.into(), None)], vec![t, t], bt);
                }
            }
            _ => {}
        }
        Err(format!("equality on {t}"))
    }

    fn hash(&mut self, t: Ty<'tcx>, v: &str, st: &str, h: Ty<'tcx>) -> R {
        let t = self.peel_ty(t);
        let ts = self.ty(t)?;
        match ts.as_str() {
            "Str" => return Ok(format!("hasher_str({st}, {v})")),
            "u8" | "u16" | "u32" | "u64" | "usize" => return Ok(format!("hasher_uint({st}, {v} as u64)")),
            "isize" => return Ok(format!("hasher_int({st}, {v} as i64)")),
            _ => {}
        }
        if let ty::Adt(def, g) = t.kind() {
            let p = self.path(def.did());
            if p == "std::option::Option" {
                let x = self.fresh();
                let inner = self.hash(g.type_at(0), &x, st, h)?;
                return Ok(format!(
                    "(match {v} {{ Some({x}) => {{ hasher_uint({st}, 1u64); {inner} }} None => {{ hasher_uint({st}, 0u64) }} }})"
                ));
            }
            if def.did().is_local() {
                let tr = self.tcx.get_diagnostic_item(rustc_span::sym::Hash).ok_or("Hash")?;
                let m = self.tcx.associated_item_def_ids(tr)[0];
                let args = self.tcx.mk_args(&[t.into(), h.into()]);
                let u = self.tcx.types.unit;
                return self.call_def(m, args, vec![(v.into(), None), (st.into(), None)], vec![t, u], u);
            }
        }
        Err(format!("hash of {t}"))
    }

    fn default(&mut self, t: Ty<'tcx>) -> R {
        let ts = self.ty(t)?;
        Ok(match ts.as_str() {
            "Str" => "str_new()".into(),
            "bool" => "false".into(),
            "u8" | "u16" | "u32" | "u64" | "usize" => format!("0{ts}"),
            _ if ts.starts_with("SeqV<") => "seq_new()".into(),
            _ if ts.starts_with("MapV<") => "map_new()".into(),
            _ if ts.starts_with("Option<") => "None".into(),
            _ => match self.peel_ty(t).kind() {
                ty::Tuple(l) if l.len() > 1 => {
                    let mut v = vec![];
                    for x in l.iter() {
                        v.push(self.default(x)?);
                    }
                    format!("({})", v.join(", "))
                }
                _ => return Err(format!("default of {ts}")),
            },
        })
    }

    // --------------------------------------------------------------- regions

    fn is_closure(&self, e: ExprId) -> bool {
        let e = self.peel_refs(e);
        matches!(self.ety(e).kind(), ty::Closure(..) | ty::FnDef(..))
    }

    fn generic_ty(&self, t: Ty<'tcx>, i: usize) -> Ty<'tcx> {
        match t.kind() {
            ty::Adt(_, g) => g.types().nth(i).unwrap_or(self.tcx.types.unit),
            ty::Ref(_, x, _) => self.generic_ty(*x, i),
            _ => self.tcx.types.unit,
        }
    }

    // -------------------------------------------------------------- external

    fn external(
        &mut self,
        p: &str,
        d: DefId,
        g: GenericArgsRef<'tcx>,
        args: Args<'tcx>,
        tys: Vec<Ty<'tcx>>,
        ret: Ty<'tcx>,
    ) -> R {
        let unit = self.tcx.types.unit;
        let t0 = tys.first().map(|t| self.peel_ty(*t)).unwrap_or(unit);
        let k0 = if tys.is_empty() { String::new() } else { self.ty(t0).unwrap_or_default() };
        let rs = self.ty(ret).unwrap_or_default();
        macro_rules! pre {
            ($name:expr) => {{
                let v = self.all(&args)?;
                self.out.externals.insert(p.to_string());
                return Ok(format!("{}({})", $name, v.join(", ")));
            }};
        }
        // closure argument
        let f = |i: usize| args.get(i).and_then(|a| a.1);
        // ---- XML
        if k0 == "XmlText" && p == "std::ops::Deref::deref" {
            pre!("xml_text_bytes")
        }
        if let Some(m) = p.strip_prefix("quick_xml::") {
            match m.rsplit("::").next().unwrap() {
                "from_reader" => pre!("xml_reader"),
                "read_event_into" => {
                    let r = self.a(&args, 0)?;
                    self.out.externals.insert(p.to_string());
                    return Ok(format!("xml_next({r})"));
                }
                "name" if k0 == "XmlTag" => pre!("xml_name"),
                "attributes" if k0 == "XmlTag" => pre!("xml_attributes"),
                "into_inner" if k0 == "SeqV<u8>" => return self.a(&args, 0),
                _ => {}
            }
        }
        match p {
            "core::str::from_utf8" | "std::str::from_utf8" => pre!("str_from_utf8"),
            "std::io::Cursor::new" | "std::io::BufReader::new" => {
                let t = self.peel_ty(tys[0]);
                match self.ty(t)?.as_str() {
                    "Str" => pre!("xml_source_text"),
                    _ => pre!("xml_source_file"),
                }
            }
            "std::boxed::box_assume_init_into_vec_unsafe" | "std::slice::<impl [T]>::into_vec" => {
                // vec![..]
                let mut e = self.peel_refs(f(0).ok_or("vec!")?);
                loop {
                    match &self.e(e).kind {
                        ExprKind::Array { .. } => return self.ex(e),
                        ExprKind::Call { args, .. } if !args.is_empty() => e = self.peel_refs(args[args.len() - 1]),
                        _ => return Err("vec!".into()),
                    }
                }
            }
            "std::fs::File::open" => pre!("file_open"),
            "postcard::from_bytes" => pre!("postcard_from_bytes"),
            _ => {}
        }
        match p {
            // ---- panics
            "core::panicking::panic" | "core::panicking::panic_fmt" | "std::rt::panic_fmt"
            | "std::rt::begin_panic" | "core::panicking::panic_explicit"
            | "core::panicking::unreachable_display" | "core::panicking::panic_display" => {
                return self.panic_(ret);
            }
            // ---- identities
            "std::clone::Clone::clone" | "std::borrow::ToOwned::to_owned" | "std::borrow::Borrow::borrow"
            | "std::convert::AsRef::as_ref" | "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut"
            | "std::string::String::as_str" | "std::borrow::Cow::into_owned" | "std::option::Option::as_ref"
            | "std::result::Result::as_ref" | "std::option::Option::as_deref" | "std::option::Option::as_mut"
            | "std::option::Option::copied" | "std::option::Option::cloned" | "std::iter::Iterator::by_ref"
            | "std::iter::Iterator::copied" | "std::iter::Iterator::cloned" | "std::sync::Arc::new"
            | "std::boxed::Box::new" | "std::vec::Vec::as_slice" | "std::slice::<impl [T]>::to_vec"
            | "std::hint::must_use" | "std::fmt::__rustc_must_use" | "std::convert::identity"
            | "std::string::String::into_boxed_str" | "core::slice::<impl [T]>::to_vec"
            | "std::__export::must_use" | "alloc::__export::must_use" => {
                return self.a(&args, 0);
            }
            "std::convert::Into::into" => {
                let (a, b) = (tys[0], ret);
                let x = self.a(&args, 0)?;
                return self.convert(x, a, b);
            }
            "std::convert::From::from" => {
                let a = self.ty(tys[0])?;
                let x = self.a(&args, 0)?;
                if a == rs {
                    return Ok(x);
                }
                if let (ty::Uint(_), ty::Uint(_) | ty::Char) = (ret.kind(), t0.kind()) {
                    return Ok(format!("({x} as {rs})"));
                }
                if rs == "Str" && a == "char" {
                    return Ok(format!("str_of_char({x})"));
                }
                return Err(format!("conversion {} -> {}", tys[0], ret));
            }
            "std::convert::TryFrom::try_from" | "std::convert::TryInto::try_into" => {
                let a = self.ty(tys[0])?;
                let b = self.ty(self.generic_ty(ret, 0))?;
                pre!(format!("try_{b}_{a}"))
            }
            "std::string::ToString::to_string" => {
                let x = self.a(&args, 0)?;
                if k0 == "Str" {
                    return Ok(x);
                }
                let b = self.fresh();
                let s = self.buf(t0, &x, &b)?;
                return Ok(format!("{{ let mut {b} = fmt_new(); {s} fmt_finish({b}) }}"));
            }
            "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" => {
                let v = self.all(&args)?;
                let s = self.eq(tys[0], &v[0], &v[1])?;
                return Ok(if p.ends_with("ne") { format!("(!{s})") } else { s });
            }
            "std::cmp::PartialOrd::lt" | "std::cmp::PartialOrd::le" | "std::cmp::PartialOrd::gt"
            | "std::cmp::PartialOrd::ge"
                if t0.is_integral() || t0.is_char() =>
            {
                let v = self.all(&args)?;
                let o = match &p[p.len() - 2..] {
                    "lt" => "<",
                    "le" => "<=",
                    "gt" => ">",
                    _ => ">=",
                };
                return Ok(format!("({} {o} {})", v[0], v[1]));
            }
            "std::cmp::Ord::min" | "std::cmp::min" | "std::cmp::Ord::max" | "std::cmp::max"
                if t0.is_integral() =>
            {
                let v = self.all(&args)?;
                let (a, b) = (self.fresh(), self.fresh());
                let o = if p.ends_with("min") { "<=" } else { ">=" };
                return Ok(format!("{{ let {a} = {}; let {b} = {}; if {a} {o} {b} {{ {a} }} else {{ {b} }} }}", v[0], v[1]));
            }
            "std::hash::Hash::hash" => {
                let v = self.all(&args)?;
                let h = self.peel_ty(tys[1]);
                return self.hash(tys[0], &v[0], &v[1], h);
            }
            "std::default::Default::default" => return self.default(ret),
            "std::str::FromStr::from_str" | "core::str::<impl str>::parse" => {
                let x = self.a(&args, 0)?;
                let t = self.generic_ty(ret, 0);
                let ts = self.ty(t)?;
                match ts.as_str() {
                    "u8" | "u16" | "u32" | "u64" | "usize" => {
                        self.out.externals.insert(p.into());
                        return Ok(format!("str_parse_{ts}({x})"));
                    }
                    "bool" => {
                        self.out.externals.insert(p.into());
                        return Ok(format!("str_parse_bool({x})"));
                    }
                    "Str" => return Ok(format!("Ok({x})")),
                    _ => {}
                }
                let m = self.tcx.get_diagnostic_item(rustc_span::Symbol::intern("from_str_method")).ok_or("FromStr")?;
                let a = self.tcx.mk_args(&[t.into()]);
                if p == "std::str::FromStr::from_str" {
                    return Err("from_str".into());
                }
                return self.call_def(m, a, vec![(x, None)], vec![tys[0]], ret);
            }
            _ => {}
        }
        // ---- Option / Result / bool combinators
        if let Some(m) = p.strip_prefix("std::option::Option::") {
            if let Some(s) = self.option(m, &args, t0, ret)? {
                return Ok(s);
            }
        }
        if let Some(m) = p.strip_prefix("std::result::Result::") {
            if let Some(s) = self.result(m, &args, t0, ret)? {
                return Ok(s);
            }
        }
        if p.starts_with("std::ops::FromResidual") || p.starts_with("std::ops::Try") {
            return Err("? outside its desugaring".into());
        }
        match p {
            "core::bool::<impl bool>::then" | "std::primitive::bool::then" | "std::bool::<impl bool>::then" => {
                let c = self.a(&args, 0)?;
                let b = self.apply(f(1).ok_or("closure")?, vec![], vec![])?;
                return Ok(format!("(if {c} {{ Some({b}) }} else {{ None }})"));
            }
            "core::bool::<impl bool>::then_some" => {
                let v = self.all(&args)?;
                let n = self.fresh();
                return Ok(format!("{{ let {n} = {}; if {} {{ Some({n}) }} else {{ None }} }}", v[1], v[0]));
            }
            // ---- formatting
            "std::fmt::Formatter::write_fmt" | "std::fmt::Write::write_fmt" => {
                let s = self.a(&args, 0)?;
                let parts = self.parts(f(1).ok_or("write_fmt")?)?;
                if k0 != "Fmt" {
                    return Err("write_fmt".into());
                }
                return self.write_parts(&s, parts);
            }
            "std::fmt::Formatter::write_str" | "std::fmt::Write::write_str" if k0 == "Fmt" => pre!("fmt_str"),
            "std::fmt::Formatter::pad" => pre!("fmt_str"),
            "std::fmt::Write::write_char" if k0 == "Fmt" => pre!("fmt_char"),
            "std::fmt::format" | "alloc::fmt::format" => {
                let parts = self.parts(f(0).ok_or("format")?)?;
                return self.format_(parts);
            }
            "std::fmt::Display::fmt" => {
                let v = self.all(&args)?;
                return self.display(t0, &v[0], &v[1]);
            }
            // ---- slicing
            "std::ops::Index::index" => return self.index(&args, &tys, &k0),
            _ => {}
        }
        // ---- strings
        if k0 == "Str" {
            let m = p.rsplit("::").next().unwrap();
            let pat_suffix = |me: &mut Self, i: usize| -> R {
                let t = me.peel_ty(tys[i]);
                Ok(match me.ty(t) {
                    Ok(s) if s == "Str" => "".to_string(),
                    Ok(s) if s == "char" => "_char".to_string(),
                    _ => return Err(format!("pattern of type {t}")),
                })
            };
            match m {
                "len" => pre!("str_len"),
                "is_empty" => pre!("str_is_empty"),
                "starts_with" | "ends_with" | "contains" | "strip_prefix" | "strip_suffix"
                | "trim_start_matches" | "trim_end_matches" | "find" | "rfind" | "split_once" => {
                    let s = pat_suffix(self, 1)?;
                    if m == "contains" && s == "_char" {
                        let (l, c) = (self.a(&args, 0)?, self.a(&args, 1)?);
                        if crate::tr::lit_text(&l).is_some() {
                            self.out.externals.insert(p.into());
                            return Ok(format!("({{ let tc_ = {c}; {} }})", crate::tr::contains_char(&l, "tc_")));
                        }
                    }
                    pre!(format!("str_{m}{s}"))
                }
                "replace" | "replacen" => {
                    let s = pat_suffix(self, 1)?;
                    pre!(format!("str_{m}{s}"))
                }
                "trim" | "trim_start" | "trim_end" | "to_lowercase" | "to_uppercase"
                | "to_ascii_lowercase" | "to_ascii_uppercase" | "is_char_boundary" | "as_bytes"
                | "eq_ignore_ascii_case" | "push" | "push_str" | "pop" | "clear" | "truncate" | "get" => {
                    pre!(format!("str_{m}"))
                }
                "chars" => pre!("str_chars"),
                "split" => {
                    let s = pat_suffix(self, 1)?;
                    pre!(format!("str_split{s}"))
                }
                "char_indices" => pre!("str_char_indices"),
                "drain" => {
                    let v = self.a(&args, 0)?;
                    let r = self.peel_refs(f(1).ok_or("drain")?);
                    let ExprKind::Adt(a) = &self.e(r).kind else { return Err("drain range".into()) };
                    if self.path(a.adt_def.did()) != "std::ops::RangeTo" {
                        return Err("drain range".into());
                    }
                    let e = self.ex(a.fields[0].expr)?;
                    self.out.externals.insert(p.into());
                    return Ok(format!("str_drain_to({v}, {e})"));
                }
                "insert" | "insert_str" | "split_off" | "repeat" => pre!(format!("str_{m}")),
                _ => {}
            }
        }
        match p {
            "std::string::String::new" => pre!("str_new"),
            "std::string::String::with_capacity" => return Ok("str_new()".into()),
            "std::vec::Vec::new" => pre!("seq_new"),
            "std::vec::Vec::with_capacity" => return Ok("seq_new()".into()),
            "std::collections::HashMap::new" => pre!("map_new"),
            "std::iter::Iterator::collect" | "std::iter::Iterator::count" | "std::iter::Iterator::any"
            | "std::iter::Iterator::all" | "std::iter::Iterator::find" | "std::iter::Iterator::last"
            | "std::iter::Iterator::next" | "std::iter::Iterator::find_map"
            | "std::iter::Iterator::position" | "std::iter::Iterator::nth" => {
                return self.terminal(p, &args, &tys, ret);
            }
            "std::iter::IntoIterator::into_iter" => {
                let x = self.a(&args, 0)?;
                if k0.starts_with("SeqV<") {
                    return Ok(format!("seq_into_iter({x})"));
                }
                return Ok(x);
            }
            "std::iter::Iterator::skip" => {
                let (s, _) = self.chain(f(0).ok_or("skip")?)?;
                let n = self.a(&args, 1)?;
                return Ok(format!("it_skip({s}, {n})"));
            }
            "std::iter::Iterator::rev" => {
                let x = self.a(&args, 0)?;
                return Ok(format!("it_rev({x})"));
            }
            "std::iter::Iterator::flatten" => {
                let x = self.a(&args, 0)?;
                return Ok(format!("it_flatten({x})"));
            }
            "std::mem::take" => {
                let x = self.a(&args, 0)?;
                let dflt = self.default(ret)?;
                return Ok(format!("mem_replace({x}, {dflt})"));
            }
            "std::mem::replace" => pre!("mem_replace"),
            "std::mem::drop" => {
                let x = self.a(&args, 0)?;
                return Ok(format!("{{ let _ = {x}; }}"));
            }
            _ => {}
        }
        // ---- slices and vectors
        if k0.starts_with("SeqV<") {
            let m = p.rsplit("::").next().unwrap();
            match m {
                "len" | "is_empty" | "push" | "pop" | "insert" | "last" | "first" | "contains" | "iter"
                | "sort_unstable" | "sort" | "dedup" | "clear" | "extend_from_slice" | "get" | "reverse"
                | "binary_search" | "swap" | "remove" | "truncate" | "append" => {
                    pre!(format!("seq_{m}"))
                }
                "extend" => {
                    let s = self.a(&args, 0)?;
                    let t = self.ty(tys[1])?;
                    let x = self.a(&args, 1)?;
                    if t.starts_with("SeqV<") {
                        return Ok(format!("seq_extend_from_slice({s}, {x})"));
                    }
                    return Err("extend".into());
                }
                "retain" => {
                    let s = self.a(&args, 0)?;
                    let pl = s.trim_start_matches("&mut ").to_string();
                    let pl = if s.starts_with("&mut ") { pl } else { format!("(*{s})") };
                    let n = self.out.loops.len();
                    let mark = self.loop_mark("retain");
                    let et = self.elem_ty(t0);
                    let c = self.apply(f(1).ok_or("closure")?, vec![format!("x{n}")], vec![et])?;
                    return Ok(format!(
                        "{{ let ghost src{n} = {pl}@; let mut it{n} = seq_into_iter({pl}); let mut out{n} = seq_new(); {mark} {{ match it_next(&mut it{n}) {{ None => {{ break }} Some(x{n}) => {{ if {c} {{ seq_push(&mut out{n}, x{n}); }} }} }} }} /*@AFTER {n}@*/ {pl} = out{n}; }}"
                    ));
                }
                _ => {}
            }
        }
        if k0.starts_with("MapV<") {
            let m = p.rsplit("::").next().unwrap();
            match m {
                "get" | "insert" | "contains_key" | "len" | "is_empty" | "remove" | "values" | "keys" | "iter" => {
                    pre!(format!("map_{m}"))
                }
                "extend" => {
                    if !self.ty(tys[1])?.starts_with("It<") {
                        return Err("extend from another iterator".into());
                    }
                    pre!("map_extend")
                }
                _ => {}
            }
        }
        if p.starts_with("std::collections::hash_map::Entry::") {
            let m = p.rsplit("::").next().unwrap().to_string();
            let e = self.peel_refs(f(0).ok_or("entry")?);
            let ExprKind::Call { fun, args: ea, .. } = &self.e(e).kind else { return Err("entry".into()) };
            let Some((ed, _)) = self.fndef(*fun) else { return Err("entry".into()) };
            if self.path(ed) != "std::collections::HashMap::entry" {
                return Err("entry".into());
            }
            let (mv, kv) = (self.ex(ea[0])?, self.ex(ea[1])?);
            let inner = match ret.kind() {
                ty::Ref(_, t, _) => *t,
                _ => ret,
            };
            let dv = match m.as_str() {
                "or_insert_with" => {
                    let fe = f(1).ok_or("closure")?;
                    self.apply(fe, vec![], vec![])?
                }
                "or_insert" => self.a(&args, 1)?,
                "or_default" => self.default(inner)?,
                _ => return Err(format!("external function {p}")),
            };
            return Ok(format!("map_entry_or({mv}, {kv}, {dv})"));
        }
        // ---- characters and integers
        if t0.is_char() {
            let m = p.rsplit("::").next().unwrap();
            match m {
                "is_ascii_digit" | "is_alphanumeric" | "is_alphabetic" | "is_numeric" | "is_whitespace"
                | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii_hexdigit" | "is_ascii"
                | "to_digit" | "is_digit" | "len_utf8" | "to_ascii_lowercase" | "to_ascii_uppercase"
                | "is_ascii_uppercase" | "is_ascii_lowercase" => pre!(format!("char_{m}")),
                "is_dec_digit" => pre!("char_is_ascii_digit"),
                "is_hex_digit" => pre!("char_is_ascii_hexdigit"),
                "is_alphanum" => pre!("char_is_ascii_alphanumeric"),
                "is_alpha" => pre!("char_is_ascii_alphabetic"),
                "as_char" => return self.a(&args, 0),
                _ => {}
            }
        }
        if p.starts_with("nom::AsChar::") || p.starts_with("nom::traits::AsChar::") {
            let m = p.rsplit("::").next().unwrap();
            match m {
                "is_dec_digit" => pre!("char_is_ascii_digit"),
                "is_hex_digit" => pre!("char_is_ascii_hexdigit"),
                "is_alphanum" => pre!("char_is_ascii_alphanumeric"),
                "is_alpha" => pre!("char_is_ascii_alphabetic"),
                "as_char" => return self.a(&args, 0),
                _ => {}
            }
        }
        if t0.is_integral() {
            let m = p.rsplit("::").next().unwrap();
            match m {
                "checked_add" | "checked_sub" | "checked_mul" | "saturating_sub" | "saturating_add"
                | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "pow" | "checked_pow" | "abs_diff" => {
                    pre!(format!("{k0}_{m}"))
                }
                _ => {}
            }
        }
        // ---- ranges
        if p == "std::ops::RangeInclusive::new" {
            let v = self.all(&args)?;
            return Ok(format!("RangeInc {{ start: {}, end: {}, done: false }}", v[0], v[1]));
        }
        if p == "std::ops::Range::contains" || p == "std::ops::RangeInclusive::contains" {
            let r = self.peel_refs(f(0).ok_or("range")?);
            let x = self.a(&args, 1)?;
            let (lo, hi, op) = match &self.e(r).kind {
                ExprKind::Adt(a) => (a.fields[0].expr, a.fields[1].expr, "<"),
                ExprKind::Call { args, .. } => (args[0], args[1], "<="),
                _ => return Err("range".into()),
            };
            let (a, b) = (self.ex(lo)?, self.ex(hi)?);
            let n = self.fresh();
            return Ok(format!("{{ let {n} = {x}; ({a} <= {n} && {n} {op} {b}) }}"));
        }
        // ---- regex
        let pr = p.strip_prefix("regex::").unwrap_or("");
        match pr {
            "Regex::new" => pre!("regex_new"),
            "Regex::find" | "Regex::is_match" | "Regex::captures" | "Regex::captures_len" | "Regex::as_str" => {
                pre!(format!("regex_{}", &pr[7..]))
            }
            "Regex::replace" | "Regex::replace_all" => {
                let t = self.peel_ty(tys[2]);
                if self.ty(t)? != "Str" {
                    return Err("regex replacement".into());
                }
                pre!(format!("regex_{}", &pr[7..]))
            }
            "Match::start" | "Match::end" | "Match::as_str" => pre!(format!("match_{}", &pr[7..])),
            "Captures::get" | "Captures::len" | "Captures::iter" => pre!(format!("captures_{}", &pr[10..])),
            "RegexBuilder::new" => pre!("rb_new"),
            "RegexBuilder::ignore_whitespace" | "RegexBuilder::case_insensitive" | "RegexBuilder::build" => {
                let v = self.all(&args)?;
                let m = pr.rsplit("::").next().unwrap();
                let x = v[0].trim_start_matches("&mut ").to_string();
                let rest = if v.len() > 1 { format!(", {}", v[1]) } else { String::new() };
                return Ok(format!("rb_{m}({x}{rest})"));
            }
            _ => {}
        }
        if p == "nom::error::make_error" {
            return Ok("nom_error()".into());
        }
        if p.starts_with("std::panicking") || p.starts_with("core::panicking") {
            return self.panic_(ret);
        }
        let _ = (d, g);
        Err(format!("external function {p}"))
    }

    fn elem_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        match t.kind() {
            ty::Slice(x) | ty::Array(x, _) => *x,
            ty::Ref(_, x, _) => self.elem_ty(*x),
            ty::Adt(_, g) => g.types().next().unwrap_or(self.tcx.types.unit),
            _ => self.tcx.types.unit,
        }
    }

    fn index(&mut self, args: &Args<'tcx>, tys: &[Ty<'tcx>], k0: &str) -> R {
        let pfx = if k0 == "Str" {
            "str"
        } else if k0.starts_with("SeqV<") {
            "seq"
        } else if k0.starts_with("MapV<") {
            let v = self.all(args)?;
            return Ok(format!("map_index({}, {})", v[0], v[1]));
        } else {
            return Err(format!("index of {k0}"));
        };
        let x = self.a(args, 0)?;
        if tys[1].is_integral() {
            let i = self.a(args, 1)?;
            return Ok(format!("seq_index({x}, {i})"));
        }
        let r = self.peel_refs(args[1].1.ok_or("index")?);
        match &self.e(r).kind {
            ExprKind::Adt(a) => {
                let rp = self.path(a.adt_def.did());
                match rp.as_str() {
                    "std::ops::RangeFrom" => {
                        let s = self.ex(a.fields[0].expr)?;
                        Ok(format!("{pfx}_from({x}, {s})"))
                    }
                    "std::ops::RangeTo" => {
                        let s = self.ex(a.fields[0].expr)?;
                        Ok(format!("{pfx}_to({x}, {s})"))
                    }
                    "std::ops::Range" => {
                        let mut v = vec![String::new(); 2];
                        for f in a.fields.iter() {
                            v[f.name.index()] = self.ex(f.expr)?;
                        }
                        Ok(format!("{pfx}_range({x}, {}, {})", v[0], v[1]))
                    }
                    "std::ops::RangeFull" => Ok(x),
                    _ => Err(format!("index {rp}")),
                }
            }
            _ => Err("index".into()),
        }
    }

    fn option(&mut self, m: &str, args: &Args<'tcx>, t0: Ty<'tcx>, ret: Ty<'tcx>) -> Result<Option<String>, String> {
        let inner = self.generic_ty(t0, 0);
        let f = |i: usize| args.get(i).and_then(|a| a.1).ok_or("closure".to_string());
        let v = self.fresh();
        let vs = vec![v.clone()];
        let o = self.a(args, 0)?;
        Ok(Some(match m {
            "map" => {
                let c = self.apply(f(1)?, vs, vec![inner])?;
                format!("(match {o} {{ Some({v}) => {{ Some({c}) }} None => {{ None }} }})")
            }
            "and_then" => {
                let c = self.apply(f(1)?, vs, vec![inner])?;
                format!("(match {o} {{ Some({v}) => {{ {c} }} None => {{ None }} }})")
            }
            "or_else" => {
                let c = self.apply(f(1)?, vec![], vec![])?;
                format!("(match {o} {{ Some({v}) => {{ Some({v}) }} None => {{ {c} }} }})")
            }
            "unwrap_or" | "or" | "and" | "ok_or" => {
                let b = self.a(args, 1)?;
                let (x, d) = (self.fresh(), self.fresh());
                let e = match m {
                    "unwrap_or" => format!("Some({v}) => {{ {v} }} None => {{ {d} }}"),
                    "or" => format!("Some({v}) => {{ Some({v}) }} None => {{ {d} }}"),
                    "and" => format!("Some(_) => {{ {d} }} None => {{ None }}"),
                    _ => format!("Some({v}) => {{ Ok({v}) }} None => {{ Err({d}) }}"),
                };
                format!("{{ let {x} = {o}; let {d} = {b}; match {x} {{ {e} }} }}")
            }
            "unwrap_or_else" => {
                let c = self.apply(f(1)?, vec![], vec![])?;
                format!("(match {o} {{ Some({v}) => {{ {v} }} None => {{ {c} }} }})")
            }
            "unwrap_or_default" => {
                let c = self.default(ret)?;
                format!("(match {o} {{ Some({v}) => {{ {v} }} None => {{ {c} }} }})")
            }
            "ok_or_else" => {
                let c = self.apply(f(1)?, vec![], vec![])?;
                format!("(match {o} {{ Some({v}) => {{ Ok({v}) }} None => {{ Err({c}) }} }})")
            }
            "map_or" => {
                let b = self.a(args, 1)?;
                let c = self.apply(f(2)?, vs, vec![inner])?;
                let (x, d) = (self.fresh(), self.fresh());
                format!("{{ let {x} = {o}; let {d} = {b}; match {x} {{ Some({v}) => {{ {c} }} None => {{ {d} }} }} }}")
            }
            "map_or_else" => {
                let b = self.apply(f(1)?, vec![], vec![])?;
                let c = self.apply(f(2)?, vs, vec![inner])?;
                format!("(match {o} {{ Some({v}) => {{ {c} }} None => {{ {b} }} }})")
            }
            "filter" => {
                let c = self.apply(f(1)?, vs, vec![inner])?;
                format!("(match {o} {{ Some({v}) => {{ if {c} {{ Some({v}) }} else {{ None }} }} None => {{ None }} }})")
            }
            "is_some_and" => {
                let c = self.apply(f(1)?, vs, vec![inner])?;
                format!("(match {o} {{ Some({v}) => {{ {c} }} None => {{ false }} }})")
            }
            "is_none_or" => {
                let c = self.apply(f(1)?, vs, vec![inner])?;
                format!("(match {o} {{ Some({v}) => {{ {c} }} None => {{ true }} }})")
            }
            "is_some" => format!("(match {o} {{ Some(_) => {{ true }} None => {{ false }} }})"),
            "is_none" => format!("(match {o} {{ Some(_) => {{ false }} None => {{ true }} }})"),
            "unwrap" | "expect" => {
                let t = self.ty(ret)?;
                format!("(match {o} {{ Some({v}) => {{ {v} }} None => {{ vpanic::<{t}>() }} }})")
            }
            "transpose" => {
                let x = self.fresh();
                format!("(match {o} {{ Some(Ok({v})) => {{ Ok(Some({v})) }} Some(Err({x})) => {{ Err({x}) }} None => {{ Ok(None) }} }})")
            }
            "flatten" => format!("(match {o} {{ Some({v}) => {{ {v} }} None => {{ None }} }})"),
            "take" => {
                let p = o.trim_start_matches("&mut ").to_string();
                if !o.starts_with("&mut ") {
                    return Err("take".into());
                }
                format!("{{ let {v} = {p}; {p} = None; {v} }}")
            }
            _ => return Ok(None),
        }))
    }

    fn result(&mut self, m: &str, args: &Args<'tcx>, t0: Ty<'tcx>, ret: Ty<'tcx>) -> Result<Option<String>, String> {
        let (ok, er) = (self.generic_ty(t0, 0), self.generic_ty(t0, 1));
        let f = |i: usize| args.get(i).and_then(|a| a.1).ok_or("closure".to_string());
        let v = self.fresh();
        let x = self.fresh();
        let o = self.a(args, 0)?;
        Ok(Some(match m {
            "map" => {
                let c = self.apply(f(1)?, vec![v.clone()], vec![ok])?;
                format!("(match {o} {{ Ok({v}) => {{ Ok({c}) }} Err({x}) => {{ Err({x}) }} }})")
            }
            "map_err" => {
                let c = self.apply(f(1)?, vec![x.clone()], vec![er])?;
                format!("(match {o} {{ Ok({v}) => {{ Ok({v}) }} Err({x}) => {{ Err({c}) }} }})")
            }
            "and_then" => {
                let c = self.apply(f(1)?, vec![v.clone()], vec![ok])?;
                format!("(match {o} {{ Ok({v}) => {{ {c} }} Err({x}) => {{ Err({x}) }} }})")
            }
            "or_else" => {
                let c = self.apply(f(1)?, vec![x.clone()], vec![er])?;
                format!("(match {o} {{ Ok({v}) => {{ Ok({v}) }} Err({x}) => {{ {c} }} }})")
            }
            "or" | "unwrap_or" => {
                let b = self.a(args, 1)?;
                let (s, d) = (self.fresh(), self.fresh());
                let okk = if m == "or" { format!("Ok({v})") } else { v.clone() };
                format!("{{ let {s} = {o}; let {d} = {b}; match {s} {{ Ok({v}) => {{ {okk} }} Err(_) => {{ {d} }} }} }}")
            }
            "unwrap_or_else" => {
                let c = self.apply(f(1)?, vec![x.clone()], vec![er])?;
                format!("(match {o} {{ Ok({v}) => {{ {v} }} Err({x}) => {{ {c} }} }})")
            }
            "unwrap_or_default" => {
                let c = self.default(ret)?;
                format!("(match {o} {{ Ok({v}) => {{ {v} }} Err(_) => {{ {c} }} }})")
            }
            "map_or" => {
                let b = self.a(args, 1)?;
                let c = self.apply(f(2)?, vec![v.clone()], vec![ok])?;
                let (s, d) = (self.fresh(), self.fresh());
                format!("{{ let {s} = {o}; let {d} = {b}; match {s} {{ Ok({v}) => {{ {c} }} Err(_) => {{ {d} }} }} }}")
            }
            "ok" => format!("(match {o} {{ Ok({v}) => {{ Some({v}) }} Err(_) => {{ None }} }})"),
            "err" => format!("(match {o} {{ Ok(_) => {{ None }} Err({x}) => {{ Some({x}) }} }})"),
            "is_ok" => format!("(match {o} {{ Ok(_) => {{ true }} Err(_) => {{ false }} }})"),
            "is_err" => format!("(match {o} {{ Ok(_) => {{ false }} Err(_) => {{ true }} }})"),
            "is_ok_and" => {
                let c = self.apply(f(1)?, vec![v.clone()], vec![ok])?;
                format!("(match {o} {{ Ok({v}) => {{ {c} }} Err(_) => {{ false }} }})")
            }
            "unwrap" | "expect" => {
                let t = self.ty(ret)?;
                format!("(match {o} {{ Ok({v}) => {{ {v} }} Err(_) => {{ vpanic::<{t}>() }} }})")
            }
            _ => return Ok(None),
        }))
    }

    // -------------------------------------------------------------- iterators

    /// An iterator expression: (source expression of type It<T>/CharIndices/Range, stages)
    fn chain(&mut self, e: ExprId) -> Result<(String, String), String> {
        let s = self.ex(e)?;
        let t = self.ety(e);
        let ts = self.ty(t)?;
        Ok((s, ts))
    }

    pub fn stages(&mut self, e: ExprId) -> (ExprId, Vec<(String, ExprId)>) {
        // adapters with closures, outermost last
        let mut id = self.peel_refs(e);
        let mut v = vec![];
        loop {
            if let ExprKind::Call { fun, args, .. } = &self.e(id).kind {
                if let Some((d, _)) = self.fndef(*fun) {
                    let p = self.path(d);
                    match p.as_str() {
                        "std::iter::Iterator::map" | "std::iter::Iterator::filter"
                        | "std::iter::Iterator::take_while" | "std::iter::Iterator::filter_map" => {
                            v.push((p.rsplit("::").next().unwrap().to_string(), args[1]));
                            id = self.peel_refs(args[0]);
                            continue;
                        }
                        _ => {}
                    }
                }
            }
            break;
        }
        v.reverse();
        (id, v)
    }

    pub fn item_ty(&mut self, t: Ty<'tcx>) -> Ty<'tcx> {
        // <t as Iterator>::Item
        let tr = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator).unwrap();
        let item = self
            .tcx
            .associated_item_def_ids(tr)
            .iter()
            .copied()
            .find(|m| matches!(self.tcx.def_kind(*m), DefKind::AssocTy))
            .unwrap();
        let t = self.strip_mut(t);
        let p = Ty::new_projection(self.tcx, ty::IsRigid::No, item, [t]);
        match self.tcx.try_normalize_erasing_regions(self.tyenv(), ty::Unnormalized::new_wip(p)) {
            Ok(t) => t,
            Err(_) => self.tcx.types.unit,
        }
    }

    fn strip_mut(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        match t.kind() {
            ty::Ref(_, x, _) => self.strip_mut(*x),
            _ => t,
        }
    }

    fn terminal(&mut self, p: &str, args: &Args<'tcx>, tys: &[Ty<'tcx>], ret: Ty<'tcx>) -> R {
        let m = p.rsplit("::").next().unwrap();
        let src = match args[0].1 {
            Some(e) => e,
            None => return Err("iterator".into()),
        };
        let (base, stages) = self.stages(src);
        let bt = self.ety(base);
        let bts = self.ty(self.strip_mut(bt))?;
        let f = if bts.starts_with("RangeV") {
            "range_next"
        } else if bts.starts_with("RangeInc") {
            "range_inc_next"
        } else if bts.starts_with("CharIndices") {
            "char_indices_next"
        } else {
            "it_next"
        };
        let rs = self.ty(ret)?;
        if stages.is_empty() {
            match m {
                "next" => {
                    let s = self.ex(src)?;
                    if s.starts_with("&mut ") || matches!(tys[0].kind(), ty::Ref(_, x, _) if x.is_ref()) {
                        // by value of a mutable reference or a place
                    }
                    let inner = s.trim_start_matches("&mut ");
                    let is_place = s.starts_with("&mut ")
                        && inner.chars().all(|c| c.is_alphanumeric() || "_.*()".contains(c))
                        && !inner.contains("()")
                        && !inner.ends_with(')');
                    if is_place || !s.starts_with("&mut ") {
                        return Ok(format!("{f}({s})"));
                    }
                    let n = self.fresh();
                    return Ok(format!("{{ let mut {n} = {inner}; {f}(&mut {n}) }}"));
                }
                "last" if f == "it_next" => return Ok(format!("it_last({})", self.ex(src)?)),
                "count" if f == "it_next" => return Ok(format!("it_count({})", self.ex(src)?)),
                "nth" if f == "it_next" => {
                    let s = self.ex(src)?;
                    let n = self.a(args, 1)?;
                    let inner = s.trim_start_matches("&mut ").to_string();
                    let t = self.fresh();
                    return Ok(format!("{{ let mut {t} = {inner}; it_nth(&mut {t}, {n}) }}"));
                }
                "collect" if rs.starts_with("SeqV<") && f == "it_next" => {
                    return Ok(format!("it_collect({})", self.ex(src)?));
                }
                "collect" if rs.starts_with("MapV<") && f == "it_next" => {
                    return Ok(format!("map_from_iter({})", self.ex(src)?));
                }
                "collect" if rs == "Str" && bts == "It<char>" => {
                    return Ok(format!("str_from_chars({})", self.ex(src)?));
                }
                _ => {}
            }
        }
        // identity maps
        if m == "collect" && f == "it_next" && rs == format!("SeqV<{}>", bts.trim_start_matches("It<").trim_end_matches('>')) || m == "collect" && f == "it_next" && bts == rs.replacen("SeqV<", "It<", 1) {
            let mut ident = true;
            for (k, c) in &stages {
                let it = self.item_ty(bt);
                let save = self.fresh;
                let r = if k == "map" { self.apply(*c, vec!["@".into()], vec![it]) } else { Err(String::new()) };
                self.fresh = save;
                if !r.is_ok_and(|r| is_identity(&r)) {
                    ident = false;
                }
            }
            if ident {
                return Ok(format!("it_collect({})", self.ex(base)?));
            }
        }
        // general: a loop over the source, the stages inlined
        let n = self.out.loops.len();
        let s = self.ex(base)?;
        let inner = s.trim_start_matches("&mut ").to_string();
        let kinds: Vec<&str> = stages.iter().map(|(k, _)| k.as_str()).collect();
        let kind = format!("iter {} {}", kinds.join("+"), m);
        let mark = self.loop_mark(kind.trim());
        let by_ref = s.starts_with("&mut ");
        let (decl, it) = if by_ref {
            (String::new(), inner)
        } else {
            (format!("let mut it{n} = {s}; "), format!("it{n}"))
        };
        let item = self.item_ty(bt);
        let (mut open, cur, mut close, cur_t) = self.stage_code_t(n, &stages, item)?;
        let fe = args.get(1).and_then(|a| a.1);
        let (init, body) = match m {
            "count" => (format!("let mut res{n}: usize = 0usize; "), format!("res{n} = count_up(res{n});")),
            "any" | "all" => {
                let c = self.apply(fe.ok_or("closure")?, vec![cur.clone()], vec![cur_t])?;
                if m == "any" {
                    ("let mut res@: bool = false; ".replace('@', &n.to_string()), format!("if {c} {{ res{n} = true; break }}"))
                } else {
                    ("let mut res@: bool = true; ".replace('@', &n.to_string()), format!("if {c} {{ }} else {{ res{n} = false; break }}"))
                }
            }
            "find" => {
                let c = self.apply(fe.ok_or("closure")?, vec![cur.clone()], vec![cur_t])?;
                (format!("let mut res{n}: {rs} = None; "), format!("if {c} {{ res{n} = Some({cur}); break }}"))
            }
            "find_map" => {
                let c = self.apply(fe.ok_or("closure")?, vec![cur.clone()], vec![cur_t])?;
                (
                    format!("let mut res{n}: {rs} = None; "),
                    format!("match {c} {{ Some(y{n}) => {{ res{n} = Some(y{n}); break }} None => {{ }} }}"),
                )
            }
            "next" => (format!("let mut res{n}: {rs} = None; "), format!("res{n} = Some({cur}); break")),
            "collect" if rs.starts_with("SeqV<") => {
                (format!("let mut res{n}: {rs} = seq_new(); "), format!("seq_push(&mut res{n}, {cur});"))
            }
            "collect" if rs == "Str" && cur_t.is_char() => {
                (format!("let mut res{n}: Str = str_new(); "), format!("str_push(&mut res{n}, {cur});"))
            }
            "collect" if rs.starts_with("Result<SeqV<") => {
                let t = self.ty(self.generic_ty(ret, 0))?;
                let et = self.ty(self.generic_ty(ret, 1))?;
                let _ = write!(open, "match {cur} {{ Err(e{n}) => {{ err{n} = Some(e{n}); break }} Ok(y{n}) => {{ ");
                close = format!(" }} }}{close}");
                let init = format!("let mut acc{n}: {t} = seq_new(); let mut err{n}: Option<{et}> = None; ");
                let body = format!("seq_push(&mut acc{n}, y{n});");
                return Ok(format!(
                    "{{ {decl}{init}{mark} {{ match {f}(&mut {it}) {{ None => {{ break }} Some(x{n}) => {{ {open}{body}{close} }} }} }} /*@AFTER {n}@*/ match err{n} {{ Some(e{n}) => {{ Err(e{n}) }} None => {{ Ok(acc{n}) }} }} }}"
                ));
            }
            _ => return Err(format!("iterator {m} into {rs}")),
        };
        Ok(format!(
            "{{ {decl}{init}{mark} {{ match {f}(&mut {it}) {{ None => {{ break }} Some(x{n}) => {{ {open}{body}{close} }} }} }} /*@AFTER {n}@*/ res{n} }}"
        ))
    }

    pub fn stage_code(&mut self, n: usize, stages: &[(String, ExprId)], item: Ty<'tcx>) -> Result<(String, String, String), String> {
        let (o, c, cl, _) = self.stage_code_t(n, stages, item)?;
        Ok((o, c, cl))
    }

    /// The adapters of an iterator chain around the body of a loop over its
    /// source: (opening code, variable with the item, closing code, its type).
    fn stage_code_t(&mut self, n: usize, stages: &[(String, ExprId)], item: Ty<'tcx>) -> Result<(String, String, String, Ty<'tcx>), String> {
        let mut cur = format!("x{n}");
        let mut cur_t = item;
        let mut open = String::new();
        let mut close = String::new();
        for (i, (k, c)) in stages.iter().enumerate() {
            match k.as_str() {
                "map" => {
                    let b = self.apply(*c, vec![cur.clone()], vec![cur_t])?;
                    let nn = format!("x{n}_{i}");
                    let _ = write!(open, "let {nn} = {b}; ");
                    cur = nn;
                    cur_t = self.closure_ret(*c);
                }
                "filter" => {
                    let b = self.apply(*c, vec![cur.clone()], vec![cur_t])?;
                    let _ = write!(open, "if {b} {{ ");
                    close.push_str(" }");
                }
                "filter_map" => {
                    let b = self.apply(*c, vec![cur.clone()], vec![cur_t])?;
                    let nn = format!("x{n}_{i}");
                    let _ = write!(open, "match {b} {{ None => {{ }} Some({nn}) => {{ ");
                    close.push_str(" } }");
                    cur = nn;
                    let t = self.closure_ret(*c);
                    cur_t = self.generic_ty(t, 0);
                }
                "take_while" => {
                    let b = self.apply(*c, vec![cur.clone()], vec![cur_t])?;
                    let _ = write!(open, "if {b} {{ ");
                    close.push_str(" } else { break }");
                }
                _ => unreachable!(),
            }
        }
        Ok((open, cur, close, cur_t))
    }

    pub fn closure_ret(&self, c: ExprId) -> Ty<'tcx> {
        let c = self.peel_refs(c);
        match self.ety(c).kind() {
            ty::Closure(_, a) => {
                let s = a.as_closure().sig().skip_binder();
                self.mono(s.output())
            }
            ty::FnDef(d, g) => {
                let r = self
                    .tcx
                    .fn_sig(*d)
                    .instantiate(self.tcx, g.skip_binder())
                    .skip_norm_wip()
                    .skip_binder()
                    .output();
                self.mono(r)
            }
            _ => self.tcx.types.unit,
        }
    }

    // -------------------------------------------------------------------- nom

    fn nom(&mut self, p: &str, _g: GenericArgsRef<'tcx>, ca: &[ExprId], v: Vec<String>) -> R {
        let m = p.rsplit("::").next().unwrap();
        let i = self.fresh();
        let st = vec![self.tcx.types.str_];
        let input = v[0].clone();
        let (r, o) = (self.fresh(), self.fresh());
        let x = self.fresh();
        self.out.externals.insert(p.to_string());
        let body = match m {
            "alt" => {
                let t = self.peel_refs(ca[0]);
                let ExprKind::Tuple { fields } = &self.e(t).kind else { return Err("alt".into()) };
                let fields: Vec<ExprId> = fields.to_vec();
                let mut parts = vec![];
                for f in &fields {
                    parts.push(self.apply(*f, vec![i.clone()], st.clone())?);
                }
                let mut out = "Err(NomErr::Error(nom_error()))".to_string();
                for q in parts.into_iter().rev() {
                    let y = self.fresh();
                    out = format!(
                        "(match {q} {{ Err(NomErr::Error(_)) => {{ {out} }} {y} => {{ {y} }} }})"
                    );
                }
                out
            }
            "opt" => {
                let q = self.apply(ca[0], vec![i.clone()], st)?;
                format!(
                    "(match {q} {{ Ok(({r}, {o})) => {{ Ok(({r}, Some({o}))) }} Err(NomErr::Error(_)) => {{ Ok(({i}, None)) }} Err({x}) => {{ Err({x}) }} }})"
                )
            }
            "recognize" => {
                let q = self.apply(ca[0], vec![i.clone()], st)?;
                format!(
                    "(match {q} {{ Ok(({r}, _)) => {{ Ok(({r}, str_consumed({i}, {r}))) }} Err({x}) => {{ Err({x}) }} }})"
                )
            }
            "map" => {
                let q = self.apply(ca[0], vec![i.clone()], st)?;
                let ot = self.tcx.types.unit;
                let c = self.apply(ca[1], vec![o.clone()], vec![ot])?;
                format!("(match {q} {{ Ok(({r}, {o})) => {{ Ok(({r}, {c})) }} Err({x}) => {{ Err({x}) }} }})")
            }
            "value" => {
                let q = self.apply(ca[1], vec![i.clone()], st)?;
                let c = self.ex(ca[0])?;
                format!("(match {q} {{ Ok(({r}, _)) => {{ Ok(({r}, {c})) }} Err({x}) => {{ Err({x}) }} }})")
            }
            "preceded" | "terminated" | "pair" => {
                let q = self.apply(ca[0], vec![i.clone()], st.clone())?;
                let (r2, o2) = (self.fresh(), self.fresh());
                let q2 = self.apply(ca[1], vec![r.clone()], st)?;
                let res = match m {
                    "preceded" => o2.clone(),
                    "terminated" => o.clone(),
                    _ => format!("({o}, {o2})"),
                };
                format!("(match {q} {{ Ok(({r}, {o})) => {{ match {q2} {{ Ok(({r2}, {o2})) => {{ Ok(({r2}, {res})) }} Err({x}) => {{ Err({x}) }} }} }} Err({x}) => {{ Err({x}) }} }})")
            }
            "one_of" | "none_of" => {
                let l = self.ex(ca[0])?;
                let n = if m == "one_of" { "" } else { "!" };
                let cc = crate::tr::contains_char(&l, &o);
                format!("(match str_uncons({i}) {{ Some(({r}, {o})) => {{ if {n}{cc} {{ Ok(({r}, {o})) }} else {{ Err(NomErr::Error(nom_error())) }} }} None => {{ Err(NomErr::Error(nom_error())) }} }})")
            }
            "char" => {
                let l = self.ex(ca[0])?;
                format!("(match str_uncons({i}) {{ Some(({r}, {o})) => {{ if {o} == {l} {{ Ok(({r}, {o})) }} else {{ Err(NomErr::Error(nom_error())) }} }} None => {{ Err(NomErr::Error(nom_error())) }} }})")
            }
            "satisfy" => {
                let c = self.apply(ca[0], vec![o.clone()], vec![self.tcx.types.char])?;
                format!("(match str_uncons({i}) {{ Some(({r}, {o})) => {{ if {c} {{ Ok(({r}, {o})) }} else {{ Err(NomErr::Error(nom_error())) }} }} None => {{ Err(NomErr::Error(nom_error())) }} }})")
            }
            "tag" | "tag_no_case" => {
                let l = self.ex(ca[0])?;
                format!("nom_{m}({l}, {i})")
            }
            "take_while" | "take_while1" | "take_till" | "take_till1" => {
                let n = self.out.loops.len();
                let mark = self.loop_mark(m);
                let c = self.apply(ca[0], vec![format!("x{n}")], vec![self.tcx.types.char])?;
                let (a, b) = if m.starts_with("take_while") {
                    (format!("cur{n} = rest{n};"), "break".to_string())
                } else {
                    ("break".to_string(), format!("cur{n} = rest{n};"))
                };
                let fin = format!("Ok((cur{n}, str_consumed({i}, cur{n})))");
                let fin = if m.ends_with('1') {
                    format!("if str_len(cur{n}) == str_len({i}) {{ Err(NomErr::Error(nom_error())) }} else {{ {fin} }}")
                } else {
                    fin
                };
                format!("{{ let mut cur{n} = {i}; let ghost src{n} = {i}@; {mark} {{ match str_uncons(cur{n}) {{ None => {{ break }} Some((rest{n}, x{n})) => {{ if {c} {{ {a} }} else {{ {b} }} }} }} }} /*@AFTER {n}@*/ {fin} }}")
            }
            "many0" | "many1" => {
                let n = self.out.loops.len();
                let mark = self.loop_mark(m);
                let q = self.apply(ca[0], vec![format!("cur{n}")], st.clone())?;
                let rt = self.nom_out(ca[0])?;
                let fin = if m == "many1" {
                    format!("if seq_len(acc{n}) == 0 {{ Err(NomErr::Error(nom_error())) }} else {{ Ok((cur{n}, acc{n})) }}")
                } else {
                    format!("Ok((cur{n}, acc{n}))")
                };
                format!("{{ let mut cur{n} = {i}; let ghost src{n} = {i}@; let mut acc{n}: SeqV<{rt}> = seq_new(); let mut err{n}: Option<NomErr> = None; {mark} {{ match {q} {{ Err(NomErr::Error(_)) => {{ break }} Err({x}) => {{ err{n} = Some({x}); break }} Ok(({r}, {o})) => {{ if str_len({r}) == str_len(cur{n}) {{ err{n} = Some(NomErr::Error(nom_error())); break }} cur{n} = {r}; seq_push(&mut acc{n}, {o}); }} }} }} /*@AFTER {n}@*/ match err{n} {{ Some({x}) => {{ Err({x}) }} None => {{ {fin} }} }} }}")
            }
            "count" => {
                let n = self.ex(ca[1])?;
                let k: usize = n.trim_end_matches("usize").parse().map_err(|_| "count".to_string())?;
                if k > 4 {
                    return Err("count".into());
                }
                let rt = self.nom_out(ca[0])?;
                let acc = self.fresh();
                let mut names = vec![];
                let mut cur = i.clone();
                let mut open = String::new();
                let mut close = String::new();
                for _ in 0..k {
                    let q = self.apply(ca[0], vec![cur.clone()], st.clone())?;
                    let (r, o, x) = (self.fresh(), self.fresh(), self.fresh());
                    let _ = write!(open, "match {q} {{ Ok(({r}, {o})) => {{ ");
                    let _ = write!(close, " }} Err({x}) => {{ Err({x}) }} }}");
                    names.push(o);
                    cur = r;
                }
                // arms close from the inside out: all alike
                let mut push = String::new();
                for o in names {
                    let _ = write!(push, "seq_push(&mut {acc}, {o}); ");
                }
                format!("({open} let mut {acc}: SeqV<{rt}> = seq_new(); {push} Ok(({cur}, {acc})){close})")
            }
            _ => return Err(format!("parser combinator {p}")),
        };
        Ok(format!("{{ let {i} = {input}; {body} }}"))
    }

    /// output type of a parser expression
    fn nom_out(&mut self, f: ExprId) -> R {
        let f = self.peel_refs(f);
        let t = self.ety(f);
        match t.kind() {
            ty::FnDef(..) => {
                let r = self.closure_ret(f);
                // Result<(I, O), E>
                let tup = self.generic_ty(r, 0);
                if let ty::Tuple(ts) = tup.kind() {
                    return self.ty(ts[1]);
                }
                Err("parser type".into())
            }
            _ => {
                // a combinator: from its generic arguments / operands
                if let ExprKind::Call { fun, args, .. } = &self.e(f).kind {
                    let Some((d, _)) = self.fndef(*fun) else { return Err("parser type".into()) };
                    let p = self.path(d);
                    let a0 = args[0];
                    return match p.rsplit("::").next().unwrap() {
                        "alt" => {
                            let t = self.peel_refs(a0);
                            let ExprKind::Tuple { fields } = &self.e(t).kind else { return Err("alt".into()) };
                            let x = fields[0];
                            self.nom_out(x)
                        }
                        "one_of" | "none_of" | "satisfy" | "char" => Ok("char".into()),
                        "recognize" | "tag" | "tag_no_case" | "take_while" | "take_while1" | "take_till1" | "take_till" => Ok("Str".into()),
                        "opt" => Ok(format!("Option<{}>", self.nom_out(a0)?)),
                        "many0" | "many1" | "count" => Ok(format!("SeqV<{}>", self.nom_out(a0)?)),
                        _ => Err(format!("output of {p}")),
                    };
                }
                Err("parser type".into())
            }
        }
    }
}
