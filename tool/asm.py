"""Contracts + extracted code -> Verus files; run Verus and read the result."""
import glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
CRATE = "phonenumber"


class LostAnchor(Exception):
    pass


# ------------------------------------------------------------------ contracts

class Clause:
    def __init__(self, tags, text, where):
        self.tags, self.text, self.where = tags, text.strip().rstrip(","), where

    def active(self, prop):
        return "*" in self.tags or prop in self.tags


class Loop:
    def __init__(self, n, kind):
        self.n, self.kind = n, kind
        self.inv, self.ens, self.dec, self.head, self.pre, self.tail, self.after = [], [], [], [], [], [], []
        self.alts = []      # the same loop written in another way


class Contract:
    def __init__(self, path, params, ret, where):
        self.path, self.params, self.ret, self.where = path, params, ret, where
        self.requires, self.ensures, self.start, self.decreases, self.end = [], [], [], [], []
        self.loops = {}
        self.opts = []
        self.assumed = False

    def tags(self):
        t = set()
        for c in self.requires + self.ensures:
            t |= set(c.tags)
        for l in self.loops.values():
            for c in l.inv + [c for a in l.alts for c in a.inv]:
                t |= set(c.tags)
        return t


DIRS = {"requires", "ensures", "decreases", "start", "loop", "invariant", "lensures", "ldecreases", "head", "pre", "opts", "assumed", "tail", "after", "end"}


def load_contracts(only=None):
    """-> (contracts by path, statics by path, spec blocks)"""
    fns, statics, specs = {}, {}, []
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vc"))):
        cur = None      # ("fn", Contract) | ("spec", tags, lines)
        loop = None
        item = None     # (list, tags, lines, where)

        def flush():
            nonlocal item
            if item:
                lst, tags, lines, where = item
                lst.append(Clause(tags, "\n".join(lines), where))
            item = None

        for ln, line in enumerate(open(f), 1):
            line = line.rstrip("\n")
            where = "%s:%d" % (os.path.basename(f), ln)
            if line.startswith("//"):
                continue
            m = re.match(r"(fn|static|spec)\b(?:\[([^\]]*)\])?\s*(.*)$", line)
            if m:
                flush()
                loop = None
                kind, tags, rest = m.groups()
                if kind == "spec":
                    cur = ("spec", set((tags or "*").split(",")), [])
                    specs.append(cur)
                else:
                    m2 = re.match(r"(.*?)\s*\(([^()]*)\)\s*(?:->\s*(\w+))?\s*$", rest)
                    if not m2:
                        raise SystemExit("%s: bad header" % where)
                    p, ps, r = m2.groups()
                    c = Contract(p, [x.strip() for x in ps.split(",") if x.strip()], r or "r", where)
                    d = fns if kind == "fn" else statics
                    if p in d:
                        # a second block adds to the first
                        if d[p].params != c.params or d[p].ret != c.ret:
                            raise SystemExit("%s: %s has other parameters elsewhere" % (where, p))
                        c = d[p]
                    d[p] = c
                    cur = (kind, c)
                continue
            if cur is None:
                if line.strip():
                    raise SystemExit("%s: text outside of a block" % where)
                continue
            if cur[0] == "spec":
                cur[2].append(line)
                continue
            m = re.match(r"\s+(\w+)(?:\[([^\]]*)\])?(?:\s+(.*))?$", line)
            if m and m.group(1) in DIRS:
                flush()
                k, tags, rest = m.group(1), set((m.group(2) or "*").split(",")), m.group(3) or ""
                c = cur[1]
                if k == "loop":
                    m2 = re.match(r"(\d+)(?:\s+(.*))?$", rest)
                    n = int(m2.group(1))
                    lkind = (m2.group(2) or "").strip() or None
                    loop = c.loops.setdefault(n, Loop(n, lkind))
                    if lkind and loop.kind != lkind:
                        alt = [a for a in loop.alts if a.kind == lkind] or [Loop(n, lkind)]
                        if alt[0] not in loop.alts:
                            loop.alts.append(alt[0])
                        loop = alt[0]
                    continue
                if k == "opts":
                    c.opts.append(rest)
                    continue
                if k == "assumed":
                    c.assumed = True
                    continue
                lst = {
                    "requires": c.requires, "ensures": c.ensures, "decreases": c.decreases, "start": c.start, "end": c.end,
                    "invariant": loop and loop.inv, "lensures": loop and loop.ens, "ldecreases": loop and loop.dec,
                    "head": loop and loop.head, "pre": loop and loop.pre, "tail": loop and loop.tail, "after": loop and loop.after,
                }[k]
                item = (lst, tags, [rest], where)
            elif item:
                item[2].append(line)
            elif line.strip():
                raise SystemExit("%s: unexpected %r" % (where, line))
        flush()
    return fns, statics, specs


def rename(text, params, local=None):
    for i, p in enumerate(params):
        text = re.sub(r"(?<!\w)(?:(?<!\.)|(?<=\.\.))%s\b" % re.escape(p), "\0%d\0" % i, text)
    return re.sub("\0(\\d+)\0", lambda m: (local or {}).get(int(m.group(1)), "arg" + m.group(1)), text)


# ----------------------------------------------------------------- extraction

def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "target")]
        for f in fs:
            p = os.path.join(d, f)
            if p.endswith((".rs", ".toml", ".xml", ".lock", ".bin")) and os.path.isfile(p):
                out.append(p)
    return sorted(out)


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def build_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "vx"))
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "vx"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("building vx failed:\n" + r.stderr[-4000:])
    return os.path.join(TARGET, "vx", "release", "vx")


OPAQUE = []


def extract(fns, statics):
    """Run the extractor over /repo's current source."""
    vx = build_vx()
    contracted = sorted(list(fns) + list(statics))
    h = hashlib.sha256()
    h.update(file_hash(repo_files()).encode())
    h.update(file_hash([vx]).encode())
    h.update("\n".join(contracted + OPAQUE).encode())
    cache = os.path.join(TARGET, "cache")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, h.hexdigest()[:32] + ".json")
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(cache, "*.json")):
            if time.time() - os.path.getmtime(old) > 3600:
                os.remove(old)
        cl, op = os.path.join(cache, "contracted.txt"), os.path.join(cache, "opaque.txt")
        open(cl, "w").write("\n".join(contracted) + "\n")
        open(op, "w").write("\n".join(OPAQUE) + "\n")
        tmp = out + ".tmp"
        tgt = os.path.join(TARGET, "extract")
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RUSTC_WORKSPACE_WRAPPER=vx, VX_CRATE=CRATE,
                   VX_CONTRACTED=cl, VX_OPAQUE=op, VX_OUT=tmp, CARGO_TARGET_DIR=tgt)
        env.pop("RUSTFLAGS", None)
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "-p", CRATE, "--target-dir", tgt], cwd=REPO, env=env, capture_output=True)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=REPO, env=env, capture_output=True, text=True)
        if not os.path.exists(tmp):
            raise LostAnchor("extraction failed: " + r.stderr[-3000:])
        os.rename(tmp, out)
    return json.load(open(out))


# ------------------------------------------------------------------- assembly

def prelude(total):
    s = open(os.path.join(VERIF, "verus", "prelude.rs")).read()
    if total:
        return re.sub(r"@panics (.*)", r"requires \1", s)
    return re.sub(r"@panics (.*?)(\s*\{ unimplemented!\(\) \})?\n(\s*ensures)?",
                  lambda m: ("ensures %s%s" % (m.group(1), "," if m.group(3) else "")) + (m.group(2) or "") + "\n", s)


class Assembled:
    pass


def on(tags, prop):
    """[*]: everywhere, [C01,C02]: there, [!C01]: everywhere else"""
    return "*" in tags or prop in tags or any(t.startswith("!") for t in tags) and "!" + prop not in tags


def enum_names(t, d, lemma):
    """the names of a fieldless enum's variants, and that they differ"""
    vs = re.findall(r"^    (\w+),$", d, re.M)
    o = ["pub open spec fn %s_name(i: %s) -> Seq<char> { match i { %s } }" % (t, t, " ".join('%s::%s => "%s"@,' % (t, v, v) for v in vs))]
    o.append("pub open spec fn %s_of(s: Seq<char>) -> Option<%s> { %s }" % (t, t, "".join('if s == "%s"@ { Some(%s::%s) } else { ' % (v, t, v) for v in vs) + "None" + " }" * len(vs)))
    if lemma:
        n = max(len(v) for v in vs)
        num = {v: sum(ord(c) * 0x110000 ** k for k, c in enumerate(v)) for v in vs}
        o.append("spec fn %s_code(s: Seq<char>) -> int { %s }" % (t, " + ".join("(if %d < s.len() { s[%d] as int * %d } else { 0 })" % (k, k, 0x110000 ** k) for k in range(n))))
        o.append("spec fn %s_num(i: %s) -> int { match i { %s } }" % (t, t, " ".join("%s::%s => %d," % (t, v, num[v]) for v in vs)))
        o.append("spec fn %s_at(n: int) -> %s { %s }" % (t, t, "".join("if n == %d { %s::%s } else { " % (num[v], t, v) for v in vs[1:]) + "%s::%s" % (t, vs[0]) + " }" * (len(vs) - 1)))
        o.append("proof fn lemma_%s_num(i: %s) ensures %s_code(%s_name(i)) == %s_num(i) { match i { %s } }" % (t, t, t, t, t, " ".join('%s::%s => { reveal_strlit("%s"); }' % (t, v, v) for v in vs)))
        o.append("proof fn lemma_%s_at(i: %s) ensures %s_at(%s_num(i)) == i { }" % (t, t, t, t))
        T = lambda x: x.replace("TT", t)
        o.append(T("proof fn lemma_TT_names(i: TT, j: TT) ensures TT_name(i) == TT_name(j) ==> i == j { lemma_TT_num(i); lemma_TT_num(j); lemma_TT_at(i); lemma_TT_at(j); }"))
        o.append(T("proof fn lemma_TT_some(i: TT) ensures TT_of(TT_name(i)) is Some { }"))
        o.append(T("/// a text is the name of what it is read as\n#[verifier::spinoff_prover] pub proof fn lemma_TT_of(s: Seq<char>) ensures TT_of(s) is Some ==> TT_name(TT_of(s)->0) == s { }"))
        o.append(T("/// every name is read as what it names\npub proof fn lemma_TT_inv(i: TT) ensures TT_of(TT_name(i)) == Some(i) { lemma_TT_some(i); lemma_TT_of(TT_name(i)); lemma_TT_names(i, TT_of(TT_name(i))->0); }"))
    return "\n".join(o)


def assemble(prop, cfg, ex, fns, statics, specs, extra_active=()):
    """-> Assembled(text, line map, verified set)"""
    total = cfg.get("total", False)
    byp = {f["path"]: f for f in ex["functions"]}
    lost = []  # contracts that cannot be checked
    soft = {}  # functions whose loops are not those of the contract: a proof counts, a failure does not
    dropped = False  # a contract is missing, so that failures elsewhere mean nothing
    skip = set(cfg.get("havoc", []))

    def active(lst):
        return [c for c in lst if c.active(prop)]

    roots = [p for p, c in fns.items() if prop in c.tags()]
    for p in cfg.get("roots", []):
        if p not in roots:
            roots.append(p)
    sroots = [p for p, c in statics.items() if prop in c.tags()]
    # transitive callees (not through a static whose contract is another property's)
    seen, order, stack = set(), [], list(roots) + list(sroots)
    while stack:
        p = stack.pop()
        if p in seen:
            continue
        seen.add(p)
        if p not in byp:
            if p in ex["statics"]:
                continue
            if p in roots or p in sroots:
                lost.append("%s: not found in the source" % p)
                dropped = True
            continue
        order.append(p)
        oc = fns.get(p) or statics.get(p)
        if p in skip or (oc and (oc.assumed or "once" in oc.opts and p not in roots and p not in sroots)):
            continue
        c = fns.get(p) or statics.get(p)
        has = c is not None and (active(c.requires) or active(c.ensures))
        if total or has or p in roots:
            stack.extend(byp[p]["calls"])
    out, verify, trusted, havocked, smap = [], [], [], [], []
    elsewhere = []  # contracts discharged under another property

    def emit(s):
        out.append(s)

    emit("#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals, unused_parens, unused_braces, unreachable_code)]")
    emit("use vstd::prelude::*;\nverus! {\npub mod lib_ {\nuse vstd::prelude::*;")
    ext = set(ex["ext_types"]) | {"ext__regex__Error", "ext__regex__RegexBuilder", "ext__quick_xml__Error",
                                 "ext__quick_xml__events__attributes__AttrError", "ext__postcard__Error", "ext__std__fs__File", "ext__std__io__Error", "ext__std__str__Utf8Error", "ext__std__str__ParseBoolError"}
    for t in sorted(ext):
        emit("#[verifier::external_body]\n#[derive(Clone, Copy)]\npub struct %s { _p: usize }" % t)
    used = "\n".join(f["body"] or "" for f in ex["functions"])
    emit("\n".join(l for l in prelude(total).split("\n")
                   if not (m_ := re.match(r"(?:#\[verifier::external_body\] )?pub fn ((?:u8|u16|u32|u64|usize)_\w+)\(.*\}$", l)) or m_.group(1) in used))
    emit("} // mod\npub use lib_::*;")
    # types and specifications: a module of its own, so that broadcast lemmas of one can be used below
    emit("pub mod spec_ {\nuse vstd::prelude::*;\nuse crate::lib_::*;\nbroadcast use g_prelude;")
    alltxt = "\n".join(l for _, tags, lines in specs if on(tags, prop) for l in lines)
    alltxt += "\n".join(x.text for p in order for cc in [fns.get(p)] if cc for x in cc.start + cc.end if x.active(prop))
    for t, d in sorted(ex["types"].items()):
        emit(d)
        if t + "_name(" in alltxt or t + "_of(" in alltxt:
            emit(enum_names(t, d, "lemma_%s_" % t in alltxt))
    bu = ["g_prelude"]
    for _, tags, lines in specs:
        if on(tags, prop):
            for l in lines:
                m = re.match(r"broadcast use ([\w, ]+);", l)
                if m:
                    bu += m.group(1).split(", ")
            emit("\n".join(l for l in lines if not l.startswith("broadcast use ")))
    # statics
    used_statics = set()
    for p in order:
        for c in byp[p]["calls"]:
            if c in ex["statics"]:
                used_statics.add(c)
    used_statics |= set(s for s in sroots if s in ex["statics"] or s in byp)
    # statics that only specifications mention
    txt = "\n".join(l for _, tags, lines in specs if on(tags, prop) for l in lines)
    txt += "\n".join(c.text for p in order for cc in [fns.get(p) or statics.get(p)] if cc for c in cc.requires + cc.ensures)
    for p in ex["statics"]:
        if mangle(p) + "_spec" in txt:
            used_statics.add(p)
    for p in sorted(used_statics):
        emit("pub uninterp spec fn %s_spec() -> %s;" % (mangle(p), ex["statics"].get(p) or byp[p]["ret"]))
    emit("} // mod\npub use spec_::*;\nbroadcast use {%s};" % ", ".join(bu))
    for p in sorted(used_statics):
        ty = ex["statics"].get(p) or byp[p]["ret"]
        n = mangle(p)
        c = statics.get(p)
        ens = ["r == %s_spec()" % n]
        if c:
            ens += ["({ let %s = r; %s })" % (c.ret, x.text) if c.ret != "r" else x.text for x in active(c.ensures)]
        emit("#[verifier::external_body]\npub fn %s() -> (r: %s)\n    ensures %s\n{ unimplemented!() }" % (n, ty, ",\n        ".join(ens)))
    for p in sorted(order, key=lambda p: p):
        f = byp[p]
        is_static = p in statics or p in ex["statics"]
        c = fns.get(p) or statics.get(p)
        if c is None:
            if not total:
                continue
            c = Contract(p, [], "r", "")
        if is_static and (p not in statics or not active(c.ensures)):
            continue
        if is_static and p not in sroots and "once" in c.opts:
            elsewhere.append(p)
            continue  # its contract is discharged under another property
        if c.params and len(c.params) != len(f["params"]):
            lost.append("%s: %d parameters, contract has %d" % (p, len(f["params"]), len(c.params)))
            dropped = True
            c = Contract(p, [], "r", "")
        req, ens = active(c.requires), active(c.ensures)
        if p in skip or c.assumed or "once" in c.opts and p not in roots and p not in sroots:
            check = False
            (havocked if p in skip else trusted if c.assumed else elsewhere).append(p)
            if p in skip:
                ens = []
        else:
            check = bool(total or ens or p in roots)
        if check and f["error"]:
            lost.append("%s: %s" % (p, f["error"]))
            check = False
        elif not check and p not in trusted and p not in havocked and p not in elsewhere:
            havocked.append(p)
        if f["ret"] is None:
            lost.append("%s: signature outside of the supported subset" % p)
            dropped = True
            continue
        name = f["name"] + ("__init" if is_static else "")
        start = sum(s.count("\n") + 1 for s in out) + 1
        lines = []
        if not check:
            lines.append("#[verifier::external_body]")
        else:
            lines.append("#[verifier::loop_isolation(false)] #[verifier::spinoff_prover]")
            if not total:
                lines.append("#[verifier::exec_allows_no_decreases_clause]")
            for o in c.opts:
                if o not in ("split", "once", "noreveal"):
                    lines.append("#[verifier::%s]" % o)
        lines.append("pub fn %s(%s) -> (%s: %s)" % (name, ", ".join("%s: %s" % (a, b) for a, b in f["params"]), c.ret, f["ret"]))
        cmap = []
        if req:
            lines.append("    requires")
            for x in req:
                lines.append("        %s," % rename(x.text, c.params))
        if ens:
            lines.append("    ensures")
            for x in ens:
                cmap.append((x, sum(l.count("\n") + 1 for l in lines)))
                lines.append("        %s," % rename(x.text, c.params))
        if check and c.decreases and total:
            lines.append("    decreases %s" % rename(active(c.decreases)[0].text, c.params))
        if not check:
            lines.append("{ unimplemented!() }")
        else:
            body = f["body"]
            if "noreveal" in c.opts:  # the characters of its literals play no role
                body = re.sub(r'proof \{ reveal_strlit\("(?:[^"\\]|\\.)*"\); \} ', "", body)
            body0 = body
            nl = len(f["loops"])
            loops = {n: next((a for a in l.alts if n < nl and a.kind == f["loops"][n]), l) for n, l in c.loops.items()}
            for n, l in loops.items():
                if n >= nl:
                    soft[p] = "loop %d is gone" % n
                elif l.kind and l.kind != f["loops"][n]:
                    soft[p] = "loop %d is now `%s`" % (n, f["loops"][n])
            if nl > len(c.loops):
                soft[p] = "%d loops, the contract has %d" % (nl, len(c.loops))

            # inside of the body a &mut parameter goes by the name it was moved to
            local, moved = {}, {}
            for m in re.finditer(r"let (?:mut )?(\w+)(?:: [^=;]*)? = arg(\d+);", body):
                if f["params"][int(m.group(2))][1].startswith("&mut "):
                    local[int(m.group(2))] = m.group(1)
                moved[int(m.group(2))] = m.group(1)

            # L{T}, L{T#n}: the (n-th) variable `let mut x: T` of the body
            def by_type(m):
                t, n = m.group(1).strip(), int(m.group(2) or 0)
                v = re.findall(r"let mut (\w+): %s = " % re.escape(t), body0)
                if n >= len(v):
                    soft[p] = "no variable of type %s" % m.group(0)
                    return "arg0"
                return v[n]

            def rn(t):
                t = re.sub(r"\bL\{([^{}#]+)(?:#(\d+))?\}", by_type, t)
                # cur(x): the variable that parameter x was moved to
                t = re.sub(r"\bcur\((\w+)\)", lambda m: moved.get(c.params.index(m.group(1)), "arg%d" % c.params.index(m.group(1))), t)
                t = re.sub(r"\b(old|final)\((\w+)\)", lambda m: "%s(%s)" % (m.group(1), rename(m.group(2), c.params)), t)
                return rename(t, c.params, local)

            def loop_text(m):
                n = int(m.group(1))
                l = loops.get(n)
                t = ""
                if l:
                    if any("src%d" % n in x.text for x in l.inv + l.ens + l.head) and "let ghost src%d =" % n not in body:
                        t += "let ghost src%d = it%d@;\n" % (n, n)
                    for x in active(l.pre):
                        t += rn(x.text) + "\n"
                t += "\n#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop\n"
                if l:
                    inv, en, de = active(l.inv), active(l.ens), active(l.dec)
                    if inv:
                        t += "    invariant " + ",\n        ".join(rn(x.text) for x in inv) + ",\n"
                    if en:
                        t += "    ensures " + ",\n        ".join(rn(x.text) for x in en) + ",\n"
                    if de and total:
                        t += "    decreases " + rn(de[0].text) + "\n"
                t += "{"
                if l:
                    for x in active(l.head):
                        t += rn(x.text) + "\n"
                return t

            def after_text(m):
                l = loops.get(int(m.group(1)))
                t = ""
                if l:
                    for x in active(l.after):
                        t += rn(x.text) + "\n"
                return t

            body = re.sub(r"/\*@LOOP (\d+)@\*/ \{", loop_text, body)
            body = re.sub(r"/\*@AFTER (\d+)@\*/", after_text, body)
            lines.append("{")
            for x in active(c.start):
                lines.append(rename(x.text, c.params))
            if active(c.end):
                m = re.match(r"((?:let (?:mut )?\w+(?:: [^=;]*)? = arg\d+;\s*)*)(.*)$", body, re.S)
                body = "%slet %s: %s = {\n%s\n};\n%s\n%s" % (m.group(1), c.ret, f["ret"], m.group(2), "\n".join(rn(x.text) for x in active(c.end)), c.ret)
            lines.append(body)
            lines.append("}")
            verify.append(p)
        if check and "split" in c.opts and len(ens) > 1:
            # one copy of the body for each postcondition; callers see all of them
            b = lines.index("{")
            h = next(i for i, l in enumerate(lines) if l.startswith("pub fn "))
            q = lines.index("    ensures")
            for k, (x, _) in enumerate(cmap):
                one = lines[:h] + [lines[h].replace("pub fn %s(" % name, "pub fn %s__post%d(" % (name, k), 1)] + lines[h + 1:q + 1]
                at = start + sum(l.count("\n") + 1 for l in one)
                emit("\n".join(one + [lines[q + 1 + k]] + lines[b:]))
                smap.append((start, sum(s.count("\n") + 1 for s in out), p, [(x, at)]))
                start = sum(s.count("\n") + 1 for s in out) + 1
            lines = ["#[verifier::external_body]"] + lines[h:b] + ["{ unimplemented!() }"]
            off = sum(l.count("\n") + 1 for l in lines[:q - h + 2])
            cmap = [(x, off + sum(l.count("\n") + 1 for l in lines[q - h + 2:q - h + 2 + k])) for k, (x, _) in enumerate(cmap)]
        emit("\n".join(lines))
        end = sum(s.count("\n") + 1 for s in out)
        smap.append((start, end, p, [(x, start + off) for x, off in cmap]))
        if check and req:
            # vacuity: this has to fail
            emit("#[verifier::spinoff_prover] proof fn vacuity__%s(%s)\n    requires\n%s\n{ assert(false); }" % (
                name, ", ".join("%s: %s" % (a, b.replace("&mut ", "")) for a, b in f["params"]),
                "\n".join("        %s," % re.sub(r"\bold\((\w+)\)", r"(&\1)", rename(x.text, c.params)) for x in req)))
    emit("#[verifier::spinoff_prover] proof fn vacuity__axioms() { assert(false); }")
    emit("} // verus!\nfn main() {}")
    a = Assembled()
    a.text = "\n".join(out) + "\n"
    a.total, a.prop = total, prop
    a.tags = {p: c.tags() for p, c in list(fns.items()) + list(statics.items())}
    a.elsewhere = elsewhere
    a.smap, a.verify, a.trusted, a.havocked, a.lost, a.soft, a.dropped = smap, verify, trusted, havocked, lost, soft, dropped
    a.statics = sorted(used_statics)
    a.externals = sorted(set(e for p in verify for e in byp[p]["externals"]))
    a.inlined = sorted(set(e for p in verify for e in byp[p]["inlined"]))
    a.loops = sum(len(byp[p]["loops"]) for p in verify)
    return a


def mangle(p):
    return p.replace("::", "__")


# --------------------------------------------------------------------- solving

SEMANTIC = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|assertion not satisfied"
    r"|possible arithmetic (underflow|overflow)|possible division by zero|possible bit shift|decreases not satisfied|unable to prove|loop ensures not satisfied|cannot show")


def verify(a, workdir, name, rlimit=30, threads=6, timeout=600, seed=None):
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, name + ".rs")
    open(path, "w").write(a.text)
    cmd = ["verus", path, "--edition=2024", "--output-json", "--time", "--rlimit", str(rlimit), "--num-threads", str(threads),
           "--triggers-mode", "silent", "--multiple-errors", "5", "--error-format=json"]
    if seed is not None:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed]
    t0 = time.time()
    env = dict(os.environ, RUST_MIN_STACK=str(1 << 30))
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir, env=env)
    except subprocess.TimeoutExpired:
        return {"status": "undecided", "reason": "verus timed out", "errors": [], "wall": time.time() - t0, "cmd": " ".join(cmd)}
    res = {"wall": time.time() - t0, "cmd": " ".join(cmd), "errors": [], "raw": r.stderr[-20000:], "vac_ok": 0, "vac_bad": []}
    try:
        j = json.loads(r.stdout)
    except ValueError:
        m = re.search(r"\{.*\}", r.stdout, re.S)
        try:
            j = json.loads(m.group(0)) if m else {}
        except ValueError:
            j = {}
    vr = j.get("verification-results", {})
    res["verified"], res["nerr"] = vr.get("verified", 0), vr.get("errors", 0)
    tm = j.get("times-ms", {})
    res["smt_ms"] = (tm.get("smt") or {}).get("total") if isinstance(tm.get("smt"), dict) else tm.get("smt")
    src = a.text.split("\n")
    vac = {}
    for i, l in enumerate(src, 1):
        m = re.search(r"proof fn (vacuity__\w+)", l)
        if m:
            vac[m.group(1)] = i
    failed_vac = set()
    for line in r.stderr.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        spans = d.get("spans", [])
        fn, clause, code = None, None, ""
        ctags = set()
        isvac = False
        for s in sorted(spans, key=lambda s: not s.get("is_primary")):
            ls = s.get("line_start", 0)
            for v, at in vac.items():
                if at <= ls and not any(at < o <= ls for o in vac.values()) and ls - at < 12 and "assert(false)" in "".join(t.get("text", "") for t in s.get("text", [])):
                    failed_vac.add(v)
                    isvac = True
            for (b, e, p, cm) in a.smap:
                if b <= ls <= e:
                    fn = fn or p
                    for x, at in cm:
                        if at == ls or (at <= ls < at + x.text.count("\n") + 1):
                            clause = x.where + " " + " ".join(x.text.split())
                            ctags |= x.tags
            if not code:
                for t in s.get("text", [])[:1]:
                    hs, he = t.get("highlight_start", 1) - 1, t.get("highlight_end", 1) - 1
                    code = t.get("text", "")[hs:he][:300]
        if isvac:
            continue
        # the function whose body is being checked is where a non-signature span lies
        owner = None
        for s in spans:
            ls = s.get("line_start", 0)
            for (b, e, p, cm) in a.smap:
                if b <= ls <= e and p in a.verify:
                    owner = owner or p
        if a.total and clause is None and re.search(r"precondition not satisfied|overflow|underflow|decreases|terminat|division|recurs", msg):
            # the code may panic or not return
            ctags = {a.prop}
        if not ctags - {"*"}:
            ctags |= a.tags.get(owner or fn, set())
        res["errors"].append({"message": msg, "function": fn or owner, "clause": clause, "code": code, "tags": sorted(ctags - {"*"}),
                              "owner": owner or fn,
                              "semantic": bool(SEMANTIC.search(msg)), "lines": [s.get("line_start") for s in spans],
                              "rendered": d.get("rendered", "")[:2500]})
    res["vac_total"] = len(vac)
    res["vac_bad"] = sorted(set(vac) - failed_vac)
    real = res["errors"]
    if any(not e["semantic"] for e in real) or not vr or vr.get("encountered-vir-error"):
        res["status"] = "undecided"
        e = [e for e in real if not e["semantic"]]
        res["reason"] = (e[0]["message"] if e else "no result from verus")
    elif real and (a.dropped or all(e["owner"] in a.soft for e in real)):
        # neither proved nor refuted
        res["status"] = "undecided"
        res["reason"] = "; ".join("%s: %s" % (p, a.soft[p]) for p in sorted(set(e["owner"] for e in real)) if p in a.soft)
    elif real:
        res["status"] = "failed"
    elif res["vac_bad"]:
        res["status"] = "undecided"
        res["reason"] = "vacuous: " + ", ".join(res["vac_bad"])
    elif not res["verified"]:
        res["status"] = "undecided"
        res["reason"] = "no obligations"
    else:
        res["status"] = "proved"
    return res


def main():
    prop = sys.argv[1]
    cfg = json.load(open(os.path.join(VERIF, "contracts", "props.json")))[prop]
    fns, statics, specs = load_contracts()
    ex = extract(fns, statics)
    a = assemble(prop, cfg, ex, fns, statics, specs)
    for l in a.lost:
        print("LOST", l)
    for l in a.soft.items():
        print("SOFT", *l)
    r = verify(a, os.path.join(TARGET, "verus"), prop, threads=8, timeout=int(os.environ.get("T", "120")), seed=int(os.environ["SEED"]) if "SEED" in os.environ else None)
    print(r["status"], r.get("reason", ""), "verified", r.get("verified"), "errors", r.get("nerr"), "%.1fs" % r["wall"], "vac", r.get("vac_total"), r.get("vac_bad"))
    print("verify:", len(a.verify), "havoc:", [p for p in a.havocked], "trusted:", a.trusted)
    lim = int(os.environ.get("N", "6"))
    for e in r["errors"][:lim]:
        print("---", e["message"], "|", e["function"], "|", e["clause"], "|", e["lines"])
        print(e["rendered"][:int(os.environ.get("W", "900"))])


if __name__ == "__main__":
    main()
