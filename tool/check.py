"""check.py PROPERTY: decide one property of /repo's current tree.

1. The functions in contracts/*.vc are extracted from /repo's current source
   and every obligation of the property is given to Verus.
2. The harness searches for a failing input on the real code.  It turns a failed
   obligation into a concrete violation and stands in (bounded, never counted as
   proved) where the extraction cannot follow the source.
"""
import hashlib, json, os, re, signal, subprocess, sys, threading, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import asm

VERIF, REPO, TARGET = asm.VERIF, asm.REPO, asm.TARGET
EVID = os.path.join(VERIF, "evidence")
HT = os.path.join(TARGET, "harness")
HBIN = os.path.join(HT, "release", "pnharness")


def build_harness():
    env = dict(os.environ, CARGO_TARGET_DIR=HT)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("the harness does not build:\n" + r.stderr[-3000:])


def run_harness(prop, seed, seconds, cases, trace=None):
    cmd = [HBIN, prop, "--seed", str(seed), "--seconds", str(seconds), "--cases", str(cases), "--threads", "8"]
    if trace:
        cmd += ["--trace", trace]
    env = dict(os.environ, RUST_BACKTRACE="0")
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=seconds * 2 + 120, env=env)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    try:
        return json.loads(r.stdout.strip().split("\n")[-1]), r.returncode
    except (ValueError, IndexError):
        return None, r.returncode


def search(prop, tier, seed, res):
    """the bounded search"""
    try:
        t0 = time.time()
        build_harness()
        res["build_s"] = time.time() - t0
        seconds, cases = (20, 3000000) if tier == "quick" else (300, 10 ** 9)
        rep, rc = run_harness(prop, seed, seconds, cases)
        if rep is None and isinstance(rc, int) and rc < 0:
            # killed by a signal (stack overflow, abort): find the case
            tr = os.path.join(TARGET, "trace_%s_%d" % (prop, os.getpid()))
            rep2, rc2 = run_harness(prop, seed, seconds, cases, trace=tr)
            if rep2 is None and isinstance(rc2, int) and rc2 < 0:
                cands = [tr + ".%d" % i for i in range(8) if os.path.exists(tr + ".%d" % i)]
                for c in cands:
                    p = subprocess.run([HBIN, "--replay", c], capture_output=True, text=True)
                    if p.returncode < 0:
                        d = json.load(open(c))
                        rep = {"property": prop, "evaluations": 0, "nontrivial": 0, "distinct": 0, "fixed": 0, "samples": [], "wall_s": time.time() - t0,
                               "failure": {"property": prop, "case": d["case"], "what": "the process dies: signal %d" % -p.returncode}}
                        break
            else:
                rep = rep2
            for i in range(8):
                if os.path.exists(tr + ".%d" % i):
                    os.remove(tr + ".%d" % i)
        res["report"] = rep
        if rep is None:
            res["error"] = "the harness gave no report (%s)" % rc
    except Exception as e:
        res["error"] = "%s" % e


def prove(prop, cfg, tier, res, found):
    """the deductive part"""
    try:
        fns, statics, specs = asm.load_contracts()
        res["contracts"] = fns
        t0 = time.time()
        ex = asm.extract(fns, statics)
        res["extract_s"] = time.time() - t0
        a = asm.assemble(prop, cfg, ex, fns, statics, specs)
        res["asm"] = a
        rl, to = cfg.get("rlimit", 40), cfg.get("timeout", 300)
        r = asm.verify(a, os.path.join(TARGET, "verus"), prop, rlimit=rl, threads=6, timeout=to)
        for seed in (3, 11):
            # an unstable proof is not a broken one
            spent = time.time() - t0
            if r["status"] == "proved" or spent > 300 or found() or (r["status"] == "undecided" and "Resource limit" not in r.get("reason", "")):
                break
            r2 = asm.verify(a, os.path.join(TARGET, "verus"), prop, rlimit=2 * rl, threads=6, timeout=min(to, 750 - spent), seed=seed)
            if r2["status"] == "proved" or (r["status"] == "failed" and r2["status"] == "failed") or r["status"] == "undecided":
                r = r2
        res["verus"] = r
    except asm.LostAnchor as e:
        res["error"] = str(e)
    except Exception as e:
        res["error"] = "".join(traceback.format_exception(e))[-2000:]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = json.load(open(os.path.join(VERIF, "contracts", "props.json"))).get(prop, {})
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    rh, rp = {}, {}
    th = [threading.Thread(target=search, args=(prop, tier, seed, rh)), threading.Thread(target=prove, args=(prop, cfg, tier, rp, lambda: bool((rh.get("report") or {}).get("failure"))))]
    for t in th:
        t.start()
    for t in th:
        t.join()

    known = load_known(prop)
    a, v, rep = rp.get("asm"), rp.get("verus"), rh.get("report")
    notes = []
    if rp.get("error"):
        notes.append("deductive part: " + rp["error"].strip()[-400:])
    lost = list(a.lost) if a else []
    undecided = None
    if not v:
        undecided = rp.get("error", "no result")
    elif v["status"] == "undecided":
        undecided = "; ".join(lost + [v.get("reason", "")])
    elif v["status"] == "proved" and lost:
        undecided = "; ".join(lost)
    elif v["status"] == "failed" and all(e["tags"] and prop not in e["tags"] for e in v["errors"] if e["semantic"] and e["owner"] not in a.soft):
        # a contract of other properties fails: this one is not proved, and not refuted either
        v["status"] = "undecided"
        undecided = "contracts of other properties it builds on fail: " + "; ".join(
            "%s (%s)" % (e["function"], ",".join(e["tags"])) for e in v["errors"] if e["semantic"] and e["owner"] not in a.soft)
    proved = bool(v and v["status"] == "proved" and not lost)
    violation = None
    if rep and rep.get("failure"):
        f = rep["failure"]
        path = os.path.join(EVID, "replay_%s.json" % prop)
        doc = dict(f)
        doc["how"] = "%s --replay %s" % (HBIN, path)
        if v and v["errors"]:
            doc["failed_obligations"] = [{k: e[k] for k in ("message", "function", "clause", "code")} for e in v["errors"][:10]]
        json.dump(doc, open(path, "w"), indent=1)
        key = "%s" % json.dumps(f["case"], sort_keys=True)
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        else:
            violation = (path, "")
            print("failing input: %s: %s" % (json.dumps(f["case"])[:600], f["what"][:600]))
    if violation is None and v and v["status"] == "failed":
        path = os.path.join(EVID, "replay_%s.json" % prop)
        e = [e for e in v["errors"] if e["owner"] not in a.soft][0]
        json.dump({"property": prop, "failed_obligations": [{k: e[k] for k in ("message", "function", "clause", "code")} for e in v["errors"][:20]],
                   "verifier_output": [e["rendered"] for e in v["errors"][:10]], "checker_cmd": v["cmd"]}, open(path, "w"), indent=1)
        violation = (path, " no-failing-input-found")
        print("failed obligation: %s: %s | %s" % (e["function"], e["message"], e["clause"] or e["code"]))

    level = manifest_level(prop)
    cov = {}
    if v:
        failed_fns = len(set(e["function"] for e in v["errors"] if e["semantic"]))
        cov.update({
            "obligations": v.get("verified", 0) + failed_fns,
            "discharged": v.get("verified", 0),
            "checker_cmd": v["cmd"],
            "solver": "Verus (Z3 back end)", "smt_ms": v.get("smt_ms"), "verus_wall_s": round(v["wall"], 2),
            "vacuity_probes_rejected": v.get("vac_total", 0) - len(v.get("vac_bad", [])),
        })
    else:
        cov.update({"obligations": 0, "discharged": 0, "checker_cmd": "verus"})
    if a:
        cov["functions_under_contract"] = a.verify
        cov["inlined_functions"] = a.inlined
        cov["loops_with_invariants"] = a.loops
        cov["functions_assumed"] = a.trusted
        cov["functions_under_contract_in_another_check"] = a.elsewhere
        cov["functions_without_claim"] = a.havocked
        cov["statics_as_constants"] = a.statics
        cov["trusted_base"] = [
            "rustc (THIR) and the extractor /verif/vx", "Verus and Z3", "assumed contracts of std, regex and nom in verus/prelude.rs"
        ] + ["assumed: " + x for x in a.trusted] + ["external: " + x for x in a.externals]
    else:
        cov["trusted_base"] = []
    cov["deductive_verdict"] = "proved" if proved else ("failed" if v and v["status"] == "failed" else "undecided: %s" % (undecided or "")[:800])
    if rep:
        cov.update({"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"], "samples": rep["samples"] or [rep.get("failure")],
                    "rule": "bounded search on the real code (never counted as proved): %d fixed cases and generated ones compared with the reference in /verif/harness; a case is non-trivial when the property's premise holds in it" % rep["fixed"],
                    "bounded_wall_s": round(rep["wall_s"], 2)})
    elif rh.get("error"):
        notes.append("bounded search: " + rh["error"][-400:])
    if notes:
        cov["notes"] = notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level if (proved or violation or level != "proof") else "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for k in known.values():
        pass
    print("%s: deductive: %s; bounded: %s" % (prop, cov["deductive_verdict"], ("%d evaluations" % rep["evaluations"]) if rep else rh.get("error", "")[-300:]))
    if violation:
        print("VIOLATION property=%s replay=%s%s" % (prop, violation[0], violation[1]))
        sys.exit(1)
    if not proved and rep is None:
        # nothing decided
        print("; ".join(notes)[-2000:])
        sys.exit(2)
    sys.exit(0)


COMMON = [
    "heap data is finite and allocation succeeds; String, Vec and HashMap are modelled as mathematical sequences and maps",
    "references, clones and Cow/Box/Rc wrappers are erased by the extraction (values are immutable or uniquely owned)",
    "regular expressions are uninterpreted functions of pattern, flags and text with the contracts in verus/prelude.rs",
    "machine integers keep their width; overflow is an obligation",
]


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except (OSError, ValueError):
        pass
    return "proof"


def load_known(prop):
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and "case" in d:
                    out[json.dumps(d["case"], sort_keys=True)] = d
    except OSError:
        pass
    return out


if __name__ == "__main__":
    main()
