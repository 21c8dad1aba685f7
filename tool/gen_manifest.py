"""MANIFEST.json from contracts/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, "contracts", "props.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = {}
checks, nas = [], []
for i in ids:
    c = cfg.get(i, {})
    if not c.get("claim"):
        nas.append({"property": i, "reason": na.get(i, c.get("why", "no complete contract for it yet"))})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tool/check.py %s" % i,
        "thorough_cmd": "python3 tool/check.py %s --thorough" % i,
        "technique": c.get("technique", "contract-based deductive verification (Verus) of code extracted from /repo on every run; bounded search for the failing input"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
        "theorems": c.get("theorems", []),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tool/setup.py",
    "checks": checks,
    "not_applicable": nas,
    "notes": "Contracts in contracts/*.vc are checked by Verus against code extracted from /repo's current source by vx (THIR); harness/ searches for failing inputs on the real code and stands in, bounded and labelled so, where extraction loses an anchor.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(nas), "not")
