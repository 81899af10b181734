#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
import props
H = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled contract code (WASM) with SMT (z3/cvc5); counterexamples replayed in V8"
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": TECH, "level": "model_checking",
        "level_note": p.get("note") or ("Exhaustive over the symbolic inputs, storage and external-call results of each harness. Bounds: " + p.get("bounds", "no loop or size bound is needed") + ". Trusted: rustc, the executor, z3/cvc5; keccak as a collision-free function; ruint arithmetic summaries."),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

# the per-property table of DESIGN.md
d = os.path.join(H, "DESIGN.md")
t = open(d).read()
a, b = "<!-- table:begin -->", "<!-- table:end -->"
if a in t:
    rows = ["| id | what is decided | code | harnesses (one symbolic run each) | bounds |", "|---|---|---|---|---|"]
    for p in props.PROPS:
        hs = [h if isinstance(h, str) else h[0] for h in p["harnesses"]]
        hs = hs if len(hs) <= 12 else hs[:11] + ["... (%d in all)" % len(p["harnesses"])]
        rows.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], " ".join("`%s`" % x for x in p["files"]), " ".join(hs), p.get("na") or p.get("bounds", "none")))
    t = t[: t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
    open(d, "w").write(t)
