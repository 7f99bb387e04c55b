#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {f[:3] for f in os.listdir(f"{V}/harness") if f.endswith(".cpp")}
na = {p: r for p, r in props.NA}
checks = []
with open(f"{V}/properties.jsonl", "w") as f:
    for p in sorted(props.P, key=lambda q: q["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["id"] in have or p["id"] in na, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        if p["id"] in na: continue
        checks.append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {p['id']}",
            "technique": "symbolic execution of the real C++ templates with a symbolic scalar; each assertion decided by z3/cvc5 on every path, counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "Bounded: " + p["bounds"] + ". The scalar type is an exact real (rounding is outside the claim); Eigen, the C++ library and the random-source stubs are executed as compiled; z3, cvc5 and the engine's normaliser are trusted."})
ids = {p["id"] for p in props.P}
assert have <= ids, have - ids
json.dump({"version": 1, "setup_cmd": "./check.py build", "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in props.NA],
    "notes": "No hooks in /repo: the checks compile /repo/src as it is with the scalar type substituted by a macro in the harness."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
import glob
H = open(f"{V}/tools/design_head.md").read(); T = open(f"{V}/tools/design_tail.md").read()
o = [H, "## Properties\n", "Oracle in every row: an independent first-principles statement of the result inside the harness (defining equations, brute force over the bounded shape, or the recurrence), compared as terms. Cost is the quick tier on 8 cores (most 3-20 s, all below 100 s).\n"]
fixed = {}
for l in open(f"{V}/known_findings.jsonl"):
    k = json.loads(l); fixed.setdefault(k["property"], []).append(k)
seeds = {}
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    k = json.load(open(m)); seeds.setdefault(k["property"], []).append((os.path.basename(os.path.dirname(m)), k))
for p in sorted(props.P, key=lambda q: q["id"]):
    o.append(f"### {p['id']} {p['title']}\n")
    if p["id"] in na: o.append("Not applicable: " + na[p["id"]] + "\n"); continue
    srcs = sorted(f for f in os.listdir(f"{V}/harness") if f.startswith(p["id"])); txt = "".join(open(f"{V}/harness/{f}").read() for f in srcs); src = "`, `harness/".join(srcs)
    enc = sorted({e for e in __import__("re").findall(r'vf::encodes\("([^"]+)"\)', txt)})
    o.append(f"{p['statement']}\n\n* symbolic: {p['qtext']}\n* bounds: {p['bounds']}\n* executed symbolically: {'; '.join(enc)}\n* harness: `harness/{src}`\n* beyond the tests: {p['why'].replace(props.W, '')}")
    for k in fixed.get(p["id"], []): o.append(f"* {'repaired' if k['kind']=='fixed' else 'known finding'}: {k['what']} ({k.get('commit','')})")
    for n, k in seeds.get(p["id"], []): o.append(f"* planted `{n}`: {k['what_it_breaks']} - {k.get('verdict', 'caught')}" if False else f"* planted `{n}`: {k['what_it_breaks']} (needs {k['needs']})")
    o.append("")
o.append(T)
res = f"{V}/tools/seed_results.txt"
if os.path.exists(res): o.append("\nResults of the last run over all planted bugs (quick tier):\n\n```\n" + open(res).read() + "```\n")
open(f"{V}/DESIGN.md", "w").write("\n".join(o))
