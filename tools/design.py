#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, the property tables, the rule texts and the recorded results.
design.py [EVIDENCE_DIR]: evidence of a run over the unchanged tree (default /verif/evidence)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, "evidence")
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
M = json.load(open(os.path.join(V, "MANIFEST.json")))
chk = {c["property"]: c for c in M["checks"]}
na = {n["property"]: n["reason"] for n in M["not_applicable"]}
exec(open(os.path.join(V, "tools", "design_notes.py")).read())
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
res = {}
rf = os.path.join(V, "tools", "results", "seeded.txt")
for l in open(rf):
    m = re.match(r"(\w+) (\S+) property=(\w+) reported-by: (.*)", l)
    if m: res[m[2]] = (m[1], m[3], m[4].strip())
for p in P:
    i = p["id"]
    if i not in chk: continue
    out.append("### %s. %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    e = json.load(open(os.path.join(ev, i + ".json")))
    c = e["coverage"]
    out.append("*Quantified over:* %s. *Why tests cannot settle it:* %s\n" % (p["quantifier"]["text"], p["why_tests_cant"]))
    out.append("*Decided by* (%s):\n" % chk[i]["technique"].replace("static analysis: ", ""))
    for k, v in sorted(c["rule_texts"].items()): out.append("- `%s`: %s." % (k, v.rstrip(".")))
    n = NOTES.get(i)
    if n: out.append("\n*Note:* " + n)
    seeds = sorted(s for s, r in res.items() if r[1] == i)
    others = sorted(s for s, r in res.items() if r[1] != i and i in r[2].split())
    out.append("\n*Extent on the current tree:* %d obligations over %d paths, %d operations, %d entry points; no bound on inputs." % (c["obligations"], c["paths_analysed"], c["operations_on_paths"], len(c["entry_points"])))
    out.append("*Planted bugs:* %s.%s\n" % (", ".join("%s (%s)" % (s, res[s][0]) for s in seeds) or "none", " Also reports: " + ", ".join(others) + "." if others else ""))
out.append("## 4. Not applicable\n")
for p in P:
    if p["id"] in na: out.append("- **%s %s.** %s" % (p["id"], p["title"], na[p["id"]]))
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
out.append("## 7. Planted bugs and which checks report them\n\n%d planted bugs; %d reported by the check of the property they break. Where a row names a single check, only that property's own check may have been run on the bug.\n" % (len(res), sum(r[0] == "caught" for r in res.values())))
out.append("| bug | breaks | result | reported by |\n|---|---|---|---|")
for s in sorted(res): out.append("| %s | %s | %s | %s |" % (s, res[s][1], res[s][0], res[s][2]))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
