#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + p["technique"],
                   "level": "other", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "python3 lib/facts.py ir", "checks": checks, "not_applicable": na,
     "notes": "Every check re-extracts the resolved program from /repo's current sources (clang 18 libTooling) and decides the property on it; nothing of the repository is executed."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

import re, glob
out = []
kf = json.load(open(os.path.join(H, "known_findings.json")))
for p in P:
    out.append("### %s - %s\n" % (p["id"], p["title"]))
    if p["na"]:
        out.append("Not applicable: %s\n" % p["na"])
        continue
    out.append("Decided by %s.\n" % p["technique"])
    src = open(os.path.join(H, "rules", p["id"] + ".py")).read()
    src = re.sub(r'"\s*\n\s*f?"', '', src)
    for r, t in re.findall(r'ctx\.rule\(\s*"([^"]+)",\s*"((?:[^"\\]|\\.)*)"', src):
        out.append("* `%s`: %s" % (r, t))
    out.append("\nBounds: %s" % p["level_note"].replace("Decided from the source: nothing of the repository is compiled to run or executed. ", ""))
    out.append("Why not tests: %s\n" % p["why_tests_cant"])
    fx = [k for k in kf if k["property"] == p["id"] and k["status"] == "fixed"]
    kn = sorted({k["what"] for k in kf if k["property"] == p["id"] and k["status"] == "known"})
    for k in fx:
        out.append("* repaired %s: %s" % (k["commit"], k["what"].split(k["commit"], 1)[1].strip()))
    for k in kn:
        out.append("* known finding: %s" % k)
    if fx or kn:
        out.append("")
out.append("### Planted bugs\n\n| id | property | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
out.append("\nAll of them are caught by the check of their property (`tools/seedtest.sh <id>`).")
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
a, b = s.split("<!-- generated by gen.py -->")[0], s.split("<!-- end of generated part -->")[-1]
open(f, "w").write(a + "<!-- generated by gen.py -->\n" + "\n".join(out) + "\n<!-- end of generated part -->" + b)
