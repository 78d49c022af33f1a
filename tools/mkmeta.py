#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from tools/spec_*.py and props/*.py."""
import importlib, json, os, sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
S = {}
for f in sorted(os.listdir(os.path.join(H, "tools"))):
    if f.startswith("spec_") and f.endswith(".py"):
        S.update(importlib.import_module(f[:-3]).S)
import notapp

checks = []
for id in sorted(S):
    if os.path.exists(os.path.join(H, "props", id + ".py")):
        m = importlib.import_module("props." + id).META
        assert m["title"] == S[id]["title"], id
        assert len(m["title"]) <= 80, id
        checks.append(dict(
            property=id,
            quick_cmd="python3-vt check.py %s quick" % id,
            thorough_cmd="python3-vt check.py %s thorough" % id,
            technique=m["technique"],
            level=m["level"],
            level_note=m.get("note", notapp.NOTE),
        ))
for id, e in notapp.NA.items():
    S[id] = e[0]
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for id in sorted(S):
        f.write(json.dumps(S[id]) + "\n")
claimed = {c["property"] for c in checks}
na = [dict(property=k, reason=v[1]) for k, v in notapp.NA.items()]
na += [dict(property=k, reason="check not built yet") for k in S if k not in claimed and k not in notapp.NA]
json.dump(dict(
    version=1,
    setup_cmd="python3-vt -c \"import sys; sys.path.insert(0, '.'); import vg.interp, vg.ext_disp, scipy, numpy\"",
    checks=checks,
    not_applicable=na,
    notes="Static analysis only: no check imports or executes /repo code. check.py <ID> <tier>; VG_REPO selects another tree for experiments.",
), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
import re
T = lambda n: open(os.path.join(H, "tools", n)).read()
d = [T("design_head.md")]
for id in sorted(S):
    if id not in claimed:
        continue
    M = importlib.import_module("props." + id).META
    ev = os.path.join(H, "tools", "costs.json")
    cost = json.load(open(ev)).get(id) if os.path.exists(ev) else None
    d.append("**%s  %s.**  %s" % (id, S[id]["title"], S[id]["statement"]))
    d.append("*Method:* %s.  %s%s\n" % (M["technique"].replace("global value numbering of a gated value graph (abstract interpretation of the source), equality decided by randomized valuation of value numbers", "value graph"), M["explanation"], "  *Cost:* about %d s quick." % max(1, round(cost)) if cost else ""))
d.append("## 3. Findings in the repository\n\nRepaired (one `fix:` commit each; the check passes on the repaired tree and reports the defect if it returns):\n")
op = []
for l in open(os.path.join(H, "known_findings.jsonl")):
    l = l.strip()
    if l.startswith("fixed:"):
        d.append("* " + re.sub(r"property=(\S+) (\S+)", r"\1 (\2):", l[6:].strip()))
    elif l and not l.startswith("#"):
        k = json.loads(l)
        op.append("* %s: %s" % (k["property"], k["what"]))
d.append("\nOpen (listed in known_findings.jsonl; printed as KNOWN-FINDING):\n")
d += op
d.append(T("design_tail.md").rstrip())
for k, v in notapp.NA.items():
    d.append("\n* **%s %s**: %s." % (k, v[0]["title"], v[1]))
d.append("\n" + T("design_seeds.md") if os.path.exists(os.path.join(H, "tools", "design_seeds.md")) else "")
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(d) + "\n")
print(len(S), "properties", len(checks), "checks", [x["property"] for x in na])
