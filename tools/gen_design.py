#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from DESIGN.in.md, the catalogue and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from catalog import CATALOG, NOT_APPLICABLE
from props import PROPS
out = []
for i in sorted(PROPS):
    c, p = CATALOG[i], PROPS[i]
    out.append("### %s. %s\n\n%s\n\n" % (i, c["title"], c["statement"]))
    out.append("*Decided by* %s. %s Quick tier: %s. Must have been observed: %s. %s\n" % (
        c["technique"].replace("runtime monitoring: ", ""), c["note"].split(" mp++ is not")[0],
        p["rule"].rstrip("."), "; ".join("%s (%d)" % x for x in sorted(p.get("require", {}).items())) or "cases",
        "*Why tests cannot settle it*: " + c["why_tests_cant"]))
    if c.get("design"):
        out.append("\n" + c["design"] + "\n")
    out.append("\n")
for i, r in sorted(NOT_APPLICABLE.items()):
    out.append("### %s (not applicable)\n\n%s\n" % (i, r))
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
rp = V + "/tools/bug_results.json"
if os.path.exists(rp):
    res = json.load(open(rp))
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    bugs.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], res.get(b, "")))
s = open(V + "/DESIGN.in.md").read().replace("%TABLE%", "".join(out).strip()).replace("%BUGS%", "\n".join(bugs))
open(V + "/DESIGN.md", "w").write(s)
