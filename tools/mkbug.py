#!/usr/bin/env python3
"""mkbug.py SPEC.py : writes /verif/seeded/<id> from a specification (id, prop, edits, needs, breaks, demo[, flags])."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = runpy.run_path(sys.argv[1])
d = os.path.join(V, "seeded", s["id"])
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
with tempfile.TemporaryDirectory() as t:
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", t + "/r"])
    for f, old, new, *nth in s["edits"]:
        p = t + "/r/" + f
        x = open(p).read()
        n = x.count(old)
        if n != (nth[1] if nth else 1):
            sys.exit("%s: %d matches of %r" % (f, n, old))
        i = -1
        for _ in range(nth[0] + 1 if nth else 1):  # (f, old, new, which match, number of matches)
            i = x.index(old, i + 1)
        open(p, "w").write(x[:i] + new + x[i + len(old):])
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
if s.get("flags"):
    open(d + "/flags", "w").write(s["flags"] + "\n")
shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
shutil.copytree(V + "/standin", d + "/standin")
if s.get("script"):
    open(d + "/demo.sh", "w").write(s["script"].lstrip())
for n, t in s.get("texts", {}).items():
    open(d + "/" + n, "w").write(t.lstrip())
for f in s.get("files", []):
    shutil.copy(f, d)
