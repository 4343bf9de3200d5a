#!/usr/bin/env python3
"""trybug.py ID [PROPERTY...|-] : confirms a seeded bug in a private copy of /repo mounted over /repo, and runs the
checks given (by default that of the bug's property; - for none)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = r'''
mount --bind "$T/repo" /repo || exit 9
cd /repo && git checkout -q -- . || exit 9
bash /opt/vp/test.sh $T/base.json >/dev/null 2>&1
cp -a $V/seeded/$ID $T/demo && find $T/demo -name patch.diff -delete -o -name meta.json -delete
if [ -z "$NODEMO" ]; then bash $T/demo/demo.sh > $T/demo0.txt 2>&1; echo "demo unchanged: $?"; fi
git apply $V/seeded/$ID/patch.diff || exit 9
bash /opt/vp/test.sh $T/out.json 2>&1 | tail -1
if [ -z "$NODEMO" ]; then bash $T/demo/demo.sh > $T/demo1.txt 2>&1; echo "demo patched: $?"; tail -3 $T/demo1.txt; fi
for p in $CHECKS; do
  ( time python3 $V/bin/check.py $p > $T/chk.txt 2>&1; echo "check $p: $?" ) 2>&1 | grep -v -e user -e sys -e '^$'
  tail -${LINES_:-3} $T/chk.txt | cut -c1-400
done
'''
bid = sys.argv[1]
checks = sys.argv[2:] or [json.load(open(V + "/seeded/%s/meta.json" % bid))["property"]]
if checks == ["-"]:
    checks = []
with tempfile.TemporaryDirectory() as t:
    subprocess.check_call(["cp", "-a", "/repo", t + "/repo"])
    e = dict(os.environ, T=t, ID=bid, V=V, CHECKS=" ".join(checks))
    r = subprocess.run(["unshare", "-rm", "bash", "-c", SC], env=e)
sys.exit(r.returncode)
