#!/usr/bin/env python3
"""refac.py valid|check [ID..]: behaviour-preserving edits on a scratch copy (SW); every listed check must stay quiet."""
import os, sys, subprocess, time, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seed import sh, reset, SW
from refactors import R
def apply(i):
    reset()
    for f, old, new in R[i][1]:
        p = os.path.join(SW, "repo", f)
        t = open(p).read()
        assert t.count(old) == 1, "%s: %d occurrences in %s" % (i, t.count(old), f)
        open(p, "w").write(t.replace(old, new))
if __name__ != "__main__": sys.argv = ["", "", ""]
cmd, ids = sys.argv[1], sys.argv[2:] or list(R)
props = None
if "-p" in ids:
    k = ids.index("-p"); props = ids[k + 1].split(","); del ids[k:k + 2]
for i in ids if __name__ == "__main__" else []:
    apply(i)
    if cmd == "apply": sys.exit()
    if cmd == "valid":
        r = sh("bash /opt/vp/build.sh", capture_output=True, text=True)
        if r.returncode: print(i, "BUILD FAILS", (r.stdout + r.stderr)[-1500:]); continue
        sh("bash /opt/vp/test.sh /tmp/refac-test.json", capture_output=True, text=True)
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/refac-test.json"))["passed"]))
        print(i, "TESTS FAIL %s" % miss[:3] if miss else "valid")
    else:
        for p in props or R[i][0]:
            t = time.time()
            r = sh("mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s" % (SW, p), capture_output=True, text=True)
            print("%s %s: rc=%d %.0fs %s" % (i, p, r.returncode, time.time() - t, "" if r.returncode == 0 else (r.stdout + r.stderr)[-1200:]))
            sys.stdout.flush()
    sys.stdout.flush()
reset()
