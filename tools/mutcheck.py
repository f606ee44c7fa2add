#!/usr/bin/env python3
"""mutcheck.py FILE: for every surviving mutant of mutate.py (one JSON object per line, with "props"
added by hand), run those properties' quick checks in the copies SW/repo and SW/verif."""
import json, os, subprocess, sys, time
SW = os.environ.get("SW", "/tmp/sw")
def sh(c): return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s" % (SW, SW, c)], capture_output=True, text=True)
for l in open(sys.argv[1]):
    m = json.loads(l)
    if not m.get("props"): continue
    subprocess.run(["git", "-C", SW + "/repo", "checkout", "-q", "--", "."], check=True)
    p = "%s/repo/%s" % (SW, m["file"])
    s = open(p).read().split("\n")
    assert s[m["line"] - 1] == m["old"], m
    s[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(s))
    res = []
    for q in m["props"].split():
        t = time.time()
        r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py " + q)
        res.append("%s rc=%d %.0fs" % (q, r.returncode, time.time() - t))
        if r.returncode == 1: break
        if r.returncode: res.append((r.stdout + r.stderr)[-300:])
    print("CAUGHT" if " rc=1" in " ".join(res) else "MISSED", m["file"], m["line"], m["new"].strip(), "|", "; ".join(res), flush=True)
subprocess.run(["git", "-C", SW + "/repo", "checkout", "-q", "--", "."], check=True)
