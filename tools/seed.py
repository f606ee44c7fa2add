#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in seeds.py and validates each one in scratch copies.

    seed.py make ID..      write seeded/<id>/ (patch.diff, demo.sh, demo.rs, meta.json)
    seed.py valid ID..     build + tests + demo on the patched copy, demo on the clean copy
    seed.py check ID.. [-p PROP]   run the property's quick check on the patched copy

/repo itself is never touched: everything happens on copies mounted over /repo and /verif in a
private mount namespace.
"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
SW = os.environ.get("SW", "/tmp/sw")      # SW/repo: copy of /repo with its target, SW/verif: copy of /verif
from seeds import SEEDS

DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=/tmp/ser-write-demo-%(id)s
rm -rf /tmp/ser-write-demo-%(id)s
mkdir -p "$dir/src" || exit 99
cp "$here/demo.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
serde = { version = "1", features = ["derive"] }
serde_bytes = "0.11"
ser-write = { path = "$repo", default-features = false, features = [%(fw)s] }
ser-write-json = { path = "$repo/ser-write-json", default-features = false, features = [%(fj)s] }
ser-write-msgpack = { path = "$repo/ser-write-msgpack", default-features = false, features = [%(fm)s] }
%(deps)s
EOT
cd "$dir" || exit 99
export CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true
cargo build -q --offline %(prof)s || { rm -rf /tmp/ser-write-demo-%(id)s; exit 98; }
timeout 60 cargo run -q --offline %(prof)s
rc=$?
rm -rf /tmp/ser-write-demo-%(id)s
exit $rc
'''

def sh(cmd, ns=True, **kw):
    if ns:
        cmd = ["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && %s" % (SW, cmd)]
    else:
        cmd = ["bash", "-c", cmd]
    return subprocess.run(cmd, **kw)

def reset():
    sh("cd /repo && git checkout -q -- . && git clean -fdq", check=True)

def feats(s):
    return ", ".join('"%s"' % x for x in s.split(",") if x)

def make(i):
    s = SEEDS[i]
    reset()
    for e in s["edits"]:
        f, old, new = e[:3]
        p = os.path.join(SW, "repo", f)
        t = open(p).read()
        parts = t.split(old)
        n = len(parts) - 1
        if n == 0 or (n > 1 and len(e) < 4):
            print("%s: %d occurrences of %r" % (i, n, old)); reset(); return False
        k = e[3] if len(e) > 3 else 1
        open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
    d = subprocess.run(["git", "-C", SW + "/repo", "diff"], capture_output=True, text=True, check=True).stdout
    assert d.strip()
    out = os.path.join(VERIF, "seeded", i)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(d)
    open(out + "/demo.rs", "w").write(s["demo"].lstrip("\n"))
    open(out + "/demo.sh", "w").write(DEMO % dict(id=i, fw=feats(s.get("fw", "std")), fj=feats(s.get("fj", "std")),
                                                 fm=feats(s.get("fm", "std")), deps=s.get("deps", ""), prof=s.get("prof", "")))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    reset()
    return True

def apply(i):
    reset()
    subprocess.run(["git", "-C", SW + "/repo", "apply", os.path.join(VERIF, "seeded", i, "patch.diff")], check=True)

def demo(i):
    return sh("cd /repo && bash %s/seeded/%s/demo.sh" % (VERIF, i), capture_output=True, text=True)

def valid(i):
    reset()
    r = demo(i)
    if r.returncode != 0:
        print("%s: DEMO FAILS ON CLEAN rc=%d\n%s" % (i, r.returncode, (r.stdout + r.stderr)[-1500:])); return False
    apply(i)
    r = sh("bash /opt/vp/build.sh", capture_output=True, text=True)
    if r.returncode != 0:
        print("%s: BUILD FAILS\n%s" % (i, (r.stdout + r.stderr)[-1500:])); reset(); return False
    w = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("warning")]
    r = demo(i)
    if r.returncode in (0, 98, 99):
        print("%s: DEMO rc=%d ON PATCHED\n%s" % (i, r.returncode, (r.stdout + r.stderr)[-800:])); reset(); return False
    drc = r.returncode
    r = sh("bash /opt/vp/test.sh /tmp/seed-test.json", capture_output=True, text=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = set(json.load(open("/tmp/seed-test.json"))["passed"])
    want = set(base["stable"])
    miss = sorted(want - got)
    reset()
    if miss:
        print("%s: TESTS FAIL %d e.g. %s" % (i, len(miss), miss[:3])); return False
    print("%s: valid (demo rc %d)%s" % (i, drc, " warnings:%d" % len(w) if w else ""))
    return True

def check(i, prop=None, tier="quick"):
    prop = prop or SEEDS.get(i, {}).get("prop") or json.load(open(VERIF + "/seeded/%s/meta.json" % i))["property"]
    apply(i)
    sh("true")
    cmd = ("mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=%s timeout 900 python3 check.py %s"
           % (SW, tier, prop))
    import time
    t = time.time()
    r = sh(cmd, capture_output=True, text=True)
    reset()
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    print("%s: %s rc=%d %.0fs %s" % (i, prop, r.returncode, time.time() - t, v[:1] if v else (r.stdout + r.stderr)[-400:]))
    sys.stdout.flush()
    return r.returncode == 1 and bool(v)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    prop = None
    if "-p" in ids:
        k = ids.index("-p"); prop = ids[k + 1]; del ids[k:k + 2]
    if ids == ["all"]:
        ids = list(SEEDS)
    for i in ids:
        if cmd == "make": make(i)
        elif cmd == "valid":
            if i in SEEDS and make(i) is False: continue
            valid(i)
        elif cmd == "check": check(i, prop)
        sys.stdout.flush()
