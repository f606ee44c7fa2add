#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property of /repo by symbolic execution.

Builds the engine, compiles the harnesses together with /repo's current
sources to LLVM bitcode, runs the engine on them, replays every counterexample
natively against the real code, writes evidence/<ID>.json.
exit 0 held / 1 VIOLATION / 2 no answer.
"""
import sys, os, re, json, time, subprocess, hashlib, shutil, fcntl, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(VERIF, "target")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, VERIF)
from props import PROPS, ASSUMPTIONS

T0 = time.time()
ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS")): ENV.pop(k)
ENV.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
BCFLAGS = "-C no-vectorize-loops -C no-vectorize-slp"


class NoAnswer(Exception): pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, cwd=None, env=None, timeout=None, inp=None):
    e = dict(ENV); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, input=inp, text=True, errors="replace")


def source_hash():
    h = hashlib.sha256()
    fs = []
    for base in (REPO, os.path.join(VERIF, "harness"), os.path.join(VERIF, "engine")):
        for d, ds, ff in os.walk(base):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            fs += [os.path.join(d, f) for f in ff if f.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(fs):
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read())
    return h.hexdigest()


def repo_state():
    h = hashlib.sha256()
    for base in ("src", "ser-write-json/src", "ser-write-msgpack/src"):
        for d, _, ff in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(ff): h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


def invalidate_if_changed():
    """cargo trusts mtimes; make sure a restored or patched source is rebuilt"""
    os.makedirs(TGT, exist_ok=True)
    stamp = os.path.join(TGT, "stamp"); h = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        for d, ds, _ in os.walk(TGT):
            if os.path.basename(d) == ".fingerprint":
                for x in list(ds):
                    if x.startswith(("ser-write", "h-", "heng", "hnat", "symex")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
    open(stamp, "w").write(h)


def cargo(args, cwd, env=None):
    p = run(["cargo"] + args, cwd=cwd, env=env)
    if p.returncode != 0:
        raise NoAnswer("build failed: cargo %s\n%s" % (" ".join(args), p.stderr[-4000:]))
    return p


def build_engine():
    cargo(["build", "--release", "--offline", "--target-dir", TGT + "/engine"], VERIF + "/engine", {"RUSTFLAGS": ""})
    return TGT + "/engine/release/symex"


def fkey(feats):
    return "-".join(sorted(feats)) or "none"


def features(pid, feats):
    f = ["h/" + pid.lower()] + ["h/" + x for x in feats]
    if TIER == "thorough": f.append("h/thorough")
    return ",".join(f)


def build_bc(pid, profile, feats, work):
    tail = fkey(feats)
    td = "%s/bc-%s-%s" % (TGT, profile, tail)
    prof = {"rel": "release", "dbg": "dbg"}[profile]
    out = "%s/%s/deps/heng.bc" % (td, prof)
    if os.path.exists(out): os.remove(out)
    args = ["rustc", "--profile", prof, "--lib", "--offline", "--features", features(pid, feats), "--target-dir", td,
            "--", "--emit=llvm-bc,link"]
    cwd = VERIF + ("/harness/hstd" if "std" in feats else "/harness/hryu" if "ryu" in feats else "/harness/heng")
    if "std" in feats: out = out.replace("heng.bc", "hstd.bc")
    if "std" in feats and os.path.exists(out): os.remove(out)
    cargo(args, cwd, {"RUSTFLAGS": BCFLAGS})
    if not os.path.exists(out):
        # cargo considered the artefact fresh: force the final crate
        for x in os.listdir("%s/%s/.fingerprint" % (td, prof)):
            if x.startswith(("heng", "hstd")): shutil.rmtree("%s/%s/.fingerprint/%s" % (td, prof, x))
        cargo(args, cwd, {"RUSTFLAGS": BCFLAGS})
    dst = "%s/%s-%s.bc" % (work, profile, tail)
    shutil.copy(out, dst)
    return dst


def build_nat(pid, profile, feats, work):
    td = "%s/nat-%s" % (TGT, fkey(feats))
    args = ["build", "--offline", "--features", features(pid, feats), "--target-dir", td] + (["--release"] if profile == "rel" else [])
    cargo(args, VERIF + ("/harness/nryu" if "ryu" in feats else "/harness/hnat"), {"RUSTFLAGS": ""})
    dst = "%s/hnat-%s-%s" % (work, profile, fkey(feats))
    shutil.copy("%s/%s/hnat" % (td, "release" if profile == "rel" else "debug"), dst)
    return dst


def llvm_lib():
    r = run(["rustc", "--print", "sysroot"]).stdout.strip()
    c = [f for f in sorted(os.listdir(r + "/lib")) if f.startswith("libLLVM") and ".so" in f]
    c.sort(key=lambda f: -os.path.getsize(r + "/lib/" + f))
    if not c: raise NoAnswer("no libLLVM in the toolchain")
    return r + "/lib/" + c[0]


def native(binary, harness, hexin, timeout=20):
    """(confirmed, description)"""
    try:
        p = run([binary, harness, hexin], timeout=timeout, env={"RUST_BACKTRACE": "0"})
    except subprocess.TimeoutExpired:
        return True, "hang: no result within %d s" % timeout
    msg = (p.stdout.strip() + " " + p.stderr.strip()[-300:]).strip()
    if p.returncode == 0: return False, msg
    if p.returncode == 2: return False, msg
    return True, "exit %d: %s" % (p.returncode, msg)


def miri(pid, feats, harness, hexin, profile):
    td = "%s/miri-%s" % (TGT, fkey(feats))
    args = ["+nightly", "miri", "run", "--offline", "--features", features(pid, feats), "--target-dir", td, "--", harness, hexin]
    env = dict(ENV); env.pop("RUSTUP_TOOLCHAIN", None)
    env["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows"
    try:
        p = subprocess.run(["cargo"] + args, cwd=VERIF + ("/harness/nryu" if "ryu" in feats else "/harness/hnat"), env=env, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
    except subprocess.TimeoutExpired:
        return False, "miri: timeout"
    m = re.search(r"error: (Undefined Behavior.*|memory leaked.*|.*unsupported operation.*)", p.stderr)
    if m and "Undefined Behavior" in m.group(1): return True, "miri: " + m.group(1)
    return False, "miri: rc=%d %s" % (p.returncode, (m.group(1) if m else p.stderr[-200:]))


def required_covers(pid):
    """positions of cover!() in the property's module, as line*1000+column"""
    f = VERIF + "/harness/h/src/%s.rs" % pid.lower()
    out = {}
    skip = False
    for n, l in enumerate(open(f), 1):
        code = l.split("//")[0]
        for m in re.finditer(r"cover!\(\)", code):
            out[n * 1000 + m.start() + 1] = n
    return out


def load_known(pid):
    f = VERIF + "/known_findings.json"
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k["property"] == pid and k.get("status") == "open"]


def known_match(k, v):
    return k["harness"] == v["harness"] and (k.get("site") is None or k["site"] in v["msg"] + v["site"]) and \
        re.fullmatch(k.get("input", ".*"), v["input"]) is not None


def main(pid):
    P = PROPS[pid]
    tier = P.get(TIER, P["quick"])
    work = "%s/run/%s-%s" % (TGT, pid, TIER)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    evdir = VERIF + "/evidence"; os.makedirs(evdir, exist_ok=True)
    repdir = evdir + "/replays"; os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"): os.remove(repdir + "/" + f)
    runs = tier["runs"]          # [(profile, [features], harnesses or "all")]
    lock = open(TGT + "/lock", "w") if os.path.isdir(TGT) else (os.makedirs(TGT), open(TGT + "/lock", "w"))[1]
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        invalidate_if_changed()
        lib = llvm_lib()
        bcs, nats = {}, {}
        with ThreadPoolExecutor(8) as ex:
            fe = ex.submit(build_engine)
            fb = {(p, fkey(f)): ex.submit(build_bc, pid, p, f, work) for p, f, _ in {(p, tuple(f), None) for p, f, _ in runs}}
            # one native build directory per feature set: its two profiles run in sequence
            def both(f, profs): return {p: build_nat(pid, p, f, work) for p in profs}
            sets = {}
            for p, f, _ in runs: sets.setdefault(tuple(f), set()).update({"rel", "dbg"})
            fn = {fkey(f): ex.submit(both, f, sorted(ps)) for f, ps in sets.items()}
            symex = fe.result()
            bcs = {k: x.result() for k, x in fb.items()}
            for k, x in fn.items():
                for p, b in x.result().items(): nats[(p, k)] = b
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    build_s = time.time() - T0
    log("built engine, %d bitcode variants, %d native replayers; repo sources %s" % (len(bcs), len(nats), repo_state()))

    budget = tier.get("budget", 640 if TIER == "quick" else 3000)
    deadline = time.time() + budget
    known = load_known(pid)
    known_hit, confirmed, unconfirmed, problems, cut = {}, [], [], [], []
    covers = set()
    tot = dict(paths=0, assumed_away=0, branches=0, forks=0, insts=0, asserts=0, assert_queries=0, assert_trivial=0,
               domain_queries=0, cache_hits=0, guessed=0, z3_queries=0, unknown=0)
    z3_time = z3_max = 0.0
    z3v = ""
    funcs, per, samples, validated = {}, [], [], 0
    maxin = 0
    for profile, feats, hs in runs:
        key = (profile, fkey(feats))
        if confirmed: break
        out = "%s/%s-%s.json" % (work, profile, fkey(feats))
        left = max(5, deadline - time.time())
        cmd = [symex, "--llvm", lib, "--bc", bcs[key], "--harness", hs if isinstance(hs, str) else ",".join(hs), "--out", out,
               "--jobs", "8", "--timeout", "%d" % left, "--seed", str(SEED), "--sample-every", str(tier.get("sample_every", 97)),
               "--max-samples", str(tier.get("max_samples", 60))] + tier.get("args", [])
        try:
            p = run(cmd, timeout=left + 120)
        except subprocess.TimeoutExpired:
            raise NoAnswer("engine did not stop in time")
        if p.returncode != 0 or not os.path.exists(out):
            raise NoAnswer("engine failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
        R = json.load(open(out)); z3v = R["z3"]
        batch = []
        for h in R["harnesses"]:
            for k in tot: tot[k] += h[k]
            z3_time += h["z3_time"]; z3_max = max(z3_max, h["z3_max"]); maxin = max(maxin, h["input_bytes"])
            covers |= set(h["covers"])
            for f, (n, fk) in h["functions"].items():
                a = funcs.setdefault(f, [0, 0]); a[0] += n; a[1] += fk
            per.append(dict(variant="%s:%s" % key, harness=h["name"], paths=h["paths"], forks=h["forks"], asserts=h["asserts"],
                            z3_queries=h["z3_queries"], z3_s=h["z3_time"], wall_s=h["wall"], symbolic_input_bytes=h["input_bytes"]))
            where = "%s %s:%s" % (h["name"], profile, fkey(feats))
            for e, n in h["errors"].items(): problems.append("%s: engine error (%d paths): %s" % (where, n, e))
            if h["unknown"]: problems.append("%s: %d queries undecided" % (where, h["unknown"]))
            if h["timeout"]: cut.append("%s: time limit reached after %d paths" % (where, h["paths"]))
            if h["paths"] == 0 and not h["violations"]: problems.append("%s: no path completed" % where)
            for s in h["samples"]: batch.append((h["name"], s["input"], s["emits"]))
            for v in h["violations"]:
                v = dict(v, harness=h["name"], profile=profile, features=list(feats))
                k = next((k for k in known if known_match(k, v)), None)
                order = [(profile, key[1]), ("dbg" if profile == "rel" else "rel", key[1])]
                ok, how = False, ""
                for o in order:
                    ok, d = native(nats[o], h["name"], v["input"]); how += "%s build: %s; " % (o[0], d)
                    if ok: break
                if not ok and v["kind"] in ("memory", "ub", "uninit", "stack", "hang", "unreachable"):
                    ok, d = miri(pid, feats, h["name"], v["input"], profile); how += d
                v["native"] = how
                if k is not None:
                    if ok: known_hit[k["id"]] = k
                    continue
                (confirmed if ok else unconfirmed).append(v)
        # models of sampled paths, run natively: the encoding and the code must agree
        if batch and not confirmed:
            p = run([nats[key], "--batch"], inp="".join("%s %s\n" % (n, x) for n, x, _ in batch), timeout=300)
            lines = p.stdout.splitlines()
            for (n, x, em), l in zip(batch, lines):
                want = "0 ok emits=" + ",".join("%x" % e for e in em)
                if l.strip() == want.strip():
                    validated += 1
                else:
                    problems.append("model/native mismatch: %s input %s: engine %s, native %s" % (n, x, want, l))
            if len(lines) != len(batch): problems.append("native validation stopped after %d of %d" % (len(lines), len(batch)))
            samples += [dict(harness=n, variant="%s:%s" % key, input=x, observed=["%x" % e for e in em][:12]) for n, x, em in batch[:6]]
        log("%s:%s: %d harnesses, %d paths so far, %d violations" % (profile, fkey(feats), len(R["harnesses"]), tot["paths"], len(confirmed)))
    if not confirmed:
        need = required_covers(pid)
        for c, n in sorted(need.items()):
            if c not in covers: problems.append("vacuous: cover at %s.rs:%d (column %d) never reached" % (pid.lower(), n, c % 1000))

    def demangled(n):
        m = re.sub(r"17h[0-9a-f]{16}E$", "", n)
        return m
    top = sorted(funcs.items(), key=lambda kv: -kv[1][0])
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking",
              coverage=dict(
                  states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=validated,
                  samples=samples[:20] or [dict(note="no samples")],
                  solver="in-process Z3 %s over bit-vectors; cheap queries are decided by per-byte domains and interval/constant folding" % z3v,
                  queries=dict(z3=tot["z3_queries"], z3_seconds=round(z3_time, 2), z3_slowest_seconds=round(z3_max, 3),
                               domain=tot["domain_queries"], cached=tot["cache_hits"], satisfied_by_tried_values=tot["guessed"], undecided=tot["unknown"]),
                  assertions=dict(evaluated=tot["asserts"], by_query=tot["assert_queries"], by_simplification=tot["assert_trivial"]),
                  symbolic_forks=tot["forks"], instructions_interpreted=tot["insts"], paths_cut_by_assumption=tot["assumed_away"],
                  symbolic_input_bytes_max=maxin, covers_reached=len([c for c in required_covers(pid) if c in covers]),
                  functions_encoded={demangled(f): dict(instructions=a[0], forks=a[1]) for f, a in top[:60]},
                  per_harness=per, bounds=P["bounds"], outside_bounds=P.get("outside", ""), exhaustive_within_bounds=not problems and not confirmed and not cut, harnesses_cut_short=cut,
                  repo_sources=repo_state(), build_seconds=round(build_s, 1)),
              assumptions=ASSUMPTIONS + P.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(confirmed))
    json.dump(ev, open("%s/%s.json" % (evdir, pid), "w"), indent=1)

    for k in known_hit.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for v in confirmed[:5]:
        i = confirmed.index(v) + 1
        rp = "%s/%s-%d.json" % (repdir, pid, i)
        json.dump(dict(v, property=pid, rerun="cd /verif/harness/hnat && cargo run --offline %s --features %s -- %s %s" % (
            "--release" if v["profile"] == "rel" else "", features(pid, v["features"]), v["harness"], v["input"])), open(rp, "w"), indent=1)
        log("%s in %s (%s): %s; %s" % (v["kind"], v["harness"], v["profile"], v["msg"], v["native"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if confirmed: return 1
    for v in unconfirmed[:5]:
        problems.append("counterexample not confirmed natively: %s %s %s input %s: %s" % (v["kind"], v["harness"], v["msg"], v["input"], v["native"]))
    for x in problems[:20]: log("PROBLEM", x)
    if problems: return 2
    # the property held on everything explored, which was not everything within the bounds
    for x in cut: print("INCOMPLETE property=%s %s" % (pid, x))
    log("property %s held: %d paths, %d assertions, %d z3 queries (%.1f s), %d models validated natively" %
        (pid, tot["paths"], tot["asserts"], tot["z3_queries"], z3_time, validated))
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        os.makedirs(TGT, exist_ok=True); build_engine(); sys.exit(0)
    try:
        rc = main(sys.argv[1])
    except NoAnswer as e:
        log("NO ANSWER:", e); rc = 2
    sys.exit(rc)
