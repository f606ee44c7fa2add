#!/usr/bin/env python3
"""Small mechanical changes of /repo's sources that its tests do not notice.

    mutate.py list                     how many there are
    mutate.py run K N SEED OUT         every N-th from K on (shuffled): write those that survive to OUT
Works in /tmp/mu<K>, a copy of /repo; nothing else is touched.
"""
import json, os, random, re, subprocess, sys
FILES = ["src/lib.rs", "ser-write-json/src/base64.rs", "ser-write-json/src/de.rs", "ser-write-json/src/ser.rs",
         "ser-write-msgpack/src/de.rs", "ser-write-msgpack/src/ser.rs"]
FILES += [os.path.join("src", f) for f in os.listdir("/repo/src") if f.endswith(".rs") and f != "lib.rs"]
OPS = [(r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r"\+= ", "-= "), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\.\.=", ".."), (r"wrapping_add", "wrapping_sub"), (r"checked_mul", "checked_add"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\bif (?!let)", "if true || "), (r"\bif (?!let)", "if false && "),
       (r"u64", "u32"), (r"u32", "u16"), (r"u16", "u8"), (r"i64", "i32"), (r"i32", "i16"), (r"i16", "i8"), (r"f64", "f32"), (r"usize", "u8"), (r"u8::MAX", "i8::MAX"),
       (r"SP\|", ""), (r"\|T_", ""), (r"\|N_", ""), (r"\|R_", "")]
def muts():
    out = []
    for f in FILES:
        for n, l in enumerate(open("/repo/" + f).read().split("\n")):
            if l.startswith("#[cfg(test)]"): break
            t = l.strip()
            if not t or t.startswith("//") or t.startswith("#[") or t.startswith("use ") or "fn " in t or t.startswith("impl") or t.startswith("where"): continue
            code = l.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    out.append((f, n, code[:m.start()] + b + code[m.end():]))
            for m in re.finditer(r"(?<![\w.'])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
                v = int(m.group(1), 0)
                for w in (v + 1, v - 1, v ^ 0x20 if v > 31 else v + 2):
                    if w >= 0: out.append((f, n, code[:m.start()] + str(w) + code[m.end():]))
            if t.endswith(";") and not t.startswith("let ") and "return" not in t and not t.startswith("pub ") and not t.startswith("type ") and not t.startswith("const "):
                out.append((f, n, " " * (len(l) - len(t)) + "{}"))
    return out
def run(k, step, seed, out):
    ms = muts(); random.Random(seed).shuffle(ms)
    d = "/tmp/mu%d" % k
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=d + "/target", RUSTUP_TOOLCHAIN="stable", CARGO_BUILD_JOBS="2")
    def sh(c): return subprocess.run(["timeout", "-k", "2", "60", "bash", "-c", c], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    done = 0
    for f, n, new in ms[k::step][int(os.environ.get("START", 0)):]:
        p = d + "/" + f
        src = open("/repo/" + f).read()
        ls = src.split("\n"); old = ls[n]; ls[n] = new
        open(p, "w").write("\n".join(ls))
        pk = {"s": "-p ser-write"}.get(f[0] if f.startswith("src") else "", "-p " + f.split("/")[0])
        ok = sh("cargo build --offline -q") == 0 and sh("cargo test --offline -q -- --test-threads 2") == 0 \
            and sh("cargo test --offline -q --no-default-features -- --test-threads 2") == 0
        open(p, "w").write(src)
        done += 1
        if ok:
            with open(out, "a") as o: o.write(json.dumps(dict(file=f, line=n + 1, old=old, new=new)) + "\n")
        if done % 20 == 0: print(done, flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "list": print(len(muts()))
    else: run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
