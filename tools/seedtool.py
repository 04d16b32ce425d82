#!/usr/bin/env python3
"""seedtool.py FILE: makes and validates planted bugs in a scratch copy of the library (/tmp/sw/repo).
FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], main, needs, breaks)]."""
import json, os, subprocess, sys, shutil
W = "/tmp/sw/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the library behaves, non-zero when it does not
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$d/main.rs" "$t/src/main.rs"
[ -f "$r/Cargo.lock" ] && cp "$r/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
icalendar = { path = "$r", features = ["parser", "chrono-tz", "serde", "serde_json"] }
chrono = { version = "0.4", default-features = false, features = ["clock", "std"] }
chrono-tz = "0.10"
serde_json = "1"
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo run --offline -q
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset():
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W, W))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    reset()
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "EDIT NOT UNIQUE", f, t.count(old), old[:60]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    diff = sh("git -C %s diff" % W).stdout
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO if "demo_features" not in s else DEMO.replace('features = ["parser", "chrono-tz", "serde", "serde_json"]', 'default-features = false, features = [%s]' % s["demo_features"]))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(s["main"].strip() + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    b = sh("cd %s && cargo check --offline -q && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/sw/test.log 2>&1; python3 /opt/vp/results.py /tmp/sw/res.json cargo:/tmp/sw/test.log" % W)
    res = json.load(open("/tmp/sw/res.json"))
    passed = set(res.get("passed", []))
    missing = stable - passed
    env = "DEMO_TARGET=/tmp/sw/demotarget "
    bad = sh("cd %s && %s timeout 300 bash %s/demo.sh" % (W, env, d))
    reset()
    good = sh("cd %s && %s timeout 300 bash %s/demo.sh" % (W, env, d))
    v = "OK" if not missing and bad.returncode != 0 and good.returncode == 0 and ("error[" not in bad.stdout or s.get("compile_fail")) else "BAD"
    print(s["id"], v, "missing tests: %s" % sorted(missing)[:4] if missing else "", "patched rc", bad.returncode, "clean rc", good.returncode)
    if v == "BAD":
        print(bad.stdout[-600:], "-----", good.stdout[-600:])
        if "--keep" not in sys.argv:
            shutil.rmtree(d)
