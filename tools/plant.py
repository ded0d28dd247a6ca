#!/usr/bin/env python3
"""Development tool: plant.py SPEC.py...  Each spec defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO (Rust main).  Confirms in a scratch copy that the change
builds, keeps the stable tests passing, and that the demo tells the two trees apart; then
writes seeded/<ID>/ and runs the property's check on the changed copy."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR="/tmp/plant-target", CARGO_PROFILE_DEV_DEBUG="0")
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds for the demonstrated case.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stacks-rs = { path = "$R/stacks", features = ["crypto", "clarity", "derive", "transaction", "wallet-sdk", "rpc"] }
secp256k1 = { version = "0.28.2", features = ["recovery"] }
[profile.dev]
debug = 0
EOF
cd "$T" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}"
cargo build -q --offline 2> "$T/log" || { cat "$T/log"; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''
FAIL = DEMO.split("cargo build -q")[0] + """cargo rustc -q --offline -- --cfg control 2> "$T/log" || { cat "$T/log"; exit 3; }
# without the control switch the program holds one forbidden use: it must not compile
cargo rustc -q --offline 2> "$T/log" && { echo "compiles"; exit 1; }
exit 0
"""


def sh(cmd, cwd, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/" % (W, W), shell=True, check=True)


def one(path):
    g = {}
    exec(open(path).read(), g)
    i = g["ID"]
    fresh()
    for f, old, new in g["EDITS"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(i, "EDIT matches %d times in %s: %r" % (s.count(old), f, old[:60]))
            return
        open(p, "w").write(s.replace(old, new))
    subprocess.run("rm -rf /tmp/plant-a && mkdir /tmp/plant-a && git -C /repo archive HEAD | tar x -C /tmp/plant-a", shell=True, check=True)
    d = subprocess.run(["git", "diff", "--no-index", "--no-color", "/tmp/plant-a", W], capture_output=True, text=True).stdout
    d = d.replace("a/tmp/plant-a/", "a/").replace("b/tmp/plant/", "b/")
    d = "\n".join(l for l in d.split("\n"))
    # drop Cargo.lock
    parts = re.split(r"(?m)^(?=diff --git )", d)
    d = "".join(x for x in parts if "Cargo.lock" not in x.split("\n")[0])
    r = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], W)
    open("/tmp/plant.log", "w").write(r.stdout)
    subprocess.run(["python3", "/opt/vp/results.py", "/tmp/plant.json", "cargo:/tmp/plant.log"], stdout=subprocess.DEVNULL)
    res = json.load(open("/tmp/plant.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [t for t in base if t not in res["passed"]]
    if miss:
        print(i, "TESTS FAIL", miss[:5], r.stdout[-600:] if len(miss) > 40 else "")
        return
    out = os.path.join(V, "seeded", i)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(d)
    open(out + "/demo.sh", "w").write(g.get("DEMO_SH", FAIL if g.get("COMPILE_FAIL") else DEMO))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.rs", "w").write(g["DEMO"])
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    e = dict(ENV, DEMO_TARGET="/tmp/plant-demo")
    a = sh(["bash", out + "/demo.sh"], W, e)
    b = sh(["bash", out + "/demo.sh"], "/repo", e)
    if a.returncode in (0, 3) or b.returncode != 0:
        print(i, "DEMO patched rc=%d clean rc=%d" % (a.returncode, b.returncode), a.stdout[-800:], b.stdout[-800:])
        shutil.rmtree(out)
        return
    e = dict(os.environ, VP_SCRATCH=W)
    shutil.rmtree(W + ".vpb", ignore_errors=True)
    c = sh(["./check", g["PROPERTY"]], V, e)
    print(i, g["PROPERTY"], "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + g["PROPERTY"] in c.stdout else "missed rc=%d" % c.returncode, c.stdout.strip().split("\n")[-1][:150])


for x in sys.argv[1:]:
    one(x)
