"""Builds the MIR extractor and runs it over /repo's current working tree."""
import fcntl, json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
if os.environ.get("VP_SCRATCH"):
    # development only: analyse a scratch copy of the repository instead of /repo
    REPO = os.path.abspath(os.environ["VP_SCRATCH"])
    SHARED, BUILD = BUILD, REPO.rstrip("/") + ".vpb"
    HARNESS = os.path.join(BUILD, "harness")
    if not os.path.isdir(BUILD):
        os.makedirs(BUILD)
        subprocess.run(["cp", "-a", os.path.join(SHARED, "driver"), os.path.join(SHARED, "target"), BUILD], check=True)
    subprocess.run(["rsync", "-a", os.path.join(ROOT, "harness") + "/", HARNESS + "/"]) if shutil.which("rsync") else (shutil.rmtree(HARNESS, ignore_errors=True), shutil.copytree(os.path.join(ROOT, "harness"), HARNESS))
    for n in os.listdir(HARNESS):
        if n == "Cargo.toml":
            p = os.path.join(HARNESS, n)
            t = open(p).read().replace("/repo/", REPO + "/")
            open(p, "w").write(t)


class BuildError(Exception):
    pass


def run(cmd, cwd, env, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode


def base_env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def driver():
    d = os.path.join(BUILD, "driver")
    exe = os.path.join(d, "release", "sdriver")
    src = os.path.join(ROOT, "driver")
    e = base_env()
    e["CARGO_TARGET_DIR"] = d
    rc = run(["cargo", "+nightly", "build", "--release", "--offline"], src, e, os.path.join(BUILD, "driver.log"))
    if rc or not os.path.exists(exe):
        raise BuildError("driver does not build, see build/driver.log")
    return exe


def extract():
    """-> path of the directory with mir.json and poly.json for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        out = os.path.join(BUILD, "out.%d" % os.getpid())
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, "target")
        for d in ("debug/build", "debug/.fingerprint", "debug/deps"):
            p = os.path.join(tgt, d)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if any(x in n for x in ("stacks-rs", "stacks_rs", "stacks_derive", "stacks-derive", "sharness")):
                        q = os.path.join(p, n)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
        e = base_env()
        sr = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=e).stdout.strip()
        e.update(LD_LIBRARY_PATH=sr + "/lib", CARGO_INCREMENTAL="0", RUSTC_WRAPPER=exe, VP_OUT=out,
                 VP_DENY=os.path.join(ROOT, "harness/deny.txt"), VP_MODELS=os.path.join(ROOT, "harness/models.map"),
                 CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints warn")
        rc = run(["cargo", "+nightly", "check", "--offline"], HARNESS, e, os.path.join(BUILD, "extract.log"))
        if rc or not os.path.exists(out + "/mir.json") or not os.path.exists(out + "/poly.json"):
            sys.stderr.write(open(os.path.join(BUILD, "extract.log")).read()[-4000:])
            raise BuildError("extraction failed, see build/extract.log")
        return out


def load():
    out = extract()
    try:
        return json.load(open(out + "/mir.json")), json.load(open(out + "/poly.json"))
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    out = extract()
    shutil.rmtree(out, ignore_errors=True)
    print("ok")
