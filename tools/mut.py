#!/usr/bin/env python3
"""Development tool: mut.py FILE.py [name-substring]
FILE defines MUTS = [(name, "C01 C02", [(file, old, new)...], "bug"|"ok")].  Applies each change to a
scratch copy and reports, per property, whether the check alarms (and how many obligations
hold / are undecided / are violated)."""
import os, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == "--worker":
    sys.path.insert(0, V + "/sa")
    import build, oblig, props
    try:
        M, poly = build.load()
    except build.BuildError as e:
        print(json.dumps({"error": str(e)}))
        sys.exit(0)
    oblig.M, oblig.POLY = M, poly
    out = {}
    for p in sys.argv[2:]:
        obls = props.PROPS[p]()
        rs = oblig.run_all(obls, 60, 4)
        out[p] = [(r["status"], r.get("impl"), r.get("why", ""), (r.get("bad") or [{}])[0].get("differs", "") if r["status"] == "violated" else "", r.get("notes", [])[:4] if r["status"] == "undecided" else "") for r in rs if r["status"] != "holds"]
        for r in rs:
            if r["status"] == "violated":
                try:
                    out.setdefault("facts", []).append([r.get("mode"), r["impl"], (r.get("bad") or [{}])[0]])
                except Exception: pass
    print("RESULT" + json.dumps(out, default=str))
    sys.exit(0)
pool = queue.Queue()
N = 4
for i in range(N):
    pool.put(os.environ.get("MUTW", "/tmp/mutw") + "/%d" % i)


def one(m):
    name, ps, edits, exp = m
    w = pool.get()
    try:
        os.makedirs(w, exist_ok=True)
        subprocess.run("rm -rf %s/* && git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/" % (w, w, w), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, exp, "EDIT does not match: %r" % old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run([sys.executable, __file__, "--worker"] + ps.split(), env=dict(os.environ, VP_SCRATCH=w), capture_output=True, text=True)
        if "RESULT" not in r.stdout:
            log = ""
            try: log = "\n".join(l for l in open(w + ".vpb/extract.log").read().split("\n") if l.startswith("error") or "-->" in l)[:600]
            except Exception: pass
            return name, exp, "FAILED " + r.stdout[-300:] + r.stderr[-300:] + log
        o = json.loads(r.stdout.split("RESULT", 1)[1])
        return name, exp, o
    finally:
        pool.put(w)


g = {}
exec(open(sys.argv[1]).read(), g)
muts = [m for m in g["MUTS"] if len(sys.argv) < 3 or any(a in m[0] for a in sys.argv[2:] if a != "-v")]
verbose = "-v" in sys.argv
with ThreadPoolExecutor(N) as ex:
    for name, exp, o in ex.map(one, muts):
        if isinstance(o, str):
            print("%-8s %-30s %s" % ("??", name, o))
            continue
        facts = o.pop("facts", [])
        v = [p for p, x in o.items() if any(y[0] == "violated" for y in x)]
        u = ["%s:%s(%s)" % (p, y[1], str(y[2] or y[4])[:110]) for p, x in o.items() for y in x if y[0] != "violated"]
        good = bool(v) == (exp == "bug")
        print("%-8s %-30s expect %-4s alarms: %s  undecided: %s" % ("ok" if good else ("MISSED" if exp == "bug" else "FALSE"), name, exp, " ".join(v), "; ".join(u)[:700]))
        if verbose or (not good and exp == "ok"):
            for f in facts[:3]:
                print("      ", f[0], f[1])
                for k, x in f[2].items():
                    print("         ", k, ("\n             ".join(str(z)[:300] for z in x)) if isinstance(x, list) else str(x)[:600])
