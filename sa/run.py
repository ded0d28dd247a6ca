import json, sys, time
from terms import *
from engine import *
import prims

OPAQUE = ["stacks_rs::clarity::decode_clarity_type"]

def load(p="/tmp/out/mir.json"):
    return json.load(open(p))

def analyse(M, name, opaque=OPAQUE):
    e = Engine(M, opaque, prims.P)
    fid = M["entries"]["sharness::" + name]
    f = M["fns"][fid]
    args = [mat(mk("sym", f["locals"][i + 1], "a%d" % i)) for i in range(f["argc"])]
    outs = e.call_fn(St({}, TRUE), fid, args)
    return e, outs

if __name__ == "__main__":
    M = load()
    for n in sys.argv[1:]:
        t = time.time()
        try:
            e, outs = analyse(M, n)
        except Lim as x:
            print(n, "LIM", x); continue
        print("==", n, "%.2fs" % (time.time() - t), "outs", len(outs), "notes", e.notes)
        for o in outs:
            print("  ", o.kind, o.info or "", show(e.deep(o.st, o.val)) if o.val is not None else "")
            for l in o.st.facts.order: print("        |", show(l))
