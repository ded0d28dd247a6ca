"""development only: runs the style battery"""
import sys, json
import oblig, dbg
dbg.load("/tmp/stout")
names = [k[len("sharness::s_"):] for k in oblig.M["entries"] if k.startswith("sharness::s_")]
sel = [a for a in sys.argv[1:] if a[0] != "-"]
obls = [{"kind": "eq", "args": ("s_" + n, "r_" + n, []), "kw": {}} for n in names if not sel or n in sel]
for o, r in zip(obls, oblig.run_all(obls)):
    if r["status"] == "holds" and "-v" not in sys.argv: continue
    print("%-9s %-12s %ss pairs=%s %s %s" % (r["status"], r.get("impl"), r.get("s"), r.get("pairs"), str(r.get("why", ""))[:200], str(r.get("notes") or "")[:300]))
    if "-v" in sys.argv:
        for b in (r.get("bad") or r.get("unk") or [])[:1]:
            for k, v in b.items():
                if isinstance(v, list):
                    print("     ", k)
                    for x in v[:12]: print("        ", str(x)[:220])
                else: print("     ", k, str(v)[:500])
