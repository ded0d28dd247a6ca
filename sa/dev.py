"""dev: run obligations of the named properties against /tmp/out, verbose"""
import sys, json
import oblig, dbg
import os; dbg.load(os.environ.get("OUT","/tmp/out"))
import props
for a in sys.argv[1:]:
    only = None
    if ":" in a: a, only = a.split(":")
    obls = props.PROPS[a]()
    if only: obls = [o for o in obls if only in o["args"][0]]
    for o, r in zip(obls, oblig.run_all(obls)):
        print("%-9s %-12s %ss pairs=%s %s %s" % (r["status"], r.get("impl"), r.get("s"), r.get("pairs"), r.get("why", ""), r.get("notes") or ""))
        if r["status"] != "holds":
            print(r.get("tb",""))
            for b in (r.get("bad") or r.get("unk") or [])[:int(os.environ.get("NB","1"))]:
                for k, v in b.items():
                    if isinstance(v, list):
                        print("     ", k)
                        for x in v[:12]: print("        ", str(x)[:220])
                    else: print("     ", k, str(v)[:500])
