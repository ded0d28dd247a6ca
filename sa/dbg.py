import sys, json, time
import oblig, build
from terms import *
from engine import *
def load(out="/tmp/out"):
    import os
    oblig.M=json.load(open(out+"/mir.json")); oblig.POLY=json.load(open(out+"/poly.json"))
    return oblig.M
if __name__=="__main__":
    load()
    import props
    args=sys.argv[1:]
    peel=0
    if args[0]=="-p": peel=int(args[1]); args=args[2:]
    for n in args:
        t=time.time()
        try: e,cs=oblig.limited(60,oblig.summarise,n,props.dflt(),peel)
        except Lim as x: print(n,"LIM",x); continue
        except oblig.Timeout: print(n,"TIMEOUT"); continue
        except Exception as x:
            import traceback; traceback.print_exc(); continue
        print("==",n,"%.2fs"%(time.time()-t),len(cs),"notes",e.notes)
        for k,f,v,inf in cs[:8]:
            print("  ",k,inf or "",show(v)[:600] if v is not None else "")
            for l in f.order[:16]: print("        |",show(l)[:250])
