import sys
from engine import *; from program import *
def tr(s): 
    import re
    s=str(s)
    for _ in range(8): s=re.sub(r"<[^<>]*>","",s)
    return s
def dump(outs, maxn=30):
    def pe(e, ind):
        if isinstance(e, LoopRec):
            print(" "*ind + "LOOP src=%s start=%s"%(tr(show(e.src)) if e.src else None, e.start))
            for ph,i in e.phis.items(): print(" "*ind+"  phi %s init=%s back=%s"%(ph, tr(show(i['init'])), [tr(show(v)) for v,_ in i['back']]))
            for it in e.iters:
                print(" "*ind+"  iter %s if %s"%(it.end, tr(showfacts(it.facts))), "-> "+tr(show(it.val)) if it.end=='ret' else '')
                for x in it.eff: pe(x, ind+6)
        else: print(" "*ind + tr(e))
    for o in outs[:maxn]:
        print("  *", tr(o))
        for e in o.eff: pe(e, 8)
if __name__=="__main__":
    p=Program()
    n=int(sys.argv[2]) if len(sys.argv)>2 else 1
    for f in p.find(sys.argv[1])[:n]:
        prims=sys.argv[3].split(",") if len(sys.argv)>3 else []
        I=Interp(p, policy=lambda f: "prim" if any(f.qn.startswith(x) for x in prims) else None)
        print("##", tr(f))
        try: outs=I.run(f); dump(outs); print(I.unknown)
        except (RecursionError, AnalysisBroken) as ex: print("EXC", str(ex)[:300])
