#!/usr/bin/env python3
# developer tool: run contracts of one bitcode file in this process
import sys, time
import llvm, engine
def contracts(m):
    out={}
    for n,g in m.globs.items():
        if n.startswith("xm_"):
            c=m.const(llvm.GetInit(g.ptr)); s=bytes(c.vals[:-1]).decode()
            p,t=s.split("|",1); out[n[3:]]=(p.split(),t)
    return out
if __name__=="__main__":
    m=llvm.Module(sys.argv[1]); cs=contracts(m)
    for n in (sys.argv[2:] or cs):
        t=time.time(); e=engine.Engine(m,"xc_"+n,dict(trace=True))
        try: e.run(); st="ok"
        except engine.Unsupported as x: st="UNSUPPORTED %s %s"%(x,e.where()[:4] if e.stack else "")
        print("%-24s %s paths=%d ended=%d inf=%d obl=%d viol=%d q=%d solver=%.2fs wall=%.2fs cut=%s covers=%s"%(n,st,e.paths,e.ended,e.infeasible,len(e.obl),len(e.viol),e.n_queries,e.t_solver,time.time()-t,list(e.loops_cut),e.covers))
        seen=set()
        for v in e.viol:
            k=(v["label"],v["msg"],v["where"][0][2] if v["where"] else 0)
            if k in seen: continue
            seen.add(k)
            print("   VIOL",v["label"],v["msg"],[(w[0][:50],w[1].split("/")[-1],w[2]) for w in v["where"][:4]],v["tape"])
