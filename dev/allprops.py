#!/usr/bin/env python3-vt
"""Development aid (no registered check uses it): runs every contract once against a tree and says, per property, what its
check would answer. usage: allprops.py REPO [--only CONTRACTS,..] [--noreplay]"""
import sys,os,tempfile,shutil,time,multiprocessing as mp,re
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.dirname(HERE)); sys.path.insert(0,os.path.join(os.path.dirname(HERE),"xvc"))
import run as R, llvm
def evaluate(repo,props=None,doreplay=True,extra=[],maxreplay=10):
    R.T0=time.time(); R.MODS.clear(); R.LIMIT=400
    cs=[c for c in R.scan() if props is None or set(c[2])&set(props)]; info={c[1]:c for c in cs}
    tmp=tempfile.mkdtemp(prefix="xvc_"); res={}
    def hit(p,kind,n,l,msg):
        res.setdefault(p,[]).append((kind,n,l,msg))
    try:
        tus=sorted({c[0] for c in cs})
        with mp.get_context("fork").Pool(8) as pool:
            rr=pool.map(R._c,[(t,os.path.join(tmp,t+"-.bc"),repo,extra) for t in tus],1)
            jobs=[];retry=[];broken=[]
            for t,(rc,out) in zip(tus,rr):
                for c in cs:
                    if c[0]!=t: continue
                    (jobs if rc==0 else retry).append(((t,""),c[1]) if rc==0 else (t,"",extra,c[1]))
            if retry:
                r2=pool.map(R._c,[(t,os.path.join(tmp,"%s-%s-%s.bc"%(t,v,n)),repo,fl+["-DXS_ONLY","-DXS_SEL_%s=~,1"%n]) for t,v,fl,n in retry],1)
                for (t,v,fl,n),(rc,out) in zip(retry,r2):
                    if rc==0: jobs.append(((t,v,n),n))
                    else: broken.append((n,out))
        for k in {j[0] for j in jobs}: R.MODS[k]=llvm.Module(os.path.join(tmp,"-".join(k)+".bc"))
        with mp.get_context("fork").Pool(8,maxtasksperchild=8) as pool:
            results=list(pool.imap_unordered(R.worker,[(k,n,{}) for k,n in jobs],1))
        known=R.known_findings(); nat={}; budget=maxreplay; R.LIMIT=1e9
        for n,out in broken:
            for p in info[n][2]: hit(p,"u",n,"compile","; ".join(re.findall(r"error: (.*)",out)[:2]))
        for r in sorted(results,key=lambda r:r["contract"]):
            n=r["contract"]; pr=info[n][2]
            if r["error"]:
                for p in pr: hit(p,"u",n,"not finished",r["error"])
            elif "end" not in r.get("covers",{}) and not r.get("viol"):
                for p in pr: hit(p,"u",n,"vacuous","")
            g={}
            for v in r.get("viol",[]):
                if any(kc==n and kl==v["label"] and km in (v.get("msg") or "") for _,kc,kl,km,_ in known): continue
                g.setdefault(v["label"],[]).append(v)
            for l,vs in g.items():
                vs.sort(key=lambda v:len(v["tape"])); ok="?"
                if doreplay and budget>0:
                    ok=""
                    for v in vs[:2]+vs[-1:]:
                        budget-=1
                        ps=pr if v.get("fatal") else R.props_of(l,pr)
                        if R.replay(r["key"],n,v,nat,tmp,repo,ps[0],pr)[0]: ok="CONFIRMED"; break
                for p in (pr if any(v.get("fatal") for v in vs) else [p for p in R.props_of(l,pr)]): hit(p,ok or "u",n,l,vs[0].get("msg"))
        return res,time.time()-R.T0,max(results,key=lambda r:r["wall"])["contract"]
    finally: shutil.rmtree(tmp,ignore_errors=True)
def show(res):
    for p in sorted(res):
        ks=[x[0] for x in res[p]]
        print("   %s: %d failed, %d confirmed; e.g. %s"%(p,len(ks),ks.count("CONFIRMED"),[x for x in res[p] if x[0]=="CONFIRMED"][:1] or res[p][:1]))
if __name__=="__main__":
    res,t,slow=evaluate(sys.argv[1],doreplay="--noreplay" not in sys.argv)
    print("%.1f s, slowest %s"%(t,slow)); show(res)
