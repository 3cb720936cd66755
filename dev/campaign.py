#!/usr/bin/env python3-vt
"""Development aid: applies each mutation of mutants.py to a scratch copy and lists which properties' checks would report it.
usage: campaign.py [bad|good] [names...]"""
import sys,os,shutil,subprocess,time
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import allprops, mutants
kind=sys.argv[1]; names=sys.argv[2:]
W="/tmp/campaign-%d"%os.getpid()
def apply(edits):
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W); shutil.copytree("/repo/code",W+"/code")
    for f,a,b in edits:
        p=W+"/code/xmem/"+f; s=open(p).read()
        if a is None: s+=b
        else:
            n=1
            if isinstance(b,tuple): b,n=b
            if a not in s: return "NOT FOUND in %s: %r"%(f,a[:60])
            s=s.replace(a,b,n) if n>0 else s.replace(a,b)
        open(p,"w").write(s)
for (k,name,expect,edits) in mutants.ALL:
    if k!=kind or (names and name not in names): continue
    e=apply(edits)
    if e: print("%-32s %s"%(name,e)); continue
    t=time.time(); res,_,_=allprops.evaluate(W,doreplay=(kind=="bad"),maxreplay=8)
    if kind=="good":
        print("%-32s %s"%(name,"quiet" if not res else "ALARM"),"%.0f s"%(time.time()-t),flush=True)
        if res: allprops.show(res)
    else:
        c=[p for p in res if any(x[0]=="CONFIRMED" for x in res[p])]; u=[p for p in res if p not in c]
        miss=[p for p in expect.split() if p not in c]
        print("%-32s %s confirmed: %s unconfirmed: %s%s"%(name,"ok  " if not miss else "MISS",",".join(sorted(c)),",".join(sorted(u)),"  NOT CONFIRMED FOR "+",".join(miss) if miss else ""),flush=True)
        if miss:
            for p in miss: print("      ",p,[x for x in res.get(p,[])][:2])
shutil.rmtree(W,ignore_errors=True)
