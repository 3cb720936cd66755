#!/usr/bin/env python3-vt
"""Development aid: which lines of the headers no contract executes. usage: coverage.py [REPO]"""
import sys,os,tempfile,shutil,multiprocessing as mp
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.dirname(HERE)); sys.path.insert(0,os.path.join(os.path.dirname(HERE),"xvc"))
import run as R, llvm, engine
REPO=sys.argv[1] if len(sys.argv)>1 else "/repo"
def work(job):
    t,n=job; e=engine.Engine(R.MODS[t],"xc_"+n,{"deadline":R.T0+600})
    try: e.run()
    except Exception as x: print(n,x)
    L=set()
    for f,b in e.libblocks:
        for i in e.mod.func(f).blocks[b].insts:
            if i.file and "/code/xmem/" in i.file: L.add((os.path.basename(i.file),i.line))
    return n,L
if __name__=="__main__":
    cs=R.scan(); tmp=tempfile.mkdtemp()
    tus=sorted({c[0] for c in cs})
    with mp.Pool(8) as p: p.map(R._c,[(t,os.path.join(tmp,t+".bc"),REPO,[]) for t in tus],1)
    allf=set()
    for t in tus: R.MODS[t]=llvm.Module(os.path.join(tmp,t+".bc"))
    hit={}
    with mp.Pool(8) as p:
        for n,L in p.imap_unordered(work,[(c[0],c[1]) for c in cs],1):
            for l in L: hit.setdefault(l,set()).add(n)
    shutil.rmtree(tmp)
    for f in sorted(os.listdir(REPO+"/code/xmem")):
        p=REPO+"/code/xmem/"+f
        if os.path.isdir(p): continue
        print("=====",f)
        for i,l in enumerate(open(p).read().split("\n"),1):
            c=len(hit.get((f,i),()))
            print("%4s %4d %s"%(c or "",i,l))
