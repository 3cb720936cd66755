#!/usr/bin/env python3
# self test of the verifier; also checks that the tools are there
import sys,os,subprocess,tempfile,shutil
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
import llvm,engine,one
import cvc5
tmp=tempfile.mkdtemp(prefix="xvc_self_")
bad=0
try:
    bc=os.path.join(tmp,"s.bc")
    subprocess.check_call(["clang++-18","-std=c++17","-O0","-Xclang","-disable-O0-optnone","-gline-tables-only","-fno-discard-value-names","-w","-I"+H+"/../spec","-emit-llvm","-c",H+"/selftest.cpp","-o",bc])
    m=llvm.Module(bc); cs=one.contracts(m)
    for n,(p,t) in cs.items():
        e=engine.Engine(m,"xc_"+n,dict(cvc5=True)); err=None
        try: e.run()
        except engine.Unsupported as x: err=str(x)
        labels={v["label"] for v in e.viol}
        end="end" in e.covers
        if n.startswith("ok_"): ok=not labels and not err and end
        elif t=="no end": ok=not labels and not err and not end
        else: ok=not err and labels=={t}
        if not ok: bad+=1; print("SELF TEST FAILED",n,labels,err,"end" if end else "no end")
finally: shutil.rmtree(tmp,ignore_errors=True)
print("self test: %d contracts, %d wrong"%(len(cs),bad))
sys.exit(1 if bad else 0)
