#!/usr/bin/env python3-vt
"""Decides one property: compiles the contract files against /repo's current headers, has every
contract that serves the property verified (xvc/engine.py), reports.
usage: run.py PROPERTY [quick|thorough] [--repo DIR]"""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing as mp, signal
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,"xvc"))
T0=time.time()
LIMIT=float(os.environ.get("XVC_LIMIT","780"))      # seconds for the whole run
CXX="clang++-18"
CFLAGS=["-std=c++17","-fsized-deallocation","-O0","-Xclang","-disable-O0-optnone","-gline-tables-only","-fno-discard-value-names","-w","-emit-llvm","-c"]
NFLAGS=["-std=c++17","-fsized-deallocation","-O0","-g1","-DXS_NATIVE","-fsanitize=address","-fsanitize-address-use-after-scope","-rdynamic","-w"]
# further compilations of the same contracts, thorough tier
VARIANTS={t:[("cxx20",["-std=c++20"])] for t in "l0_refcount l1_control_block l2_alloc l2_factory l2_handover l3_cast l3_from l3_shared l3_weak l4_unique l5_storage l6_stack".split()}
for t in "l3_shared l3_weak l3_from l3_cast l4_unique l5_storage l6_stack".split(): VARIANTS[t].append(("no-elision",["-fno-elide-constructors"]))
BASE={"l8_std20":["-std=c++20"]}      # the standard a contract file is about, where it is not C++17
RX=re.compile(r'^CONTRACT\(\s*(\w+)\s*,\s*"([^"]*)"\s*,\s*"((?:[^"\\]|\\.)*)"\s*\)',re.M)

TRUSTED=[
 "clang 18 front end: the verified text is the LLVM IR clang generates from /repo's headers at -O0 (the repository itself is built by gcc; both are taken to implement C++17)",
 "xvc/engine.py, xvc/llvm.py: verification condition generator written for this work (self-tested by xvc/selftest.py)",
 "z3 4.x as SMT back end (thorough tier: every solver-discharged obligation is decided a second time by cvc5)",
 "libstdc++ headers used by xmem are executed as they are, not specified; out-of-line libstdc++/libc functions are modelled: operator new/delete (xs_model_new/xs_model_delete in spec/ledger.hpp), __dynamic_cast (arbitrary result), ostream insertion (recorded)",
 "Itanium C++ ABI exception runtime as modelled in xvc/engine.py",
]
ASSUME=[
 "machine arithmetic is bit-precise; counts stay below 2^32-16 simultaneous handles per object (C05 contracts) and below 2^31 others per block (handle contracts)",
 "other threads act between the atomic steps of the code under contract as the rely hooks in the contract files allow; weak-memory reordering is covered through the required acquire/release orders, not by enumerating executions",
 "user-supplied types honour their documented requirements (non-throwing destructors, moves and deleters that xmem's documentation requires)",
 "termination: that a loop waiting on other threads ends once they let it is proved (the *_progress contracts); that they do let it, and that other loops end, is assumed",
]

MX=re.compile(r'^#define (\w+)\(([^)]*)\) \\\n((?:.*\\\n)*.*\n)',re.M)
def expand(s):
    """the file with the uses of its own contract-making macros replaced by the contracts they make"""
    for m in list(MX.finditer(s)):
        if "CONTRACT(" not in m.group(3): continue
        name=m.group(1); ps=[x.strip() for x in m.group(2).split(",")]; body=m.group(3)
        for u in list(re.finditer(r'^%s\((.*)\)\s*$'%name,s,re.M)):
            args=split_args(u.group(1)); out=body
            for a,b in zip(ps,args): out=re.sub(r'(##)?\b%s\b(?=(?:[^"]*"[^"]*")*[^"]*$)'%a,lambda _:b,out,flags=re.M)
            out=re.sub(r'\\$','',out,flags=re.M).replace("##",""); out=re.sub(r'"\s+"','',out)
            s+="\n"+re.sub(r'^\s+','',out,flags=re.M)
    return s
def split_args(t):
    out=[""];d=0;q=False
    for c in t:
        if c=='"': q=not q
        if not q:
            if c in "(<[{": d+=1
            elif c in ")>]}": d-=1
            elif c=="," and d==0: out.append(""); continue
        out[-1]+=c
    return [x.strip() for x in out]
def scan():
    out=[]
    for f in sorted(os.listdir(os.path.join(HERE,"spec"))):
        if not f.endswith(".cpp"): continue
        s=expand(open(os.path.join(HERE,"spec",f)).read())
        for m in RX.finditer(s): out.append((f[:-4],m.group(1),m.group(2).split(),m.group(3)))
    return out

def compile_tu(tu,out,repo,extra):
    cmd=[CXX]+CFLAGS+["-I"+os.path.join(repo,"code"),"-I"+os.path.join(HERE,"spec")]+BASE.get(tu,[])+extra+[os.path.join(HERE,"spec",tu+".cpp"),"-o",out]
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    return p.returncode,p.stdout
def _c(a): return compile_tu(*a)

MODS={}
def worker(job):
    import engine
    key,contract,opts=job
    t=time.time()
    r=dict(key=key,contract=contract,error=None)
    opts=dict(opts); opts["deadline"]=T0+LIMIT
    try:
        m=MODS.get(key)
        if m is None: raise engine.Unsupported("not compiled")
        e=engine.Engine(m,"xc_"+contract,opts)
        try: e.run()
        except engine.Unsupported as x:
            r["error"]=str(x)+" "+str([w for w in (e.where()[:3] if getattr(e,"stack",None) else [])])
        except RecursionError: r["error"]="recursion limit"
        if e.truncated and not r["error"]: r["error"]="stopped with %d paths to go after %d failures"%(e.truncated,e.n_viol)
        r.update(obl=[(o.label,o.where,o.n_eval,o.n_smt,o.failed) for o in e.obl.values()],viol=e.viol,paths=e.paths,ended=e.ended,infeasible=e.infeasible,
                 covers=e.covers,loops=[list(x) for x in e.loops_cut],funcs=e.libfuncs,queries=e.n_queries,solver=e.t_solver,cvc5=e.n_cvc,cvc_unknown=list(e.opts.get("cvc_unknown",[])))
    except Exception as x:
        import traceback
        r["error"]="internal: "+traceback.format_exc()[-800:]
    r["wall"]=time.time()-t
    return r

def hunter(job):
    """one concrete failing path of a contract whose loops were cut: the loops run as they are"""
    import engine
    key,contract,labels,first,end=job
    try:
        e=engine.Engine(MODS[key],"xc_"+contract,dict(deadline=end,max_steps=10**8,hunt=dict(labels=labels,first=first,n=5000)))
        try: e.run()
        except (engine.Found,engine.Unsupported): pass
        return key,contract,[v for v in e.viol if v["label"] in labels]
    except Exception: return key,contract,[]

def known_findings():
    out=[]
    p=os.path.join(HERE,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'known: property=(\w+) contract=(\w+) label="([^"]*)" msg="([^"]*)" (.*)',l.strip())
            if m: out.append(m.groups())
    return out

def props_of(label,all_props):
    """property ids a label names; none: every property of the contract"""
    m=re.match(r'^(C\d\d(?:\|C\d\d)*): ',label)
    return m.group(1).split("|") if m else all_props

def demangle(names):
    try:
        p=subprocess.run(["c++filt"],input="\n".join(names),stdout=subprocess.PIPE,text=True,timeout=20)
        return p.stdout.split("\n")[:len(names)]
    except Exception: return names

def main():
    args=[a for a in sys.argv[1:]]
    repo="/repo"
    if "--repo" in args:
        i=args.index("--repo"); repo=args[i+1]; del args[i:i+2]
    verbose="-v" in args
    if verbose: args.remove("-v")
    P=args[0]; tier=args[1] if len(args)>1 else os.environ.get("VERIF_TIER","quick")
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    title={}
    for l in open(os.path.join(HERE,"properties.jsonl")):
        if l.strip(): d=json.loads(l); title[d["id"]]=d["title"]
    cs=[c for c in scan() if P in c[2]]
    if not cs: print("no contract serves %s"%P); return 2
    info={c[1]:c for c in cs}
    tus=sorted({c[0] for c in cs})
    tmp=tempfile.mkdtemp(prefix="xvc_")
    try: return run(P,tier,seed,title,cs,info,tus,tmp,repo,verbose)
    finally: shutil.rmtree(tmp,ignore_errors=True)

def run(P,tier,seed,title,cs,info,tus,tmp,repo,verbose):
    import llvm
    ncpu=max(1,len(os.sched_getaffinity(0)))
    comp=[]
    for tu in tus:
        comp.append((tu,"",[]))
        if tier=="thorough":
            for n,fl in VARIANTS.get(tu,[]): comp.append((tu,n,fl))
    with mp.get_context("fork").Pool(ncpu) as pool:
        res=pool.map(_c,[(tu,os.path.join(tmp,"%s-%s.bc"%(tu,v)),repo,fl) for tu,v,fl in comp],1)
        jobs=[]; broken=[]      # broken: (contract, compiler output)
        retry=[]
        for (tu,v,fl),(rc,out) in zip(comp,res):
            for c in cs:
                if c[0]!=tu: continue
                if rc==0: jobs.append(((tu,v),c[1]))
                else: retry.append((tu,v,fl,c[1]))
        if retry:
            r2=pool.map(_c,[(tu,os.path.join(tmp,"%s-%s-%s.bc"%(tu,v,n)),repo,fl+["-DXS_ONLY","-DXS_SEL_%s=~,1"%n]) for tu,v,fl,n in retry],1)
            for (tu,v,fl,n),(rc,out) in zip(retry,r2):
                if rc==0: jobs.append(((tu,v,n),n))
                else: broken.append((n,v,out))
    opts={}
    if tier=="thorough": opts["cvc5"]=True
    for k in {j[0] for j in jobs}:
        MODS[k]=llvm.Module(os.path.join(tmp,"-".join(k)+".bc"))
        if len(k)==2:
            have={g[3:] for g in MODS[k].globs if g.startswith("xm_")}
            if have!={c[1] for c in scan() if c[0]==k[0]}: raise RuntimeError("contracts not seen in spec/%s.cpp: %s"%(k[0],sorted(have^{c[1] for c in scan() if c[0]==k[0]})))
    try: hint=json.load(open(os.path.join(HERE,"xvc","times.json")))
    except Exception: hint={}
    jobs.sort(key=lambda j:-hint.get(j[1],1.0))
    results=[]
    with mp.get_context("fork").Pool(ncpu,maxtasksperchild=8) as pool:
        it=pool.imap_unordered(worker,[(k,n,opts) for k,n in jobs],1)
        stop=LIMIT+60; kn={(kc,kl) for (_,kc,kl,_,_) in known_findings()}
        for _ in jobs:
            try: results.append(it.next(timeout=max(1,stop-(time.time()-T0))))
            except mp.TimeoutError:
                pool.terminate(); break
            r=results[-1]      # once something has failed the rest need not take long
            if any(P in props_of(v["label"],info[r["contract"]][2]) and (r["contract"],v["label"]) not in kn for v in r.get("viol") or []):
                stop=min(stop,max(time.time()-T0+60,240))
    done={(r["key"],r["contract"]) for r in results}
    for k,n in jobs:
        if (k,n) not in done: results.append(dict(key=k,contract=n,error="time limit, or stopped after a failure elsewhere",viol=[],obl=[],covers={},paths=0,ended=0,infeasible=0,loops=[],funcs={},queries=0,solver=0,cvc5=0,cvc_unknown=[],wall=0))
    known=known_findings()
    groups={}     # (contract,label) -> list of violations attributed to P
    knownhit={}
    unproved=[]
    obligations=[]; nvc=nsmt=0
    funcs=set(); contracts=[]
    for r in sorted(results,key=lambda r:(r["contract"],r["key"])):
        n=r["contract"]; props=info[n][2]
        r.setdefault("viol",[]); r.setdefault("obl",[])
        anyv=bool(r["viol"])
        for v in r["viol"]:
            if not v.get("msg"): v["msg"]=""
            for (kp,kc,kl,km,kt) in known:
                if kc==n and kl==v["label"] and km in v["msg"]:
                    if kp==P: knownhit[(kc,kl)]=kt
                    break
            else:
                if v.get("fatal") or P in props_of(v["label"],props): groups.setdefault((n,v["label"]),[]).append((r,v))
        knownc={(kc,kl) for (kp,kc,kl,km,kt) in known}
        nobl=0
        for (l,w,ne,ns,nf) in r["obl"]:
            if P not in props_of(l,props): continue
            if (n,l) in knownc: continue
            if "BOUNDED" in info[n][3]: continue      # run, reported when it fails, not counted
            nobl+=1
            obligations.append((n,l,nf==0 and ne+ns>0)); nvc+=ne+ns; nsmt+=ns
        if r["error"]: unproved.append((n,"the verifier did not finish: "+r["error"]))
        elif "end" not in r["covers"] and not anyv: unproved.append((n,"no path reaches the end of the contract"))
        funcs|=set(r.get("funcs",{}))
        contracts.append(dict(contract=n,file="spec/%s.cpp"%info[n][0],variant=r["key"][1] if len(r["key"])>1 else "",states=info[n][3],paths=r.get("paths"),
            completed=r.get("ended"),infeasible=r.get("infeasible"),obligations=nobl,loops_cut=r.get("loops"),queries=r.get("queries"),solver_s=round(r.get("solver",0),2),
            wall_s=round(r["wall"],2),cvc5=r.get("cvc5"),covers=r.get("covers"),error=r["error"],violations=len(r["viol"])))
        if verbose: print("%-28s %-10s wall=%.1f paths=%s viol=%d %s"%(n,r["key"][1],r["wall"],r.get("paths"),len(r["viol"]),r["error"] or ""))
    for n,v,out in broken: unproved.append((n,"the contract does not compile against the code: "+"; ".join(re.findall(r"error: (.*)",out)[:3])))
    # ---- report
    evdir=os.environ.get("XVC_EVIDENCE") or os.path.join(HERE,"evidence")
    outdir=os.path.join(evdir,"replay"); os.makedirs(outdir,exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(P+"-"): os.unlink(os.path.join(outdir,f))
    confirmed=[]; unconfirmed=[]
    if groups:
        nat={}; cutl={}
        budget=14
        order=sorted(groups.items(),key=lambda g:(g[0][1].startswith("safety:uninit"),min(len(v["tape"]) for _,v in g[1])))
        for i,((n,l),vs) in enumerate(order):
            vs=sorted(vs,key=lambda rv:len(rv[1]["tape"]))
            ok=None; out=""
            for r,v in (vs[:2]+vs[-1:] if len(vs)>2 else vs):
                if budget<=0 or len(confirmed)>=4 or time.time()-T0>LIMIT: break
                budget-=1
                st,o=replay(r["key"],n,v,nat,tmp,repo,P,info[n][2])
                out=o
                if st: ok=(r,v,o); break
            r,v=(ok[0],ok[1]) if ok else vs[0]
            path=os.path.join(outdir,"%s-%d.json"%(P,i))
            write_replay(path,P,title,n,l,info,r,v,ok,out,repo)
            (confirmed if ok else unconfirmed).append((n,l,path,v))
            if not ok and r.get("loops"): cutl.setdefault((r["key"],n),{})[l]=(path,r,v.get("fatal",False))
        left=LIMIT-(time.time()-T0)
        if not confirmed and cutl and left>30:      # an arbitrary iteration is not an input: look for a run from the start
            end=time.time()+min(90,left-20)
            hj=[(k,n,list(ls),f,end) for (k,n),ls in sorted(cutl.items(),key=lambda x:hint.get(x[0][1],1.0))[:4] for f in (True,False)]
            with mp.get_context("fork").Pool(min(ncpu,len(hj))) as pool:
                for key,n,vs in pool.imap_unordered(hunter,hj,1):
                    for v in vs:
                        path,r,v["fatal"]=cutl[(key,n)][v["label"]]
                        st,o=replay(key,n,v,nat,tmp,repo,P,info[n][2])
                        if not st: continue
                        write_replay(path,P,title,n,v["label"],info,r,v,True,o,repo)
                        unconfirmed=[u for u in unconfirmed if u[2]!=path]; confirmed.append((n,v["label"],path,v))
                        break
                    if confirmed: pool.terminate(); break
    for j,(n,why) in enumerate(unproved):
        path=os.path.join(outdir,"%s-u%d.json"%(P,j))
        out="\n".join(o for (a,v,o) in broken if a==n)
        json.dump(dict(property=P,title=title.get(P),contract=n,contract_file="spec/%s.cpp"%info[n][0],states=info[n][3],obligation="the contract is established",message=why,
            verifier_output=out[-6000:],replayed=False),open(path,"w"),indent=1)
        unconfirmed.append((n,"not established",path,dict(msg=why,where=[])))
    for (kc,kl),kt in sorted(knownhit.items()): print("KNOWN-FINDING: property=%s %s"%(P,kt))
    for n,l,path,v in confirmed+unconfirmed:
        w=v["where"][0] if v["where"] else None
        lib=[x for x in v["where"] if "/code/xmem/" in x[1]] if v["where"] else []
        if lib: w=lib[0]
        print("failed: contract %s: %s%s%s"%(n,l," ("+v["msg"]+")" if v.get("msg") else ""," at %s:%s"%(os.path.basename(w[1]),w[2]) if w else ""))
    nviol=len(confirmed)+len(unconfirmed)
    nd=sum(1 for o in obligations if o[2])
    fn=sorted(set(f for f in demangle(sorted(funcs)) if f.startswith(("xmem::","xstd::")) or " xmem::" in f or " xstd::" in f))
    names=sorted({re.sub(r"<.*","",re.sub(r"^.*?((?:xmem|xstd)::)",r"\1",re.sub(r"\(.*","",strip_t(f)))) for f in fn})
    bounded=[n for n in info if "BOUNDED" in info[n][3]]
    ev=dict(property=P,tier=tier,seed=seed,level="proof",
        coverage=dict(obligations=len(obligations),discharged=nd,
            checker_cmd="python3-vt run.py %s %s  (clang++-18 -emit-llvm on spec/*.cpp with /repo/code; xvc; z3%s)"%(P,tier,"; cvc5" if tier=="thorough" else ""),
            trusted_base=TRUSTED,
            verification_conditions=nvc,decided_by_smt=nsmt,decided_by_evaluation=nvc-nsmt,
            solver_queries=sum(r.get("queries",0) or 0 for r in results),solver_s=round(sum(r.get("solver",0) or 0 for r in results),2),
            cvc5_confirmed=sum(r.get("cvc5",0) or 0 for r in results),cvc5_unknown=sum(len(r.get("cvc_unknown",[])) for r in results),
            contracts=contracts,functions_under_contract=names,function_instances_verified=len(fn),
            bounded_contracts=bounded,
            samples=[dict(contract=n,obligation=l) for n,l,_ in obligations[:5]],
            known_findings=[dict(contract=a,obligation=b) for a,b in knownhit],
            failed=[dict(contract=n,obligation=l,replay=p) for n,l,p,_ in confirmed+unconfirmed]),
        assumptions=ASSUME+(["bounded, not counted as proved: "+", ".join(bounded)] if bounded else []),
        wall_s=round(time.time()-T0,2),violations=nviol)
    ep=os.path.join(evdir,P+".json")
    json.dump(ev,open(ep+".tmp","w"),indent=1); os.replace(ep+".tmp",ep)
    print("%s %s: %d contracts, %d of %d obligations discharged (%d verification conditions, %d by SMT), %d xmem function instances, %.1f s"%(P,tier,len(results),nd,len(obligations),nvc,nsmt,len(fn),time.time()-T0))
    if confirmed:
        for n,l,path,v in confirmed[:1]: print("VIOLATION property=%s replay=%s"%(P,path))
        return 1
    if unconfirmed:
        print("VIOLATION property=%s replay=%s no-failing-input-found"%(P,unconfirmed[0][2])); return 1
    if not obligations: print("no obligation was generated"); return 2
    return 0

def write_replay(path,P,title,n,l,info,r,v,ok,out,repo):
    tp=path[:-5]+".tape"
    with open(tp,"w") as f:
        for k,nm,x in v["tape"]: f.write("%s\t%s\t%s\n"%(k,nm.replace("\t"," "),x))
    json.dump(dict(property=P,title=title.get(P),contract=n,contract_file="spec/%s.cpp"%info[n][0],states=info[n][3],obligation=l,message=v.get("msg"),
        where=[dict(function=a,file=b,line=c) for a,b,c in v["where"]],inputs=v["tape"],model=v.get("model"),
        replayed=bool(ok),replay_output=out[-3000:],
        how_to_replay="%s %s -I%s/code -I%s/spec %s/spec/%s.cpp -o replay -ldl && ./replay %s %s"%(CXX," ".join(NFLAGS+flags_of(r["key"])),repo,HERE,HERE,info[n][0],n,tp)),
        open(path,"w"),indent=1)

def strip_t(f):
    out=[];d=0
    for ch in f:
        if ch=="<": d+=1
        elif ch==">": d-=1 if d else 0
        elif d==0: out.append(ch)
    return "".join(out)
def flags_of(key):
    for n,fl in VARIANTS.get(key[0],[]):
        if len(key)>1 and key[1]==n: return BASE.get(key[0],[])+fl
    return BASE.get(key[0],[])
def replay(key,n,v,nat,tmp,repo,P,props):
    """run the recorded counterexample against the real code"""
    if key not in nat:
        exe=os.path.join(tmp,"native-"+"-".join(key))
        extra=flags_of(key)+(["-DXS_ONLY","-DXS_SEL_%s=~,1"%key[2]] if len(key)>2 else [])
        p=subprocess.run([CXX]+NFLAGS+extra+["-I"+os.path.join(repo,"code"),"-I"+os.path.join(HERE,"spec"),os.path.join(HERE,"spec",key[0]+".cpp"),"-o",exe,"-ldl"],
            stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
        nat[key]=(exe if p.returncode==0 else None,p.stdout)
    exe,out=nat[key]
    if not exe: return False,"the replay program does not compile:\n"+out[-2000:]
    tf=os.path.join(tmp,"tape")
    with open(tf,"w") as f:
        for k,nm,x in v["tape"]: f.write("%s\t%s\t%s\n"%(k,nm.replace("\t"," "),x))
    env=dict(os.environ,ASAN_OPTIONS="exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1")
    try: p=subprocess.run([exe,n,tf],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=10,env=env,cwd=tmp)
    except subprocess.TimeoutExpired: return v["label"]=="safety:loop","the replay does not end"
    o=p.stdout
    if p.returncode==99 and v["label"].startswith("safety:memory"): return True,o
    if p.returncode==99 or p.returncode<0: return v["label"].startswith("safety:") or v.get("fatal",False),o
    failed=re.findall(r"^FAILED (.*)$",o,re.M)
    if p.returncode==1 and any(l==v["label"] or P in props_of(l,props) for l in failed): return True,o
    return False,o
if __name__=="__main__":
    try: rc=main()
    except Exception:
        import traceback; traceback.print_exc(); rc=2
    sys.stdout.flush()
    os._exit(rc)
