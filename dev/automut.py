#!/usr/bin/env python3-vt
"""Development aid: mechanical mutants of every line of /repo/code, and which of them no contract rejects.
usage: automut.py [--list] [--near] [--only FILE] [--skip N] [--jobs N] [file.hpp ...]   (survivors are judged by hand: equivalent, or a missing contract)"""
import sys,os,re,shutil,subprocess,time,tempfile,multiprocessing as mp
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.dirname(HERE)); sys.path.insert(0,os.path.join(os.path.dirname(HERE),"xvc"))
import run as R, llvm
SRC="/repo/code/xmem"
ORDER={"unique_ptr.hpp":["l4_unique","l2_factory","l2_handover"],"default_delete.hpp":["l4_unique"],"basic_shared_ptr.hpp":["l3_shared","l3_cast","l2_handover"],
 "basic_weak_ptr.hpp":["l3_weak"],"cb_ptr_pair.hpp":["l3_shared","l3_cast","l3_weak"],"basic_shared_from.hpp":["l3_from","l2_handover"],"common_control_block.hpp":["l1_control_block","l2_factory","l2_handover"],
 "atomic_ref_count.hpp":["l0_refcount","l1_control_block"],"local_ref_count.hpp":["l0_refcount","l1_control_block"],"allocator.hpp":["l2_alloc"],"allocator_rebind.hpp":["l2_alloc"],
 "std_helpers.hpp":["l7_std"],"basic_atomic_shared_ptr_storage.hpp":["l5_storage"],"bits/spinlock.hpp":["l5_storage"],"ostream.hpp":["l3_cast","l4_unique"],"shared_ptr.hpp":["l2_factory"],"local_shared_ptr.hpp":["l2_factory"]}
OPS=[("==","!="),("!=","=="),("&&","||"),("||","&&"),("<=","<"),(">=",">"),(r"(?<![<\w])!(?=[\w(])",""),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r" noexcept\b",""),
 (r"std::move\(((?:[^()]|\([^()]*\))*)\)",r"\1"),(r"std::forward<\w+>\(((?:[^()]|\([^()]*\))*)\)",r"\1"),(r"memory_order_(acquire|release|acq_rel|seq_cst)","memory_order_relaxed"),
 (r"\b0\b","1"),(r"\b1\b","0"),(r"\bm_strong\b","m_weak"),(r"\bm_weak\b","m_strong"),(r"\bif \(","if (!("),(r"\?\s*(\S+)\s*:\s*(\S+)",r"? \2 : \1"),
 (r"\bdelete\[\]","delete"),(r"\bdelete (?=\w)","delete[] "),(r"(?<=\w) \+ "," - "),(r" - "," + "),(r" \* ",r" + "),(r"\+\+","--"),(r"--","++"),(r" < "," > "),(r" > "," < "),
 (r"\bstrong\b","weak"),(r"_strong",r"_weak"),(r"_weak",r"_strong"),(r"\bother\b","*this"),(r"\.cb\b",".ptr"),(r"return .*;","return {};"),(r"\bconst (?=\w+[&*])","") ,(r"\bexplicit ",""),
 (r"\binc\b","dec"),(r"\bdec\b","inc"),(r"\.reset\(",".release("),(r"\.release\(",".get("),(r"\(\)\)","))"),(r"\binit_from_copy","init_from_move"),(r"\bwhile\b","if")]
def mutants(f):
    L=open(os.path.join(SRC,f)).read().split("\n"); out=[]
    for i,l in enumerate(L):
        t=l.strip(); c=l.find("//"); code=l if c<0 else l[:c]
        if not code.strip() or t.startswith(("#","static_assert","namespace","template","using","friend","typename")): continue
        for a,b in OPS:
            for m in re.finditer(a if not a[0] in "=!&|<>" or "\\" in a else re.escape(a),code):
                n=code[:m.start()]+m.expand(b)+code[m.end():]
                if a==r"\bif \(":
                    # negate the whole condition: find the matching parenthesis
                    d=0
                    for j in range(m.end()-1,len(code)):
                        d+=(code[j]=="(")-(code[j]==")")
                        if d==0: n=code[:m.end()]+"!("+code[m.end():j]+")"+code[j:]; break
                    else: continue
                if n!=code: out.append((f,i,n))
        if re.match(r"\s+[^{}]*;\s*$",code) and not re.match(r"\s*(return|const|auto|[\w:<>,&* ]+\s+\w+;)",code): out.append((f,i,re.match(r"\s*",code).group()+";"))
        for m in re.finditer(r"\{([^{}]*;)\s*\}",code): out.append((f,i,code[:m.start()]+"{}"+code[m.end():]))
        if re.match(r"\s*return [^;]*;",code) and False: pass
    u=[];seen=set()
    for x in out:
        if x in seen: continue
        seen.add(x); u.append(x)
    return u
CS=None; NEAR=False
def one(job):
    k,(f,i,n)=job
    R.T0=time.time(); R.LIMIT=3000; R.MODS.clear()
    W=tempfile.mkdtemp(prefix="automut_")
    try:
        os.makedirs(W+"/code"); shutil.copytree("/repo/code/xmem",W+"/code/xmem")
        p=W+"/code/xmem/"+f; L=open(p).read().split("\n"); old=L[i]; L[i]=n; open(p,"w").write("\n".join(L))
        if subprocess.run(["clang++-18","-std=c++17","-fsyntax-only","-I"+W+"/code","-x","c++","-"],input="\n".join('#include <xmem/%s>'%x for x in ORDER),text=True,capture_output=True).returncode: return k,"nocompile",None
        tus=ORDER[f]+([] if NEAR else [t for t in sorted({c[0] for c in CS}) if t not in ORDER[f]])
        known=R.known_findings()
        for t in tus:
            bc=os.path.join(W,t+"-.bc"); rc,out=R._c((t,bc,W,[]))
            if rc: return k,"nocompile",out
            R.MODS[(t,"")]=llvm.Module(bc)
            for c in CS:
                if c[0]!=t: continue
                r=R.worker(((t,""),c[1],{}))
                for v in r.get("viol",[]):
                    if any(kc==c[1] and kl==v["label"] and km in (v.get("msg") or "") for _,kc,kl,km,_ in known): continue
                    return k,"killed",(c[1],v["label"])
                if r["error"]: return k,"killed?",(c[1],r["error"][:200])
                if "end" not in r.get("covers",{}) and not r.get("viol"): return k,"killed",(c[1],"vacuous")
            R.MODS.clear(); os.unlink(bc)
        return k,"SURVIVED",None
    except Exception as x: return k,"error",repr(x)
    finally: shutil.rmtree(W,ignore_errors=True)
if __name__=="__main__":
    a=sys.argv[1:]; jobs=6; skip=0; lst="--list" in a
    only=None
    if "--near" in a: a.remove("--near"); NEAR=True      # only the contract files closest to the header: survivors are candidates
    if lst: a.remove("--list")
    if "--only" in a: i=a.index("--only"); only=set(map(int,open(a[i+1]).read().split())); del a[i:i+2]
    if "--jobs" in a: i=a.index("--jobs"); jobs=int(a[i+1]); del a[i:i+2]
    if "--skip" in a: i=a.index("--skip"); skip=int(a[i+1]); del a[i:i+2]
    M=[x for f in (a or ORDER) for x in mutants(f)]
    if lst:
        for k,(f,i,n) in enumerate(M): print(k,"%s:%d"%(f,i+1),n.strip())
        sys.exit()
    CS=R.scan()
    st={}
    with mp.get_context("fork").Pool(jobs,maxtasksperchild=4) as pool:
        for k,s,x in pool.imap_unordered(one,[x for x in enumerate(M) if x[0]>=skip and (only is None or x[0] in only)],1):
            st[s]=st.get(s,0)+1; f,i,n=M[k]
            print(k,s,"%s:%d"%(f,i+1),n.strip(),"<=",open(os.path.join(SRC,f)).read().split("\n")[i].strip(),x if s!="nocompile" else "",flush=True)
    print(st)
