"""xvc: verification-condition generator and deductive verifier for LLVM IR.

A contract is a C++ function compiled together with the code under contract.  The engine computes
strongest postconditions path by path over the real function bodies (SMT terms for everything that
is not determined), never bounding the inputs; loops whose trip count is not fixed are cut with an
inferred and then checked inductive invariant; other threads act through the rely hooks before every
atomic access; exceptions are unwound.  Every `xs_check` and every memory access is a proof obligation
  path condition  |=  condition
decided by evaluation when it contains no symbol, by z3 (cross-checked by cvc5 on request) otherwise.
"""
import time, sys, os
import z3
import llvm
from llvm import Const, GRef, UndefC, Agg, K_INT, K_PTR, K_STRUCT, K_ARR, K_VOID, K_DOUBLE, K_FLOAT, K_VEC

M64=(1<<64)-1
sys.setrecursionlimit(20000)

class PathEnd(Exception): pass
class Restart(Exception): pass
class Unsupported(Exception): pass
class Found(Exception): pass  # hunting: the violation looked for
class Stop(Exception):  # violation that makes the rest of the path meaningless
    pass

class _Undef:
    __slots__=()
    def __repr__(s): return "UNDEF"
UNDEF=_Undef()

class Region:
    __slots__=("id","size","align","kind","label","alive","mem","base","birth","death","const","fill","form","name")
class Ptr:
    __slots__=("r","o")
    def __init__(s,r,o): s.r=r; s.o=o
    def __eq__(s,t): return isinstance(t,Ptr) and s.r is t.r and s.o==t.o
    def __hash__(s): return hash((s.r.id,s.o))
    def __repr__(s): return "&%s#%d+%d"%(s.r.label,s.r.id,s.o)

class Frame:
    __slots__=("f","loc","blk","pc","allocas","prev","ret","loops","dst","lastdec")

def is_sym(v): return isinstance(v,z3.ExprRef)

class Obl:
    __slots__=("label","where","n_eval","n_smt","failed","t")
    def __init__(s,l,w): s.label=l; s.where=w; s.n_eval=0; s.n_smt=0; s.failed=0; s.t=0.0

class Engine:
    def __init__(self, mod, contract, opts=None):
        self.mod=mod; self.contract=contract
        self.opts=opts or {}
        self.max_paths=self.opts.get("max_paths",200000)
        self.max_steps=self.opts.get("max_steps",400000)
        self.deadline=self.opts.get("deadline")
        self.hunt=self.opts.get("hunt")   # look for one failing path: loops run as they are, up to a number of iterations
        self.unsat={}     # questions answered before (the expressions are kept alive, so identities are stable)
        self.cut={}       # loop key -> {'H':{cellkey}, 'drop':set()}
        self.reset_stats()
    def reset_stats(self):
        self.obl={}       # (label, where) -> Obl
        self.viol=[]      # violations
        self.covers={}
        self.reached=set()
        self.paths=0; self.ended=0; self.infeasible=0
        self.t_solver=0.0; self.n_queries=0; self.loops_cut=set(); self.libfuncs={}; self.libblocks=set()
        self.undecided=[]
        self.n_cvc=0; self.n_viol=0; self.t_first=None; self.truncated=0; self.by_label={}
    # ------------------------------------------------------------------ driver
    def run(self):
        for attempt in range(400):
            self.reset_stats()
            try:
                self.explore(); return
            except Restart: continue
        raise Unsupported("loop invariants do not stabilise")
    def explore(self):
        work=[[]]
        self.work=work
        while work:
            if self.deadline and time.time()>self.deadline: raise Unsupported("time limit")
            pre=work.pop()
            self.paths+=1
            if self.paths>self.max_paths: raise Unsupported("more than %d paths"%self.max_paths)
            self.run_path(pre)
            # after a failure the rest of the contract is still examined (other obligations may name other properties), within limits
            if self.viol and (time.time()>self.t_first+self.opts.get("grace",60) or self.n_viol>4000):
                self.truncated=len(work); return
    def run_path(self,prefix):
        self.prefix=prefix; self.di=0; self.dec=[]
        self.solver=z3.Solver(); self.solver.set("timeout",self.opts.get("timeout_ms",30000))
        self.pc=[]
        self.regions=[]; self.gl={}; self.time=0
        self.stack=[]; self.lib=0; self.frame_on=False; self.frame_mark=0; self.frame_allow=[]
        self.shared=[]; self.loopvals=[]; self.tape=[]; self.nsym=0; self.nund=0; self.steps=0; self.through=False; self.headed=0; self.was=None
        self.mater=[]; self.typeids={}; self.excs={}; self.caught=[]; self.bind={}; self.uncaught=0
        self.sat_cache=None
        self.path_failed=set()
        try:
            self.call_fn(self.contract,[],top=True)
            self.ended+=1
        except PathEnd: self.infeasible+=1
        except Stop: pass
    # ------------------------------------------------------------------ solver
    def add(self,c):
        self.pc.append(c); self.solver.add(c)
    def chk(self,*assump):
        k=None
        if self.cut:      # the same questions come back after every restart
            k=tuple(e.get_id() for e in self.pc)+(0,)+tuple(e.get_id() for e in assump)
            if k in self.unsat: return False
        t=time.time(); r=self.solver.check(*assump); d=time.time()-t
        self.t_solver+=d; self.n_queries+=1
        if k and r==z3.unsat: self.unsat[k]=(list(self.pc),assump)
        if r==z3.unknown:
            raise Unsupported("solver gave up: %s"%self.solver.reason_unknown())
        return r==z3.sat
    def inprefix(self): return self.di<len(self.prefix)
    def b(self,v):
        """i1 value -> python bool or z3 Bool"""
        if isinstance(v,int): return bool(v)
        if v is UNDEF: return self.undef_bool()
        if isinstance(v,z3.BoolRef):
            return v
        if isinstance(v,z3.BitVecRef): return v!=0
        if isinstance(v,Ptr): return True
        raise Unsupported("bool of %r"%(v,))
    def undef_bool(self):
        self.nund+=1; return z3.Bool("undef!%d"%self.nund)
    def tainted(self,e):
        if self.nund==0: return False
        seen=set(); st=[e]
        while st:
            x=st.pop(); i=x.get_id()
            if i in seen: continue
            seen.add(i)
            if x.num_args()==0:
                if x.decl().kind()==z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("undef!"): return True
            else: st.extend(x.children())
        return False
    def decide(self,c):
        """branch on an i1 value; returns python bool"""
        c=self.b(c)
        if isinstance(c,bool): return c
        c=z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.tainted(c):
            self.fail("uninitialised","branch on an uninitialised value"); raise Stop()
        if self.di<len(self.prefix):
            d=self.prefix[self.di]; self.di+=1; self.dec.append(d)
            self.add(c if d else z3.Not(c)); return d
        nc=z3.Not(c)
        t=self.chk(c)
        if not t: d=False
        else:
            f=self.chk(nc)
            d=True
            if f:
                if self.hunt and not self.hunt["first"]: d=False
                self.work.append(self.dec+[not d])
        self.di+=1; self.dec.append(d); self.prefix=self.dec[:]  # keep in step
        self.add(c if d else nc)
        return d
    def choose(self,n,name):
        if n<=0: raise PathEnd()
        if self.di<len(self.prefix):
            d=self.prefix[self.di]; self.di+=1; self.dec.append(d)
        else:
            order=range(n-1,-1,-1) if not self.hunt or self.hunt["first"] else range(n)
            for k in order[:-1]: self.work.append(self.dec+[k])
            d=order[-1]; self.di+=1; self.dec.append(d); self.prefix=self.dec[:]
        return d
    def assume(self,c):
        c=self.b(c)
        if isinstance(c,bool):
            if not c: raise PathEnd()
            return
        c=z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        self.add(c)
        if self.di<len(self.prefix) : return
        if not self.chk(): raise PathEnd()
    def fresh(self,bits,name):
        self.nsym+=1
        return z3.BitVec("%s#%d"%(name,self.nsym),bits)
    # ------------------------------------------------------------------ obligations
    def where(self):
        out=[]
        for fr in reversed(self.stack[-6:]):
            b=fr.f.blocks[fr.blk]
            i=b.insts[min(max(fr.pc-1,0),len(b.insts)-1)]
            out.append((fr.f.name,i.file,i.line))
        return out
    def site(self):
        fr=self.stack[-1] if self.stack else None
        if not fr: return ("?",0)
        b=fr.f.blocks[fr.blk]; i=b.insts[min(max(fr.pc-1,0),len(b.insts)-1)]
        return (os.path.basename(i.file),i.line)
    def obligation(self,c,label,fatal=False,kind="check"):
        """c: python bool / z3 Bool. Returns True when discharged."""
        self.reached.add(label)
        key=label
        o=self.obl.get(key)
        if o is None: o=self.obl[key]=Obl(label,self.site())
        if isinstance(c,bool):
            if c:
                if not self.inprefix(): o.n_eval+=1
                return True
            if self.inprefix(): return False
            o.n_eval+=1; o.failed+=1
            self.violation(label,None,kind)
            if fatal: raise Stop()
            return False
        c=z3.simplify(c)
        if z3.is_true(c): return self.obligation(True,label,fatal,kind)
        if z3.is_false(c): return self.obligation(False,label,fatal,kind)
        if self.inprefix(): return True
        t=time.time()
        nc=z3.Not(c)
        s=self.solver
        k=tuple(e.get_id() for e in self.pc)+(1,nc.get_id()) if self.cut else None
        if k and k in self.unsat: o.n_smt+=1; return True
        s.push(); s.add(nc)
        r=s.check()
        if k and r==z3.unsat and not self.opts.get("cvc5"): self.unsat[k]=(list(self.pc),nc)
        dt=time.time()-t; self.t_solver+=dt; self.n_queries+=1; o.t+=dt
        if r==z3.unsat:
            s.pop(); o.n_smt+=1
            if self.opts.get("cvc5"): self.cross(nc,label)
            return True
        if r==z3.unknown:
            s.pop(); self.undecided.append((label,self.where()))
            raise Unsupported("undecided obligation "+label)
        m=s.model(); s.pop(); o.n_smt+=1; o.failed+=1
        self.violation(label,m,kind)
        if fatal: raise Stop()
        return False
    def cross(self,nc,label):
        import cvc5
        if self.opts.get("cvc_unknown",[]).count(label)>1: self.opts["cvc_unknown"].append(label); return
        s=z3.Solver()
        for p in self.pc: s.add(p)
        s.add(nc)
        txt="(set-logic QF_BV)\n"+s.to_smt2()
        tm=cvc5.TermManager() if hasattr(cvc5,"TermManager") else None
        slv=cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per","5000")
        p=cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,txt,"q")
        sm=p.getSymbolManager(); res=None
        while True:
            c=p.nextCommand()
            if c.isNull(): break
            o=c.invoke(slv,sm)
            o=str(o).strip()
            if o in("sat","unsat","unknown"): res=o
        self.n_cvc+=1
        if res=="sat": raise Unsupported("z3 and cvc5 disagree on "+label)
        if res!="unsat": self.opts.setdefault("cvc_unknown",[]).append(label)
    def fail(self,label,msg):
        """built-in (safety) obligation violated on this path"""
        l="safety:"+label
        o=self.obl.get(l)
        if o is None: o=self.obl[l]=Obl(l,self.site())
        if self.inprefix(): return
        o.n_eval+=1; o.failed+=1
        self.violation(l,None,"safety",msg)
    def safety_ok(self,label):
        l="safety:"+label
        o=self.obl.get(l)
        if o is None: o=self.obl[l]=Obl(l,self.site())
        if not self.inprefix(): o.n_eval+=1
    def violation(self,label,model,kind,msg=""):
        self.n_viol+=1
        if self.t_first is None: self.t_first=time.time()
        k=(label,msg); self.by_label[k]=self.by_label.get(k,0)+1
        if self.by_label[k]>8: return         # recorded often enough
        if model is None:
            if self.solver.check()!=z3.sat:
                return  # the path itself is infeasible (cannot happen: kept feasible)
            model=self.solver.model()
        tape=[]
        for t in self.tape:
            v=t[2]
            if is_sym(v):
                mv=model.eval(v,model_completion=True)
                v=mv.as_long() if isinstance(mv,z3.BitVecNumRef) else (1 if z3.is_true(mv) else 0)
            elif isinstance(v,Ptr): v=0
            tape.append([t[0],t[1],v])
        self.viol.append(dict(contract=self.contract,label=label,kind=kind,msg=msg,
            where=[list(w) for w in self.where()],tape=tape,path=list(self.dec),
            model={str(d):str(model[d]) for d in model.decls()}))
        if self.hunt and label in self.hunt["labels"]: raise Found()
    # ------------------------------------------------------------------ regions
    def new_region(self,size,align,kind,label,name=None):
        r=Region(); r.id=len(self.regions); r.size=size; r.align=align; r.kind=kind; r.label=label; r.name=name
        r.alive=True; r.mem={}; r.base=None; self.time+=1; r.birth=self.time; r.death=None; r.const=False; r.fill=None; r.form=None
        self.regions.append(r); return r
    def kill(self,r):
        r.alive=False; self.time+=1; r.death=self.time
    def base(self,r):
        if r.base is None:
            r.base=z3.BitVec("addr_%s_%d"%(r.label,r.id),64)
            b=r.base
            cs=[z3.UGE(b,4096),z3.ULE(b,1<<46)]
            if r.align>1: cs.append((b&(r.align-1))==0)
            sz=r.size
            for q in self.mater:
                if (r.death is not None and r.death<q.birth) or (q.death is not None and q.death<r.birth): continue
                cs.append(z3.Or(z3.ULT(b+sz,q.base),z3.ULT(q.base+q.size,b)))
            self.mater.append(r)
            for c in cs: self.add(c)
        return r.base
    def bv(self,v,w=64):
        if isinstance(v,int): return z3.BitVecVal(v,w)
        if isinstance(v,Ptr): return self.base(v.r)+v.o if v.o else self.base(v.r)
        if v is UNDEF:
            self.nund+=1; return z3.BitVec("undef!%d"%self.nund,w)
        if isinstance(v,z3.BoolRef):
            if w==1: return z3.If(v,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
            return z3.If(v,z3.BitVecVal(1,w),z3.BitVecVal(0,w))
        if isinstance(v,z3.BitVecRef): return v
        raise Unsupported("bv of %r"%(v,))
    def norm(self,e):
        """simplify an expression to an int when it is constant"""
        if isinstance(e,int): return e
        e=z3.simplify(e)
        if isinstance(e,z3.BitVecNumRef): return e.as_long()
        if z3.is_true(e): return 1
        if z3.is_false(e): return 0
        return e
    def glob(self,name):
        r=self.gl.get(name)
        if r is not None: return r
        if name in self.mod.globs:
            G=self.mod.globs[name]
            r=self.new_region(G.size,G.align,"global",name)
            self.gl[name]=r; r.birth=0
            if name=="__libc_single_threaded": r.fill=0      # the program has more than one thread
            if not G.decl:
                r.fill=0
                c=self.mod.const(llvm.GetInit(G.ptr))
                self.init_const(r,0,c,self.mod.ty(G.ty))
            r.const=G.const and not G.decl
            return r
        if name in self.mod.funcs:
            r=self.new_region(1,16,"func",name); self.gl[name]=r; r.birth=0; return r
        r=self.new_region(64,16,"global",name); self.gl[name]=r; r.birth=0; return r
    def init_const(self,r,off,c,t):
        if t.kind==K_STRUCT:
            for e,o,v in zip(t.elts,t.offs,c.vals if isinstance(c,Agg) else [UndefC(x) for x in t.elts]): self.init_const(r,off+o,v,e)
        elif t.kind in (K_ARR,K_VEC):
            if isinstance(c,UndefC): return
            es=t.elt.size
            if es==1 and len(c.vals)>64 and all(v==0 for v in c.vals): return
            for i,v in enumerate(c.vals): self.init_const(r,off+i*es,v,t.elt)
        elif isinstance(c,UndefC): pass
        else:
            v=self.cval(c)
            if v==0 and r.fill==0: return
            r.mem[off]=(t.size,v)
    def cval(self,c):
        if isinstance(c,int): return c
        if isinstance(c,GRef): return Ptr(self.glob(c.name),c.off)
        if isinstance(c,UndefC):
            t=c.ty
            return self.agg_undef(t)
        if isinstance(c,Agg): return [self.cval(x) for x in c.vals]
        if isinstance(c,tuple) and c[0]=="fp":
            return 0 if c[1] in("0.000000e+00",) else self.fresh(64,"fp")
        return 0
    def agg_undef(self,t):
        if t.kind==K_STRUCT: return [self.agg_undef(e) for e in t.elts]
        if t.kind in(K_ARR,K_VEC): return [self.agg_undef(t.elt)]*t.n
        return UNDEF
    # ------------------------------------------------------------------ memory
    def resolve(self,p,size,what):
        """pointer value -> Ptr (region known) or violation"""
        if isinstance(p,Ptr): return p
        if isinstance(p,int):
            self.fail("memory","%s through %s pointer"%(what,"a null" if p<4096 else "an invalid")); raise Stop()
        if p is UNDEF:
            self.fail("uninitialised","%s through an uninitialised pointer"%what); raise Stop()
        e=z3.simplify(p)
        if isinstance(e,z3.BitVecNumRef): return self.resolve(e.as_long(),size,what)
        k=e.get_id()
        if k in self.bind: return self.bind[k][1]
        for r in list(self.mater):
            if not r.alive: continue
            sz=r.size if isinstance(r.size,int) else 1<<20
            inr=z3.And(z3.UGE(e,r.base),z3.ULT(e,r.base+sz))
            if self.decide(inr):
                self.chk(); m=self.solver.model()
                o=z3.simplify(m.eval(e-r.base,model_completion=True)).as_long()
                if not self.decide(e==r.base+o): raise Unsupported("symbolic offset into %s"%r.label)
                q=Ptr(r,o); self.bind[k]=(e,q); return q
        self.fail("memory","%s through a pointer that refers to no live object"%what); raise Stop()
    def known(self,p):
        """the object a pointer kept as a number refers to, if it does"""
        if not is_sym(p) or isinstance(p,z3.BoolRef) or p.size()!=64: return p
        e=z3.simplify(p)
        if isinstance(e,z3.BitVecNumRef): return e.as_long()
        if e.get_id() in self.bind: return self.bind[e.get_id()][1]
        for r in self.mater:
            if r.alive and isinstance(r.size,int) and self.decide(z3.And(z3.UGE(e,r.base),z3.ULT(e,r.base+r.size))): return self.resolve(e,1,"use")
        return p
    def access(self,p,size,write,what):
        p=self.resolve(p,size,what); r=p.r
        if not r.alive:
            self.fail("memory","%s of %s after its lifetime ended"%(what,r.label)); raise Stop()
        if r.kind=="func":
            self.fail("memory","%s of a function"%what); raise Stop()
        o=p.o
        if o>>63: o-=1<<64
        if isinstance(r.size,int):
            if o<0 or o+size>r.size:
                self.fail("memory","%s out of bounds of %s (offset %d size %d, object size %d)"%(what,r.label,o,size,r.size)); raise Stop()
        else:
            ok=z3.ULE(z3.BitVecVal(o+size,64),r.size)
            if o<0 or self.decide(z3.Not(ok)):
                self.fail("memory","%s out of bounds of %s"%(what,r.label)); raise Stop()
        if write and r.const:
            self.fail("memory","write to constant %s"%r.label); raise Stop()
        self.safety_ok("memory")
        if self.lib:
            if self.shared and self.lib:
                self.plain_shared(r,o,size,write)
            if write and self.frame_on and r.kind!="stack" and r.id<self.frame_mark or (write and self.lib and self.frame_on and r.kind=="global"):
                for (q,a,n) in self.frame_allow:
                    if q is r and a<=o and o+size<=a+n: break
                else:
                    if r.kind!="stack":
                        self.fail("frame","writes %s, which is outside the operation's frame"%r.label)
                self.safety_ok("frame")
        return r,o
    def plain_shared(self,r,o,size,write):
        for s in self.shared:
            if s[0] is r and o<s[1]+s[2] and s[1]<o+size:
                old=self.lib; self.lib=0
                self.call_fn("xs_plain_access",[Ptr(r,o),size,1 if write else 0,s[3]])
                self.lib=old
                return
    def rd(self,r,o,size):
        e=r.mem.get(o)
        if e is not None and e[0]==size: return e[1]
        # compose from bytes
        parts=[]; pos=o; end=o+size
        ent=sorted((k,v) for k,v in r.mem.items() if k<end and k+v[0]>o)
        cur=o
        segs=[]  # (nbytes, value or None, skip) low to high
        for k,(n,v) in ent:
            if k>cur: segs.append((k-cur,None,0,0)); cur=k
            st=cur-k; take=min(k+n,end)-cur
            segs.append((take,v,st,n)); cur+=take
        if cur<end: segs.append((end-cur,None,0,0))
        if all(s[1] is None or s[1] is UNDEF for s in segs):
            if r.fill is None: return UNDEF
            if all(s[1] is None for s in segs):
                if isinstance(r.fill,int): return int.from_bytes(bytes([r.fill])*size,"little")
        if all((s[1] is None and isinstance(r.fill,int)) or isinstance(s[1],int) for s in segs):
            v=0; sh=0
            for n,x,st,tot in segs:
                if x is None: x=int.from_bytes(bytes([r.fill])*n,"little"); st=0
                v|=((x>>(8*st))&((1<<(8*n))-1))<<sh; sh+=8*n
            return v
        out=[]
        for n,x,st,tot in segs:
            if x is None:
                if isinstance(r.fill,int): bvx=z3.BitVecVal(int.from_bytes(bytes([r.fill])*n,"little"),8*n)
                else: bvx=self.bv(UNDEF,8*n)
            else:
                full=self.bv(x,8*tot)
                bvx=z3.Extract(8*(st+n)-1,8*st,full) if (st or n!=tot) else full
            out.append(bvx)
        e=out[0] if len(out)==1 else z3.Concat(*reversed(out))
        return self.norm(e)
    def wr(self,r,o,size,v):
        m=r.mem
        e=m.get(o)
        if e is not None and e[0]==size:
            m[o]=(size,v); return
        end=o+size
        over=[(k,x) for k,x in m.items() if k<end and k+x[0]>o]
        for k,(n,x) in over:
            del m[k]
            if k<o: self.put_part(m,k,o-k,x,0,n)
            if k+n>end: self.put_part(m,end,k+n-end,x,end-k,n)
        m[o]=(size,v)
    def put_part(self,m,k,n,x,st,tot):
        if x is UNDEF: m[k]=(n,UNDEF); return
        if isinstance(x,int): m[k]=(n,(x>>(8*st))&((1<<(8*n))-1)); return
        m[k]=(n,self.norm(z3.Extract(8*(st+n)-1,8*st,self.bv(x,8*tot))))
    def load_ty(self,r,o,t):
        k=t.kind
        if k==K_INT:
            v=self.rd(r,o,t.size)
            if t.width==1:
                if isinstance(v,int): return v&1
                if v is UNDEF: return UNDEF
                if isinstance(v,z3.BoolRef): return v
                return self.norm(z3.Extract(0,0,v)==1)
            if isinstance(v,int): return v&((1<<t.width)-1)
            if t.width!=8*t.size and is_sym(v): return self.norm(z3.Extract(t.width-1,0,self.bv(v,8*t.size)))
            if isinstance(v,z3.BoolRef): return self.bv(v,t.width)
            return v
        if k==K_PTR: return self.rd(r,o,8)
        if k==K_STRUCT: return [self.load_ty(r,o+f,e) for e,f in zip(t.elts,t.offs)]
        if k in(K_ARR,K_VEC): return [self.load_ty(r,o+i*t.elt.size,t.elt) for i in range(t.n)]
        if k in(K_DOUBLE,K_FLOAT): return self.rd(r,o,t.size)
        raise Unsupported("load of type kind %d"%k)
    def store_ty(self,r,o,t,v):
        k=t.kind
        if k==K_INT:
            if isinstance(v,z3.BoolRef): v=self.bv(v,8*t.size)
            elif is_sym(v) and v.size()!=8*t.size: v=z3.ZeroExt(8*t.size-v.size(),v)
            self.wr(r,o,t.size,v)
        elif k==K_PTR: self.wr(r,o,8,v)
        elif k==K_STRUCT:
            for e,f,x in zip(t.elts,t.offs,v): self.store_ty(r,o+f,e,x)
        elif k in(K_ARR,K_VEC):
            for i,x in enumerate(v): self.store_ty(r,o+i*t.elt.size,t.elt,x)
        elif k in(K_DOUBLE,K_FLOAT): self.wr(r,o,t.size,v)
        else: raise Unsupported("store of type kind %d"%k)
    def memcpy(self,d,s,n):
        if not isinstance(n,int): raise Unsupported("memcpy of symbolic length")
        if n==0: return
        sr,so=self.access(s,n,False,"copy from"); dr,do=self.access(d,n,True,"copy to")
        ents=[]; cur=so; end=so+n
        for k,(m,v) in sorted((k,x) for k,x in sr.mem.items() if k<end and k+x[0]>so):
            a=max(k,so); b=min(k+m,end)
            ents.append((a-so,b-a,self.rd(sr,a,b-a)))
        # clear destination range, then place
        self.wr(dr,do,n,UNDEF); del dr.mem[do]
        if sr.fill is not None or dr.fill is not None:
            f=UNDEF if sr.fill is None else sr.fill
            pos=0
            for (a,m,v) in ents+[(n,0,None)]:
                if a>pos: dr.mem[do+pos]=(a-pos,UNDEF if f is UNDEF else int.from_bytes(bytes([f])*(a-pos),"little"))
                pos=a+m
        for (a,m,v) in ents: dr.mem[do+a]=(m,v)
    def memset(self,d,v,n):
        if isinstance(n,int):
            if n==0: return
            r,o=self.access(d,n,True,"fill of")
            if isinstance(v,int):
                if n<=64:
                    self.wr(r,o,n,UNDEF); del r.mem[o]
                    i=0
                    while i<n:
                        step=8 if n-i>=8 else (4 if n-i>=4 else 1)
                        r.mem[o+i]=(step,int.from_bytes(bytes([v])*step,"little")); i+=step
                else: self.wr(r,o,n,int.from_bytes(bytes([v])*n,"little"))
            else: raise Unsupported("memset of symbolic byte")
            return
        # symbolic length: must be the whole object
        p=self.resolve(d,1,"fill"); r=p.r
        if not r.alive: self.fail("memory","fill of a dead object"); raise Stop()
        if p.o!=0 or r.mem: raise Unsupported("partial memset of symbolic length")
        if not self.obligation(z3.ULE(n,self.bv(r.size)),"safety:memory",kind="safety"): raise Stop()
        if self.decide(n==self.bv(r.size)): r.fill=v if isinstance(v,int) else None
        else: r.fill=None
    # ------------------------------------------------------------------ comparison / arithmetic
    def ptr_eq(self,a,b):
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if a.r is b.r: return a.o==b.o
            ra,rb=a.r,b.r
            if (ra.death is not None and ra.death<rb.birth) or (rb.death is not None and rb.death<ra.birth):
                return self.bv(a)==self.bv(b)
            ina=isinstance(ra.size,int) and 0<=a.o<max(ra.size,1); inb=isinstance(rb.size,int) and 0<=b.o<max(rb.size,1)
            if ina and inb: return False
            if ra.kind=="func" or rb.kind=="func": return False
            return self.bv(a)==self.bv(b)
        if isinstance(a,Ptr) and isinstance(b,int):
            if b==0 and a.o < (1<<62): return False
            if b<4096: return False
            return self.bv(a)==self.bv(b)
        if isinstance(b,Ptr) and isinstance(a,int): return self.ptr_eq(b,a)
        if isinstance(a,int) and isinstance(b,int): return a==b
        return self.bv(a)==self.bv(b)
    def icmp(self,pred,a,b,t):
        if t.kind==K_VEC: raise Unsupported("vector compare")
        if isinstance(a,int) and isinstance(b,int):
            if pred==32: return int(a==b)
            if pred==33: return int(a!=b)
            if pred>=38:
                w=t.width; h=1<<(w-1)
                a=(a^h)-h; b=(b^h)-h
                return int({38:a>b,39:a>=b,40:a<b,41:a<=b}[pred])
            return int({34:a>b,35:a>=b,36:a<b,37:a<=b}[pred])
        if t.kind==K_PTR or isinstance(a,Ptr) or isinstance(b,Ptr):
            if a is UNDEF or b is UNDEF: return self.undef_bool()
            if pred in(32,33):
                r=self.ptr_eq(a,b)
                if isinstance(r,bool): return int(r if pred==32 else not r)
                return self.norm(r if pred==32 else z3.Not(r))
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.r is b.r and pred<38:
                return self.icmp(pred,a.o,b.o,llvmI64)
        if a is UNDEF or b is UNDEF: return self.undef_bool()
        w=t.width or 64
        x=self.bv(a,w); y=self.bv(b,w)
        if pred==32: e=x==y
        elif pred==33: e=x!=y
        elif pred==34: e=z3.UGT(x,y)
        elif pred==35: e=z3.UGE(x,y)
        elif pred==36: e=z3.ULT(x,y)
        elif pred==37: e=z3.ULE(x,y)
        elif pred==38: e=x>y
        elif pred==39: e=x>=y
        elif pred==40: e=x<y
        else: e=x<=y
        return self.norm(e)
    def arith(self,op,a,b,t):
        w=t.width
        if a is UNDEF or b is UNDEF: return UNDEF
        m=(1<<w)-1
        if isinstance(a,int) and isinstance(b,int):
            h=1<<(w-1)
            if op==8: return (a+b)&m
            if op==10: return (a-b)&m
            if op==12: return (a*b)&m
            if op in(14,17):
                if b==0: self.fail("arithmetic","division by zero"); raise Stop()
                return a//b if op==14 else a%b
            if op in(15,18):
                if b==0: self.fail("arithmetic","division by zero"); raise Stop()
                sa=(a^h)-h; sb=(b^h)-h
                q=abs(sa)//abs(sb); q=q if (sa<0)==(sb<0) else -q
                return (q if op==15 else sa-q*sb)&m
            if op==20: return (a<<b)&m if b<w else 0
            if op==21: return a>>b if b<w else 0
            if op==22: return (((a^h)-h)>>min(b,w-1))&m
            if op==23: return a&b
            if op==24: return a|b
            if op==25: return a^b
        if w==1:
            x=self.b(a); y=self.b(b)
            x=z3.BoolVal(x) if isinstance(x,bool) else x; y=z3.BoolVal(y) if isinstance(y,bool) else y
            if op==23: return self.norm(z3.And(x,y))
            if op==24: return self.norm(z3.Or(x,y))
            if op==25: return self.norm(z3.Xor(x,y))
            raise Unsupported("i1 arithmetic")
        if isinstance(a,Ptr) and isinstance(b,int) and op in(8,10):
            return Ptr(a.r,a.o+b if op==8 else a.o-b)
        if isinstance(a,Ptr) and isinstance(b,Ptr) and a.r is b.r and op==10: return (a.o-b.o)&m
        x=self.bv(a,w); y=self.bv(b,w)
        if op==8: e=x+y
        elif op==10: e=x-y
        elif op==12: e=x*y
        elif op==14: e=z3.UDiv(x,y)
        elif op==15: e=x/y
        elif op==17: e=z3.URem(x,y)
        elif op==18: e=z3.SRem(x,y)
        elif op==20: e=x<<y
        elif op==21: e=z3.LShR(x,y)
        elif op==22: e=x>>y
        elif op==23: e=x&y
        elif op==24: e=x|y
        elif op==25: e=x^y
        else: raise Unsupported("binop %d"%op)
        return self.norm(e)
    # ------------------------------------------------------------------ calls
    def push(self,F,args):
        fr=Frame(); fr.f=F; fr.loc=[None]*F.nlocals; fr.blk=0; fr.pc=0; fr.allocas=[]; fr.prev=-1; fr.loops=None; fr.dst=-1; fr.lastdec=None
        for i,a in enumerate(args[:F.nparams]): fr.loc[i]=a
        self.stack.append(fr)
        if len(self.stack)>400: raise Unsupported("call depth")
        if self.lib: self.libfuncs[F.name]=self.libfuncs.get(F.name,0)+1
        self.enter_block(fr,-1,0)
        return fr
    def pop(self):
        fr=self.stack.pop()
        for r in fr.allocas: self.kill(r)
        return fr
    def call_fn(self,name,args,top=False):
        F=self.mod.func(name)
        if F.decl: raise Unsupported("call of undefined "+name)
        d=len(self.stack)
        self.push(F,args)
        return self.loop(d,top)
    def opv(self,fr,o):
        if isinstance(o,int): return fr.loc[o]
        return self.cval(o.v)
    def enter_block(self,fr,src,dst):
        B=fr.f.blocks[dst]
        if B.phis:
            vals=[self.opv(fr,p.x[src]) for p in B.phis]
            for p,v in zip(B.phis,vals): fr.loc[p.dst]=v
        fr.blk=dst; fr.pc=0
        if self.lib: self.libblocks.add((fr.f.name,dst))
        if B.is_header: self.at_header(fr,src,dst)
    # ---- loops
    def at_header(self,fr,src,dst):
        key=(fr.f.name,dst)
        if fr.loops is None: fr.loops={}
        st=fr.loops.get(dst)
        back=(src,dst) in fr.f.backedges
        if back and st is not None:
            if st[0]=="cut":
                self.back_edge(fr,key,st)
                if not self.through: raise PathEnd()
                fr.loops[dst]=[None,len(self.dec),0,0]; return     # progress: on from the arbitrary iteration
            nd=len(self.dec)
            if self.through and self.headed:
                if nd>st[1]: st[2]+=1
                if st[2]>64: raise PathEnd()       # progress: loops that turn on local values only are taken to end
            elif nd>st[1] and self.lib==1:
                st[2]+=1
                if self.hunt:
                    if st[2]>self.hunt["n"] or time.time()>self.deadline: raise PathEnd()
                elif st[2]>6:
                    self.cut.setdefault(key,dict(H=set(),drop=set(),forget=set())); raise Restart()
            st[1]=nd; st[3]+=1
            if st[3]>=1000 and st[3]%1000<2 and not self.hunt: self.stuck(fr,key,nd,st[3]%1000)
            if st[3]>20000: raise Unsupported("loop in %s does not end"%fr.f.name)
            return
        if key in self.cut and self.lib==1:
            self.loops_cut.add(key)
            info=self.cut[key]; info.setdefault("step",{})
            K=self.fresh(64,"iteration") if any(info["step"].values()) else None
            hv=[]   # (cell, value on entry, fresh value, width)
            for cell in sorted(info["H"],key=repr):
                lab,o,n=cell
                if lab=="phi":
                    p=fr.f.blocks[dst].phis[o]; old=fr.loc[p.dst]
                    fr.loc[p.dst]=self.havoc(old,p.ty.width or 64,cell,info,hv,K)
                    continue
                for r in self.regions:
                    if r.alive and r.label==lab and o in r.mem and r.mem[o][0]==n:
                        r.mem[o]=(n,self.havoc(r.mem[o][1],8*n,cell,info,hv,K))
            pro=dict(K=K,at={c:v for c,old,v,w in hv},ns=[self.bv(self.rd(p.r,p.o,8)) for p in self.loopvals if p.r.alive])
            hv=[x for x in hv if not info["step"].get(x[0])]
            zero=z3.BitVecVal(0,64)
            cands=self.cands([(c,old,w) for c,old,v,w in hv],pro,zero); fv=self.cands([(c,v,w) for c,old,v,w in hv],pro,K)
            for k,e in cands.items():
                if k in info["drop"]: continue
                if self.chk(z3.Not(e)): self.drop(info,cands)
            for k,e in fv.items():
                if k not in info["drop"]: self.add(e)
            snap={r.id:dict(r.mem) for r in self.regions if r.alive}
            phis=[fr.loc[p.dst] for p in fr.f.blocks[dst].phis]
            fr.loops[dst]=("cut",snap,phis,len(self.stack),self.lib,pro); self.headed+=1
        else:
            fr.loops[dst]=[None,len(self.dec),0,0]
    def stuck(self,fr,key,nd,second):
        """an iteration of a loop in code under contract that leaves everything as it was, with no input taken in: it never ends"""
        st=(key,nd,len(self.tape),self.nsym,len(self.stack),[fr.loc[p.dst] for p in fr.f.blocks[key[1]].phis],
            {r.id:dict(r.mem) for r in self.regions if r.alive},len(self.regions))
        if not second: self.was=st; return
        o=self.was
        if not self.lib or o is None or o[:5]!=st[:5] or o[7]!=st[7] or not all(self.same(a,b) for a,b in zip(o[5],st[5])) or set(o[6])!=set(st[6]): return
        for k,m in st[6].items():
            n=o[6][k]
            if set(m)!=set(n) or any(m[c][0]!=n[c][0] or not self.same(m[c][1],n[c][1]) for c in m): return
        self.fail("loop","a loop in %s never ends"%key[0]); raise Stop()
    def cands(self,cells,pro,K):
        """candidate invariants over the loop-carried cells [(cell,value,width)]: zero, non-zero, pairwise equal; the
        iteration number is bounded by a value registered with xs_loop_value.  A 64-bit cell that advances by a constant is
        its first value plus that constant times the iteration number (checked at the back edge)."""
        out={}
        B=[(c,self.bv(v,w),w) for c,v,w in cells]
        for c,x,w in B:
            out[("nz",c)]=x!=0; out[("z",c)]=x==0
        for i in range(len(B)):
            for j in range(i):
                (c,x,w),(d,y,u)=B[i],B[j]
                if w<u: x=z3.ZeroExt(u-w,x)
                elif u<w: y=z3.ZeroExt(w-u,y)
                out[("eq",c,d)]=x==y
        if K is not None:
            for k,n in enumerate(pro["ns"]): out[("lt",k)]=z3.ULT(K,n); out[("le",k)]=z3.ULE(K,n)
        return out
    def drop(self,info,cands):
        """gives up the candidates that are false in the state just found"""
        m=self.solver.model()
        for k,e in cands.items():
            if z3.is_false(m.eval(e,model_completion=True)): info["drop"].add(k)
        raise Restart()
    def step(self,info,cell,old,new,w):
        """the constant a 64-bit cell changed by in the first iteration seen, if any"""
        if w!=64 or cell in info["step"] or old is UNDEF or new is UNDEF: return
        d=self.norm(self.bv(new)-self.bv(old))
        if isinstance(d,int): info["step"][cell]=d-(1<<64) if d>>63 else d
    def havoc(self,old,w,cell,info,hv,K):
        if cell in info["forget"]: return UNDEF
        if old is UNDEF or isinstance(old,z3.BoolRef) or (isinstance(old,Ptr) and not info["step"].get(cell)):
            info["forget"].add(cell); raise Restart()
        st=info["step"].get(cell)
        v=z3.simplify(self.bv(old)+K*st) if st else self.fresh(w,"loop")
        hv.append((cell,old,v,w)); return v
    def same(self,a,b):
        if a is b: return True
        if is_sym(a) and is_sym(b): return a.eq(b)
        if is_sym(a) or is_sym(b): return False
        return a==b
    def back_edge(self,fr,key,st):
        info=self.cut[key]; _,snap,phis,depth,lib,pro=st
        if depth!=len(self.stack) or lib!=self.lib: raise Unsupported("loop changes mode")
        new=set(); changed=[]
        for i,(p,v) in enumerate(zip(fr.f.blocks[key[1]].phis,phis)):
            cell=("phi",i,0); cur=fr.loc[p.dst]
            if cell not in info["H"]:
                if not self.same(v,cur): new.add(cell); self.step(info,cell,v,cur,p.ty.width or 64)
            else: changed.append((cell,cur,p.ty.width or 64))
        for r in self.regions:
            if r.id not in snap:
                if r.alive and r.kind not in("global","func"): raise Unsupported("loop allocates %s"%r.label)
                continue
            if not r.alive: raise Unsupported("loop ends the lifetime of %s"%r.label)
            old=snap[r.id]
            for o in set(old)|set(r.mem):
                a=old.get(o); b=r.mem.get(o)
                n=(b or a)[0]; cell=(r.label,o,n)
                if cell in info["H"]:
                    if b is not None: changed.append((cell,b[1],8*n))
                    continue
                if a is None or b is None:
                    av=a[1] if a else UNDEF; bv_=b[1] if b else UNDEF
                    if a is None and self.fresh_undef(r,old,o,n): new.add(cell); continue
                    if not self.same(av,bv_): raise Unsupported("loop changes the shape of %s"%r.label)
                elif a[0]!=b[0]: raise Unsupported("loop changes the shape of %s"%r.label)
                elif not self.same(a[1],b[1]): new.add(cell); self.step(info,cell,a[1],b[1],8*n)
        if new:
            info["H"]|=new; raise Restart()
        cs_=[]
        for cell,v,w in sorted(changed,key=lambda x:repr(x[0])):
            if cell in info["forget"]: continue
            if v is UNDEF or isinstance(v,z3.BoolRef) or (isinstance(v,Ptr) and not info["step"].get(cell)):
                info["forget"].add(cell); raise Restart()
            st=info["step"].get(cell)
            if st:
                e=z3.simplify(self.bv(v)!=pro["at"][cell]+st)
                if not z3.is_false(e) and (z3.is_true(e) or self.chk(e)): info["step"][cell]=0; raise Restart()
            else: cs_.append((cell,v,w))
        cands=self.cands(cs_,pro,None if pro["K"] is None else pro["K"]+1)
        for k,e in cands.items():
            if k in info["drop"]: continue
            if self.chk(z3.Not(e)): self.drop(info,cands)
        l="loop-invariant:"+key[0]
        o=self.obl.get(l)
        if o is None: o=self.obl[l]=Obl(l,self.site())
        o.n_smt+=1
    def fresh_undef(self,r,old,o,n):
        # cell was uninitialised at the loop head and is written in the body: make it exist as undefined
        old_over=[k for k,x in old.items() if k<o+n and k+x[0]>o]
        if old_over: return False
        return False if r.fill is not None else self._mark(r,o,n)
    def _mark(self,r,o,n):
        # representable only if the entry value is UNDEF: remember the cell with an UNDEF entry
        self.opts.setdefault("predef",set()).add((r.label,o,n)); return True
    # ---- unwinding
    def throw(self,exc,base):
        """exc=(ptr, typeinfo value). Unwind to the nearest handler above stack depth `base`."""
        first=True
        while len(self.stack)>base:
            fr=self.stack[-1]
            if not first or True:
                B=fr.f.blocks[fr.blk]; ins=B.insts[fr.pc-1]
                if ins.op==5:
                    nb=ins.x[1]; lp=None
                    for k in fr.f.blocks[nb].insts:
                        if k.op==59: lp=k; break
                    if lp is None: raise Unsupported("no landing pad")
                    sel=None
                    for c in lp.x[0]:
                        if isinstance(c,Agg): continue
                        cv=self.cval(c)
                        if isinstance(cv,int) and cv==0: sel=self.typeid("catch-all"); break
                        if self.ti_match(cv,exc[1]): sel=self.typeid(cv.r.label); break
                    if sel is None and lp.x[1]: sel=0
                    if sel is not None:
                        src=fr.blk
                        self.enter_block(fr,src,nb)
                        fr.loc[lp.dst]=[exc[0],sel]
                        # skip past landingpad
                        B2=fr.f.blocks[nb]
                        fr.pc=B2.insts.index(lp)+1
                        return
            if fr.f.nounwind:
                self.fail("terminate","an exception leaves the noexcept function %s"%fr.f.name); raise Stop()
            self.pop(); first=False
        raise UncaughtExc(exc)
    def typeid(self,n):
        if n not in self.typeids: self.typeids[n]=len(self.typeids)+1
        return self.typeids[n]
    def ti_match(self,clause,ti):
        if clause.r is ti.r: return True
        # walk single-inheritance type_info chains available in this module
        seen=0; cur=ti
        while isinstance(cur,Ptr) and seen<8:
            if cur.r is clause.r: return True
            e=cur.r.mem.get(16); cur=e[1] if e and isinstance(e[1],Ptr) else None; seen+=1
        n=ti.r.label; c=clause.r.label
        std={"_ZTISt9bad_alloc":["_ZTISt9exception"],"_ZTISt12bad_weak_ptr":["_ZTISt9exception"],"_ZTISt20bad_array_new_length":["_ZTISt9bad_alloc","_ZTISt9exception"]}
        return c in std.get(n,[])
    # ------------------------------------------------------------------ main loop
    def loop(self,base,top=False):
        stack=self.stack
        while True:
            fr=stack[-1]
            ins=fr.f.blocks[fr.blk].insts[fr.pc]
            fr.pc+=1
            self.steps+=1
            if self.steps>self.max_steps: raise Unsupported("path longer than %d steps"%self.max_steps)
            op=ins.op
            loc=fr.loc
            if op==27: # load
                p=self.opv(fr,ins.a)
                if ins.x: loc[ins.dst]=self.atomic_load(p,ins); continue
                t=ins.ty
                if isinstance(p,Ptr) and not self.shared and p.r.alive and p.r.kind=="stack":
                    e=p.r.mem.get(p.o)
                    if e is not None and e[0]==t.size and t.kind==K_PTR or (e is not None and e[0]==t.size and t.kind==K_INT and t.width==8*t.size and not isinstance(e[1],z3.BoolRef)):
                        loc[ins.dst]=e[1]; continue
                r,o=self.access(p,t.size,False,"read")
                loc[ins.dst]=self.load_ty(r,o,t)
            elif op==28: # store
                p=self.opv(fr,ins.b); v=self.opv(fr,ins.a)
                if ins.x: self.atomic_store(p,v,ins); continue
                t=ins.c
                r,o=self.access(p,t.size,True,"write")
                self.store_ty(r,o,t,v)
            elif op==26: # alloca
                n=self.opv(fr,ins.c)
                if not isinstance(n,int): raise Unsupported("alloca of symbolic size")
                r=self.new_region(ins.a*n,max(ins.b,1),"stack","%s:%%%s@%d"%(fr.f.name,ins.x,len(stack)))
                for (lab,o,k) in self.opts.get("predef",()):
                    if lab==r.label: r.mem[o]=(k,UNDEF)
                fr.allocas.append(r); loc[ins.dst]=Ptr(r,0)
            elif op==2:
                if ins.a is None: self.enter_block(fr,fr.blk,ins.b)
                else:
                    c=self.opv(fr,ins.a)
                    t=bool(c) if isinstance(c,int) else self.decide(c)
                    self.enter_block(fr,fr.blk,ins.b if t else ins.c)
            elif op==29:
                p=self.opv(fr,ins.a); off=ins.b
                symo=None
                for sc,oo,w in ins.c:
                    v=self.opv(fr,oo)
                    if isinstance(v,int):
                        if v>>(w-1): v-=1<<w
                        off+=v*sc
                    else:
                        e=self.bv(v,w)
                        if w<64: e=z3.SignExt(64-w,e)
                        e=e*sc
                        symo=e if symo is None else symo+e
                if symo is not None:
                    loc[ins.dst]=self.norm(self.bv(p)+symo+off)
                elif isinstance(p,Ptr): loc[ins.dst]=Ptr(p.r,p.o+off) if off else p
                elif isinstance(p,int): loc[ins.dst]=(p+off)&M64
                elif p is UNDEF: loc[ins.dst]=UNDEF
                else: loc[ins.dst]=self.norm(p+off) if off else p
            elif op==45 or op==5:
                self.do_call(fr,ins,base)
            elif op==1:
                v=self.opv(fr,ins.a) if ins.a is not None else None
                self.pop()
                if len(stack)==base: return v
                c=stack[-1]; ci=c.f.blocks[c.blk].insts[c.pc-1]
                if ci.dst>=0: c.loc[ci.dst]=v
                if ci.op==5: self.enter_block(c,c.blk,ci.x[0])
            elif op==42:
                a=self.opv(fr,ins.a); b=self.opv(fr,ins.b)
                loc[ins.dst]=self.icmp(ins.x,a,b,ins.c)
            elif 8<=op<=25:
                loc[ins.dst]=self.arith(opmap(op),self.opv(fr,ins.a),self.opv(fr,ins.b[1]),ins.ty)
            elif op in(30,31,32,39,40,41):
                v=self.opv(fr,ins.a); loc[ins.dst]=self.cast(op,v,ins.c,ins.ty)
            elif op==46:
                c=self.opv(fr,ins.a)
                if isinstance(c,int): loc[ins.dst]=self.opv(fr,ins.b if c else ins.c)
                else:
                    x=self.opv(fr,ins.b); y=self.opv(fr,ins.c)
                    if isinstance(x,(Ptr,list)) or isinstance(y,(Ptr,list)) or x is UNDEF or y is UNDEF:
                        loc[ins.dst]=x if self.decide(c) else y
                    else:
                        w=ins.ty.width or 64
                        if w==1:
                            xb=self.b(x); yb=self.b(y); loc[ins.dst]=self.norm(z3.If(self.b(c),xb,yb))
                        else: loc[ins.dst]=self.norm(z3.If(self.b(c),self.bv(x,w),self.bv(y,w)))
            elif op==3:
                v=self.opv(fr,ins.a); tgt=ins.b
                if isinstance(v,int):
                    for k,b in ins.x:
                        if k==v: tgt=b; break
                else:
                    for k,b in ins.x:
                        if self.decide(self.bv(v,ins.c)==k): tgt=b; break
                self.enter_block(fr,fr.blk,tgt)
            elif op==53:
                v=self.opv(fr,ins.a)
                for k in ins.x: v=v[k]
                loc[ins.dst]=v
            elif op==54:
                v=self.opv(fr,ins.a)
                if v is UNDEF: v=self.agg_undef(ins.ty)
                loc[ins.dst]=self.insv(v,self.opv(fr,ins.b),ins.x)
            elif op==56: self.cmpxchg(fr,ins)
            elif op==57: self.rmw(fr,ins)
            elif op==55:
                if self.lib:
                    self.hook("xs_fence",[ins.x])
            elif op==58:
                v=self.opv(fr,ins.a)
                e=self.excs.get(v[0].r.id if isinstance(v[0],Ptr) else None)
                if e is None: raise Unsupported("resume of unknown exception")
                self.pop()
                self.throw_catch(e,base)
            elif op==7:
                self.fail("unreachable","control reaches a point marked unreachable in %s"%fr.f.name); raise Stop()
            elif op==68:
                loc[ins.dst]=self.opv(fr,ins.a)
            elif op==59: pass
            else: raise Unsupported("instruction %d: %s"%(op,llvm.ValStr(ins.ptr).decode()))
    def throw_catch(self,e,base):
        try: self.throw(e,base)
        except UncaughtExc:
            if base==0:
                self.fail("uncaught","an exception escapes"); raise Stop()
            raise Unsupported("exception leaves a hook")
    def insv(self,agg,v,idx):
        a=list(agg)
        a[idx[0]]=v if len(idx)==1 else self.insv(a[idx[0]],v,idx[1:])
        return a
    def cast(self,op,v,ft,tt):
        if op in(39,40,41):
            if tt.kind==K_INT and tt.width<64 and op==39:
                return self.cast(30,v,llvmI64,tt)
            return v
        if v is UNDEF: return UNDEF
        fw=ft.width; tw=tt.width
        if op==30:
            if isinstance(v,int): return v&((1<<tw)-1)
            if isinstance(v,Ptr): v=self.bv(v)
            e=z3.Extract(tw-1,0,v)
            if tw==1: return self.norm(e==1)
            return self.norm(e)
        if op==31:
            if isinstance(v,int): return v
            if isinstance(v,z3.BoolRef): return self.norm(self.bv(v,tw))
            return self.norm(z3.ZeroExt(tw-fw,v))
        if op==32:
            if isinstance(v,int):
                if v>>(fw-1): v|=((1<<tw)-1)^((1<<fw)-1)
                return v
            if isinstance(v,z3.BoolRef): return self.norm(z3.If(v,z3.BitVecVal((1<<tw)-1,tw),z3.BitVecVal(0,tw)))
            return self.norm(z3.SignExt(tw-fw,v))
    # ------------------------------------------------------------------ atomics
    def hook(self,name,args):
        F=self.mod.funcs.get(name)
        if F is None or F.decl: return None
        old=self.lib; self.lib=0
        r=self.call_fn(name,args); self.lib=old
        return r
    def shared_of(self,p,size):
        if not self.lib: return None
        for s in self.shared:
            if s[0] is p.r and s[1]<=p.o and p.o+size<=s[1]+s[2]: return s
        return None
    def atomic_cell(self,p,size,write):
        p=self.resolve(p,size,"atomic access")
        s=self.shared_of(p,size)
        if s is not None:
            if not p.r.alive:
                self.fail("memory","atomic access of %s after its lifetime ended"%p.r.label); raise Stop()
            self.hook("xs_atomic_pre",[p,size,s[3]])
        sh=self.shared; self.shared=[]
        r,o=self.access(p,size,write,"atomic access")
        self.shared=sh
        return p,r,o,s
    def atomic_load(self,p,ins):
        size=ins.ty.size
        p,r,o,s=self.atomic_cell(p,size,False)
        v=self.load_ty(r,o,ins.ty)
        if s is not None: self.hook("xs_atomic_post",[p,0,self.w64(v,ins.ty),self.w64(v,ins.ty),ins.x,s[3]])
        return v
    def atomic_store(self,p,v,ins):
        size=ins.c.size
        p,r,o,s=self.atomic_cell(p,size,True)
        old=self.load_ty(r,o,ins.c)
        self.store_ty(r,o,ins.c,v)
        if s is not None: self.hook("xs_atomic_post",[p,1,self.w64(old,ins.c),self.w64(v,ins.c),ins.x,s[3]])
    def w64(self,v,t):
        if isinstance(v,(int,Ptr)) or v is UNDEF: return v
        if isinstance(v,z3.BoolRef): return self.bv(v,64)
        return self.norm(z3.ZeroExt(64-v.size(),v)) if v.size()<64 else v
    def cmpxchg(self,fr,ins):
        t=ins.x[3]
        p=self.opv(fr,ins.a); exp=self.opv(fr,ins.b); new=self.opv(fr,ins.c)
        p,r,o,s=self.atomic_cell(p,t.size,True)
        old=self.load_ty(r,o,t)
        eq=self.icmp(32,old,exp,t)
        ok=bool(eq) if isinstance(eq,int) else self.decide(eq)
        if ok and ins.x[2] and s is not None and self.lib!=2 and not (self.through and self.headed):
            d=self.choose(2,"spurious"); self.tape.append(("c","spurious",d)); ok=d==0
        if ok: self.store_ty(r,o,t,new)
        if s is not None:
            self.hook("xs_atomic_post",[p,2 if ok else 3,self.w64(old,t),self.w64(new if ok else old,t),ins.x[0] if ok else ins.x[1],s[3]])
        fr.loc[ins.dst]=[old,1 if ok else 0]
    def rmw(self,fr,ins):
        t=ins.c; k,order=ins.x
        p=self.opv(fr,ins.a); v=self.opv(fr,ins.b)
        p,r,o,s=self.atomic_cell(p,t.size,True)
        old=self.load_ty(r,o,t)
        if k==0: new=v
        elif k==1: new=self.arith(8,old,v,t)
        elif k==2: new=self.arith(10,old,v,t)
        elif k==3: new=self.arith(23,old,v,t)
        elif k==5: new=self.arith(24,old,v,t)
        elif k==6: new=self.arith(25,old,v,t)
        else: raise Unsupported("atomicrmw %d"%k)
        self.store_ty(r,o,t,new)
        if s is not None: self.hook("xs_atomic_post",[p,4,self.w64(old,t),self.w64(new,t),order,s[3]])
        fr.loc[ins.dst]=old
    # ------------------------------------------------------------------ calls and intrinsics
    def do_call(self,fr,ins,base):
        tgt=ins.a
        if isinstance(tgt,Const):
            c=tgt.v
            if isinstance(c,GRef): name=c.name
            elif isinstance(c,tuple) and c[0]=="asm": return self.fin(fr,ins,UNDEF)
            else: name=None
        else: name=None
        if name is None:
            pv=self.opv(fr,tgt)
            pv=self.resolve(pv,1,"call")
            if pv.r.kind!="func" or pv.o!=0:
                self.fail("memory","call through an invalid function pointer"); raise Stop()
            if not pv.r.alive: raise Unsupported("dead function")
            name=pv.r.label
        args=[self.opv(fr,a) for a in ins.b]
        for k,n in ins.c:
            r=self.new_region(n,16,"stack","byval"); fr.allocas.append(r)
            self.memcpy(Ptr(r,0),args[k],n); args[k]=Ptr(r,0)
        F=self.mod.funcs.get(name)
        if F is not None and not F.decl and not name.startswith("xs_I_"):
            F=self.mod.func(name)
            self.push(F,args); return
        h=INTR.get(name)
        if h is None:
            if name.startswith("llvm."): h=self.llvm_intr(name)
            elif name in NEWS:
                # redirected to the allocation model of the contract library
                n,al,arr,_nt=NEWS[name]
                F=self.mod.func("xs_model_new")
                size=args[0]; align=args[1] if al else 16
                self.push(F,[size,align,arr*2+al]); return
            elif name in DELS:
                al,arr,sz=DELS[name]
                F=self.mod.func("xs_model_delete")
                align=args[1+sz] if al else 16
                self.push(F,[args[0],align,arr*2+al]); return
            elif "__dynamic_cast"==name:
                self.push(self.mod.func("xs_model_dynamic_cast"),[args[0],args[2]]); return
            elif name=="_ZNSolsEPKv":
                self.push(self.mod.func("xs_model_ostream"),args); return
            elif name.startswith(("_ZNSols","_ZStls")):
                self.push(self.mod.func("xs_model_ostream_other"),args[:1]); return
        if h is None: raise Unsupported("external function %s"%name)
        r=h(self,fr,args,base)
        if r is THROWN: return
        self.fin(fr,ins,r)
    def fin(self,fr,ins,r):
        if ins.dst>=0: fr.loc[ins.dst]=r
        if ins.op==5: self.enter_block(fr,fr.blk,ins.x[0])
    def llvm_intr(self,name):
        if name.startswith(("llvm.dbg","llvm.lifetime","llvm.donothing","llvm.experimental.noalias","llvm.stackrestore")): return lambda s,f,a,b:None
        if name.startswith(("llvm.memcpy","llvm.memmove")): return lambda s,f,a,b:s.memcpy(a[0],a[1],a[2])
        if name.startswith("llvm.memset"): return lambda s,f,a,b:s.memset(a[0],a[1],a[2])
        if name.startswith("llvm.eh.typeid.for"): return lambda s,f,a,b:s.typeid(a[0].r.label)
        if name.startswith("llvm.expect"): return lambda s,f,a,b:a[0]
        if name.startswith("llvm.assume"): return lambda s,f,a,b:None
        if name.startswith("llvm.stacksave"): return lambda s,f,a,b:0
        if name.startswith("llvm.is.constant"): return lambda s,f,a,b:0
        if name.startswith("llvm.x86.sse2.pause"): return lambda s,f,a,b:None
        if name.startswith("llvm.umul.with.overflow"):
            w=int(name.split(".i")[-1])
            def g(s,f,a,b):
                x,y=a
                if isinstance(x,int) and isinstance(y,int): return [(x*y)&((1<<w)-1),int(x*y>>w!=0)]
                if isinstance(x,int): x,y=y,x
                if isinstance(y,int): ov=z3.UGT(s.bv(x,w),z3.BitVecVal(((1<<w)-1)//y,w)) if y else z3.BoolVal(False)
                else: ov=z3.Extract(2*w-1,w,z3.ZeroExt(w,s.bv(x,w))*z3.ZeroExt(w,s.bv(y,w)))!=0
                return [s.norm(s.bv(x,w)*s.bv(y,w)),s.norm(ov)]
            return g
        if name.startswith("llvm.uadd.with.overflow"):
            w=int(name.split(".i")[-1])
            def g(s,f,a,b):
                x,y=a
                if isinstance(x,int) and isinstance(y,int): return [(x+y)&((1<<w)-1),int(x+y>>w!=0)]
                return [s.norm(s.bv(x,w)+s.bv(y,w)),s.norm(z3.ULT(s.bv(x,w)+s.bv(y,w),s.bv(x,w)))]
            return g
        if name.startswith("llvm.usub.with.overflow"):
            w=int(name.split(".i")[-1])
            def g(s,f,a,b):
                x,y=a
                if isinstance(x,int) and isinstance(y,int): return [(x-y)&((1<<w)-1),int(x<y)]
                return [s.norm(s.bv(x,w)-s.bv(y,w)),s.norm(z3.ULT(s.bv(x,w),s.bv(y,w)))]
            return g
        if name=="llvm.trap":
            def g(s,f,a,b):
                s.fail("trap","trap instruction reached"); raise Stop()
            return g
        return None

class UncaughtExc(Exception):
    def __init__(s,e): s.exc=e
THROWN=object()
class _T64:
    kind=K_INT; width=64; size=8
llvmI64=_T64()
_OPM={8:8,10:10,12:12,14:14,15:15,17:17,18:18,20:20,21:21,22:22,23:23,24:24,25:25}
def opmap(o): return _OPM[o]
# LLVM opcode numbers: 20 shl 21 lshr 22 ashr 23 and 24 or 25 xor

NEWS={"_Znwm":(1,0,0,0),"_Znam":(1,0,1,0),"_ZnwmSt11align_val_t":(1,1,0,0),"_ZnamSt11align_val_t":(1,1,1,0)}
DELS={"_ZdlPv":(0,0,0),"_ZdaPv":(0,1,0),"_ZdlPvm":(0,0,1),"_ZdaPvm":(0,1,1),
      "_ZdlPvSt11align_val_t":(1,0,0),"_ZdaPvSt11align_val_t":(1,1,0),"_ZdlPvmSt11align_val_t":(1,0,1),"_ZdaPvmSt11align_val_t":(1,1,1)}

INTR={}
def intr(n):
    def d(f): INTR[n]=f; return f
    return d
def cstr(s,p):
    if not isinstance(p,Ptr): return "?"
    r=p.r; out=bytearray(); o=p.o
    while True:
        e=s.rd(r,o,1)
        if not isinstance(e,int) or e==0 or len(out)>300: break
        out.append(e); o+=1
    return out.decode(errors="replace")
_cs={}
def cs(s,p):
    if isinstance(p,Ptr) and p.r.kind=="global" and p.r.const:
        k=(id(s.mod),p.r.label,p.o)
        if k not in _cs: _cs[k]=cstr(s,p)
        return _cs[k]
    return cstr(s,p)

@intr("xs_nondet")
def _(s,f,a,b):
    bits=a[0]; nm=cs(s,a[1])
    v=s.fresh(64,nm)
    if bits<64: s.add(z3.ULT(v,z3.BitVecVal(1<<bits,64)))
    s.tape.append(("n",nm,v)); return v
@intr("xs_nondet_ptr")
def _(s,f,a,b):
    nm=cs(s,a[0]); v=s.fresh(64,nm); s.tape.append(("p",nm,v)); return v
@intr("xs_choose")
def _(s,f,a,b):
    nm=cs(s,a[1]); n=a[0]
    d=s.choose(n,nm); s.tape.append(("c",nm,d)); return d
@intr("xs_assume")
def _(s,f,a,b): s.assume(a[0])
@intr("xs_check")
def _(s,f,a,b):
    l=cs(s,a[1]); c=s.b(a[0])
    if not isinstance(c,bool) and s.tainted(c):
        s.obligation(False,l); return
    s.obligation(c,l)
@intr("xs_require")   # like xs_check, but the path cannot go on meaningfully when it fails
def _(s,f,a,b):
    l=cs(s,a[1]); c=s.b(a[0])
    n=len(s.viol)
    if not s.obligation(c,l):
        for v in s.viol[n:]: v["fatal"]=True
        raise Stop()
@intr("xs_stop")
def _(s,f,a,b): raise Stop()
@intr("xs_cover")
def _(s,f,a,b):
    l=cs(s,a[0]); s.covers[l]=s.covers.get(l,0)+1
@intr("xs_decide")     # split on a symbolic condition (ghost code)
def _(s,f,a,b): return 1 if s.decide(a[0]) else 0
@intr("xs_region")
def _(s,f,a,b):
    size,align,nm=a[0],a[1],cs(s,a[2])
    if not isinstance(align,int): raise Unsupported("symbolic alignment")
    r=s.new_region(size,align,"region",nm)
    return Ptr(r,0)
@intr("xs_kill")
def _(s,f,a,b):
    p=s.known(a[0])
    if isinstance(p,Ptr): s.kill(p.r)
@intr("xs_alive")
def _(s,f,a,b):
    p=s.known(a[0])
    return int(isinstance(p,Ptr) and p.r.alive)
@intr("xs_is_object")   # p points into a live known object, with room for size bytes
def _(s,f,a,b):
    p=a[0]
    return int(isinstance(p,Ptr) and p.r.alive and p.r.kind!="func" and isinstance(p.r.size,int) and 0<=p.o and p.o+a[1]<=p.r.size)
@intr("xs_same_object")
def _(s,f,a,b):
    p,q=a[0],a[1]
    return int(isinstance(p,Ptr) and isinstance(q,Ptr) and p.r is q.r)
@intr("xs_obj_base")
def _(s,f,a,b):
    p=a[0]
    return Ptr(p.r,0) if isinstance(p,Ptr) else 0
@intr("xs_obj_size")
def _(s,f,a,b):
    p=a[0]
    return p.r.size if isinstance(p,Ptr) else 0
@intr("xs_aligned")
def _(s,f,a,b):
    p,al=a[0],a[1]
    if isinstance(p,Ptr): return int(p.r.align%al==0 and p.o%al==0)
    return s.icmp(32,s.arith(23,p,al-1,llvmI64),0,llvmI64)
@intr("xs_mode")
def _(s,f,a,b):
    o=s.lib; s.lib=a[0]; return o
@intr("xs_frame_begin")
def _(s,f,a,b):
    s.frame_on=True; s.frame_mark=len(s.regions); s.frame_allow=[]
@intr("xs_frame_allow")
def _(s,f,a,b):
    p=a[0]
    if isinstance(p,Ptr): s.frame_allow.append((p.r,p.o,a[1]))
@intr("xs_through")
def _(s,f,a,b): s.through=bool(a[0])
@intr("xs_headed")
def _(s,f,a,b): return s.headed
@intr("xs_loop_value")
def _(s,f,a,b): s.loopvals.append(s.resolve(a[0],8,"loop value"))
@intr("xs_frame_on")
def _(s,f,a,b):
    o=1 if s.frame_on else 0; s.frame_on=bool(a[0]); return o
@intr("xs_frame_end")
def _(s,f,a,b): s.frame_on=False; s.frame_allow=[]
@intr("xs_share")
def _(s,f,a,b):
    p=a[0]; s.shared.append((p.r,p.o,a[1],a[2]))
@intr("xs_unshare")
def _(s,f,a,b): s.shared=[]
@intr("xs_same_bytes")
def _(s,f,a,b):
    p,q,n=a
    p=s.resolve(p,n,"read"); q=s.resolve(q,n,"read")
    res=True; i=0
    while i<n:
        step=8 if n-i>=8 else 1
        x=s.rd(p.r,p.o+i,step); y=s.rd(q.r,q.o+i,step); i+=step
        if x is UNDEF and y is UNDEF: continue
        if x is UNDEF or y is UNDEF: return 0
        e=s.ptr_eq(x,y) if step==8 else (x==y if isinstance(x,int) and isinstance(y,int) else s.bv(x,8*step)==s.bv(y,8*step))
        if e is True: continue
        if e is False: return 0
        res=e if res is True else z3.And(res,e)
    return s.norm(res) if res is not True else 1
@intr("xs_filled")   # whole object holds byte v
def _(s,f,a,b):
    p=a[0]
    if not isinstance(p,Ptr): return 0
    if p.r.fill==a[1] and not p.r.mem: return 1
    if isinstance(p.r.size,int):
        x=s.rd(p.r,0,p.r.size) if p.r.size else int.from_bytes(b"","little")
        return int(isinstance(x,int) and x==int.from_bytes(bytes([a[1]])*p.r.size,"little"))
    return 0
@intr("xs_uninit")   # value never written?
def _(s,f,a,b):
    p=s.resolve(a[0],a[1],"read")
    return int(s.rd(p.r,p.o,a[1]) is UNDEF)
@intr("xs_heap_set")
def _(s,f,a,b):
    a[0].r.kind="heap"; a[0].r.form=a[1]
@intr("xs_heap_form")
def _(s,f,a,b):
    p=s.known(a[0])
    if isinstance(p,Ptr) and p.r.kind=="heap" and p.r.alive and p.o==0: return p.r.form
    return 0xFFFF
@intr("xs_obj_align")
def _(s,f,a,b):
    p=s.known(a[0])
    return p.r.align if isinstance(p,Ptr) else 0
@intr("xs_concrete")
def _(s,f,a,b): return int(isinstance(a[0],(int,Ptr)))
@intr("xs_no_path")
def _(s,f,a,b): raise PathEnd()
@intr("xs_ite")     # branch-free selection (ghost code)
def _(s,f,a,b):
    c=a[0]
    if isinstance(c,int): return a[1] if c else a[2]
    return s.norm(z3.If(s.b(c),s.bv(a[1]),s.bv(a[2])))
@intr("xs_trace")
def _(s,f,a,b):
    if s.opts.get("trace"): print("TRACE",cs(s,a[0]),a[1:],file=sys.stderr)

# ---- C++ runtime
@intr("__cxa_allocate_exception")
def _(s,f,a,b): return Ptr(s.new_region(a[0],16,"exc","exception"),0)
@intr("__cxa_free_exception")
def _(s,f,a,b): pass
@intr("__cxa_throw")
def _(s,f,a,b):
    e=(a[0],a[1],a[2]); s.excs[a[0].r.id]=e; s.uncaught+=1
    s.throw_catch(e,b); return THROWN
def cxx_throw(s,b,ti):
    r=s.new_region(16,16,"exc","exception")
    e=(Ptr(r,0),Ptr(s.glob(ti),0),0); s.excs[r.id]=e
    s.throw_catch(e,b); return THROWN
@intr("__cxa_throw_bad_array_new_length")
def _(s,f,a,b): return cxx_throw(s,b,"_ZTISt20bad_array_new_length")
@intr("_ZSt28__throw_bad_array_new_lengthv")
def _(s,f,a,b): return cxx_throw(s,b,"_ZTISt20bad_array_new_length")
@intr("_ZSt17__throw_bad_allocv")
def _(s,f,a,b): return cxx_throw(s,b,"_ZTISt9bad_alloc")
@intr("__cxa_begin_catch")
def _(s,f,a,b):
    s.caught.append(a[0]); return a[0]
@intr("__cxa_end_catch")
def _(s,f,a,b):
    if s.caught: s.caught.pop()
@intr("__cxa_rethrow")
def _(s,f,a,b):
    p=s.caught[-1]; s.throw_catch(s.excs[p.r.id],b); return THROWN
@intr("__cxa_get_exception_ptr")
def _(s,f,a,b): return a[0]
@intr("_ZSt9terminatev")
def _(s,f,a,b):
    s.fail("terminate","std::terminate is called"); raise Stop()
@intr("__cxa_pure_virtual")
def _(s,f,a,b):
    s.fail("memory","pure virtual function called"); raise Stop()
@intr("abort")
def _(s,f,a,b):
    s.fail("terminate","abort is called"); raise Stop()
@intr("sched_yield")
def _(s,f,a,b): return 0
@intr("__assert_fail")
def _(s,f,a,b):
    s.fail("assert","an assertion fails"); raise Stop()
@intr("_ZSt20__throw_system_errori")
def _(s,f,a,b):
    s.fail("terminate","a lock is used wrongly"); raise Stop()
INTR["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=lambda s,f,a,b:(_ for _ in ()).throw(_ga(s))
def _ga(s):
    s.fail("assert","a standard library assertion fails"); return Stop()
for n in ("_ZNSt9exceptionD2Ev","_ZNSt9exceptionD1Ev","_ZNSt9bad_allocD1Ev","_ZNSt9bad_allocD2Ev","_ZNSt12bad_weak_ptrD1Ev","__cxa_atexit","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev"):
    INTR[n]=lambda s,f,a,b:0
@intr("memcmp")
def _(s,f,a,b):
    raise Unsupported("memcmp")
@intr("strcmp")
def _(s,f,a,b):
    x=cstr(s,a[0]); y=cstr(s,a[1]); return (0 if x==y else (1 if x>y else M64>>32))
@intr("strlen")
def _(s,f,a,b): return len(cstr(s,a[0]))
