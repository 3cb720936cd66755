"""Reads LLVM IR (produced by clang from the contract files and /repo's headers) through the
LLVM-C API and decodes it, lazily per function, into plain Python objects."""
import ctypes as C, ctypes.util, os

_paths = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]
_L = None
for p in _paths:
    if os.path.exists(p):
        _L = C.CDLL(p); break
if _L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args); return fn
U = C.c_uint; I = C.c_int; S = C.c_char_p; U64 = C.c_ulonglong; SZ = C.c_size_t
ContextCreate=_f("LLVMContextCreate",P)
MemBuf=_f("LLVMCreateMemoryBufferWithContentsOfFile",I,S,C.POINTER(P),C.POINTER(S))
ParseIR=_f("LLVMParseIRInContext",I,P,P,C.POINTER(P),C.POINTER(S))
GetDataLayoutStr=_f("LLVMGetDataLayoutStr",S,P)
CreateTD=_f("LLVMCreateTargetData",P,S)
ABISize=_f("LLVMABISizeOfType",U64,P,P)
StoreSize=_f("LLVMStoreSizeOfType",U64,P,P)
ABIAlign=_f("LLVMABIAlignmentOfType",U,P,P)
OffsetOf=_f("LLVMOffsetOfElement",U64,P,P,U)
FirstFn=_f("LLVMGetFirstFunction",P,P); NextFn=_f("LLVMGetNextFunction",P,P)
FirstG=_f("LLVMGetFirstGlobal",P,P); NextG=_f("LLVMGetNextGlobal",P,P)
FirstAl=_f("LLVMGetFirstGlobalAlias",P,P); NextAl=_f("LLVMGetNextGlobalAlias",P,P)
Aliasee=_f("LLVMAliasGetAliasee",P,P)
Name=_f("LLVMGetValueName2",C.c_char_p,P,C.POINTER(SZ))
IsDecl=_f("LLVMIsDeclaration",I,P)
CountParams=_f("LLVMCountParams",U,P); GetParam=_f("LLVMGetParam",P,P,U)
FirstBB=_f("LLVMGetFirstBasicBlock",P,P); NextBB=_f("LLVMGetNextBasicBlock",P,P)
FirstI=_f("LLVMGetFirstInstruction",P,P); NextI=_f("LLVMGetNextInstruction",P,P)
Opcode=_f("LLVMGetInstructionOpcode",I,P)
NumOps=_f("LLVMGetNumOperands",I,P); Op=_f("LLVMGetOperand",P,P,U)
TypeOf=_f("LLVMTypeOf",P,P); Kind=_f("LLVMGetTypeKind",I,P)
IntW=_f("LLVMGetIntTypeWidth",U,P)
GVT=_f("LLVMGlobalGetValueType",P,P)
VKind=_f("LLVMGetValueKind",I,P)
ZExt=_f("LLVMConstIntGetZExtValue",U64,P)
ConstOp=_f("LLVMGetConstOpcode",I,P)
ICmpPred=_f("LLVMGetICmpPredicate",I,P)
Ordering=_f("LLVMGetOrdering",I,P)
CxS=_f("LLVMGetCmpXchgSuccessOrdering",I,P); CxF=_f("LLVMGetCmpXchgFailureOrdering",I,P)
Weak=_f("LLVMGetWeak",I,P)
RMWOp=_f("LLVMGetAtomicRMWBinOp",I,P)
GEPTy=_f("LLVMGetGEPSourceElementType",P,P)
AllocTy=_f("LLVMGetAllocatedType",P,P)
Align=_f("LLVMGetAlignment",U,P)
CalledV=_f("LLVMGetCalledValue",P,P)
CalledFT=_f("LLVMGetCalledFunctionType",P,P)
NArgs=_f("LLVMGetNumArgOperands",U,P)
NormalD=_f("LLVMGetNormalDest",P,P); UnwindD=_f("LLVMGetUnwindDest",P,P)
NumIdx=_f("LLVMGetNumIndices",U,P); Idx=_f("LLVMGetIndices",C.POINTER(U),P)
CntInc=_f("LLVMCountIncoming",U,P); IncV=_f("LLVMGetIncomingValue",P,P,U); IncB=_f("LLVMGetIncomingBlock",P,P,U)
NClauses=_f("LLVMGetNumClauses",U,P); Clause=_f("LLVMGetClause",P,P,U); IsCleanup=_f("LLVMIsCleanup",I,P)
NSucc=_f("LLVMGetNumSuccessors",U,P); Succ=_f("LLVMGetSuccessor",P,P,U)
IsCond=_f("LLVMIsConditional",I,P); Cond=_f("LLVMGetCondition",P,P)
SwDef=_f("LLVMGetSwitchDefaultDest",P,P)
AttrKind=_f("LLVMGetEnumAttributeKindForName",U,S,SZ)
FnAttr=_f("LLVMGetEnumAttributeAtIndex",P,P,U,U)
CSAttr=_f("LLVMGetCallSiteEnumAttribute",P,P,U,U)
TypeAttrVal=_f("LLVMGetTypeAttributeValue",P,P)
GetInit=_f("LLVMGetInitializer",P,P)
IsConstG=_f("LLVMIsGlobalConstant",I,P)
AggElt=_f("LLVMGetAggregateElement",P,P,U)
ArrLen=_f("LLVMGetArrayLength2",C.c_ulonglong,P)
EltTy=_f("LLVMGetElementType",P,P)
CntSE=_f("LLVMCountStructElementTypes",U,P); SE=_f("LLVMStructGetTypeAtIndex",P,P,U)
DbgLine=_f("LLVMGetDebugLocLine",U,P); DbgFile=_f("LLVMGetDebugLocFilename",C.c_char_p,P,C.POINTER(U))
ValStr=_f("LLVMPrintValueToString",S,P)
IsVolatile=_f("LLVMGetVolatile",I,P)
RetTy=_f("LLVMGetReturnType",P,P)
VecSize=_f("LLVMGetVectorSize",U,P)

(K_VOID,K_FLOAT,K_DOUBLE,K_INT,K_STRUCT,K_ARR,K_PTR,K_VEC)=(0,2,3,8,10,11,12,13)

class Ty:
    __slots__=("kind","size","width","elts","offs","n","elt","align")
    def __repr__(s):
        return {K_INT:lambda:"i%d"%s.width,K_PTR:lambda:"ptr",K_VOID:lambda:"void"}.get(s.kind,lambda:"ty%d"%s.kind)()

class Const:  # pre-decoded constant operand
    __slots__=("v",)
    def __init__(s,v): s.v=v
class GRef:   # address of a global or function plus constant offset
    __slots__=("name","off")
    def __init__(s,n,o=0): s.name=n; s.off=o
    def __repr__(s): return "@%s+%d"%(s.name,s.off)
class UndefC:
    __slots__=("ty",)
    def __init__(s,ty): s.ty=ty
class Agg:
    __slots__=("vals",)
    def __init__(s,v): s.vals=v

class Inst:
    __slots__=("op","dst","a","b","c","x","ty","line","file","ptr")
class Block:
    __slots__=("name","insts","idx","phis","is_header")
class Func:
    __slots__=("name","ptr","decl","nparams","blocks","nlocals","nounwind","_mod","ptys","rty","dem","backedges","vararg")
class Glob:
    __slots__=("name","ptr","size","align","decl","const","_mod","ty")

AK={}
def attrk(n):
    if n not in AK: AK[n]=AttrKind(n.encode(),len(n))
    return AK[n]

class Module:
    def __init__(self,path):
        self.ctx=ContextCreate()
        mb=P(); err=S()
        if MemBuf(path.encode(),C.byref(mb),C.byref(err)): raise RuntimeError("cannot read "+path)
        m=P()
        if ParseIR(self.ctx,mb,C.byref(m),C.byref(err)): raise RuntimeError("cannot parse %s: %s"%(path,err.value))
        self.m=m; self.td=CreateTD(GetDataLayoutStr(m))
        self.tyc={}
        self.funcs={}; self.globs={}; self.aliases={}
        self.byptr={}
        f=FirstFn(m)
        while f:
            F=Func(); F.name=self.vname(f); F.ptr=f; F.decl=bool(IsDecl(f)); F.blocks=None; F._mod=self
            F.nparams=CountParams(f); F.nounwind=bool(FnAttr(f,0xFFFFFFFF,attrk("nounwind")))
            self.funcs[F.name]=F; self.byptr[f]=F.name
            f=NextFn(f)
        g=FirstG(m)
        while g:
            G=Glob(); G.name=self.vname(g); G.ptr=g; G.decl=bool(IsDecl(g)); G._mod=self
            vt=GVT(g); G.ty=vt
            k=Kind(vt)
            try: G.size=ABISize(self.td,vt) if not G.decl or k!=K_STRUCT else 64
            except Exception: G.size=64
            G.align=max(Align(g),1); G.const=bool(IsConstG(g))
            self.globs[G.name]=G; self.byptr[g]=G.name
            g=NextG(g)
        a=FirstAl(m)
        while a:
            n=self.vname(a); self.byptr[a]=n
            self.aliases[n]=a
            a=NextAl(a)
    def vname(self,v):
        n=SZ(); s=Name(v,C.byref(n)); return s.decode() if s else ""
    def ty(self,t):
        r=self.tyc.get(t)
        if r is None:
            r=Ty(); r.kind=Kind(t); k=r.kind; r.width=0; r.size=0; r.align=1
            if k==K_INT: r.width=IntW(t); r.size=StoreSize(self.td,t); r.align=ABIAlign(self.td,t)
            elif k==K_PTR: r.size=8; r.width=64; r.align=8
            elif k==K_STRUCT:
                r.elts=[self.ty(SE(t,i)) for i in range(CntSE(t))]
                r.offs=[OffsetOf(self.td,t,i) for i in range(len(r.elts))]
                r.size=ABISize(self.td,t) if r.elts else 0; r.align=ABIAlign(self.td,t) if r.elts else 1
                if not r.elts: r.size=ABISize(self.td,t)
            elif k==K_ARR:
                r.n=ArrLen(t); r.elt=self.ty(EltTy(t)); r.size=ABISize(self.td,t); r.align=ABIAlign(self.td,t)
            elif k==K_VEC:
                r.n=VecSize(t); r.elt=self.ty(EltTy(t)); r.size=ABISize(self.td,t); r.align=ABIAlign(self.td,t)
            elif k==K_DOUBLE: r.size=8; r.width=64
            elif k==K_FLOAT: r.size=4; r.width=32
            self.tyc[t]=r
        return r
    # ---- constants -> python (int | GRef | UndefC | Agg | ('ptrtoint',GRef))
    def const(self,v):
        k=VKind(v)
        if k==18: # ConstantInt
            w=IntW(TypeOf(v))
            if w<=64: return ZExt(v)&((1<<w)-1)
            s=ValStr(v).decode(); return int(s.split()[-1])&((1<<w)-1)
        if k==20: return 0
        if k in (5,8,6):
            n=self.byptr[v]
            if n in self.aliases:
                r=self.const(Aliasee(self.aliases[n])); return r
            return GRef(n)
        if k in (14,25): return UndefC(self.ty(TypeOf(v)))
        if k==15:
            return self.zero(self.ty(TypeOf(v)))
        if k in (11,12,16,13,17):
            t=self.ty(TypeOf(v))
            n=len(t.elts) if t.kind==K_STRUCT else t.n
            return Agg([self.const(AggElt(v,i)) for i in range(n)])
        if k==10:
            o=ConstOp(v)
            if o==29:
                base=self.const(Op(v,0)); t=self.ty(GEPTy(v)); off=0
                idx=[self.const(Op(v,i)) for i in range(1,NumOps(v))]
                off=self.gepoff(t,[self.sx(Op(v,i+1),idx[i]) for i in range(len(idx))])
                if isinstance(base,GRef): return GRef(base.name,base.off+off)
                return (base+off)&((1<<64)-1)
            if o in (41,40,39): return self.const(Op(v,0))
            if o==30:
                r=self.const(Op(v,0)); return r
            raise RuntimeError("const expr %d: %s"%(o,ValStr(v)))
        if k==19: # ConstantFP: keep as raw text
            import struct
            s=ValStr(v).decode().split()[-1]
            return ("fp",s)
        if k==24: return ("asm",)
        if k==23: return ("md",)
        raise RuntimeError("const kind %d: %s"%(k,ValStr(v)))
    def sx(self,v,c):
        w=IntW(TypeOf(v))
        if c>>(w-1): c-=1<<w
        return c
    def zero(self,t):
        if t.kind==K_STRUCT: return Agg([self.zero(e) for e in t.elts])
        if t.kind in (K_ARR,K_VEC): return Agg([self.zero(t.elt)]*t.n)
        return 0
    def gepoff(self,t,idx):
        off=idx[0]*t.size
        for i in idx[1:]:
            if t.kind==K_STRUCT: off+=t.offs[i]; t=t.elts[i]
            else: t=t.elt; off+=i*t.size
        return off
    # ---- functions
    def func(self,name):
        F=self.funcs[name]
        if F.blocks is None and not F.decl: self.decode(F)
        return F
    def decode(self,F):
        loc={}
        for i in range(F.nparams): loc[GetParam(F.ptr,i)]=i
        F.ptys=[self.ty(TypeOf(GetParam(F.ptr,i))) for i in range(F.nparams)]
        nl=F.nparams
        bbs=[]; b=FirstBB(F.ptr); bidx={}
        while b:
            bidx[b]=len(bbs); bbs.append(b); b=NextBB(b)
        raw=[]
        for b in bbs:
            ins=[]; i=FirstI(b)
            while i:
                if Kind(TypeOf(i))!=K_VOID:
                    loc[i]=nl; nl+=1
                ins.append(i); i=NextI(i)
            raw.append(ins)
        F.nlocals=nl
        def opnd(v):
            l=loc.get(v)
            if l is not None: return l
            return Const(self.const(v))
        F.blocks=[]
        for bi,b in enumerate(bbs):
            B=Block(); B.name=""; B.idx=bi; B.insts=[]; B.phis=[]; B.is_header=False
            for ip in raw[bi]:
                N=Inst(); op=Opcode(ip); N.op=op; N.dst=loc.get(ip,-1); N.ptr=ip
                N.ty=self.ty(TypeOf(ip)); N.line=DbgLine(ip)
                n=U(); fn=DbgFile(ip,C.byref(n)); N.file=fn.decode() if fn else ""
                N.a=N.b=N.c=N.x=None
                if op==44:
                    N.x={bidx[IncB(ip,k)]:opnd(IncV(ip,k)) for k in range(CntInc(ip))}
                    B.phis.append(N); continue
                if op==1:
                    N.a=opnd(Op(ip,0)) if NumOps(ip) else None
                elif op==2:
                    if IsCond(ip): N.a=opnd(Cond(ip)); N.b=bidx[Succ(ip,0)]; N.c=bidx[Succ(ip,1)]
                    else: N.b=bidx[Succ(ip,0)]
                elif op==3:
                    N.a=opnd(Op(ip,0)); N.b=bidx[SwDef(ip)]
                    N.x=[(self.const(Op(ip,2*k)),bidx[Succ(ip,k)]) for k in range(1,NSucc(ip))]
                    N.c=IntW(TypeOf(Op(ip,0)))
                elif op in (45,5):
                    na=NArgs(ip); cv=CalledV(ip)
                    l=loc.get(cv)
                    if l is not None: N.a=l
                    else: N.a=Const(self.const(cv))
                    N.b=[opnd(Op(ip,k)) if VKind(Op(ip,k))!=23 else Const(0) for k in range(na)]
                    byv=[]
                    for k in range(na):
                        at=CSAttr(ip,k+1,attrk("byval"))
                        if at: byv.append((k,self.ty(TypeAttrVal(at)).size))
                    N.c=byv
                    if op==5: N.x=(bidx[NormalD(ip)],bidx[UnwindD(ip)])
                elif op==26:
                    t=self.ty(AllocTy(ip)); N.a=t.size; N.b=Align(ip); N.c=opnd(Op(ip,0)); N.x=self.vname(ip)
                elif op==27:
                    N.a=opnd(Op(ip,0)); N.x=Ordering(ip)
                elif op==28:
                    N.a=opnd(Op(ip,0)); N.b=opnd(Op(ip,1)); N.x=Ordering(ip); N.c=self.ty(TypeOf(Op(ip,0)))
                elif op==29:
                    N.a=opnd(Op(ip,0)); t=self.ty(GEPTy(ip)); idxs=[]; off=0
                    # constant part folded, dynamic parts as (scale, operand, width)
                    dyn=[]; cur=t; first=True
                    for k in range(1,NumOps(ip)):
                        o=Op(ip,k); oo=opnd(o)
                        if first: sc=cur.size; nxt=cur; first=False
                        elif cur.kind==K_STRUCT:
                            c=self.const(o); off+=cur.offs[c]; cur=cur.elts[c]; continue
                        else: nxt=cur.elt; sc=nxt.size
                        if isinstance(oo,Const) and isinstance(oo.v,int): off+=self.sx(o,oo.v)*sc
                        else: dyn.append((sc,oo,IntW(TypeOf(o))))
                        cur=nxt
                    N.b=off; N.c=dyn
                elif op in (42,):
                    N.a=opnd(Op(ip,0)); N.b=opnd(Op(ip,1)); N.x=ICmpPred(ip); N.c=self.ty(TypeOf(Op(ip,0)))
                elif op==46:
                    N.a=opnd(Op(ip,0)); N.b=opnd(Op(ip,1)); N.c=opnd(Op(ip,2))
                elif op in (53,):
                    N.a=opnd(Op(ip,0)); pi=Idx(ip); N.x=[pi[k] for k in range(NumIdx(ip))]
                elif op==54:
                    N.a=opnd(Op(ip,0)); N.b=opnd(Op(ip,1)); pi=Idx(ip); N.x=[pi[k] for k in range(NumIdx(ip))]
                elif op==55: N.x=Ordering(ip)
                elif op==56:
                    N.a=opnd(Op(ip,0)); N.b=opnd(Op(ip,1)); N.c=opnd(Op(ip,2))
                    N.x=(CxS(ip),CxF(ip),bool(Weak(ip)),self.ty(TypeOf(Op(ip,1))))
                elif op==57:
                    N.a=opnd(Op(ip,0)); N.b=opnd(Op(ip,1)); N.x=(RMWOp(ip),Ordering(ip)); N.c=self.ty(TypeOf(Op(ip,1)))
                elif op==59:
                    N.x=([self.const(Clause(ip,k)) for k in range(NClauses(ip))],bool(IsCleanup(ip)))
                elif op in (30,31,32,39,40,41):
                    N.a=opnd(Op(ip,0)); N.c=self.ty(TypeOf(Op(ip,0)))
                else:
                    N.b=[opnd(Op(ip,k)) for k in range(NumOps(ip))]
                    if len(N.b)>0: N.a=N.b[0]
                    N.c=self.ty(TypeOf(Op(ip,0))) if NumOps(ip) else None
                B.insts.append(N)
            F.blocks.append(B)
        # natural loop back edges (target dominates source)
        n=len(F.blocks)
        succ=[[] for _ in range(n)]
        for B in F.blocks:
            t=B.insts[-1]
            if t.op==2: succ[B.idx]=[t.b]+([t.c] if t.c is not None else [])
            elif t.op==3: succ[B.idx]=[t.b]+[y for _,y in t.x]
            elif t.op==5: succ[B.idx]=list(t.x)
        pred=[[] for _ in range(n)]
        for a in range(n):
            for s in succ[a]: pred[s].append(a)
        full=set(range(n)); dom=[full.copy() for _ in range(n)]; dom[0]={0}
        ch=True
        while ch:
            ch=False
            for b in range(1,n):
                ps=[dom[p] for p in pred[b]]
                nd=set.intersection(*ps)|{b} if ps else {b}
                if nd!=dom[b]: dom[b]=nd; ch=True
        F.backedges=set()
        for a in range(n):
            for s in succ[a]:
                if s in dom[a]: F.backedges.add((a,s)); F.blocks[s].is_header=True
