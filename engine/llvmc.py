"""Thin ctypes binding to libLLVM-18 (C API): parse an IR file and convert the
functions reachable from chosen roots into plain Python objects.  Nothing is
executed: this is only the front half of the static analyser."""
import ctypes as C, os, glob
from ctypes import c_void_p as P, c_char_p as S, c_uint as U, c_int as I, c_size_t as SZ, c_longlong as LL, c_ulonglong as ULL, byref

def _find():
    for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"):
        if os.path.exists(p):
            return p
    g = glob.glob("/usr/lib/**/libLLVM*18*.so*", recursive=True)
    if g:
        return g[0]
    raise RuntimeError("libLLVM-18 not found")

L = C.CDLL(_find())
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn

ContextCreate=_f("LLVMContextCreate",P)
CreateMB=_f("LLVMCreateMemoryBufferWithContentsOfFile",I,S,C.POINTER(P),C.POINTER(S))
ParseIR=_f("LLVMParseIRInContext",I,P,P,C.POINTER(P),C.POINTER(S))
GetDL=_f("LLVMGetModuleDataLayout",P,P)
FirstFn=_f("LLVMGetFirstFunction",P,P); NextFn=_f("LLVMGetNextFunction",P,P)
NamedFn=_f("LLVMGetNamedFunction",P,P,S)
FirstBB=_f("LLVMGetFirstBasicBlock",P,P); NextBB=_f("LLVMGetNextBasicBlock",P,P)
FirstI=_f("LLVMGetFirstInstruction",P,P); NextI=_f("LLVMGetNextInstruction",P,P)
GetName2=_f("LLVMGetValueName2",S,P,C.POINTER(SZ))
Opcode=_f("LLVMGetInstructionOpcode",I,P)
NumOps=_f("LLVMGetNumOperands",I,P); GetOp=_f("LLVMGetOperand",P,P,U)
TypeOf=_f("LLVMTypeOf",P,P); TypeKind=_f("LLVMGetTypeKind",I,P)
IntW=_f("LLVMGetIntTypeWidth",U,P)
ValueKind=_f("LLVMGetValueKind",I,P)
ConstSExt=_f("LLVMConstIntGetSExtValue",LL,P)
ConstZExt=_f("LLVMConstIntGetZExtValue",ULL,P)
Print=_f("LLVMPrintValueToString",P,P)
PrintT=_f("LLVMPrintTypeToString",P,P)
ICmpPred=_f("LLVMGetICmpPredicate",I,P); FCmpPred=_f("LLVMGetFCmpPredicate",I,P)
NumInc=_f("LLVMCountIncoming",U,P); IncV=_f("LLVMGetIncomingValue",P,P,U); IncB=_f("LLVMGetIncomingBlock",P,P,U)
NumSucc=_f("LLVMGetNumSuccessors",U,P); Succ=_f("LLVMGetSuccessor",P,P,U)
IsCond=_f("LLVMIsConditional",I,P)
CalledV=_f("LLVMGetCalledValue",P,P); NumArgs=_f("LLVMGetNumArgOperands",U,P)
CalledFT=_f("LLVMGetCalledFunctionType",P,P)
RetT=_f("LLVMGetReturnType",P,P)
GEPSrc=_f("LLVMGetGEPSourceElementType",P,P)
InBnds=_f("LLVMIsInBounds",I,P)
ABISize=_f("LLVMABISizeOfType",ULL,P,P); StoreSize=_f("LLVMStoreSizeOfType",ULL,P,P)
OffOf=_f("LLVMOffsetOfElement",ULL,P,P,U)
StructElem=_f("LLVMStructGetTypeAtIndex",P,P,U); NumStruct=_f("LLVMCountStructElementTypes",U,P)
ElemT=_f("LLVMGetElementType",P,P); ArrLen=_f("LLVMGetArrayLength2",ULL,P)
AllocaT=_f("LLVMGetAllocatedType",P,P)
NumIdx=_f("LLVMGetNumIndices",U,P); Idx=_f("LLVMGetIndices",C.POINTER(U),P)
NumParams=_f("LLVMCountParams",U,P); Param=_f("LLVMGetParam",P,P,U)
IsDecl=_f("LLVMIsDeclaration",I,P)
GVType=_f("LLVMGlobalGetValueType",P,P)
GInit=_f("LLVMGetInitializer",P,P)
IsGConst=_f("LLVMIsGlobalConstant",I,P)
CEOpcode=_f("LLVMGetConstOpcode",I,P)
AggElem=_f("LLVMGetAggregateElement",P,P,U)
DbgLoc=_f("LLVMInstructionGetDebugLoc",P,P)
DLine=_f("LLVMDILocationGetLine",U,P); DCol=_f("LLVMDILocationGetColumn",U,P)
DScope=_f("LLVMDILocationGetScope",P,P); DInl=_f("LLVMDILocationGetInlinedAt",P,P)
DFile=_f("LLVMDIScopeGetFile",P,P); DFName=_f("LLVMDIFileGetFilename",P,P,C.POINTER(U))
RealVal=_f("LLVMConstRealGetDouble",C.c_double,P,C.POINTER(I))
IsNull=_f("LLVMIsNull",I,P)
StrAttr=_f("LLVMGetStringAttributeAtIndex",P,P,U,S,U)
IsVolatile=_f("LLVMGetVolatile",I,P)

OPC={1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'rmw'}
PRED={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPRED={0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
# type kinds
TK_VOID,TK_HALF,TK_FLOAT,TK_DOUBLE=0,1,2,3
TK_LABEL,TK_INT,TK_FN,TK_STRUCT,TK_ARRAY,TK_PTR,TK_VEC=7,8,9,10,11,12,13

class Ty:
    __slots__=("kind","bits","size","name","ref")
    def __repr__(s): return s.name

class Arg:      # function argument
    __slots__=("idx","name","ty","ref")
class Const:    # constants
    __slots__=("k","v","ty")
    # k: int,null,undef,float,global,func,gep(base,off),agg(list),other
    def __repr__(s): return "Const(%s,%r)"%(s.k,s.v)
class Block:
    __slots__=("id","instrs","name")
    def __repr__(s): return "bb%d"%s.id
class Instr:
    __slots__=("op","ty","ops","x","loc","id","bb")
    def __repr__(s): return "%%%d=%s"%(s.id,s.op)
class Func:
    __slots__=("name","args","blocks","mod","ninstr","retty","succs","preds")

class Module:
    def __init__(self, path):
        self.ctx=ContextCreate()
        mb=P(); err=S()
        if CreateMB(path.encode(),byref(mb),byref(err)): raise RuntimeError(err.value)
        m=P()
        if ParseIR(self.ctx,mb,byref(m),byref(err)): raise RuntimeError(err.value)
        self.m=m; self.dl=GetDL(m); self.types={}; self.funcs={}; self.locs={}
        self.fnames={}
        f=FirstFn(m)
        while f:
            self.fnames[self._name(f)]=f; f=NextFn(f)
        self.globals={}
    def _name(self,v):
        n=SZ(); s=GetName2(v,byref(n)); return s.decode() if s else ""
    def ty(self,t):
        r=self.types.get(t)
        if r: return r
        r=Ty(); r.ref=t; k=TypeKind(t); r.kind=k; r.bits=0; r.size=0
        if k==TK_INT: r.bits=IntW(t); r.name="i%d"%r.bits
        else:
            p=PrintT(t); r.name=C.string_at(p).decode()
        if k not in (TK_VOID,TK_LABEL,TK_FN,14,15,16):
            try: r.size=ABISize(self.dl,t) if k not in (TK_FN,) else 0
            except Exception: r.size=0
        self.types[t]=r
        return r
    def const(self,v):
        c=Const(); c.ty=self.ty(TypeOf(v)); k=ValueKind(v)
        # LLVMValueKind enum
        # 0 Argument 1 BB 2 MemUse 3 MemDef 4 MemPhi 5 Function 6 GlobalAlias 7 GlobalIFunc 8 GlobalVariable 9 BlockAddress
        # 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggZero 16 DataArray 17 DataVector
        # 18 Int 19 FP 20 PtrNull 21 TokenNone 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison
        if k==18:
            c.k='int'
            if c.ty.bits>64: c.v=int(C.string_at(Print(v)).decode().split()[-1])
            elif c.ty.bits==1: c.v=ConstZExt(v)
            else: c.v=ConstSExt(v)
        elif k==20: c.k='null'; c.v=0
        elif k in (14,25): c.k='undef'; c.v=None
        elif k==19:
            li=I(); c.k='float'; c.v=RealVal(v,byref(li))
        elif k==5: c.k='func'; c.v=self._name(v)
        elif k==8:
            c.k='global'; c.v=self._name(v)
            self.globals.setdefault(c.v,v)
        elif k==15: c.k='zero'; c.v=0
        elif k in (11,12,13,16,17):
            n=(NumStruct(c.ty.ref) if c.ty.kind==TK_STRUCT else ArrLen(c.ty.ref) if c.ty.kind==TK_ARRAY else 0)
            c.k='agg'; c.v=[self.const(AggElem(v,i)) for i in range(n)]
        elif k==10:
            o=OPC.get(CEOpcode(v))
            if o=='gep':
                off,var=self.gep(v)
                assert not var
                c.k='gep'; c.v=(self.const(GetOp(v,0)),off)
            elif o in('bitcast','addrspacecast','ptrtoint','inttoptr','trunc'):
                return self.const(GetOp(v,0))
            else:
                c.k='other'; c.v=C.string_at(Print(v)).decode()
        else:
            c.k='other'; c.v=k
        return c
    def gep(self,v):
        """-> (constant byte offset, [(value, byte scale)])"""
        n=NumOps(v); t=GEPSrc(v); off=0; var=[]
        for i in range(1,n):
            o=GetOp(v,i); isc=ValueKind(o)==18
            if i==1: sz=ABISize(self.dl,t)
            else:
                tk=TypeKind(t)
                if tk==TK_STRUCT:
                    idx=ConstZExt(o); off+=OffOf(self.dl,t,idx); t=StructElem(t,idx); continue
                t=ElemT(t); sz=ABISize(self.dl,t)
            if isc: off+=ConstSExt(o)*sz
            else: var.append((o,sz))
        return off,var
    def loc(self,v):
        d=DbgLoc(v)
        if not d: return None
        r=self.locs.get(d)
        if r is not None: return r
        out=[]; x=d
        while x:
            sc=DScope(x); f=DFile(sc) if sc else None
            nm="?"
            if f:
                n=U(); p=DFName(f,byref(n)); nm=C.string_at(p,n.value).decode()
            out.append((nm,DLine(x)))
            x=DInl(x)
        r=tuple(out); self.locs[d]=r
        return r
    def func(self,name):
        if name in self.funcs: return self.funcs[name]
        fr=self.fnames.get(name)
        if not fr or IsDecl(fr): self.funcs[name]=None; return None
        F=Func(); F.name=name; F.mod=self; vmap={}
        F.args=[]
        for i in range(NumParams(fr)):
            p=Param(fr,i); a=Arg(); a.idx=i; a.ty=self.ty(TypeOf(p)); a.name=self._name(p) or "arg%d"%i; a.ref=p
            vmap[p]=a; F.args.append(a)
        bbs=[];b=FirstBB(fr)
        bmap={}
        while b:
            B=Block(); B.id=len(bbs); B.instrs=[]; bmap[b]=B; bbs.append((b,B)); b=NextBB(b)
        F.blocks=[B for _,B in bbs]
        allI=[]
        nid=0
        for b,B in bbs:
            i=FirstI(b)
            while i:
                ins=Instr(); ins.id=nid; nid+=1; ins.bb=B
                vmap[i]=ins; allI.append((i,ins)); B.instrs.append(ins)
                i=NextI(i)
        def val(v):
            r=vmap.get(v)
            if r is None:
                r=self.const(v); vmap[v]=r
            return r
        for i,ins in allI:
            o=OPC.get(Opcode(i),'op%d'%Opcode(i)); ins.op=o; ins.ty=self.ty(TypeOf(i)); ins.x=None
            ins.loc=self.loc(i)
            if o=='phi':
                ins.ops=[]; ins.x=[(bmap[IncB(i,k)],val(IncV(i,k))) for k in range(NumInc(i))]
            elif o=='br':
                ins.x=[bmap[Succ(i,k)] for k in range(NumSucc(i))]
                ins.ops=[val(GetOp(i,0))] if IsCond(i) else []
            elif o=='switch':
                n=NumOps(i); ins.ops=[val(GetOp(i,0))]
                dflt=bmap[Succ(i,0)]
                cases=[(self.const(GetOp(i,2*k)).v,bmap[Succ(i,k)]) for k in range(1,n//2)]
                ins.x=(dflt,cases)
            elif o in('call','invoke'):
                cv=CalledV(i); k=ValueKind(cv)
                nargs=NumArgs(i)
                if k==5: callee=self._name(cv)
                else: callee=None
                if callee and callee.startswith('llvm.dbg'): ins.ops=[]; ins.x=callee; continue
                ins.ops=[val(GetOp(i,k)) for k in range(nargs)]
                ins.x=callee
                if callee is None: ins.ops.append(val(cv))
            elif o=='gep':
                off,var=self.gep(i)
                ins.ops=[val(GetOp(i,0))]+[val(v) for v,_ in var]; ins.x=(off,[s for _,s in var],bool(InBnds(i)))
            elif o=='alloca':
                ins.ops=[val(GetOp(i,0))]; ins.x=ABISize(self.dl,AllocaT(i))
            elif o=='icmp': ins.ops=[val(GetOp(i,0)),val(GetOp(i,1))]; ins.x=PRED[ICmpPred(i)]
            elif o=='fcmp': ins.ops=[val(GetOp(i,0)),val(GetOp(i,1))]; ins.x=FPRED[FCmpPred(i)]
            elif o in('extractvalue','insertvalue'):
                ins.ops=[val(GetOp(i,k)) for k in range(NumOps(i))]
                ix=Idx(i); ins.x=[ix[k] for k in range(NumIdx(i))]
            else:
                ins.ops=[val(GetOp(i,k)) for k in range(NumOps(i))]
        F.retty=self.ty(RetT(GVType(fr)))
        F.ninstr=nid
        F.succs={};F.preds={B.id:[] for B in F.blocks}
        for B in F.blocks:
            t=B.instrs[-1]
            if t.op=='br': s=[x for x in t.x]
            elif t.op=='switch': s=[t.x[0]]+[c[1] for c in t.x[1]]
            else: s=[]
            F.succs[B.id]=[x.id for x in s]
            for x in s: F.preds[x.id].append(B.id)
        self.funcs[name]=F
        return F
    def global_init(self,name):
        v=self.globals.get(name)
        if not v: return None
        try:
            i=GInit(v)
        except Exception: return None
        if not i: return None
        return (bool(IsGConst(v)), self.const(i))
