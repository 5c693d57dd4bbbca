"""Path-sensitive abstract interpreter over LLVM IR.

Abstract value  : integer polynomial over interned atoms (terms.py)
Abstract state  : SSA environment + field-sensitive stack memory + path facts
Loops           : summarised.  Induction variables become init + delta*i, the trip
                  count is derived from the exit test, the body becomes an effect
                  tree that is analysed once for a generic i.  Only loops whose exit
                  test folds to a compile-time constant are expanded.
Result          : for every abstract path, facts + effect tree (stores, calls to
                  opaque functions, loops, aborts).
Nothing is executed and no solver is called."""
import re, sys
from terms import *
from facts import Facts
from llvmc import TK_INT, TK_PTR, TK_FLOAT, TK_DOUBLE, TK_STRUCT, TK_ARRAY, TK_VOID, TK_VEC, Const, Arg, Instr

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(s,c): s.c=c
class ForkFacts(Exception):
    def __init__(s,alts): s.alts=alts
class Undecided(Exception): pass

UNDEF=atom('undef','undef')
def ibits(ty): return ty.bits if ty.kind==TK_INT else 64
def wid(x): return max([byid(a).w for a in x.atoms()]+[1])
UNDEFV=V(UNDEF)
NORETURN=re.compile(r'^(__assert_fail|abort|vf_abort|_ZSt\d+__throw_.*|__cxa_throw|exit|_exit|_Exit|_ZSt9terminatev|__cxa_pure_virtual|_ZSt20__throw.*|llvm\.trap)$')
PURE=re.compile(r'^(vfp_.*)$')
STATS={"instrs":0,"paths":0,"loops":0,"unrolled":0,"funcs":0}

class Eff:
    __slots__=("k","name","args","loc","ret","n","idx","body","sz","x")
    # k: call(name,args,ret) store(args=[addr,val],sz) loop(n,idx,body=[(conds,effects)]) 
    def __init__(s,k,**kw):
        s.k=k; s.name=None; s.args=(); s.loc=None; s.ret=None; s.n=None; s.idx=None; s.body=None; s.sz=0; s.x=None
        for a,b in kw.items(): setattr(s,a,b)
    def __repr__(s):
        if s.k=='loop':
            return "loop %s<%s {%s}"%(byid(s.idx),fmt(s.n)," | ".join("%s: %s"%(list(c),e) if c else "%s"%(e,) for c,e in s.body))
        if s.k=='store': return "store%d [%s] := %s"%(s.sz,fmt(s.args[0]),fmt(s.args[1]))
        return "%s(%s)"%(s.name,", ".join(map(fmt,s.args)))

class State:
    __slots__=("env","mem","facts","effs","seqp","cnt","ver","last","depth","inloop","gp")
    def copy(s):
        r=State.__new__(State)
        r.env=dict(s.env); r.mem=dict(s.mem); r.facts=s.facts; r.effs=list(s.effs)
        r.seqp=s.seqp; r.cnt=dict(s.cnt); r.ver=dict(s.ver); r.last=dict(s.last); r.depth=s.depth; r.inloop=s.inloop; r.gp=dict(s.gp)
        return r

class Loop:
    __slots__=("header","blocks","latches","exits","parent")

def loops_of(F):
    if hasattr(F.mod,'_loops') and F.name in F.mod._loops: return F.mod._loops[F.name]
    n=len(F.blocks); succ=F.succs; pred=F.preds
    # reverse postorder
    seen=set(); order=[]
    st=[(0,iter(succ[0]))]; seen.add(0)
    while st:
        b,it=st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s,iter(succ[s]))); break
        else:
            order.append(b); st.pop()
    rpo=order[::-1]; num={b:i for i,b in enumerate(rpo)}
    idom={rpo[0]:rpo[0]}
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in pred[b] if p in idom]
            x=ps[0]
            for p in ps[1:]:
                a,c=p,x
                while a!=c:
                    while num[a]>num[c]: a=idom[a]
                    while num[c]>num[a]: c=idom[c]
                x=a
            if idom.get(b)!=x: idom[b]=x; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==rpo[0]: return False
            b=idom[b]
    L={}
    for b in rpo:
        for s in succ[b]:
            if s in num and num[s]<=num[b]:
                if not dom(s,b): raise Unsupported("irreducible loop in "+F.name)
                l=L.get(s)
                if l is None: l=Loop(); l.header=s; l.blocks={s}; l.latches=set(); L[s]=l
                l.latches.add(b)
                w=[b]
                while w:
                    x=w.pop()
                    if x in l.blocks: continue
                    l.blocks.add(x); w+= [p for p in pred[x] if p in num]
    for l in L.values():
        l.exits=[(b,s) for b in l.blocks for s in succ[b] if s not in l.blocks]
    if not hasattr(F.mod,'_loops'): F.mod._loops={}
    F.mod._loops[F.name]=L
    return L

def isptr(t): return t.kind==TK_PTR
def fapp(op,*args):
    if op in('fadd','fmul'): args=tuple(sorted(args,key=lambda p:(repr(p))))
    return V(atom('app',op,tuple(args)))
def fconst(v): return V(atom('fc',repr(float(v))))

OBSERVE=re.compile(r'^(el_\w+|touch2?|outp?|visit\d)$')
class Exec:
    MAXPATH=6000
    def __init__(s,mod,pure=None,budget=4_000_000):
        s.mod=mod; s.loopstack=[]; s.strict=[]; s.callstack=[]; s.frames=[]; s.budget=budget; s.npaths=0
        s.pure=pure; s.funcs=set(); s.locs=set(); s.allocn=0; s.freshn=0; s.fwd=0; s.asize={}
    # ---------------------------------------------------------------- values
    def val(s,st,o):
        if type(o) is Instr:
            return st.env[o.id]
        if type(o) is Arg: return st.env[('a',o.idx)]
        k=o.k
        if k=='int':
            if o.ty.bits==1: return Bc(o.v)
            return K(o.v)
        if k=='null': return ZERO
        if k=='undef':
            if o.ty.kind==TK_INT and o.ty.bits==1: return Cond('b',UNDEF)
            if o.ty.kind in(TK_STRUCT,TK_ARRAY): return s.zagg(o.ty,True)
            return UNDEFV
        if k=='float': return fconst(o.v)
        if k in('func','global'): return V(atom('glob',"@"+o.v,(),True,1))
        if k=='gep': return s.val(st,o.v[0])+o.v[1]
        if k=='zero':
            if o.ty.kind in(TK_STRUCT,TK_ARRAY): return s.zagg(o.ty,False)
            return ZERO
        if k=='agg': return [s.val(st,x) for x in o.v]
        raise Unsupported("constant %r"%(o.v,))
    def zagg(s,ty,undef):
        return {'undef':undef}
    def fresh(s,kind,name,**kw):
        s.freshn+=1
        return atom(kind,"%s.%d"%(name,s.freshn),(),**kw)
    # ---------------------------------------------------------------- memory
    def split_addr(s,p):
        """-> ('alloca',atom,offpoly) | ('ext',base atom or None,offpoly)"""
        base=None
        for m,c in p.t.items():
            if len(m)==1 and c==1:
                a=byid(m[0])
                if a.kind=='alloca': return 'alloca',a,p-V(a)
                if a.ptr and base is None: base=a
        return 'ext',base,(p-V(base) if base else p)
    def addr(s,st,p):
        p=st.facts.norm(p)
        k,b,o=s.split_addr(p)
        if k=='alloca' and o.const() is None:
            # symbolic offset into a stack object: enumerate the possible cells
            obj=st.mem.get(b.id,{})
            offs=sorted(obj)
            # candidate offsets consistent with the facts
            c=[x for x in offs if st.facts.decide(EQ(o-x)) is not False]
            if not c: raise Unsupported("symbolic stack address %s"%fmt(p))
            if len(c)==1 and st.facts.decide(EQ(o-c[0])): return k,b,c[0]
            raise Fork(EQ(o-c[0]))
        return k,b,(o.const() if k=='alloca' else o)
    def inbounds(s,st,aid,off,size,loc):
        """an access outside the local object it is based on is an effect no specification has"""
        z=s.asize.get(aid)
        if z is not None and isinstance(off,int) and (off<0 or off+size>z):
            st.effs.append(Eff('call',name='LOCAL-OBJECT-OVERRUN',args=(),loc=loc))
    def load(s,st,p,size,ty,loc=None):
        k,b,o=s.addr(st,p)
        isb=ty.kind==TK_INT and ty.bits==1
        if k=='alloca':
            s.inbounds(st,b.id,o,size,loc)
            obj=st.mem.get(b.id,{})
            c=obj.get(o)
            if c and c[0]==size: return c[1]
            # containing cell
            for off,(sz,v) in obj.items():
                if off<=o and o+size<=off+sz:
                    if isinstance(v,Poly):
                        if v.const() is not None:
                            x=(v.const()>>(8*(o-off)))&((1<<(8*size))-1)
                            if x>>(8*size-1) and size>=4: x-=1<<(8*size)
                            return K(x)
                        if v==UNDEFV: return UNDEFV
                        if len(v.t)==1:
                            (m,q),=v.t.items()
                            if len(m)==1 and q==1 and byid(m[0]).name=='cat':
                                pos=0
                                for part,ps in zip(byid(m[0]).args[0::2],byid(m[0]).args[1::2]):
                                    if pos==o-off and ps.const()==size: return part
                                    pos+=ps.const()
                    raise Unsupported("partial load of stack cell")
            parts=sorted((off,sz,v) for off,(sz,v) in obj.items() if off<o+size and off+sz>o)
            if not parts: return UNDEFV
            if parts[0][0]==o and sum(x[1] for x in parts)==size:
                if all(isinstance(x[2],Poly) and x[2].const() is not None for x in parts):
                    r=0
                    for off,sz,v in parts: r|=(v.const()&((1<<8*sz)-1))<<(8*(off-o))
                    if r>>(8*size-1): r-=1<<(8*size)
                    return K(r)
                return V(atom('app','cat',tuple(y for x in parts for y in (x[2],K(x[1])))))
            if any(x[2]==UNDEFV for x in parts): return UNDEFV
            if size>8 : raise Unsupported("wide load")
            # trailing padding undefined
            return V(atom('app','cat',tuple(y for x in parts for y in (x[2],K(x[1])))))
        if b is not None and b.kind=='glob':
            oc=o.const()
            if oc is not None:
                v=s.gload(b.name[1:],oc,size)
                if v is not None: return v
            if b.name.startswith('@_ZTV'): return V(atom('app','vt',(p,)))
        bid=b.id if b else None
        l=st.last.get(bid)
        if l and st.facts.norm(l[0])==st.facts.norm(p) and l[2]==size: return l[1]
        ver=st.ver.get(bid,K(0))
        return V(atom('app','ld',(st.facts.norm(p),K(size),ver),ptr=isptr(ty),w=8*size))
    def gload(s,name,off,size):
        gi=s.mod.global_init(name)
        if not gi or not gi[0]: return None
        c=gi[1]
        return s.cload(c,off,size)
    def cload(s,c,off,size):
        if c.k=='zero': return ZERO
        if c.k=='int' and off==0 and c.ty.size==size: return K(c.v)
        if c.k=='float' and off==0: return fconst(c.v)
        if c.k in('null',): return ZERO
        if c.k=='agg':
            import llvmc
            for i,e in enumerate(c.v):
                if c.ty.kind==TK_STRUCT: eo=llvmc.OffOf(s.mod.dl,c.ty.ref,i)
                else: eo=i*e.ty.size
                if eo<=off and off+size<=eo+e.ty.size: return s.cload(e,off-eo,size)
        return None
    def write_cell(s,st,aid,off,size,v):
        obj=dict(st.mem.get(aid,{}))
        for o in [o for o,(z,_) in obj.items() if o<off+size and o+z>off]:
            z,ov=obj.pop(o)
            if o>=off and o+z<=off+size: continue
            # partial overwrite: keep the untouched bytes when they are constant or undefined
            if isinstance(ov,Poly) and (ov.const() is not None or ov==UNDEFV):
                for x in range(o,o+z):
                    if x<off or x>=off+size:
                        obj[x]=(1,UNDEFV if ov==UNDEFV else K((ov.const()>>(8*(x-o)))&255))
            else: raise Unsupported("partial overwrite of stack cell")
        obj[off]=(size,v); st.mem[aid]=obj
    def clobber(s,st,aid,off,size):
        # the callee may change (only) the element it was given
        obj=st.mem.get(aid)
        if not obj: return
        if off is None: return  # inside the buffer part, which holds no cells
        obj=dict(obj)
        for x in [x for x,(z,_) in obj.items() if x<off+size and x+z>off]: del obj[x]
        st.mem[aid]=obj
    def store(s,st,p,v,size,loc):
        k,b,o=s.addr(st,p)
        if k=='alloca':
            s.inbounds(st,b.id,o,size,loc)
            s.write_cell(st,b.id,o,size,v); return
        v=s.plain(st,v)
        p=st.facts.norm(p)
        st.effs.append(Eff('store',args=(p,v),sz=size,loc=loc))
        s.touch(st,b.id if b else None)
        st.last[b.id if b else None]=(p,v,size)
    def touch(s,st,bid):
        st.ver[bid]=s.seqtok(st,('v',bid))
        st.last.pop(bid,None)
        if bid is None:
            for x in list(st.ver): st.ver[x]=st.ver[None]
            st.last.clear()
    def seqtok(s,st,kind):
        st.cnt[kind]=k=st.cnt.get(kind,0)+1
        return V(atom('app',"%s%s.%s.%d"%(kind[0],st.seqp,kind[1],k),tuple(V(byid(i)) for i in st.inloop)))
    def havoc_obj(s,st,aid,label,seen=None):
        obj=st.mem.get(aid)
        if not obj: return
        seen=seen or set(); seen.add(aid)
        n={}
        for o,(z,v) in obj.items():
            # pointers to other stack objects escape too
            if isinstance(v,Poly):
                for m in v.t:
                    if len(m)==1 and byid(m[0]).kind=='alloca' and m[0] not in seen: s.havoc_obj(st,m[0],label+'>%d'%o,seen)
            n[o]=(z,s.seqtok(st,('h','%s:%d'%(label,o))))
        st.mem[aid]=n
    def memcpy(s,st,d,sr,n,loc):
        n=st.facts.norm(n); nc=n.const()
        if nc==0: return
        if nc is None:
            for q in (NE(n),):
                dd=st.facts.decide(q)
                if dd is None: raise Fork(q)
                if dd is False: return
        kd,bd,od=s.addr(st,d); ks,bs,os_=s.addr(st,sr)
        if nc is not None:
            if kd=='alloca': s.inbounds(st,bd.id,od,nc,loc)
            if ks=='alloca': s.inbounds(st,bs.id,os_,nc,loc)
        if kd=='alloca' and ks=='alloca':
            if nc is None: raise Unsupported("symbolic stack memcpy")
            src=st.mem.get(bs.id,{})
            cells=[(o,z,v) for o,(z,v) in src.items() if os_<=o and o+z<=os_+nc]
            part=[(o,z) for o,(z,v) in src.items() if o<os_+nc and o+z>os_ and not(os_<=o and o+z<=os_+nc)]
            if part: raise Unsupported("partial memcpy")
            obj=dict(st.mem.get(bd.id,{}))
            for o in [o for o,(z,_) in obj.items() if o<od+nc and o+z>od]: del obj[o]
            for o,z,v in cells: obj[od+o-os_]=(z,v)
            st.mem[bd.id]=obj
            return
        if nc is not None and nc<=512 and (kd=='alloca' or ks=='alloca'):
            class t8: kind=TK_INT;bits=64
            if kd=='alloca':
                if ks=='ext' and bs is not None and bs.kind=='glob':
                    w=8
                    o=0
                    while o<nc:
                        z=8 if nc-o>=8 else 4 if nc-o>=4 else 1
                        v=s.gload(bs.name[1:],(os_.const() or 0)+o,z)
                        if v is None: v=s.load(st,sr+o,z,t8,loc)
                        s.write_cell(st,bd.id,od+o,z,v); o+=z
                    return
                o=0
                while o<nc:
                    z=8 if nc-o>=8 else 4 if nc-o>=4 else 1
                    s.write_cell(st,bd.id,od+o,z,s.load(st,sr+o,z,t8,loc)); o+=z
                return
            src=st.mem.get(bs.id,{})
            for o,(z,v) in sorted(src.items()):
                if os_<=o and o+z<=os_+nc: s.store(st,d+(o-os_),v,z,loc)
            return
        if kd=='alloca' or ks=='alloca': raise Unsupported("memcpy stack/heap of symbolic size")
        s.bulk(st,bd,d,n,loc,lambda off,st2: V(atom('app','ld',(st.facts.norm(sr+off),K(s.esz(n)),st.ver.get(bs.id if bs else None,K(0))),w=8*s.esz(n))))
    def esz(s,n):
        for z in (8,4,2):
            if all(c%z==0 for c in n.t.values()): return min(z,4)
        return 1
    def bulk(s,st,bd,d,n,loc,val):
        z=s.esz(n); cnt=pdiv(n,K(z))
        i=s.idx(st)
        off=V(i).scale(z)
        st.effs.append(Eff('loop',n=cnt,idx=i.id,body=[((),[Eff('store',args=(st.facts.norm(d+off),val(off,st)),sz=z,loc=loc)])],loc=loc))
        s.touch(st,bd.id if bd else None)
    def memset(s,st,d,v,n,loc):
        n=st.facts.norm(n); nc=n.const()
        if nc==0: return
        if nc is None:
            dd=st.facts.decide(NE(n))
            if dd is None: raise Fork(NE(n))
            if dd is False: return
        k,b,o=s.addr(st,d)
        if k=='alloca':
            if nc is None: raise Unsupported("symbolic stack memset")
            x=v.const()
            obj=dict(st.mem.get(b.id,{}))
            for q in [q for q,(z,_) in obj.items() if q<o+nc and q+z>o]: del obj[q]
            p=o
            while p<o+nc:
                z=8 if (o+nc-p>=8) else 4 if o+nc-p>=4 else 1
                if x is None: z=1; w=v
                else:
                    x&=255; w=int.from_bytes(bytes([x])*z,'little',signed=True); w=K(w)
                obj[p]=(z,w); p+=z
            st.mem[b.id]=obj
            return
        s.bulk(st,b,d,n,loc,lambda off,st2: v if v==ZERO else V(atom('app','splat',(v,))))
    def idx(s,st,depth=None):
        return atom('idx',"i%d"%(len(st.inloop) if depth is None else depth))
    # ---------------------------------------------------------------- helpers
    def bools_in(s,p):
        if isinstance(p,Poly):
            for m in p.t:
                for i in m:
                    if byid(i).kind=='bool': return byid(i)
        return None
    def plain(s,st,v):
        """force a value that carries no unresolved boolean/ite atoms; may Fork"""
        if isinstance(v,Cond):
            d=st.facts.decide(v)
            if d is None: raise Fork(v)
            return K(1 if d else 0)
        if isinstance(v,Poly):
            b=s.bools_in(v)
            while b is not None:
                d=st.facts.decide(b.args[0])
                if d is None: raise Fork(b.args[0])
                v=v.subst1(b.id,K(1 if d else 0)); b=s.bools_in(v)
            return st.facts.norm(v)
        return v
    def booldecide(s,st,c):
        d=st.facts.decide(c)
        if d is None: raise Fork(c)
        return d
    def b2i(s,st,c):
        d=st.facts.decide(c)
        if d is True: return ONE
        if d is False: return ZERO
        return V(atom('bool','B',(c,)))
    def arith(s,st,v):
        if isinstance(v,Cond): v=s.b2i(st,v)
        if s.bools_in(v): return s.plain(st,v)
        return v
    def gepbase(s,st,a):
        for _ in range(64):
            b=st.gp.get(a)
            if b is None:
                n=st.facts.norm(a)
                if n.const() is not None: break
                for k,x in st.gp.items():
                    if k==n or st.facts.norm(k)==n: b=x; break
            if b is None: break
            a=b
        return a
    def icmp(s,st,pred,a,b,ty):
        if isinstance(a,Cond) or isinstance(b,Cond):
            # i1 comparison
            a=a if isinstance(a,Cond) else NE(a); b=b if isinstance(b,Cond) else NE(b)
            if pred=='eq': return OR([AND([a,b]),AND([NOT(a),NOT(b)])])
            if pred=='ne': return OR([AND([a,NOT(b)]),AND([NOT(a),b])])
            a=s.plain(st,a); b=s.plain(st,b)
        for x,y in((a,b),(b,a)):
            if pred in('eq','ne') and len(x.t)==1 and y.const() in(0,1):
                (m,c),=x.t.items()
                if c==1 and len(m)==1 and byid(m[0]).kind=='bool':
                    r=byid(m[0]).args[0]
                    return r if (y.const()==1)==(pred=='eq') else NOT(r)
        if pred in('eq','ne') and st.gp:
            if b.const()==0: a=s.gepbase(st,a)
            elif a.const()==0: b=s.gepbase(st,b)
        a=s.arith(st,a); b=s.arith(st,b)
        d=a-b
        if pred in('eq','ne'):
            if ty.kind==TK_PTR:
                al=[byid(m[0]) for m,c in d.t.items() if len(m)==1 and byid(m[0]).kind in('alloca','glob') and abs(c)==1]
                if al: return Bc(pred=='ne')
                # two allocations that are both still live on this path are different objects
                if len(d.t)==2 and sorted(d.t.values())==[-1,1] and all(len(m)==1 for m in d.t):
                    x,y=[byid(m[0]) for m in d.t]
                    if s.fresh_alloc(x) and s.fresh_alloc(y) and s.live(st,x) and s.live(st,y): return Bc(pred=='ne')
                # an address derived from a non-null object is not null (offsets stay in the object)
                ps=[byid(m[0]) for m,c in d.t.items() if len(m)==1 and byid(m[0]).ptr and abs(c)==1]
                if len(ps)==1 and len(d.t)>1:
                    rest=d-V(ps[0]).scale(d.t[(ps[0].id,)])
                    if s.booldecide(st,EQ(V(ps[0]))): return EQ(rest) if pred=='eq' else NE(rest)
                    return Bc(pred=='ne')
            return EQ(d) if pred=='eq' else NE(d)
        if pred[0]=='u' and ty.kind!=TK_PTR:
            for x in(a,b):
                c=x.const()
                if c is not None and c<0: # huge unsigned constant
                    pass
            da=s.booldecide(st,GE(a)); db=s.booldecide(st,GE(b))
            if da!=db:
                big_a=not da
                return Bc({'ugt':big_a,'uge':big_a,'ult':not big_a,'ule':not big_a}[pred])
        p=pred[1:]
        if p=='gt': return GE(d-1)
        if p=='ge': return GE(d)
        if p=='lt': return GE(K(-1)-d)
        return GE(-d)
    ALLOC=re.compile(r'^(al_alloc|ar_alloc|malloc|_Znwm|_Znam|_ZnwmSt11align_val_t)@')
    FREE=('al_free','ar_free','free','_ZdlPv','_ZdlPvm','_ZdaPv','_ZdlPvSt11align_val_t','_ZdlPvmSt11align_val_t')
    def fresh_alloc(s,a): return a.kind=='app' and s.ALLOC.match(a.name) is not None
    def live(s,st,a):
        for e in st.effs:
            if e.k=='call' and e.name in s.FREE and any(isinstance(x,Poly) and x==V(a) for x in e.args): return False
        return True
    def floordiv(s,st,a,b):
        """floor(a/b), b>0 known"""
        q=pdiv(a,b)
        if q is not None: return q
        bc=b.const()
        if bc is not None:
            if a.const() is not None: return K(a.const()//bc)
            hi=ZERO; lo={}
            t={}
            for m,c in a.t.items():
                k=c//bc; r=c-k*bc
                if k: t[m]=k
                if r: lo[m]=r
            hi=Poly(t); lo=Poly(lo)
            if lo.const() is not None: return hi
            q=V(atom('app','fdiv',(st.facts.norm(lo),b),w=wid(lo)))
            s.addfact(st,GE(lo-q.scale(bc))); s.addfact(st,GE(q.scale(bc)+(bc-1)-lo))
            return hi+q
        for k in (0,1,2,-1):
            if st.facts.decide(GE(a-b.scale(k))) is True and st.facts.decide(GE(b.scale(k+1)-1-a)) is True: return K(k)
        q=V(atom('app','fdiv',(st.facts.norm(a),st.facts.norm(b)),w=wid(a)))
        s.addfact(st,GE(a-q*b)); s.addfact(st,GE(q*b+b-1-a))
        if st.facts.decide(GE(a)) is True: s.addfact(st,GE(q))
        return q
    def addfact(s,st,c):
        r=st.facts.assume(c)
        if len(r)==1: st.facts=r[0]
        elif len(r)>1: raise ForkFacts(r)
        else: raise ForkFacts([])
    def sdiv(s,st,a,b):
        a=st.facts.norm(s.arith(st,a)); b=st.facts.norm(s.arith(st,b))
        if a.const() is not None and b.const() not in(None,0):
            x,y=a.const(),b.const(); q=abs(x)//abs(y)
            return K(q if (x<0)==(y<0) else -q)
        q=pdiv(a,b)
        if q is not None: return q
        if not s.booldecide(st,GE(b-1)):
            if not s.booldecide(st,NE(b)): return V(atom('app','divzero'))
            return -s.sdiv(st,a,-b)
        if s.booldecide(st,GE(a)): return s.floordiv(st,a,b)
        return -s.floordiv(st,-a,b)
    # ---------------------------------------------------------------- instructions
    def step(s,st,i):
        op=i.op; o=i.ops; E=st.env
        v=lambda k: s.val(st,o[k])
        STATS["instrs"]+=1
        s.budget-=1
        if s.budget<0: raise Unsupported("analysis budget exceeded")
        if op=='add': E[i.id]=s.arith(st,v(0))+s.arith(st,v(1)) if i.ty.bits!=1 else s.icmp(st,'ne',v(0),v(1),i.ty)
        elif op=='sub': E[i.id]=s.arith(st,v(0))-s.arith(st,v(1))
        elif op=='mul': E[i.id]=st.facts.norm(s.arith(st,v(0))*s.arith(st,v(1)))
        elif op=='sdiv' or op=='udiv': E[i.id]=s.sdiv(st,v(0),v(1))
        elif op=='srem' or op=='urem':
            a=s.arith(st,v(0)); b=s.arith(st,v(1)); E[i.id]=a-s.sdiv(st,a,b)*b
        elif op=='gep':
            p=v(0)+i.x[0]
            for k,sc in enumerate(i.x[1]): p=p+s.arith(st,v(k+1)).scale(sc)
            E[i.id]=p
            # an inbounds offset of an object never is null, and one of null is null
            if i.x[2] and p!=v(0) and not any(len(m)==1 and byid(m[0]).kind in('alloca','glob') for m in v(0).t): st.gp.setdefault(p,v(0))
        elif op=='load':
            if i.ty.kind in(TK_STRUCT,TK_ARRAY): raise Unsupported("aggregate load")
            r=s.load(st,v(0),i.ty.size,i.ty,i.loc)
            if i.ty.kind==TK_INT and i.ty.bits==1 and isinstance(r,Poly): r=NE(r)
            E[i.id]=r
        elif op=='store':
            x=v(0); 
            t=o[0].ty
            if isinstance(x,(list,dict)): raise Unsupported("aggregate store")
            s.store(st,v(1),x if isinstance(x,Poly) else s.b2i(st,x),t.size,i.loc)
        elif op=='alloca':
            n=v(0).const()
            a=atom('alloca',"&%s.%d"%(s.callstack[-1][1] if s.callstack else '',i.id)+s.tag,(),True,1)
            st.mem[a.id]={}
            if n is not None: s.asize[a.id]=i.x*n
            E[i.id]=V(a)
        elif op=='icmp': E[i.id]=s.icmp(st,i.x,v(0),v(1),o[0].ty)
        elif op=='fcmp':
            a,b=v(0),v(1)
            E[i.id]=s.fcmp(st,i.x,a,b)
        elif op=='select':
            c=v(0)
            if i.ty.kind==TK_INT and i.ty.bits==1:
                a,b=v(1),v(2)
                E[i.id]=OR([AND([c,a]),AND([NOT(c),b])])
            else:
                E[i.id]=v(1) if s.booldecide(st,c) else v(2)
        elif op in('zext','sext'):
            x=v(0)
            if isinstance(x,Cond):
                x=s.b2i(st,x)
                if op=='sext': x=-x
            elif op=='zext' and x.const() is not None and x.const()<0:
                x=K(x.const()&((1<<o[0].ty.bits)-1))
            E[i.id]=x
        elif op=='trunc':
            x=v(0)
            if i.ty.bits==1:
                x=st.facts.norm(x)
                if isinstance(x,Cond): E[i.id]=x
                elif x.const() is not None: E[i.id]=Bc(x.const()&1)
                elif len(x.t)==1 and list(x.t.values())==[1] and len(list(x.t)[0])==1 and byid(list(x.t)[0][0]).kind=='bool':
                    E[i.id]=byid(list(x.t)[0][0]).args[0]
                else: E[i.id]=NE(x)
            else:
                c=x.const() if isinstance(x,Poly) else None
                if c is not None:
                    c&=(1<<i.ty.bits)-1
                    if c>>(i.ty.bits-1) and i.ty.bits>=32: c-=1<<i.ty.bits
                    x=K(c)
                elif isinstance(x,Poly) and len(x.t)==1:
                    (m,q),=x.t.items()
                    if len(m)==1 and q==1 and byid(m[0]).name=='cat':
                        a=byid(m[0]).args
                        if a[1].const()*8==i.ty.bits: x=a[0]
                E[i.id]=s.narrow(st,x,i.ty.bits)
        elif op in('ptrtoint','inttoptr','bitcast','addrspacecast','freeze'): E[i.id]=v(0)
        elif op in('fadd','fsub','fmul','fdiv','frem'):
            E[i.id]=fapp(op,st.facts.norm(v(0)),st.facts.norm(v(1)))
        elif op=='fneg': E[i.id]=fapp(op,st.facts.norm(v(0)))
        elif op in('sitofp','uitofp','fptosi','fptoui','fptrunc','fpext'):
            x=s.plain(st,v(0))
            if op in('sitofp','uitofp') and x.const() is not None: E[i.id]=fconst(x.const())
            else: E[i.id]=fapp(op if op[:2] not in('si','ui') else 'itofp',x)
        elif op in('and','or','xor'):
            a,b=v(0),v(1)
            if i.ty.bits==1:
                if op=='and': E[i.id]=AND([a,b])
                elif op=='or': E[i.id]=OR([a,b])
                else:
                    E[i.id]=NOT(a) if b.k=='t' else NOT(b) if a.k=='t' else s.icmp(st,'ne',a,b,i.ty)
            else: E[i.id]=s.bitop(st,op,a,b,i.ty.bits)
        elif op in('shl','lshr','ashr'): E[i.id]=s.shift(st,op,v(0),v(1),i.ty.bits)
        elif op=='extractvalue':
            a=v(0)
            for k in i.x: a=a[k] if not(isinstance(a,dict) and k not in a) else (UNDEFV if a.get('undef') else ZERO)
            E[i.id]=a
        elif op=='insertvalue':
            a=v(0); x=v(1)
            def ins(a,ix):
                if isinstance(a,list): a={k:y for k,y in enumerate(a)}
                a=dict(a)
                if len(ix)==1: a[ix[0]]=x
                else: a[ix[0]]=ins(a.get(ix[0],{'undef':a.get('undef')}),ix[1:])
                return a
            E[i.id]=ins(a,i.x)
        else: raise Unsupported("instruction "+op)
    def narrow(s,st,x,bits):
        """truncation: the identity only for values known to fit (made of values that narrow, with
        arithmetic that does not overflow, or bounded by the path); otherwise an operation of its own"""
        if not isinstance(x,Poly): return x
        if all(byid(a).w<=bits or byid(a).kind in('undef','bool') for a in x.atoms()): return x
        y=st.facts.norm(x)
        if y.const() is not None: return y
        if all(byid(a).w<=bits for a in y.atoms()): return y
        h=1<<(bits-1)
        if st.facts.decide(GE(y+h)) and st.facts.decide(GE(K(2*h-1)-y)): return y
        return V(atom('app','trunc%d'%bits,(y,),w=bits))
    def fcmp(s,st,pred,a,b):
        a=st.facts.norm(a); b=st.facts.norm(b)
        if pred in('ogt','oge','ult','ule','ugt','uge','olt','ole'):
            # canonical: (less-than style, negation for unordered)
            neg=pred[0]=='u'
            if neg: pred={'ult':'oge','ule':'ogt','ugt':'ole','uge':'olt'}[pred]
            if pred=='ogt': pred,a,b='olt',b,a
            elif pred=='oge': pred,a,b='ole',b,a
            c=Cond('b',atom('app','f'+pred,(a,b)))
            return NOT(c) if neg else c
        neg=False
        if pred in('une','uno','ueq'):
            neg=True; pred={'une':'oeq','uno':'ord','ueq':'one'}[pred]
        if repr(a)>repr(b): a,b=b,a
        c=Cond('b',atom('app','f'+pred,(a,b)))
        return NOT(c) if neg else c
    def bitop(s,st,op,a,b,bits):
        a=s.arith(st,a); b=s.arith(st,b)
        a=st.facts.norm(a); b=st.facts.norm(b)
        ca,cb=a.const(),b.const()
        if ca is not None and cb is not None:
            r={'and':ca&cb,'or':ca|cb,'xor':ca^cb}[op]
            return K(r)
        if ca is not None: a,b,ca,cb=b,a,cb,ca
        if op=='xor' and cb==-1: return K(-1)-a
        if op=='and':
            if cb==0: return ZERO
            if cb==-1: return a
            if cb is not None and cb>0 and (cb&(cb+1))==0 and s.booldecide(st,GE(a)):
                return a-s.floordiv(st,a,K(cb+1)).scale(cb+1)
            if cb is not None and cb<0 and ((-cb)&(-cb-1))==0 and s.booldecide(st,GE(a)):
                return s.floordiv(st,a,K(-cb)).scale(-cb)
            if a==b: return a
        if op=='or':
            if cb==0: return a
            if a==b: return a
            # disjoint halves: zext(lo) | (hi<<32)
            for x,y in((a,b),(b,a)):
                if all(c%(1<<32)==0 for c in y.t.values()) and y.t:
                    return V(atom('app','cat',(x,K(4),pdiv(y,K(1<<32)),K(4))))
        return V(atom('app',op,tuple(sorted((a,b),key=repr)),w=bits))
    def shift(s,st,op,a,b,bits):
        a=st.facts.norm(s.arith(st,a)); b=st.facts.norm(s.arith(st,b)); c=b.const()
        if c is None:
            if op=='shl':
                return a*V(atom('app','pow2',(b,),w=bits))
            return V(atom('app',op,(a,b),w=bits))
        if op=='shl':
            if a.const() is not None:
                r=(a.const()<<c)&((1<<bits)-1)
                if r>>(bits-1): r-=1<<bits
                return K(r)
            return a.scale(1<<c)
        if len(a.t)==1:
            (m,q),=a.t.items()
            if len(m)==1 and q==1 and byid(m[0]).name=='cat':
                ar=byid(m[0]).args
                if len(ar)==4 and ar[1].const()*8==c: return ar[2]
        if op=='lshr' and a.const() is not None and a.const()<0: return K((a.const()&((1<<bits)-1))>>c)
        if op=='lshr' and a.const() is None and not s.booldecide(st,GE(a)): return V(atom('app',op,(a,b)))
        return s.floordiv(st,a,K(1<<c))
    # ---------------------------------------------------------------- calls
    tag=""
    def call(s,st,i):
        """returns None when handled inline (value in env) or ('abort',) or ('enter',F,args)"""
        n=i.x; E=st.env
        if n is not None and n.startswith('llvm.'):
            return s.intrinsic(st,i,n)
        args=[s.val(st,o) for o in i.ops]
        if n is None:
            fp=st.facts.norm(args.pop())
            if len(fp.t)==1 and list(fp.t.values())==[1] and byid(list(fp.t)[0][0]).kind=='glob': n=byid(list(fp.t)[0][0]).name[1:]
            else:
                n="icall"; args=[fp]+args
        if n=='vf_require':
            # violated documented precondition, checked build: the specification stops here; the implementation
            # must stop somewhere by itself
            if s.callstack[0][0].startswith('impl_'): return None
            n='vf_abort'
        if NORETURN.match(n):
            st.effs.append(Eff('call',name='ABORT',args=(),loc=i.loc)); return ('abort',)
        if n=='vf_assume':
            c=args[0]; c=c if isinstance(c,Cond) else NE(c)
            r=st.facts.assume(c)
            return ('facts',r)
        if n=='vf_stack':
            # a named stack object: the same object in implementation and specification
            a=atom('alloca',"&stack%d"%args[0].const(),(),True,1)
            st.mem.setdefault(a.id,{}); E[i.id]=V(a); return None
        if n=='vf_in':
            # does the pointer point into the given object?
            p,q,z=[st.facts.norm(s.plain(st,a)) for a in args]
            d=(p-q).const()
            if d is None and s.split_addr(p)[1] is s.split_addr(q)[1]: raise Unsupported("vf_in at symbolic offset")
            E[i.id]=Bc(d is not None and 0<=d<z.const()); return None
        F=s.mod.func(n)
        if F is not None: return ('enter',F,args)
        args=[s.plain(st,a) for a in args]
        isb=i.ty.kind==TK_INT and i.ty.bits==1
        if n in('_ZdlPv','_ZdlPvm','free') and args and args[0].const()==0: return None
        if PURE.match(n) or (s.pure and s.pure(n)):
            # pure: function of its arguments and of the pointed-to versions
            vers=[]
            for a in args:
                k,b,o=s.split_addr(a)
                if k=='ext' and b is not None: vers.append(st.ver.get(b.id,K(0)))
            a=atom('app',n,tuple(args)+tuple(x for x in vers if x!=K(0)),ptr=isptr(i.ty),w=ibits(i.ty))
            if i.ty.kind!=TK_VOID: E[i.id]=Cond('b',a) if isb else V(a)
            return None
        st.cnt[n]=cn=st.cnt.get(n,0)+1
        ret=None
        if i.ty.kind!=TK_VOID:
            al=n.startswith('_Znw') or n.startswith('_Zna') or n=='malloc' or 'allocate' in n
            a=atom('app',"%s@%s.%d"%(n,st.seqp,cn),tuple(V(byid(x)) for x in st.inloop),ptr=isptr(i.ty),nonneg=1 if (isptr(i.ty) and al) else False,w=ibits(i.ty))
            E[i.id]=Cond('b',a) if isb else V(a)
            ret=a
        st.effs.append(Eff('call',name=n,args=tuple(args),loc=i.loc,ret=ret))
        for ai,a in enumerate(args):
            k,b,o=s.split_addr(a)
            if k=='alloca':
                if OBSERVE.match(n): s.clobber(st,b.id,st.facts.norm(o).const(),8)
                else: s.havoc_obj(st,b.id,'%s.%d.%d'%(n,cn,ai))
            elif b is not None and b.kind!='glob': s.touch(st,b.id)
        return None
    def intrinsic(s,st,i,n):
        E=st.env; v=lambda k: s.val(st,i.ops[k])
        if n.startswith(('llvm.dbg','llvm.experimental.noalias','llvm.donothing','llvm.invariant','llvm.prefetch','llvm.stacksave','llvm.stackrestore')): 
            if i.ty.kind!=TK_VOID: E[i.id]=ZERO
            return None
        if n.startswith('llvm.lifetime'):
            k,b,o=s.split_addr(st.facts.norm(v(1)))
            if k=='alloca': st.mem[b.id]={}
            return None
        if n.startswith('llvm.assume'):
            c=v(0); d=st.facts.decide(c)
            if d is None:
                return ('facts',st.facts.assume(c))
            return None
        if n.startswith(('llvm.memcpy','llvm.memmove')): s.memcpy(st,v(0),v(1),s.arith(st,v(2)),i.loc); return None
        if n.startswith('llvm.memset'): s.memset(st,v(0),v(1),s.arith(st,v(2)),i.loc); return None
        if n.startswith('llvm.expect'): E[i.id]=v(0); return None
        if n.startswith(('llvm.smax','llvm.smin','llvm.umax','llvm.umin')):
            a,b=s.arith(st,v(0)),s.arith(st,v(1))
            c=s.booldecide(st,s.icmp(st,'sge' if n[5]=='s' else 'uge',a,b,i.ty))
            E[i.id]=(a if c else b) if 'max' in n else (b if c else a)
            return None
        if n.startswith('llvm.abs'):
            a=s.arith(st,v(0)); E[i.id]=a if s.booldecide(st,GE(a)) else -a; return None
        if 'with.overflow' in n:
            a,b=s.arith(st,v(0)),s.arith(st,v(1))
            E[i.id]=[a*b if 'mul' in n else a+b if 'add' in n else a-b,F]; return None
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            E[i.id]=fapp('fadd',fapp('fmul',v(0),v(1)),v(2)); return None
        if n.startswith('llvm.is.constant'): E[i.id]=F; return None
        if n.startswith('llvm.objectsize'): E[i.id]=K(-1); return None
        if n.startswith('llvm.trap'): st.effs.append(Eff('call',name='ABORT',loc=i.loc)); return ('abort',)
        if n.startswith(('llvm.ctlz','llvm.cttz','llvm.ctpop')):
            a=st.facts.norm(s.arith(st,v(0))); c=a.const(); w=i.ty.bits
            if c is not None:
                c&=(1<<w)-1
                if 'ctpop' in n: r=bin(c).count('1')
                elif 'ctlz' in n: r=w-c.bit_length()
                else: r=w if c==0 else (c&-c).bit_length()-1
                E[i.id]=K(r)
            else: E[i.id]=V(atom('app',n,(a,)))
            return None
        if re.match(r'llvm\.(fabs|sqrt|floor|ceil|rint|round|trunc|minnum|maxnum|copysign|exp|log|pow|sin|cos)',n):
            E[i.id]=fapp(n,*[st.facts.norm(v(k)) for k in range(len(i.ops))]); return None
        raise Unsupported("intrinsic "+n)
    # ---------------------------------------------------------------- control
    def run(s,F,args,st):
        """analyse F from its entry. -> list of (state, retval|None, 'ret'|'abort')"""
        if len(s.callstack)>200: raise Unsupported("recursion too deep in "+F.name)
        s.funcs.add(F.name); STATS["funcs"]+=1
        # a call with the arguments and the memory of a call to the same function that has not returned never returns
        fr=(F.name,list(args),len(st.effs),dict(st.mem))
        for n0,a0,e0,m0 in s.frames:
            if n0==F.name and e0==len(st.effs) and a0==fr[1] and all(st.mem.get(k)==v for k,v in m0.items()):
                st=st.copy(); st.effs.append(Eff('call',name='NONTERMINATING',loc=F.blocks[0].instrs[0].loc)); return [(st,None,'abort')]
        s.frames.append(fr)
        try: return s.run1(F,args,st)
        finally: s.frames.pop()
    def run1(s,F,args,st):
        saved=st.env; st=st.copy(); st.env={}
        for a,v in zip(F.args,args): st.env[('a',a.idx)]=v
        s.callstack.append((F.name,"%d"%len(s.callstack)))
        try: outs=s.region(F,st,0,None,frozenset())
        finally: s.callstack.pop()
        r=[]
        for o in outs:
            o[-1].env=saved
            if o[0]=='ret': r.append((o[2],o[1],'ret'))
            elif o[0]=='abort': r.append((o[1],None,'abort'))
            else: raise Unsupported("region escaped")
        return r
    def region(s,F,st,bid,prev,stops,start=0,first=True):
        """explore from block bid (entered from prev) until a stop block / return / abort.
        -> list of ('stop',bid,prev,st) | ('ret',val,st) | ('abort',st)"""
        L=loops_of(F); outs=[]
        work=[(bid,prev,0,st,first)]
        while work:
            bid,prev,k,st,first=work.pop()
            if k==0 and not first and bid in stops:
                outs.append(('stop',bid,prev,st)); continue
            if k==0 and bid in L and prev not in L[bid].blocks and not first=='in':
                try: res=s.loop(F,L[bid],st,prev)
                except Fork as f:
                    if s.loopstack and not(all_atoms(f.c)&s.loopstack[-1]): raise
                    for g in s.split(st,f.c): 
                        work.append((bid,prev,0,g,first))
                    continue
                except ForkFacts as f:
                    for g in f.alts:
                        n=st.copy(); n.facts=g; work.append((bid,prev,0,n,first))
                    continue
                for o in res:
                    if o[0]=='stop': work.append((o[1],o[2],0,o[3],False))
                    else: outs.append(o)
                continue
            B=F.blocks[bid]; ins=B.instrs
            if k==0 and prev is not None:
                newv=[]
                while k<len(ins) and ins[k].op=='phi':
                    i=ins[k]
                    if not (first=='in' and bid in L and prev=='hv'):
                        for pb,pv in i.x:
                            if pb.id==prev: newv.append((i.id,s.val(st,pv))); break
                        else: raise Unsupported("phi")
                    k+=1
                for a,b in newv: st.env[a]=b
            elif k==0:
                while k<len(ins) and ins[k].op=='phi': k+=1
            done=False
            while not done:
                i=ins[k]
                try:
                    op=i.op
                    if op in('call','invoke'):
                        s.locs.add(i.loc[0] if i.loc else None)
                        r=s.call(st,i)
                        if r is None: k+=1; continue
                        if r[0]=='abort':
                            outs.append(('abort',st)); done=True; continue
                        if r[0]=='facts':
                            for g in r[1]:
                                n=st.copy(); n.facts=g; work.append((bid,prev,k+1,n,False))
                            done=True; continue
                        if r[0]=='enter':
                            res=s.run(r[1],r[2],st)
                            s.limit(len(res)+len(work))
                            for st2,rv,kind in res:
                                if kind=='abort': outs.append(('abort',st2)); continue
                                st2.env=dict(st2.env)
                                if i.ty.kind!=TK_VOID: st2.env[i.id]=rv
                                work.append((bid,prev,k+1,st2,False))
                            done=True; continue
                    elif op=='br':
                        if not i.ops: nxt=i.x[0].id
                        else:
                            c=st.facts.norm(s.val(st,i.ops[0])) if st.facts.subs else s.val(st,i.ops[0])
                            if i.x[0] is i.x[1]: nxt=i.x[0].id
                            elif s.forcebr and s.forcebr[-1][0]==(F.name,bid,len(s.callstack)): nxt=s.forcebr[-1][1]
                            else:
                                if s.strict and (F.name,bid) in s.strict[-1] and c.k not in('t','f'):
                                    d=None
                                    if s.strict[-1][(F.name,bid)]: d=st.facts.decide(c)
                                    if d is None: raise Undecided()
                                else: d=st.facts.decide(c)
                                if d is None: raise Fork(c)
                                nxt=(i.x[0] if d else i.x[1]).id
                        work.append((nxt,bid,0,st,False)); done=True
                    elif op=='switch':
                        x=st.facts.norm(s.arith(st,s.val(st,i.ops[0])))
                        nxt=None
                        for cv,cb in i.x[1]:
                            if s.booldecide(st,EQ(x-cv)): nxt=cb.id; break
                        if nxt is None: nxt=i.x[0].id
                        work.append((nxt,bid,0,st,False)); done=True
                    elif op=='ret':
                        rv=s.val(st,i.ops[0]) if i.ops else None
                        outs.append(('ret',rv,st)); done=True
                    elif op=='unreachable':
                        st.effs.append(Eff('call',name='UNREACHABLE',loc=i.loc)); outs.append(('abort',st)); done=True
                    else:
                        s.step(st,i); k+=1
                except Fork as f:
                    if s.loopstack and not(all_atoms(f.c)&s.loopstack[-1]): raise
                    if s.loopstack and s.strictpass: pass
                    for g in s.split(st,f.c): work.append((bid,prev,k,g,False) if k else (bid,prev,k,g,first))
                    s.limit(len(work)); done=True
                except ForkFacts as f:
                    for g in f.alts:
                        n=st.copy(); n.facts=g; work.append((bid,prev,k,n,False) if k else (bid,prev,k,n,first))
                    done=True
            s.limit(len(outs))
        return outs
    strictpass=False
    forcebr=()
    def limit(s,n):
        if n>s.MAXPATH: raise Unsupported("too many paths")
    def split(s,st,c):
        out=[]
        for x in (NOT(c),c):
            for g in st.facts.assume(x):
                n=st.copy(); n.facts=g; out.append(n)
        STATS["paths"]+=max(0,len(out)-1)
        return out
    # ---------------------------------------------------------------- loops
    def loop(s,F,l,st,prev):
        STATS["loops"]+=1
        # (1) compile-time constant loops are expanded
        r=s.unroll(F,l,st,prev,False,64)
        if r is not None: STATS["unrolled"]+=1; return r
        try: return s.summarise(F,l,st,prev)
        except Unsupported as e:
            # bounded forking expansion for loops over fixed-size stack objects
            r=s.forkunroll(F,l,st,prev,12)
            if r is None: raise Unsupported("%s; loop at %s"%(e,s.hloc(F,l)))
            return r
    def hloc(s,F,l):
        for i in F.blocks[l.header].instrs:
            if i.loc: return "%s:%d"%(i.loc[0][0].split('/')[-1],i.loc[0][1])
        return "?"
    def unroll(s,F,l,st,prev,facts,maxit):
        stops=frozenset([l.header])|frozenset(x for _,x in l.exits)
        s.strict.append({(F.name,b):facts for b,_ in l.exits})
        done=[]
        try:
            cur=[(prev,st.copy())]
            for it in range(maxit+1):
                nxt=[]
                for pv,c in cur:
                    for o in s.region(F,c,l.header,pv,stops,first='in'):
                        if o[0]=='stop' and o[1]==l.header: nxt.append((o[2],o[3]))
                        else: done.append(o)
                if not nxt: return done
                cur=nxt
            if facts: return None
            return None
        except Undecided: return None
        finally: s.strict.pop()
    def forkunroll(s,F,l,st,prev,maxit):
        stops=frozenset([l.header])|frozenset(x for _,x in l.exits)
        done=[]; cur=[(prev,st.copy())]
        for it in range(maxit+1):
            nxt=[]
            for pv,c in cur:
                for o in s.region(F,c,l.header,pv,stops,first='in'):
                    if o[0]=='stop' and o[1]==l.header: nxt.append((o[2],o[3]))
                    else: done.append(o)
                if len(nxt)+len(done)>400: return None
            if not nxt: return done
            cur=nxt
        return None
    def phis(s,F,l):
        out=[]
        for i in F.blocks[l.header].instrs:
            if i.op!='phi': break
            out.append(i)
        return out
    def initial(s,F,l,st,prev):
        d={}
        for i in s.phis(F,l):
            for pb,pv in i.x:
                if pb.id==prev: d[i.id]=s.val(st,pv)
        return d
    def latchval(s,i,o):
        for pb,pv in i.x:
            if pb.id==o[2]: return s.val(o[3],pv)
    def summarise(s,F,l,st,prev):
        stops=frozenset([l.header])|frozenset(x for _,x in l.exits)
        phis=s.phis(F,l); init=s.initial(F,l,st,prev)
        depth=len(st.inloop); ix=atom('idx',"i%d"%depth)
        # ---- phase 1: find what changes
        cells=set()   # (aid,off,size)
        for rnd in range(8):
            h=st.copy(); lv={}
            for n,i in enumerate(phis):
                b=i.ty.kind==TK_INT and i.ty.bits==1
                w=ibits(i.ty); a=atom('lv',"v%d.%d"%(depth,n)+("" if w==64 else "w%d"%w),(),isptr(i.ty),w=w); lv[i.id]=a
                h.env[i.id]=Cond('b',a) if b else V(a)
            mem0={}
            for (aid,off,z) in cells:
                a=atom('lv',"m%d.%d.%d"%(depth,aid,off)+("" if z==8 else "w%d"%z),w=8*z); s.write_cell(h,aid,off,z,V(a)); mem0[(aid,off,z)]=a
            var=set(a.id for a in lv.values())|set(a.id for a in mem0.values())|{ix.id}
            h.effs=[]; h.seqp=st.seqp+".%dL"%(st.cnt.get('L',0)+1); h.cnt={}; h.inloop=st.inloop+(ix.id,)
            h0mem=dict(h.mem)
            s.loopstack.append(var)
            try: outs=s.region(F,h,l.header,'hv',stops,first='in')
            finally: s.loopstack.pop()
            lat=[o for o in outs if o[0]=='stop' and o[1]==l.header]
            new=set()
            for o in lat:
                m=o[3].mem
                for aid,obj in m.items():
                    o0=h0mem.get(aid)
                    if o0 is obj: continue
                    if aid not in st.mem: continue
                    o0=o0 or {}
                    for off,(z,v) in obj.items():
                        c=o0.get(off)
                        if c is None or c[0]!=z or c[1]!=v:
                            # cells that did not exist before the loop are scratch unless re-read: havoc as undef
                            if (aid,off,z) not in cells: new.add((aid,off,z))
                    for off,(z,v) in o0.items():
                        if off not in obj and (aid,off,z) not in cells: new.add((aid,off,z))
            if not new: break
            cells|=new
        else: raise Unsupported("loop memory did not stabilise")
        if not lat:
            # body never returns to the header: at most one iteration
            return s.region(F,st.copy(),l.header,prev,stops,first='in')
        # normalise values
        ver_changed=set()
        for o in lat:
            for b,v in o[3].ver.items():
                if st.ver.get(b,K(0))!=v: ver_changed.add(b)
        # ---- classify
        def initval(key):
            if isinstance(key,tuple):
                aid,off,z=key; c=st.mem.get(aid,{}).get(off)
                if c is None or c[0]!=z:
                    try:
                        class t: kind=TK_INT;bits=64
                        return s.load(st,V(byid(aid))+off,z,t)
                    except Unsupported: return UNDEFV
                return c[1]
            return init[key]
        def latval(key,o):
            if isinstance(key,tuple):
                aid,off,z=key; c=o[3].mem.get(aid,{}).get(off)
                return c[1] if c and c[0]==z else UNDEFV
            for i in phis:
                if i.id==key: return s.latchval(i,o)
        keys=[(i.id,lv[i.id]) for i in phis]+[(k,a) for k,a in mem0.items()]
        affine={}; other={}; same={}
        for key,a in keys:
            vs=[latval(key,o) for o in lat]
            if all(isinstance(v,Poly) for v in vs):
                ds=[o[3].facts.norm(v-V(a)) if not isinstance(v,Cond) else None for v,o in zip(vs,lat)]
                if all(d==ZERO for d in ds): same[key]=initval(key); continue
                d0=ds[0]
                if all(d==d0 for d in ds) and not(all_atoms(d0)&var) and UNDEFV!=initval(key) and not s.bools_in(initval(key)):
                    affine[key]=d0; continue
                if all(v==UNDEFV for v in vs): same[key]=UNDEFV; continue
            else:
                cv=Cond('b',a)
                if all(isinstance(v,Cond) and v==cv for v in vs): same[key]=initval(key); continue
            other[key]=vs
        # values that do not depend on previous iteration's state (recomputed scratch)
        used=set()
        # second order: 'other' vars may be affine once affine/same vars are substituted -> handled in phase 2
        I=V(ix)
        def setup(i_poly,base,extra_init=False):
            h=base.copy()
            for key,a in keys:
                if key in same: v=same[key]
                elif key in affine: v=initval(key)+affine[key]*i_poly
                elif extra_init: v=initval(key)
                elif key in forced: v=forced[key]
                else:
                    isb=not isinstance(key,tuple) and isinstance(h0v[key],Cond)
                    v=Cond('b',a) if isb else V(a)
                if isinstance(key,tuple): s.write_cell(h,key[0],key[1],key[2],v)
                else: h.env[key]=v
            return h
        h0v={i.id:(Cond('b',lv[i.id]) if (i.ty.kind==TK_INT and i.ty.bits==1) else V(lv[i.id])) for i in phis}
        forced={}
        hdr=F.blocks[l.header]
        exitblocks=set(b for b,_ in l.exits)
        # ---- trip count from the header test (or single latch test)
        def test_cond(blk,stt):
            """condition to stay in the loop evaluated at block terminator"""
            t=F.blocks[blk].instrs[-1]
            if t.op!='br' or not t.ops: raise Unsupported("loop exit form")
            c=s.val(stt,t.ops[0])
            inl=[x.id in l.blocks for x in t.x]
            if inl[0] and not inl[1]: return c
            if inl[1] and not inl[0]: return NOT(c)
            raise Unsupported("loop exit form")
        N=None; mode=None; base=st
        variants={ix.id}|set(a.id for k,a in keys if k in other)
        def eval_header(i_poly):
            h=setup(i_poly,base); h.effs=[]
            h.inloop=st.inloop+(ix.id,); h.seqp=st.seqp+".%dL"%(st.cnt.get('L',0)+1); h.cnt={}
            k=0; ins=hdr.instrs
            while ins[k].op=='phi': k+=1
            while k<len(ins)-1:
                i=ins[k]
                if i.op=='call':
                    r=s.call(h,i)
                    if r is not None: raise Unsupported("call in loop header")
                else: s.step(h,i)
                k+=1
            return h
        single=len(l.latches)==1 and list(l.latches)[0]==l.header
        if l.header in exitblocks and not(single and any(o[3].effs for o in lat)):
            g=s.nonneg_idx(st,ix)
            savebase=base; base=st.copy(); base.facts=g
            try:
                try: h=eval_header(I)
                except Fork as f:
                    if not(all_atoms(f.c)&variants): raise
                    h=None
                except ForkFacts: h=None
                C=base.facts.norm(test_cond(l.header,h)) if h else None
            finally: base=savebase
            N=s.trip(st,C,ix,variants) if C is not None else None
            if N is not None: mode='top'
        if N is None and len(l.latches)==1 and list(l.latches)[0] in exitblocks:
            # bottom-tested: phase-1 outcomes give the stay condition at the latch in terms of affine vars
            lb=list(l.latches)[0]
            g=s.nonneg_idx(st,ix); b2=st.copy(); b2.facts=g; h=setup(I,b2); h.effs=[]; h.inloop=st.inloop+(ix.id,); h.seqp=st.seqp+".%dL"%(st.cnt.get('L',0)+1); h.cnt={}
            # the iteration up to the test; the test itself is not taken
            br=F.blocks[lb].instrs[-1]
            stay=[x.id for x in br.x if x.id in l.blocks]
            if len(stay)!=1: raise Unsupported("loop exit form")
            Cs=set()
            s.forcebr=list(s.forcebr)+[((F.name,lb,len(s.callstack)),stay[0])]
            s.loopstack.append(variants)
            try: outs2=s.region(F,h,l.header,'hv',stops,first='in')
            finally: s.loopstack.pop(); s.forcebr=s.forcebr[:-1]
            for o in outs2:
                if o[0]=='stop' and o[1]==l.header: Cs.add(o[3].facts.norm(test_cond(lb,o[3])))
            if len(Cs)==1:
                N=s.trip(st,list(Cs)[0],ix,variants)
                if N is not None: N=('bot',N); mode='bot'
        if mode is None:
            return s.search_inf(F,l,st,prev,setup,keys,other,variants,ix,stops,latval,initval,forced)
        if mode=='bot':
            # the body runs n+1 times where n = number of times the test stays
            kind,(n,need,runaway)=N
            n=st.facts.norm(n)
            if runaway is not None and not s.booldecide(st,runaway):
                x=st.copy(); x.effs.append(Eff('call',name='RUNAWAY-LOOP',loc=s.floc(F,l))); return [('abort',x)]
            if (need is not None and not s.booldecide(st,need)) or not s.booldecide(st,GE(n)): n=ZERO
            n=st.facts.norm(n+1); need=runaway=None
            bot=(lb,stay[0])
        else:
            bot=None
            n,need,runaway=N
            n=st.facts.norm(n)
        # ---- zero-trip
        if need is not None:
            # n counts only if need (a>=0) holds
            if not s.booldecide(st,need):
                return s.region(F,st.copy(),l.header,prev,stops,first='in')
        if runaway is not None:
            if not s.booldecide(st,runaway):
                x=st.copy(); x.effs.append(Eff('call',name='RUNAWAY-LOOP',loc=s.floc(F,l))); return [('abort',x)]
        if not s.booldecide(st,GE(n-1)):
            return s.region(F,st.copy(),l.header,prev,stops,first='in')
        nc=st.facts.norm(n).const()
        if nc is not None and nc<=40:
            r=s.unroll(F,l,st,prev,True,nc+1)
            if r is not None: return r
        # ---- phase 2: generic iteration
        g=s.nonneg_idx(st,ix)
        alts=g.assume(GE(n-1-I))
        if len(alts)!=1: raise ForkFacts([x for x in alts]) if False else Unsupported("loop bound facts")
        base=st.copy(); base.facts=alts[0]
        # boolean flags: after the loop flag = Exists ? c : init
        def body(frc):
            forced.clear(); forced.update(frc)
            h=setup(I,base); h.effs=[]; h.inloop=st.inloop+(ix.id,); h.seqp=st.seqp+".%dL"%(st.cnt.get('L',0)+1); h.cnt={}
            h.ver=dict(st.ver); h.last={}
            for b in ver_changed: h.ver[b]=V(atom('app',"lver%s"%h.seqp,(I,)))
            s.loopstack.append(variants|set(a.id for k,a in keys if k in other))
            if bot: s.forcebr=list(s.forcebr)+[((F.name,bot[0],len(s.callstack)),bot[1])]
            try: return s.region(F,h,l.header,'hv',stops,first='in')
            finally:
                s.loopstack.pop()
                if bot: s.forcebr=s.forcebr[:-1]
        return s.finish(F,l,st,prev,setup,keys,other,variants,ix,stops,latval,initval,n,body,affine,base,ver_changed,bot)
    def floc(s,F,l):
        for i in F.blocks[l.header].instrs:
            if i.loc: return i.loc
        return None
    def nonneg_idx(s,st,ix):
        r=st.facts.assume(GE(V(ix)))
        return r[0]
    def trip(s,st,C,ix,variants):
        """C: stay condition at iteration ix. -> (n, need Cond|None, runaway Cond|None) or None.
        n = number of consecutive i=0,1,.. for which C holds"""
        if C.k not in('ge','ne'): return None
        p=C.p
        b=Poly({}); a={}
        bt={}
        for m,c in p.t.items():
            k=m.count(ix.id)
            if k==0: a[m]=c
            elif k==1:
                q=list(m); q.remove(ix.id); bt[tuple(q)]=c
            else: return None
        a=Poly(a); b=Poly(bt)
        if (all_atoms(a)|all_atoms(b))&(variants): return None
        if not b.t: return None
        bc=b.const()
        if C.k=='ne':
            # a + b*i != 0 : n = -a/b
            m=pdiv(-a,b)
            if m is None: return None
            return (m,None,GE(m))
        if bc is not None:
            if bc>0: return None
            k=-bc
            if k==1: return (a+1,None,None)
            # floor(a/k)+1 if a>=0
            s2=st
            q=s.floordiv(s2,st.facts.norm(a),K(k))
            return (q+1,GE(a),None)
        # symbolic stride: a+1 = m*(-b), -b>=1
        m=pdiv(a+1,-b)
        if m is None: return None
        if not s.booldecide(st,GE(-b-1)): return None
        return (m,None,None)
    def finish(s,F,l,st,prev,setup,keys,other,variants,ix,stops,latval,initval,n,body,affine,base,ver_changed,bot=None):
        I=V(ix)
        frc={}
        body1=body
        def body(f):
            # phase 1 saw induction pointers as opaque; the blocks they point into are known only now
            while True:
                outs=body1(f); new=set()
                for o in outs:
                    if o[0]!='stop' or o[1]!=l.header: continue
                    for b,v in o[3].ver.items():
                        if b not in ver_changed and v!=st.ver.get(b,K(0)): new.add(b)
                if not new: return outs
                ver_changed.update(new)
        outs=body(frc)
        flags={}
        lat=[o for o in outs if o[0]=='stop' and o[1]==l.header]
        brk=[o for o in outs if not(o[0]=='stop' and o[1]==l.header)]
        recs={}; counters={}; lastw={}
        nbase=len(base.facts.log)
        if other and not brk_live(outs,l) and not ver_changed and not any(o[3].effs for o in lat):
            for key,a in keys:
                if key not in other: continue
                vals=[(o[3].facts.norm(latval(key,o)) if isinstance(latval(key,o),Poly) else latval(key,o)) for o in lat]
                seen=set()
                for o in outs:
                    for c in o_state(o).facts.log[nbase:]: seen|=all_atoms(c)
                for k2,_ in keys:
                    if k2!=key and k2 in other:
                        for o in lat:
                            v=latval(k2,o)
                            if isinstance(v,(Poly,Cond)): seen|=all_atoms(v)
                if a.id in seen: continue
                if not any(isinstance(v,(Poly,Cond)) and a.id in all_atoms(v) for v in vals) and UNDEFV not in vals: lastw[key]=a; continue
                if all(isinstance(v,Poly) for v in vals) and not s.bools_in(initval(key)):
                    ds=[(v-V(a)).const() for v in vals]
                    if all(d is not None and d>=0 for d in ds): counters[key]=(a,ds)
            for key in list(lastw)+list(counters): other.pop(key)
            if (lastw or len(counters)>1) and (other or counters): raise Unsupported("several loop-carried values")
            if counters and other: raise Unsupported("several loop-carried values")
        if other:
            # try flag form: every latch value is either the variable itself or one constant
            rem={}
            for key,a in keys:
                if key not in other: continue
                me=(lambda x: x==V(a) or x==Cond('b',a))
                consts=set()
                ok=True
                for o in lat:
                    v=latval(key,o)
                    if me(v): continue
                    vn=o[3].facts.norm(v)
                    if isinstance(vn,Poly) and vn.const() is not None: consts.add(vn.const())
                    elif isinstance(vn,Cond) and vn.k in('t','f'): consts.add(vn.k=='t')
                    elif isinstance(vn,Cond): 
                        # boolean combination of itself: v' = v && c  /  v || c
                        ok=False
                    else:
                        ok=False
                iv=initval(key)
                if ok and len(consts)==1 and not self_dep(s,outs): flags[key]=list(consts)[0]
                else: rem[key]=a
            if rem:
                # boolean update v' = f(v): resolve by forcing the flag to its initial value
                for key,a in list(rem.items()):
                    iv=initval(key)
                    isb=isinstance(iv,Cond) or s.bools_in(iv) is not None or iv.const() in(0,1)
                    if isb:
                        ivd=iv if isinstance(iv,Cond) else (NE(iv) if s.bools_in(iv) is None else byid([m[0] for m in iv.t if len(m)==1 and byid(m[0]).kind=='bool'][0]).args[0])
                        d=s.booldecide(st,ivd)
                        flags[key]=None  # constant determined below
                        frc[key]=(Bc(d) if isinstance(iv,Cond) else K(1 if d else 0))
                        del rem[key]
            if rem and len(rem)<=4 and not brk:
                recs=rem
            elif rem: raise Unsupported("loop-carried value")
            for key in flags:
                if key in frc: continue
                iv=initval(key)
                frc[key]=iv
            outs=body(dict(frc))
            lat=[o for o in outs if o[0]=='stop' and o[1]==l.header]
            brk=[o for o in outs if not(o[0]=='stop' and o[1]==l.header)]
        aborts=[o for o in brk if o[0]=='abort']
        brk=[o for o in brk if o[0]!='abort']
        results=[]
        effectful=any(o[3].effs for o in lat)
        loc=s.floc(F,l)
        # ---- flags: split body paths into those that keep the initial value and those that change it
        keep=lat; change=[]
        if flags:
            keep=[];change=[]
            chv={}
            # a branch-free flag update (v' = v && c): split the path on c
            def split(work):
                work=list(work); out=[]
                while work:
                    o=work.pop(); c=None
                    for key in flags:
                        c=s.undecided_flag(o[3],latval(key,o))
                        if c is not None: break
                    if c is None: out.append(o); continue
                    for cc in (c,NOT(c)):
                        for g in o[3].facts.assume(cc):
                            y=o[3].copy(); y.facts=g; work.append(o[:3]+(y,)+tuple(o[4:]))
                return out
            lat=split(lat)
            for o in lat:
                ch=False
                for key in flags:
                    v=latval(key,o); iv=frc[key]
                    v=s.tocmp(o[3],v)
                    if v is None: raise Fork2(o)
                    if v!=s.tocmp(o[3],iv):
                        ch=True
                        chv.setdefault(key,set()).add(v)
                (change if ch else keep).append(o)
            if any(len(x)>1 for x in chv.values()): raise Unsupported("flag takes several values")
            if change and effectful: raise Unsupported("effectful loop with flag")
            if change:
                # once changed the flag must stay changed, and nothing else may depend on it
                if len(chv)>1: raise Unsupported("several loop flags change")
                (key,cv),=chv.items(); cv=list(cv)[0]
                if cv not in(True,False,0,1) and not isinstance(cv,(int,Poly)): raise Unsupported("loop flag value")
                frc2=dict(frc); frc2[key]=Bc(cv) if isinstance(initval(key),Cond) else cv if isinstance(cv,Poly) else K(int(cv))
                outs2=body(frc2)
                lat2=split([o for o in outs2 if o[0]=='stop' and o[1]==l.header])
                for o in lat2:
                    for k in flags:
                        v=s.tocmp(o[3],latval(k,o))
                        if v is None or v!=s.tocmp(o[3],frc2[k]): raise Unsupported("loop flag does not stay changed")
                    if o[3].effs: raise Unsupported("effectful loop with flag")
                ends=lambda oo: sorted(repr((o[0],AND(list(o_state(o).facts.log[nbase:])))) for o in oo if not(o[0]=='stop' and o[1]==l.header))
                if ends(outs2)!=ends(aborts+brk): raise Unsupported("loop exit depends on a loop flag")
        # ---- existence atoms for early exit / flags
        post=[]   # (facts condition, kind, outcome)
        def pathcond(o): return AND(list(o_state(o).facts.log[nbase:]))
        def ex(conds): return s.exists(ix,n,OR(conds),st.facts)
        # aborting iterations: fork on existence; on the normal path instantiate ends
        f0=st.copy()
        normals=[f0]
        for o in aborts:
            c=pathcond(o); e=ex([c])
            nn=[]
            for q in normals:
                d=q.facts.decide(e)
                if d is not False:
                    for g in q.facts.assume(e):
                        x=q.copy(); x.facts=g
                        # a witness index
                        j=atom('idx',"j%d"%len(st.inloop)); 
                        sub=lambda a: V(j) if a.id==ix.id else None
                        al=x.facts.assume(AND([GE(V(j)),GE(n-1-V(j)),map_atoms(c,sub)]))
                        for g2 in al:
                            y=x.copy(); y.facts=g2; y.effs.append(Eff('call',name=o[1].effs[-1].name if o[1].effs else 'ABORT',loc=o[1].effs[-1].loc if o[1].effs else None)); results.append(('abort',y))
                if d is not True:
                    cs=[NOT(e)]
                    for val in (ZERO,n-1):
                        sub=lambda a: val if a.id==ix.id else None
                        cs.append(NOT(map_atoms(c,sub)))
                    for g in q.facts.assume(AND(cs)):
                        y=q.copy(); y.facts=g; nn.append(y)
            normals=nn
        if brk and effectful: return s.effbreak(F,l,st,lat,brk,n,ix)
        if brk:
            # search loop: no effects on continuing iterations
            groups={}
            for o in brk:
                groups.setdefault((o[0],o[1] if o[0]=='stop' else None,o[2] if o[0]=='stop' else None),[]).append(o)
            e_any=ex([pathcond(o) for o in brk])
            nn=[]
            for q in normals:
                for g in q.facts.assume(e_any):
                    for o in brk:
                        stt=o_state(o)
                        # state at the break must not depend on the index
                        x=q.copy(); x.facts=g
                        if len(brk)>1:
                            es=ex([pathcond(o)])
                            gs=x.facts.assume(es)
                        else: gs=[x.facts]
                        for g2 in gs:
                            y=q.copy(); y.facts=g2
                            y.env=dict(stt.env); y.mem=dict(stt.mem)
                            y.effs=q.effs+stt.effs
                            if stt.effs: raise Unsupported("effect before loop break")
                            j=atom('idx',"j%d"%len(st.inloop)); 
                            sub=lambda a: V(j) if a.id==ix.id else None
                            cc={}
                            dep=False
                            for kk,vv in y.env.items():
                                if isinstance(vv,(Poly,Cond)) and ix.id in all_atoms(vv): y.env[kk]=map_atoms(vv,sub,cc); dep=True
                            if o[0]=='stop': results.append(('stop',o[1],o[2],y))
                            else: results.append(('ret',map_atoms(o[1],sub,cc) if isinstance(o[1],(Poly,Cond)) else o[1],y))
                for g in q.facts.assume(NOT(e_any)):
                    y=q.copy(); y.facts=g; nn.append(y)
            normals=nn
        for q in normals:
            variants_after=[(q,{})]
            if flags:
                variants_after=[]
                if change:
                    e=ex([pathcond(o) for o in change])
                    for g in q.facts.assume(e):
                        y=q.copy(); y.facts=g; variants_after.append((y,{k:list(v)[0] for k,v in chv.items()}))
                    for g in q.facts.assume(NOT(e)):
                        y=q.copy(); y.facts=g; variants_after.append((y,{}))
                else: variants_after=[(q,{})]
            if counters:
                (ck,(ca,ds)),=counters.items(); va=[]
                e=ex([pathcond(o) for o,d in zip(lat,ds) if d])
                for y,chg in variants_after:
                    for g in y.facts.assume(e):
                        z=y.copy(); z.facts=g; r=s.recterm(st,ck,ca,{ck:ca},lat,latval,lambda k:ZERO,n,ix,nbase)
                        nl=len(g.log); g2=g.assume(GE(r-1))[0]; g2.log=g.log; z.facts=g2
                        va.append((z,{ck:initval(ck)+r}))
                    for g in y.facts.assume(NOT(e)):
                        z=y.copy(); z.facts=g; va.append((z,{ck:initval(ck)}))
                variants_after=va
            if lastw:
                va=[]
                sub=lambda x: n-1 if x.id==ix.id else None
                for y,chg in variants_after:
                    for o in lat:
                        for g in y.facts.assume(map_atoms(pathcond(o),sub)):
                            z=y.copy(); z.facts=g; va.append((z,{k:map_atoms(latval(k,o),sub) for k in lastw}))
                variants_after=va
            for y,chg in variants_after:
                bodies=[(o[3].facts.log[nbase:],o[3].effs) for o in lat]
                if effectful:
                    y.effs.append(Eff('loop',n=n,idx=ix.id,body=bodies,loc=loc))
                if effectful or ver_changed: y.cnt['L']=y.cnt.get('L',0)+1
                for b in ver_changed: y.ver[b]=s.seqtok(y,('v',b)); y.last.pop(b,None)
                y.last={k:v for k,v in y.last.items() if k not in ver_changed}
                # values after the loop
                for key,a in keys:
                    if key in affine: v=initval(key)+affine[key]*n
                    elif key in counters or key in lastw: v=chg[key]
                    elif key in flags:
                        if key in chg:
                            v=chg[key]
                            iv=initval(key)
                            v=Bc(v) if isinstance(iv,Cond) else K(int(v))
                        else: v=frc[key]
                    elif key in recs:
                        v=s.recterm(st,key,a,recs,lat,latval,initval,n,ix,nbase)
                    else:
                        if not isinstance(key,tuple): y.env[key]=initval(key)
                        continue
                    if isinstance(key,tuple): s.write_cell(y,key[0],key[1],key[2],v)
                    else: y.env[key]=v
                # run the header at i=n to leave the loop
                z=y.copy()
                if bot:
                    results+=s.leave_bot(F,l,z,lat,n,ix,variants,bot,initval,bool(flags)); continue
                hb=F.blocks[l.header]
                for o in s.leave(F,l,z,stops,n,setup,affine,keys,initval): results.append(o)
        return results
    def leave_bot(s,F,l,z,lat,n,ix,variants,bot,initval,flagged):
        # values of the last iteration (i = n-1) that are used after the loop
        live=set()
        inside=set(i.id for b in l.blocks for i in F.blocks[b].instrs)
        for bid,B in enumerate(F.blocks):
            if bid in l.blocks: continue
            for i in B.instrs:
                if i.op=='phi': us=[pv for pb,pv in i.x if pb.id==bot[0]]
                else: us=i.ops or []
                for u in us:
                    if isinstance(u,Instr) and u.id in inside: live.add(u.id)
        carried={}
        for i in s.phis(F,l):
            for pb,pv in i.x:
                if pb.id==bot[0] and isinstance(pv,Instr) and pv.id in inside: carried[pv.id]=i.id
        final={}
        for k in live:
            if k in carried:
                # the value the next iteration would have started from
                c=carried[k]; final[k]=z.env[c] if c in z.env else initval(c)
                continue
            if flagged: raise Unsupported("value after a bottom-tested loop")
            vs=[o[3].env.get(k) for o in lat]
            if any(v is None for v in vs): raise Unsupported("value after a bottom-tested loop")
            vs=[o[3].facts.norm(v) for v,o in zip(vs,lat)]
            v=vs[0]
            if any(x!=v for x in vs[1:]) or not isinstance(v,Poly): raise Unsupported("value after a bottom-tested loop")
            at=all_atoms(v)
            if at&(variants-{ix.id}): raise Unsupported("value after a bottom-tested loop")
            top=set(i for m in v.t for i in m)
            if ix.id in at and any(i!=ix.id and ix.id in all_atoms(V(byid(i))) for i in top): raise Unsupported("value after a bottom-tested loop")
            final[k]=v.subst1(ix.id,n-1) if ix.id in at else v
        z.env.update(final)
        out=[x for _,x in l.exits if _==bot[0]]
        return [('stop',out[0],bot[0],z)]
    def leave(s,F,l,z,stops,n,setup,affine,keys,initval):
        # evaluate header block with final values; its branch must leave
        hb=F.blocks[l.header]; k=0
        while hb.instrs[k].op=='phi':
            i=hb.instrs[k]
            if i.id not in z.env or True:
                # 'same' phis: value = initial
                pass
            k+=1
        for key,a in keys:
            if isinstance(key,tuple): continue
            if key not in z.env: z.env[key]=initval(key)
        for i in hb.instrs[k:-1]:
            if i.op=='call':
                r=s.call(z,i)
                if r is not None: raise Unsupported("call in loop header")
            else: s.step(z,i)
        t=hb.instrs[-1]
        out=[x.id for x in t.x if x.id not in l.blocks]
        return [('stop',out[0],l.header,z)]
    def undecided_flag(s,st,v):
        if isinstance(v,Poly):
            b=s.bools_in(st.facts.norm(v))
            v=None if b is None else b.args[0]
        if v is None: return None
        return v if st.facts.decide(v) is None else None
    def tocmp(s,st,v):
        if isinstance(v,Cond):
            d=st.facts.decide(v)
            if d is None: return None
            return d
        v=st.facts.norm(v)
        b=s.bools_in(v)
        if b is not None:
            d=st.facts.decide(b.args[0])
            if d is None: return None
            v=v.subst1(b.id,K(int(d)))
        return v.const() if v.const() is not None else v
    def exists(s,ix,n,c,f=None):
        """boolean atom: exists ix in [0,n) with c, in a normal form of the nest of loops"""
        if c.k=='f': return F
        # pull out index-independent conjuncts
        if not(ix.id in all_atoms(c)): return c
        if c.k=='or':
            return OR([s.exists(ix,n,x,f) for x in c.p])
        if c.k=='and':
            inv=[x for x in c.p if ix.id not in all_atoms(x)]
            dep=[x for x in c.p if ix.id in all_atoms(x)]
            if inv: return AND(inv+[s.exists(ix,n,AND(dep),f)])
        nest=[(ix,n)]; body=c
        while body.k=='b' and body.p.kind=='ex':
            a=body.p.args; (m,_),=a[0].t.items(); nest.append((byid(m[0]),a[1])); body=a[2]
        ids={a.id for a,_ in nest}
        if not any(ids&all_atoms(k) for _,k in nest): 
            r=s.exnormal(nest,body,ids,f)
            if r is not None: return r
        return Cond('b',atom('ex','EX',(V(ix),n,c)))
    def exnormal(s,nest,body,ids,f):
        idx=sorted((a for a,_ in nest),key=lambda a:(len(a.name),a.name))
        dec=lambda c: f is not None and f.decide(c) is True
        leaf=body.p if body.k in('b','nb') and body.p.kind=='app' and body.p.args and all(isinstance(x,Poly) for x in body.p.args) else None
        spans=None
        if leaf is not None:
            base=[f.norm(x) if f is not None else x for x in leaf.args]; spans=[]
            from compare import lin
            for a,n in nest:
                nb=[];st=[]
                for q in base:
                    r=lin(q,a.id)
                    if r is None or a.id in all_atoms(r[0]) or ids&all_atoms(r[1]): spans=None; break
                    nb.append(r[0]); st.append(r[1])
                if spans is None: break
                base=nb
                if dec(EQ(n-1)): continue
                if all(x==ZERO for x in st):
                    if dec(GE(n-1)): continue
                    spans=None; break
                lead=next(x for x in st if x!=ZERO); d=f.decide(GE(lead)) if f is not None else None
                if d is None: mm=min(lead.t,key=lambda m:(len(m),m)); d=lead.t[mm]>=0
                if not d:
                    base=[b+x*(n-1) for b,x in zip(base,st)]; st=[-x for x in st]
                spans.append((n,tuple(st)))
        if spans is not None:
            go=True
            while go:
                go=False
                for x in spans:
                    for y in spans:
                        if x is not y and dec(GE(x[0])) and dec(GE(y[0])) and all(dec(EQ(p*x[0]-q)) for p,q in zip(x[1],y[1])):
                            spans=[z for z in spans if z is not x and z is not y]+[(x[0]*y[0],x[1])]; go=True; break
                    if go: break
            spans.sort(key=lambda z:(repr(z[1]),repr(z[0])))
            args=list(base)
            for (n,st),a in zip(spans,idx): args=[b+x*V(a) for b,x in zip(args,st)]
            r=Cond(body.k,atom(leaf.kind,leaf.name,tuple(args),leaf.ptr,leaf.nonneg,leaf.w))
            for (n,_),a in reversed(list(zip(spans,idx))): r=Cond('b',atom('ex','EX',(V(a),n,r)))
            return r
        def key(a,n):
            fn=lambda x: V(atom('sym','%')) if x.id==a.id else V(atom('sym','%%')) if x.id in ids else None
            return (repr(n),repr(map_atoms(body,fn)))
        order=sorted(nest,key=lambda z:key(*z))
        ren={a.id:V(b) for (a,_),b in zip(order,idx)}
        r=map_atoms(body,lambda x: ren.get(x.id))
        for (a,n),b in reversed(list(zip(order,idx))): r=Cond('b',atom('ex','EX',(V(b),n,r)))
        return r
    def recterm(s,st,key,a,recs,lat,latval,initval,n,ix,nbase):
        if len(recs)!=1 : raise Unsupported("mutually recursive loop values")
        ups=[]
        for o in lat:
            ups.append((AND(list(o[3].facts.log[nbase:])),latval(key,o)))
        iv=initval(key)
        acc=atom('lv',"acc%d"%len(st.inloop))
        fn=lambda x: V(acc) if x.id==a.id else None
        ups=tuple(sorted((tuple(map_atoms(z,fn) for z in u) for u in ups),key=repr))
        return V(atom('app','rec',(n,V(ix),iv)+ups))
    def effbreak(s,F,l,st,lat,brk,n,ix):
        raise Unsupported("loop with effects and early exit")
    def search_inf(s,F,l,st,prev,*a):
        raise Unsupported("loop without recognised trip count")

class Fork2(Exception): pass
def brk_live(outs,l): return any(not(o[0]=='stop' and o[1]==l.header) and o[0]!='abort' for o in outs)
def self_dep(ex,outs): return False
def o_state(o): return o[3] if o[0]=='stop' else o[2] if o[0]=='ret' else o[1]
