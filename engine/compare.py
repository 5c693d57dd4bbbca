"""Compare the effect trees of an implementation witness and its specification."""
import itertools, random
from terms import *
from facts import Facts
import absint
from absint import Exec, State, Eff, Unsupported, Fork, Cond
from llvmc import TK_INT, TK_PTR, TK_FLOAT, TK_DOUBLE, TK_VOID

def new_state(facts=None):
    st=State.__new__(State)
    st.env={}; st.mem={}; st.facts=facts or Facts(); st.effs=[]; st.seqp=""; st.cnt={}; st.ver={}; st.last={}; st.depth=0; st.inloop=(); st.gp={}
    return st

def mkargs(F):
    out=[]
    for a in F.args:
        if a.ty.kind==TK_INT and a.ty.bits==1: out.append(Cond('b',atom('sym',a.name+"_b%d"%a.idx)))
        else: out.append(V(atom('sym',"%s"%(a.name if a.name and not a.name.isdigit() else "a%d"%a.idx),(),a.ty.kind==TK_PTR,w=a.ty.bits if a.ty.kind==TK_INT else 64)))
    return out

class Mismatch(Exception):
    def __init__(s,msg,loc=None,facts=None,diff=None): s.msg=msg; s.loc=loc; s.facts=facts; s.diff=diff

def norm_effs(effs,f):
    """normalise under facts: expand constant loops, drop empty loops"""
    out=[]
    for e in effs:
        if e.k=='loop':
            n=f.norm(e.n); nc=n.const()
            if nc is None and f.decide(EQ(n-1)) : nc=1
            if nc is not None and nc<=0: continue
            if nc is not None and nc<=40 and all(not c for c,_ in e.body):
                for it in range(nc):
                    sub=K(it); fn=lambda a: sub if a.id==e.idx else None
                    for c,b in e.body: out+=norm_effs([subst_eff(x,fn) for x in b],f)
                continue
            body=[(c,b) for c,b in e.body]
            if all(not b for _,b in body): continue
            g=f
            for alt in (GE(V(byid(e.idx))),GE(n-1-V(byid(e.idx)))):
                r=g.assume(alt)
                if len(r)!=1: break
                g=r[0]
            nb=[]
            for c,b in body: nb.append((c,norm_effs(b,g)))
            if all(not b for _,b in nb): continue
            x=Eff('loop',n=n,idx=e.idx,body=nb,loc=e.loc); out.append(x)
        else:
            x=Eff(e.k,name=e.name,args=tuple(f.norm(a) if isinstance(a,(Poly,Cond)) else a for a in e.args),loc=e.loc,ret=e.ret,sz=e.sz)
            out.append(x)
    return out
def subst_eff(e,fn):
    if e.k=='loop':
        return Eff('loop',n=map_atoms(e.n,fn),idx=e.idx,body=[(tuple(map_atoms(c,fn) for c in cs),[subst_eff(x,fn) for x in b]) for cs,b in e.body],loc=e.loc)
    return Eff(e.k,name=e.name,args=tuple(map_atoms(a,fn) if isinstance(a,(Poly,Cond)) else a for a in e.args),loc=e.loc,ret=e.ret,sz=e.sz)

class Comparer:
    def __init__(s,unordered=False): s.unordered=unordered; s.obl=0; s.amap={}; s.names={}
    def eq(s,a,b,f):
        """values equal under facts?"""
        if isinstance(a,Cond) or isinstance(b,Cond):
            if a==b: return True
            da,db=f.decide(a) if isinstance(a,Cond) else None,f.decide(b) if isinstance(b,Cond) else None
            return da is not None and da==db
        a=f.norm(a); b=f.norm(b)
        if a==b: return True
        if s.amap:
            fn=lambda x: V(byid(s.amap[x.id])) if x.id in s.amap else None
            a=f.norm(map_atoms(a,fn))
            if a==b: return True
        d=f.norm(a-b)
        if d==ZERO: return True
        # bind stack addresses one-to-one
        al=[(byid(m[0]),c) for m,c in d.t.items() if len(m)==1 and byid(m[0]).kind=='alloca']
        if len(al)==2 and al[0][1]==-al[1][1]:
            i,j=(al[0][0],al[1][0]) if al[0][1]==1 else (al[1][0],al[0][0])
            if (d-V(i)+V(j))==ZERO and i.id not in s.amap and j.id not in s.amap.values():
                s.amap[i.id]=j.id; return True
            return False
        # application atoms whose arguments are equal under facts
        if f.decide(EQ(d)) is True: return True
        a2=s.congr(a,b,f)
        return a2
    def congr(s,a,b,f):
        ap=[m for m in a.t if m not in b.t]; bp=[m for m in b.t if m not in a.t]
        if len(ap)==len(bp)==1 and len(ap[0])==len(bp[0])==1 and a.t[ap[0]]==b.t[bp[0]]:
            x,y=byid(ap[0][0]),byid(bp[0][0])
            if x.kind==y.kind and x.name==y.name and len(x.args)==len(y.args) and x.args:
                if a-V(x).scale(a.t[ap[0]])==b-V(y).scale(a.t[ap[0]]):
                    return all(s.eq(p,q,f) if isinstance(p,(Poly,Cond)) else p==q for p,q in zip(x.args,y.args))
        return False
    def lists(s,A,B,f,where=""):
        A=norm_effs(A,f); B=norm_effs(B,f)
        if s.unordered=='runs': return s.runs(A,B,f)
        if s.unordered: return s.sets(A,B,f)
        for k in range(max(len(A),len(B))):
            a=A[k] if k<len(A) else None; b=B[k] if k<len(B) else None
            s.obl+=1
            if a is None: raise Mismatch("missing effect: expected %r"%b,A[-1].loc if A else None,f)
            if b is None: raise Mismatch("unexpected effect: %r"%a,a.loc,f)
            s.one(a,b,f)
    def one(s,a,b,f):
        if a.k!=b.k: raise Mismatch("effect kind: got %r, expected %r"%(a,b),a.loc,f)
        if a.k=='loop':
            if not s.eq(a.n,b.n,f): raise Mismatch("iteration count: got %s, expected %s"%(fmt(a.n),fmt(b.n)),a.loc,f,('ne',a.n,b.n))
            fn=(lambda x: V(byid(b.idx)) if x.id==a.idx else None) if a.idx!=b.idx else None
            g=f
            for alt in (GE(V(byid(b.idx))),GE(f.norm(b.n)-1-V(byid(b.idx)))):
                r=g.assume(alt)
                if len(r)==1: g=r[0]
            for ca,ea in a.body:
                if fn: ca=tuple(map_atoms(c,fn) for c in ca); ea=[subst_eff(x,fn) for x in ea]
                for g1 in g.assume(AND(list(ca))):
                    for cb,eb in b.body:
                        for g2 in g1.assume(AND(list(cb))):
                            s.lists(ea,eb,g2)
            return
        if a.name!=b.name: raise Mismatch("got call %r, expected %r"%(a,b),a.loc,f)
        if a.k=='store' and a.sz!=b.sz: raise Mismatch("store width %r vs %r"%(a,b),a.loc,f)
        if len(a.args)!=len(b.args): raise Mismatch("argument count %r vs %r"%(a,b),a.loc,f)
        for x,y in zip(a.args,b.args):
            if not s.eq(x,y,f): raise Mismatch("got %r, expected %r"%(a,b),a.loc,f,('ne',x,y))
    # ---------------- phases in order, the elements of a phase in any order
    def runs(s,A,B,f):
        def sig(e):
            if e.k!='loop': return frozenset([(e.k,e.name)])
            r=frozenset()
            for _,b in e.body:
                for x in b: r=r|sig(x)
            return r
        def split(L):
            out=[]
            for e in L:
                g=sig(e)
                if out and out[-1][0]==g: out[-1][1].append(e)
                else: out.append((g,[e]))
            return out
        RA,RB=split(A),split(B)
        nm=lambda g: ",".join(sorted(str(n or k) for k,n in g))
        for k in range(max(len(RA),len(RB))):
            if k>=len(RA): raise Mismatch("missing phase: expected %s"%nm(RB[k][0]),A[-1].loc if A else None,f)
            if k>=len(RB): raise Mismatch("unexpected phase: %s (%r)"%(nm(RA[k][0]),RA[k][1][0]),RA[k][1][0].loc,f)
            if RA[k][0]!=RB[k][0]: raise Mismatch("phase order: got %s, expected %s"%(nm(RA[k][0]),nm(RB[k][0])),RA[k][1][0].loc,f)
            s.sets(RA[k][1],RB[k][1],f)
    # ---------------- unordered comparison: multiset of leaf effects over box domains
    def leaves(s,effs,f,nest=(),conds=()):
        out=[]
        for e in effs:
            if e.k=='loop':
                # alpha-rename the index to be unique
                k=len(nest); ni=atom('idx',"u%d"%k)
                fn=lambda x: V(ni) if x.id==e.idx else None
                for cs,b in e.body:
                    cs=[c for c in cs if f.decide(c) is not True and not rangecond(c,e,f)]
                    out+=s.leaves([subst_eff(x,fn) for x in b],f,nest+((ni.id,e.n),),conds+tuple(map_atoms(c,fn) for c in cs))
            else: out.append((nest,conds,e))
        return out
    def gfsum(s,ca,cb,f):
        """equality of the two multisets as sums of generating functions"""
        if any(x[4] for x in ca+cb): return False
        groups={}
        for sgn,L in ((1,ca),(-1,cb)):
            for x in L: groups.setdefault((x[0].k,x[0].name,x[0].sz,len(x[1])),[]).append((sgn,x))
        for G in groups.values():
            if len(G)>200: return False
            reps=[]
            def rep(v):
                for k,r in enumerate(reps):
                    if all(s.eq(p,q,f) for p,q in zip(v,r)): return k
                reps.append(v); return len(reps)-1
            den={}; its=[]
            for sgn,(e,base,fac,mult,_) in G:
                d={}
                for n,st in fac: k=rep(st); d[k]=d.get(k,0)+1
                for k,c in d.items(): den[k]=max(den.get(k,0),c)
                its.append((sgn,base,fac,mult,d))
            tot=[]   # (exponent vector, coefficient)
            for sgn,base,fac,mult,d in its:
                terms=[(base,mult.scale(sgn))]
                fs=[tuple(x*n for x in st) for n,st in fac]
                for k,c in den.items(): fs+=[reps[k]]*(c-d.get(k,0))
                if len(fs)>9: return False
                for v in fs: terms=terms+[(tuple(f.norm(b+x) for b,x in zip(t,v)),-c) for t,c in terms]
                for t,c in terms:
                    t=tuple(f.norm(b) for b in t)
                    for q in tot:
                        if q[0]==t: q[1]=q[1]+c; break
                    else: tot.append([t,c])
            tot=[q for q in tot if f.norm(q[1])!=ZERO]
            # merge exponents that only facts make equal
            while tot:
                q=tot.pop(); c=q[1]; rest=[]
                for r in tot:
                    if all(s.eq(a,b,f) for a,b in zip(q[0],r[0])): c=c+r[1]
                    else: rest.append(r)
                if f.norm(c)!=ZERO and f.decide(EQ(f.norm(c))) is not True: return False
                tot=rest
        return True
    def sets(s,A,B,f):
        LA=s.leaves(A,f); LB=s.leaves(B,f)
        ca=[s.canon_leaf(x,f) for x in LA]; cb=[s.canon_leaf(x,f) for x in LB]
        used=[False]*len(cb)
        if len(ca)!=len(cb) or not s.match(ca,cb,f):
            if s.gfsum(ca,cb,f): s.obl+=len(cb); return
        for x in ca:
            s.obl+=1
            for j,y in enumerate(cb):
                if not used[j] and s.leaf_eq(x,y,f): used[j]=True; break
            else:
                near=[y for j,y in enumerate(cb) if not used[j]]
                raise Mismatch("effect set differs: got %s; expected %s"%(s.show(x),"; ".join(map(s.show,near)) or "nothing"),x[0].loc,f)
        for j,y in enumerate(cb):
            if not used[j]: raise Mismatch("missing effects: %s"%s.show(y),A[-1].loc if A else None,f)
    def match(s,ca,cb,f):
        left=list(cb)
        for x in ca:
            for j,y in enumerate(left):
                if s.leaf_eq(x,y,f): del left[j]; break
            else: return False
        return not left
    def show(s,c):
        e,base,fac,mult,conds=c
        return "%s[base %s; spans %s; x%s%s]"%(e.name or e.k,fmt(base)," ".join("(n=%s,stride=%s)"%(fmt(n),fmt(st)) for n,st in fac),fmt(mult)," if %s"%(conds,) if conds else "")
    def canon_leaf(s,leaf,f):
        nest,conds,e=leaf
        return canon(nest,conds,e,f)
    def leaf_eq(s,x,y,f):
        e1,b1,f1,m1,c1=x; e2,b2,f2,m2,c2=y
        if e1.k!=e2.k or e1.name!=e2.name or len(b1)!=len(b2) or e1.sz!=e2.sz: return False
        if c1!=c2: return False
        for p,q in zip(b1,b2):
            if not s.eq(p,q,f): return False
        if not s.eq(m1,m2,f): return False
        return gf_eq(f1,f2,f,s)

def rangecond(c,e,f):
    g=f
    for alt in (GE(V(byid(e.idx))),GE(f.norm(e.n)-1-V(byid(e.idx)))):
        r=g.assume(alt)
        if len(r)==1: g=r[0]
    return g.decide(c) is True
def lin(p,ix):
    """p = a + b*ix, None if nonlinear"""
    a={};b={}
    for m,c in p.t.items():
        k=m.count(ix)
        if k==0: a[m]=c
        elif k==1:
            q=list(m); q.remove(ix); b[tuple(q)]=c
        else: return None
    return Poly(a),Poly(b)

def flat_args(e,f):
    """exponent vector of an effect: its arguments with loads/opaque values opened
    so that every component is a polynomial"""
    shape=[]; polys=[]
    def go(p):
        if not isinstance(p,Poly): shape.append(repr(p)); return
        # single application atom with index-dependent args: open it
        if len(p.t)==1:
            (m,c),=p.t.items()
            if len(m)==1 and c==1:
                a=byid(m[0])
                if a.args and a.kind=='app':
                    shape.append((a.name,len(a.args)))
                    for x in a.args: go(x)
                    return
        shape.append('p'); polys.append(p)
    for p in e.args: go(f.norm(p))
    return tuple(shape),polys

def canon(nest,conds,e,f):
    shape,polys=flat_args(e,f)
    e2=Eff(e.k,name=(e.name or '')+repr(shape),args=e.args,loc=e.loc,sz=e.sz)
    spans=[]; mult=K(1); base=list(polys)
    for ix,n in reversed(nest):
        n=f.norm(n)
        if any(j in all_atoms(n) for j,_ in nest): raise Unsupported("non-rectangular loop nest")
        st=[]
        nb=[]
        for p in base:
            r=lin(p,ix)
            if r is None or ix in all_atoms(r[0]) or ix in all_atoms(r[1]): raise Unsupported("non-affine index use")
            nb.append(r[0]); st.append(f.norm(r[1]))
        base=nb
        if f.decide(EQ(n-1)): continue
        if all(x==ZERO for x in st): mult=f.norm(mult*n); continue
        spans.append((n,tuple(st)))
    # orient strides canonically
    out=[]
    for n,st in spans:
        lead=next(x for x in st if x!=ZERO)
        neg=False
        d=f.decide(GE(lead))
        if d is False: neg=True
        elif d is None:
            m=min(lead.t,key=lambda m:(len(m),m)); neg=lead.t[m]<0
        if neg:
            base=[f.norm(b+x*(n-1)) for b,x in zip(base,st)]; st=tuple(-x for x in st)
        out.append((n,st))
    return (e2,tuple(f.norm(b) for b in base),out,mult,tuple(sorted(map(repr,conds))))

def gf_eq(A,B,f,cmp):
    """prod (1-z^{n s})/(1-z^{s}) equal as formal rational functions"""
    def vec(n,s): return tuple(f.norm(x*n) for x in s)
    num=[vec(n,s) for n,s in A]+[s for n,s in B]
    den=[s for n,s in A]+[vec(n,s) for n,s in B]
    def veq(x,y): return all(cmp.eq(p,q,f) for p,q in zip(x,y))
    left=list(den)
    for v in num:
        for k,w in enumerate(left):
            if veq(v,w): del left[k]; break
        else: return False
    return not left

def run_pair(mod,impl,spec,pure=None,unordered=False,budget=4_000_000):
    """-> (list of Mismatch, stats)"""
    FI=mod.func(impl); FS=mod.func(spec)
    args=mkargs(FI); sargs=mkargs(FS)
    if [ (a.ty.kind,a.ty.bits) for a in FI.args]!=[(a.ty.kind,a.ty.bits) for a in FS.args]: raise Unsupported("signature mismatch %s"%impl)
    # same symbols for both
    sargs=args
    ex=Exec(mod,pure,budget); ex.tag="I"
    outs=ex.run(FI,args,new_state())
    mism=[]; obl=0; npaths=0; funcs=set(ex.funcs)
    def check(outs,again):
        nonlocal obl,npaths
        ms=[]
        for st,rv,kind in outs:
            sx=Exec(mod,pure,budget); sx.tag="S"
            so=sx.run(FS,sargs,new_state(st.facts))
            for s2,rv2,kind2 in so:
                npaths+=1
                cmp=Comparer(unordered)
                f=s2.facts
                try:
                    if kind=='abort' or kind2=='abort':
                        cmp.obl+=1
                        an=st.effs[-1].name if kind=='abort' and st.effs else None
                        if kind!=kind2 or (an!='ABORT'):
                            raise Mismatch("implementation %s, specification %s"%(("stops with "+str(an)) if kind=='abort' else 'completes','aborts' if kind2=='abort' else 'completes'),
                                st.effs[-1].loc if kind=='abort' and st.effs else (st.effs[-1].loc if st.effs else None),f)
                    else:
                        cmp.lists(st.effs,s2.effs,f)
                        if rv is not None and not isinstance(rv,(dict,list)):
                            cmp.obl+=1
                            if isinstance(rv,Cond) or isinstance(rv2,Cond):
                                a=f.decide(rv) if isinstance(rv,Cond) else None; b=f.decide(rv2) if isinstance(rv2,Cond) else None
                                if not(rv==rv2 or (a is not None and a==b)):
                                    # explore both truth values
                                    bad=None
                                    for g in f.assume(rv):
                                        for h in g.assume(NOT(rv2)): bad=h
                                    for g in f.assume(NOT(rv)):
                                        for h in g.assume(rv2): bad=h
                                    if bad is not None: raise Mismatch("returned condition: got %r, expected %r"%(rv,rv2),None,bad)
                            elif not cmp.eq(rv,rv2,f):
                                raise Mismatch("returned value: got %s, expected %s"%(fmt(rv),fmt(rv2)),None,f,('ne',rv,rv2))
                except Mismatch as m:
                    if again and kind2!='abort' and kind!='abort':
                        # the specification may learn facts (a count, an equality) before the point where the
                        # implementation tests them: redo the implementation knowing them from the start
                        try:
                            e2=Exec(mod,pure,budget); e2.tag="I"
                            r=check(e2.run(FI,args,new_state(f)),False)
                        except Unsupported: r=None
                        if r is not None and not r: obl+=cmp.obl; continue
                    m.pair=None if m.msg.startswith(('implementation ','returned ')) else (st.effs,s2.effs)
                    m.facts=m.facts or f; ms.append(m)
                obl+=cmp.obl
        return ms
    mism=check(outs,True)
    return mism,dict(obligations=obl,paths=npaths,impl_paths=len(outs),functions=sorted(funcs),locs=ex.locs)
