"""Value domain of the analyser: integer polynomials over interned atoms, and
conditions over them.  Everything is exact integer arithmetic on symbolic
normal forms; no program is run and no external solver is used."""
from math import gcd

class Atom:
    __slots__=("id","kind","name","args","ptr","nonneg","w")
    def __repr__(s):
        if s.args: return "%s(%s)"%(s.name,", ".join(map(fmt,s.args)))
        return str(s.name)
_atoms={}
_byid=[]
def atom(kind,name,args=(),ptr=False,nonneg=False,w=64):
    """w: number of bits the value is known to fit in (64 when nothing is known)"""
    key=(kind,name,args)
    a=_atoms.get(key)
    if a is None:
        a=Atom(); a.id=len(_byid); a.kind=kind; a.name=name; a.args=args; a.ptr=ptr; a.nonneg=nonneg; a.w=w
        _atoms[key]=a; _byid.append(a)
    return a
def byid(i): return _byid[i]
_keep=None
def reset():
    """forget atoms of earlier analyses (results must not depend on what a worker did before)"""
    global _keep
    if _keep is None: _keep=len(_byid)
    for k in [k for k,a in _atoms.items() if a.id>=_keep]: del _atoms[k]
    del _byid[_keep:]

class Poly:
    __slots__=("t","_h","_k")
    def __init__(s,t):
        s.t=t; s._h=None; s._k=None
    def key(s):
        if s._k is None: s._k=frozenset(s.t.items())
        return s._k
    def __hash__(s):
        if s._h is None: s._h=hash(s.key())
        return s._h
    def __eq__(s,o): return isinstance(o,Poly) and s.t==o.t
    def __ne__(s,o): return not s==o
    def __add__(s,o):
        if not isinstance(o,Poly): o=K(o)
        if len(o.t)>len(s.t): s,o=o,s
        t=dict(s.t)
        for m,c in o.t.items():
            n=t.get(m,0)+c
            if n: t[m]=n
            else: t.pop(m,None)
        return Poly(t)
    def __neg__(s): return Poly({m:-c for m,c in s.t.items()})
    def __sub__(s,o):
        if not isinstance(o,Poly): o=K(o)
        return s+(-o)
    def scale(s,k):
        if k==0: return ZERO
        return Poly({m:c*k for m,c in s.t.items()})
    def __mul__(s,o):
        if not isinstance(o,Poly): return s.scale(o)
        t={}
        for m,c in s.t.items():
            for n,d in o.t.items():
                q=tuple(sorted(m+n)) if m and n else (m or n)
                e=t.get(q,0)+c*d
                if e: t[q]=e
                else: t.pop(q,None)
        return Poly(t)
    def const(s):
        """integer value or None"""
        if not s.t: return 0
        if len(s.t)==1 and () in s.t: return s.t[()]
        return None
    def c0(s): return s.t.get((),0)
    def atoms(s):
        r=set()
        for m in s.t: r.update(m)
        return r
    def subst1(s,aid,p):
        if not any(aid in m for m in s.t): return s
        r=ZERO; keep={}
        for m,c in s.t.items():
            if aid in m:
                k=m.count(aid); rest=tuple(x for x in m if x!=aid)
                q=Poly({rest:c})
                for _ in range(k): q=q*p
                r=r+q
            else: keep[m]=c
        return r+Poly(keep)
    def content(s):
        g=0
        for c in s.t.values(): g=gcd(g,c)
        return g
    def __repr__(s): return fmt(s)

ZERO=Poly({})
_kc={}
def K(n):
    p=_kc.get(n)
    if p is None: p=Poly({():n} if n else {}); _kc[n]=p
    return p
ONE=K(1)
def V(a): return Poly({(a.id,):1})

def fmt(p):
    if isinstance(p,Poly):
        if not p.t: return "0"
        out=[]
        for m,c in sorted(p.t.items(),key=lambda x:(len(x[0]),x[0])):
            b="*".join(repr(byid(i)) for i in m)
            if not b: out.append("%+d"%c)
            elif c==1: out.append("+"+b)
            elif c==-1: out.append("-"+b)
            else: out.append("%+d*%s"%(c,b))
        s="".join(out)
        return s[1:] if s[0]=="+" else s
    if isinstance(p,Cond): return repr(p)
    if isinstance(p,tuple): return "("+", ".join(map(fmt,p))+")"
    return str(p)

def pdiv(a,b):
    """exact polynomial division a/b for single-monomial or simple b; None if not exact"""
    if not b.t: return None
    if len(b.t)==1:
        (m,c),=b.t.items(); t={}
        for n,d in a.t.items():
            if d%c: return None
            l=list(n)
            for x in m:
                if x in l: l.remove(x)
                else: return None
            t[tuple(l)]=d//c
        return Poly(t)
    # leading-term division (graded lex)
    key=lambda m:(len(m),m)
    q=ZERO; r=a; lb=max(b.t,key=key); cb=b.t[lb]
    for _ in range(64):
        if not r.t: return q
        lr=max(r.t,key=key); cr=r.t[lr]
        if cr%cb: return None
        l=list(lr)
        for x in lb:
            if x in l: l.remove(x)
            else: return None
        t=Poly({tuple(l):cr//cb}); q=q+t; r=r-t*b
    return None

class Cond:
    __slots__=("k","p","h")
    # k: 't','f','ge'(poly>=0),'eq','ne','b'(atom),'nb'(not atom),'and'(tuple),'or'(tuple)
    def __init__(s,k,p=None): s.k=k; s.p=p; s.h=hash((k,p))
    def __hash__(s): return s.h
    def __eq__(s,o): return isinstance(o,Cond) and s.k==o.k and s.p==o.p
    def __repr__(s):
        if s.k=='ge': return "(%s >= 0)"%fmt(s.p)
        if s.k=='eq': return "(%s == 0)"%fmt(s.p)
        if s.k=='ne': return "(%s != 0)"%fmt(s.p)
        if s.k=='b': return repr(s.p)
        if s.k=='nb': return "!"+repr(s.p)
        if s.k in('and','or'): return "("+(" && " if s.k=='and' else " || ").join(map(repr,s.p))+")"
        return {'t':'true','f':'false'}[s.k]
T=Cond('t'); F=Cond('f')
def Bc(b): return T if b else F
def GE(p):
    c=p.const()
    if c is not None: return Bc(c>=0)
    # gcd-tighten
    g=0
    for m,k in p.t.items():
        if m: g=gcd(g,k)
    if g>1:
        t={m:k//g for m,k in p.t.items()}   # floor on constant
        t={m:k for m,k in t.items() if k}
        p=Poly(t)
    return Cond('ge',p)
def _eqn(p):
    g=0
    for m,k in p.t.items():
        if m: g=gcd(g,k)
    if g>1:
        if p.c0()%g: return None
        p=Poly({m:k//g for m,k in p.t.items()})
    lead=min(m for m in p.t if m)
    if p.t[lead]<0: p=-p
    return p
def EQ(p):
    c=p.const()
    if c is not None: return Bc(c==0)
    p=_eqn(p)
    if p is None: return F
    return Cond('eq',p)
def NE(p):
    c=p.const()
    if c is not None: return Bc(c!=0)
    p=_eqn(p)
    if p is None: return T
    return Cond('ne',p)
def NOT(c):
    k=c.k
    if k=='t': return F
    if k=='f': return T
    if k=='ge': return GE(K(-1)-c.p)
    if k=='eq': return Cond('ne',c.p)
    if k=='ne': return Cond('eq',c.p)
    if k=='b': return Cond('nb',c.p)
    if k=='nb': return Cond('b',c.p)
    if k=='and': return OR([NOT(x) for x in c.p])
    if k=='or': return AND([NOT(x) for x in c.p])
def AND(cs):
    out=[]
    for c in cs:
        if c.k=='f': return F
        if c.k=='t': continue
        if c.k=='and': out.extend(x for x in c.p if x not in out)
        elif c not in out: out.append(c)
    if not out: return T
    if len(out)==1: return out[0]
    return Cond('and',tuple(out))
def OR(cs):
    out=[]
    for c in cs:
        if c.k=='t': return T
        if c.k=='f': continue
        if c.k=='or': out.extend(x for x in c.p if x not in out)
        elif c not in out: out.append(c)
    if not out: return F
    if len(out)==1: return out[0]
    return Cond('or',tuple(out))

# ---- deep substitution (rewrites inside application arguments) -------------
def map_atoms(x,fn,cache=None):
    """Rebuild poly/cond x applying fn(atom)->Poly|None bottom-up (None = keep)."""
    if cache is None: cache={}
    def at(i):
        r=cache.get(i)
        if r is not None: return r
        a=byid(i); r=fn(a)
        if r is None:
            if a.args:
                na=tuple(go(y) for y in a.args)
                r=V(atom(a.kind,a.name,na,a.ptr,a.nonneg,a.w)) if na!=a.args else V(a)
            else: r=V(a)
        cache[i]=r
        return r
    def go(y):
        if isinstance(y,Poly):
            if not any(m for m in y.t): return y
            ch=False
            for i in y.atoms():
                r=at(i)
                if not(len(r.t)==1 and r.t.get((i,))==1): ch=True
            if not ch: return y
            res=ZERO
            for m,c in y.t.items():
                q=K(c)
                for i in m: q=q*at(i)
                res=res+q
            return res
        if isinstance(y,Cond):
            if y.k=='ge': return GE(go(y.p))
            if y.k=='eq': return EQ(go(y.p))
            if y.k=='ne': return NE(go(y.p))
            if y.k in('b','nb'):
                r=at(y.p.id)
                c=r.const()
                if c is not None: return Bc((c!=0)==(y.k=='b'))
                (m,)=r.t.keys(); return Cond(y.k,byid(m[0]))
            if y.k=='and': return AND([go(z) for z in y.p])
            if y.k=='or': return OR([go(z) for z in y.p])
            return y
        if isinstance(y,tuple): return tuple(go(z) for z in y)
        return y
    return go(x)
def all_atoms(x,out=None):
    """ids of all atoms occurring (deep)"""
    if out is None: out=set()
    if isinstance(x,Poly):
        for i in x.atoms():
            if i not in out:
                out.add(i)
                for y in byid(i).args: all_atoms(y,out)
    elif isinstance(x,Cond):
        if x.k in('ge','eq','ne'): all_atoms(x.p,out)
        elif x.k in('b','nb'):
            if x.p.id not in out:
                out.add(x.p.id)
                for y in x.p.args: all_atoms(y,out)
        elif x.k in('and','or'):
            for y in x.p: all_atoms(y,out)
    elif isinstance(x,tuple):
        for y in x: all_atoms(y,out)
    return out
