"""Path facts: a conjunction of polynomial (in)equalities, kept as an
equality substitution plus a polyhedron (integer-tightened Fourier-Motzkin).
Monomials of degree >= 2 are dimensions of the polyhedron, constrained by the
sign/bound lemmas that their factors justify."""
from math import gcd
from terms import *

STAT={"fm":0,"fmcap":0,"decide":0}
BIG=1<<61
CAP=700

def _tight(row):
    """row: (tuple((mon,coef)...sorted), const) meaning sum+const>=0"""
    d,c=row
    g=0
    for _,k in d: g=gcd(g,k)
    if g>1:
        d=tuple((m,k//g) for m,k in d); c=c//g
    return d,c

_fmcache={}
def infeasible(rows):
    """rows: iterable of (tuple sorted ((mon,coef),..), const). True if provably empty over Z."""
    best={}
    for d,c in rows:
        if not d:
            if c<0: return True
            continue
        d,c=_tight((d,c))
        o=best.get(d)
        if o is None or c<o: best[d]=c
    key=frozenset(best.items())
    r=_fmcache.get(key)
    if r is None:
        r=_fm(best); _fmcache[key]=r
    return r

def _fm(best):
    STAT["fm"]+=1
    while best:
        # direct contradictions d+c>=0 , -d+c'>=0 with c+c'<0
        pos={};neg={}
        for d,c in best.items():
            for m,k in d:
                if k>0: pos[m]=pos.get(m,0)+1
                else: neg[m]=neg.get(m,0)+1
        vs=set(pos)|set(neg)
        v=min(vs,key=lambda m:(pos.get(m,0)*neg.get(m,0)-pos.get(m,0)-neg.get(m,0),pos.get(m,0)*neg.get(m,0),m))
        P=[];N=[];rest={}
        for d,c in best.items():
            k=0
            for m,q in d:
                if m==v: k=q;break
            if k>0: P.append((d,c,k))
            elif k<0: N.append((d,c,-k))
            else: rest[d]=c
        if len(P)*len(N)+len(rest)>CAP:
            STAT["fmcap"]+=1
            return False
        for d1,c1,k1 in P:
            for d2,c2,k2 in N:
                g=gcd(k1,k2); a=k2//g; b=k1//g
                t={}
                for m,q in d1: t[m]=q*a
                for m,q in d2:
                    e=t.get(m,0)+q*b
                    if e: t[m]=e
                    else: t.pop(m,None)
                c=c1*a+c2*b
                if not t:
                    if c<0: return True
                    continue
                d,c=_tight((tuple(sorted(t.items())),c))
                o=rest.get(d)
                if o is None or c<o: rest[d]=c
        best=rest
    return False

def _row(p):
    return (tuple(sorted((m,k) for m,k in p.t.items() if m)),p.t.get((),0))

class Facts:
    __slots__=("subs","ges","nes","bools","eqs","_nc","_dc","_bc","log")
    def __init__(s):
        s.subs={}; s.ges=[]; s.nes=[]; s.bools={}; s.eqs=[]; s._nc={}; s._dc={}; s._bc={}; s.log=()
    def copy(s):
        r=Facts.__new__(Facts)
        r.subs=s.subs; r.ges=list(s.ges); r.nes=list(s.nes); r.bools=dict(s.bools); r.eqs=list(s.eqs)
        r._nc={} ; r._dc={}; r._bc={}; r.log=s.log
        if True: r._nc=s._nc   # shared while subs identical
        return r
    # -- normalisation
    def norm(s,x):
        if not s.subs: return x
        if isinstance(x,Poly) and x.const() is not None: return x
        sub=s.subs
        return map_atoms(x,lambda a: sub.get(a.id),s._nc)
    # -- polyhedron rows relevant to p
    def _rows(s,p):
        rel=set(m for m in p.t if m); 
        ats=set(); 
        for m in rel: ats.update(m)
        base=[]
        for q in s.ges: base.append(q)
        for q in s.eqs: base.append(q); base.append(-q)
        used=[False]*len(base); rows=[]
        mons=set(rel)
        ch=True
        # relevance closure through shared atoms
        while ch:
            ch=False
            for i,q in enumerate(base):
                if used[i]: continue
                qa=q.atoms()
                if qa & ats:
                    used[i]=True; rows.append(_row(q)); ch=True
                    ats|=qa; mons|=set(m for m in q.t if m)
        for i in list(ats):
            a=byid(i)
            if a.nonneg: rows.append(((((i,),1),),0 if a.nonneg is True else -int(a.nonneg)))
        nl=[m for m in mons if len(m)>1]
        if nl: rows+=s._lemmas(nl,ats)
        return rows
    def bounds(s,i):
        """quick (lo,hi) for atom i from single-variable rows"""
        r=s._bc.get(i)
        if r is not None: return r
        lo=hi=None
        a=byid(i)
        if a.nonneg: lo=0 if a.nonneg is True else int(a.nonneg)
        m=(i,)
        for q in s.ges:
            if m in q.t and len(q.t)-(1 if () in q.t else 0)==1:
                k=q.t[m]; c=q.c0()
                if k>0:
                    b=-(c//k); lo=b if lo is None else max(lo,b)
                else:
                    b=c//(-k); hi=b if hi is None else min(hi,b)
        s._bc[i]=(lo,hi)
        return lo,hi
    def lin_bounds(s,i):
        lo,hi=s.bounds(i)
        if lo is None or lo<1:
            # try to derive >=1 / >=0 linearly
            for b in (1,0):
                if lo is not None and lo>=b: break
                if s._ent_lin(V(byid(i))-b): lo=b; break
        if hi is None:
            for b in(-1,0):
                if s._ent_lin(K(b)-V(byid(i))): hi=b; break
        return lo,hi
    def _ent_lin(s,p):
        """linear-only entailment p>=0 (no lemmas)"""
        rows=[]
        for q in s.ges:
            if all(len(m)<=1 for m in q.t): rows.append(_row(q))
        for i in p.atoms():
            a=byid(i)
            if a.nonneg: rows.append(((((i,),1),),0))
        rows.append(_row(K(-1)-p))
        # relevance
        seen=set(p.atoms()); out=[rows[-1]]; left=rows[:-1]; ch=True
        while ch:
            ch=False; nl=[]
            for r in left:
                va=set(m[0] for m,_ in r[0])
                if va&seen: seen|=va; out.append(r); ch=True
                else: nl.append(r)
            left=nl
        return infeasible(out)
    def _lemmas(s,nl,ats):
        rows=[]; done=set(); work=list(nl); lb={}
        def B(m):
            """bounds (lo,hi) of a monomial"""
            if m in lb: return lb[m]
            if len(m)==1: r=s.lin_bounds(m[0])
            else:
                l1,h1=B(m[:1]); l2,h2=B(m[1:])
                r=(None,None)
                if l1 is not None and l2 is not None and l1>=0 and l2>=0: r=(l1*l2,None)
                elif h1 is not None and h2 is not None and h1<=0 and h2<=0: r=(h1*h2,None)
                elif l1 is not None and l1>=0 and h2 is not None and h2<=0: r=(None,l1*h2)
                elif l2 is not None and l2>=0 and h1 is not None and h1<=0: r=(None,l2*h1)
            lb[m]=r
            return r
        while work and len(done)<12:
            m=work.pop()
            if m in done or len(m)<2: continue
            done.add(m)
            lo,hi=B(m)
            if lo is not None: rows.append((((m,1),),-lo))
            if hi is not None: rows.append((((m,-1),),hi))
            for i in set(m):
                rest=list(m); rest.remove(i); rest=tuple(rest); a=(i,)
                la,ha=B(a); lr,hr=B(rest)
                def prod(sa,ca,sr,cr):
                    # (sa*a+ca)(sr*rest+cr)>=0
                    t={m:sa*sr}
                    if ca*sr: t[rest]=t.get(rest,0)+ca*sr
                    if sa*cr: t[a]=t.get(a,0)+sa*cr
                    rows.append((tuple(sorted((k,v) for k,v in t.items() if v)),ca*cr))
                if la is not None and lr is not None: prod(1,-la,1,-lr)
                if la is not None and hr is not None: prod(1,-la,-1,hr)
                if ha is not None and lr is not None: prod(-1,ha,1,-lr)
                if ha is not None and hr is not None: prod(-1,ha,-1,hr)
                if len(rest)>1: work.append(rest)
        # products of linear constraints q>=0 with a bounded atom: (q)*(a-la)>=0, if it only uses wanted monomials
        want=set(nl)|done
        cnt=0
        for m in list(want):
            if len(m)!=2: continue
            for i in set(m):
                rest=list(m); rest.remove(i); j=rest[0]
                la,ha=B((i,))
                for q in s.ges:
                    if cnt>24: break
                    if (j,) not in q.t or len(q.t)<2: continue
                    if not all(len(x)<=1 for x in q.t): continue
                    if len([x for x in q.t if x])<2: continue
                    if la is not None and la>=0:
                        r=q*V(byid(i))
                        if sum(1 for x in r.t if len(x)>1 and x not in want)==0:
                            rows.append(_row(r)); cnt+=1
                            if la>0: rows.append(_row(q*(V(byid(i))-la)))
                    elif ha is not None and ha<=0:
                        r=(-q)*V(byid(i))
                        if sum(1 for x in r.t if len(x)>1 and x not in want)==0:
                            rows.append(_row(r)); cnt+=1
        return rows
    def entails_ge(s,p):
        """p (normalised) >= 0 provable"""
        c=p.const()
        if c is not None: return c>=0
        if abs(p.c0())>=BIG: return p.c0()>0
        r=s._dc.get(p)
        if r is not None: return r
        np=K(-1)-p
        rows=s._rows(p); rows.append(_row(np))
        r=infeasible(rows)
        s._dc[p]=r
        return r
    def decide(s,c):
        STAT["decide"]+=1
        k=c.k
        if k=='t': return True
        if k=='f': return False
        if k in('and','or'):
            u=False
            for x in c.p:
                d=s.decide(x)
                if d is None: u=True
                elif d==(k=='or'): return d
            return None if u else (k=='and')
        if k in('b','nb'):
            c=s.norm(c)
            if c.k not in('b','nb'): return s.decide(c)
            v=s.bools.get(c.p.id)
            if v is None: return None
            return v==(c.k=='b')
        c=s.norm(c)
        k=c.k
        if k=='t': return True
        if k=='f': return False
        p=c.p
        if k=='ge':
            if s.entails_ge(p): return True
            if s.entails_ge(K(-1)-p): return False
            # nonzero refinement
            if p in s.nes or -p in s.nes:
                if s.entails_ge(-p): return False
            q=p+1
            if (q in s.nes or -q in s.nes) and s.entails_ge(q): return True
            return None
        r=s._eqz(p)
        if r is None: return None
        return r if k=='eq' else (not r)
    def _eqz(s,p):
        if abs(p.c0())>=BIG: return False
        if p in s.nes or -p in s.nes: return False
        g=[x for x in (set.intersection(*[set(m) for m in p.t]) if p.t else ())] if len(p.t)>=1 and all(p.t) else []
        if g and not(len(p.t)==1 and sum(map(len,p.t))==1):
            # common factor
            allnz=True
            for i in g:
                z=s._eqz(V(byid(i)))
                if z is True: return True
                if z is None: allnz=False
            q=p
            for i in g: q=pdiv(q,V(byid(i)))
            z=(q.const()==0) if q.const() is not None else s._eqz(_eqn2(q))
            if z is True: return True
            if z is False and allnz: return False
        if s.entails_ge(p-1) or s.entails_ge(K(-1)-p): return False
        if s.entails_ge(p) and s.entails_ge(-p): return True
        return None
    # -- assumption: returns list of Facts (disjoint alternatives), [] if contradictory
    def assume(s,c):
        d=s.decide(c)
        if d is True: return [s]
        if d is False: return []
        k=c.k
        if k=='and':
            cur=[s]
            for x in c.p:
                cur=[g for f in cur for g in f.assume(x)]
            return cur
        if k=='or':
            out=[]; cur=[s]
            for x in c.p:
                nxt=[]
                for f in cur:
                    out+=f.assume(x); nxt+=f.assume(NOT(x))
                cur=nxt
            return out
        if k in('b','nb'):
            r=s.copy(); c=s.norm(c); r.bools[c.p.id]=(c.k=='b'); r.log=s.log+(c,)
            return [r]
        c=s.norm(c); p=c.p; k=c.k
        g=sorted(set.intersection(*[set(m) for m in p.t])) if p.t and all(p.t) else []
        if g and not(len(p.t)==1 and sum(map(len,p.t))==1):
            q=p
            for i in g: q=pdiv(q,V(byid(i)))
            if k=='eq':
                return s.assume(OR([EQ(V(byid(i))) for i in g]+[EQ(q)]))
            if k=='ne':
                return s.assume(AND([NE(V(byid(i))) for i in g]+[NE(q)]))
            if k=='ge':
                # sign analysis of the factors
                sg=1; zero=[]; known=True
                for i in g:
                    a=V(byid(i)); cnt=min(m.count(i) for m in p.t)
                    if s.entails_ge(a):
                        if not s.entails_ge(a-1): zero.append(i)
                    elif s.entails_ge(-a):
                        sg*=-1
                        if not s.entails_ge(-a-1): zero.append(i)
                    else: known=False
                if known:
                    rest=GE(q if sg>0 else -q)
                    return s.assume(OR([EQ(V(byid(i))) for i in zero]+[rest]))
        if k=='ge':
            if s.entails_ge(-p): return s.assume(EQ(p))
            r=s.copy(); r._add_ge(p)
            r.log=s.log+(c,)
            return r._close()
        if k=='ne':
            r=s.copy(); r.nes.append(p); r.log=s.log+(c,)
            return r._close()
        if k=='eq':
            r=s.copy(); r.log=s.log+(c,)
            if not r._solve(p): return []
            return r._close()
        raise AssertionError(k)
    def _add_ge(s,p):
        s.ges.append(p); s._dc={}; s._bc={}
        # x*y... + c >= 0 with c<0 and single monomial of nonneg atoms => every factor >= 1
        if len(p.t)==2 and p.c0()<0:
            (m,k),=[(m,k) for m,k in p.t.items() if m]
            if k>0 and len(m)>1 and all(s.entails_ge(V(byid(i))) for i in m):
                for i in set(m):
                    if not s.entails_ge(V(byid(i))-1): s.ges.append(V(byid(i))-1)
    def _solve(s,p):
        """add p==0"""
        cand=[]
        for m,k in p.t.items():
            if len(m)==1 and abs(k)==1:
                i=m[0]
                others=[x for x in p.t if x!=m]
                if any(i in x for x in others): continue
                deep=set()
                for x in others:
                    for j in x:
                        for y in byid(j).args: all_atoms(y,deep)
                if i in deep: continue
                a=byid(i)
                cand.append(({'sym':2,'idx':3,'app':1,'lv':0}.get(a.kind,2) if not a.ptr else 4,len(a.args)and -1,-i,i,k))
        if not cand:
            s.eqs.append(p); s._dc={}; s._bc={}
            return True
        cand.sort(); _,_,_,i,k=cand[0]
        rhs=(Poly({m:c for m,c in p.t.items() if m!=(i,)})).scale(-k)
        fn=lambda a: rhs if a.id==i else None
        cache={}
        a=byid(i)
        extra=[]
        lo,hi=s.bounds(i)
        if a.nonneg: extra.append(rhs if a.nonneg is True else rhs-int(a.nonneg))
        ns={}
        for j,q in s.subs.items(): ns[j]=map_atoms(q,fn,cache)
        ns[i]=rhs; s.subs=ns; s._nc={}; s._dc={}; s._bc={}
        og=s.ges+extra; s.ges=[]
        for q in og:
            q2=map_atoms(q,fn,cache); c=q2.const()
            if c is None:
                g=GE(q2)
                if g.k=='ge' and g.p not in s.ges: s.ges.append(g.p)
            elif c<0: return False
        on=s.nes; s.nes=[]
        for q in on:
            c=NE(map_atoms(q,fn,cache))
            if c.k=='f': return False
            if c.k=='ne': s.nes.append(c.p)
        oe=s.eqs; s.eqs=[]
        for q in oe:
            c=EQ(map_atoms(q,fn,cache))
            if c.k=='f': return False
            if c.k=='eq':
                if not s._solve(c.p): return False
        ob=s.bools; s.bools={}
        for j,v in ob.items():
            c=map_atoms(Cond('b',byid(j)),fn,cache)
            if c.k in('t','f'):
                if (c.k=='t')!=v: return False
                continue
            o=s.bools.get(c.p.id)
            if o is not None and o!=v: return False
            s.bools[c.p.id]=v
        return True
    def _close(s):
        """tighten with disequalities; consistency check on the newest fact"""
        for _ in range(4):
            ch=False; keep=[]
            for p in s.nes:
                if len(p.t)==1 and sum(map(len,p.t))>1 :
                    keep.append(p); continue
                a=s.entails_ge(p); b=s.entails_ge(-p)
                if a and b: return []
                if a:
                    if not s.entails_ge(p-1): s.ges.append(p-1); s._dc={}; s._bc={}; ch=True
                elif b:
                    if not s.entails_ge(-p-1): s.ges.append(-p-1); s._dc={}; s._bc={}; ch=True
                else: keep.append(p)
            s.nes=keep
            if not ch: break
        # common-factor simplification of old constraints that new facts enable
        for idx,q in enumerate(list(s.ges)):
            if q.t and all(q.t):
                g=sorted(set.intersection(*[set(m) for m in q.t]))
                if g and not(len(q.t)==1 and sum(map(len,q.t))==1) and all(s.entails_ge(V(byid(i))-1) for i in g):
                    r=q
                    for i in g: r=pdiv(r,V(byid(i)))
                    s.ges[idx]=r; s._dc={}; s._bc={}
        # global emptiness
        if s.ges:
            last=s.ges[-1]
            rows=s._rows(last)
            if infeasible(rows): return []
        if s.subs:
            for q in s.ges:
                if infeasible(s._rows(q)): return []
        return [s]
    def feasible(s):
        seen=set()
        for q in s.ges+s.eqs:
            if q.atoms()<=seen: continue
            if infeasible(s._rows(q)): return False
            seen|=q.atoms()
        return True
def _eqn2(q):
    return q
