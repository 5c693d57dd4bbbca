"""Look for an integer point inside the polyhedron of a mismatching path, so that
an alarm is only raised for a path that is inhabited (the emptiness test is
incomplete for non-linear facts; the search removes the resulting false alarms)."""
import random, zlib
from terms import *

def ev(x,env,rng):
    if isinstance(x,Poly):
        r=0
        for m,c in x.t.items():
            v=c
            for i in m: v*=eva(byid(i),env,rng)
            r+=v
        return r
    if isinstance(x,Cond):
        k=x.k
        if k=='t': return True
        if k=='f': return False
        if k=='ge': return ev(x.p,env,rng)>=0
        if k=='eq': return ev(x.p,env,rng)==0
        if k=='ne': return ev(x.p,env,rng)!=0
        if k=='b': return bool(eva(x.p,env,rng)&1)
        if k=='nb': return not(eva(x.p,env,rng)&1)
        if k=='and': return all(ev(y,env,rng) for y in x.p)
        if k=='or': return any(ev(y,env,rng) for y in x.p)
    if isinstance(x,tuple): return tuple(ev(y,env,rng) for y in x)
    return x
class TooBig(Exception): pass
STEPS=[0]
def eva(a,env,rng):
    v=env.get(a.id)
    if v is not None: return v
    if a.kind=='app' and a.args:
        args=tuple(ev(y,env,rng) for y in a.args)
        if a.name=='fdiv': return args[0]//args[1] if args[1] else 0
        if a.name=='pow2': return 1<<min(max(args[0],0),40)
        k=('app',a.name,args)
        v=env.get(k)
        if v is None: v=rng.randint(-3,6); env[k]=v
        return v
    if a.kind=='bool': return 1 if ev(a.args[0],env,rng) else 0
    if a.kind=='ex':
        ix=[m[0] for m in a.args[0].t][0]; n=min(ev(a.args[1],env,rng),300)
        old=env.get(ix); r=0
        for i in range(max(n,0)):
            STEPS[0]+=1
            if STEPS[0]>4000: raise TooBig()
            env[ix]=i
            if ev(a.args[2],env,rng): r=1; break
        if old is None: env.pop(ix,None)
        else: env[ix]=old
        return r
    if a.kind=='alloca' and '_side' in env:
        d=env['_side']; return d.setdefault(a.id,10**7+10**5*len(d))
    if a.kind in('alloca','glob'): v=100000+1000*(a.id)
    elif a.ptr: v=1000*(1+a.id%97) if rng.random()<.9 else 0
    elif a.kind=='undef': v=7777
    elif a.kind=='fc': v=zlib.crc32(a.name.encode())%1000
    else: v=rng.choice((0,1,1,2,2,3,3,4,5,-1,-2,-3,7,10))
    env[a.id]=v
    return v
def find(facts,diff=None,tries=2500,seed=1,full=False):
    conds=list(facts.log)
    ats=set()
    for c in conds: all_atoms(c,ats)
    rng=random.Random(seed)
    free=[i for i in ats if byid(i).kind in('sym','idx','lv') ]
    def attempt():
        env={}
        bad=None
        for it in range(60):
            e=dict(env); bad=[c for c in conds if not ev(c,e,rng)]
            for k,v in e.items():
                if isinstance(k,int) and byid(k).kind in('sym','idx','lv'): env[k]=v
                elif not isinstance(k,int): env[k]=v
            if not bad: break
            c=rng.choice(bad)
            # repair: change one atom of the violated condition
            x=c
            while x.k in('and','or'): x=rng.choice(x.p)
            if x.k in('b','nb'):
                if x.p.kind=='sym': env[x.p.id]=1 if x.k=='b' else 0
                elif x.p.kind=='app':
                    env[('app',x.p.name,tuple(ev(y,env,rng) for y in x.p.args))]=1 if x.k=='b' else 0
                else:
                    for i in all_atoms(x):
                        if byid(i).kind in('sym','idx') and rng.random()<.5: env.pop(i,None)
                continue
            ai=[i for i in x.p.atoms() if byid(i).kind in('sym','idx','lv')] if x.k in('ge','eq','ne') else []
            if not ai:
                for i in all_atoms(x):
                    if byid(i).kind in('sym','idx') and rng.random()<.5: env.pop(i,None)
                continue
            i=rng.choice(ai)
            # solve for the atom linearly if possible
            env0=dict(env); env0[i]=0; v0=ev(x.p,env0,rng); env0=dict(env); env0[i]=1; v1=ev(x.p,env0,rng); sl=v1-v0
            if sl==0: env[i]=rng.randint(-4,8); continue
            z=-v0/sl
            import math
            if x.k=='eq': env[i]=round(z)
            elif x.k=='ge': env[i]=math.ceil(z)+rng.choice((0,0,1,2)) if sl>0 else math.floor(z)-rng.choice((0,0,1,2))
            else: env[i]=env.get(i,0)+rng.choice((-1,1))
        if bad: return None
        if diff:
            e=dict(env)
            if ev(diff[1],e,rng)==ev(diff[2],e,rng): return None
        if full: return env
        return {repr(byid(i)):v for i,v in env.items() if isinstance(i,int) and byid(i).kind in('sym','idx')}
    for t in range(tries):
        STEPS[0]=0
        try: r=attempt()
        except TooBig: continue
        if r is not None: return r
    return None

CAP=20000
def events(effs,env,rng,out):
    """the concrete event sequence an abstract effect list denotes at one point"""
    for e in effs:
        if e.k=='loop':
            n=ev(e.n,env,rng)
            if n>400: raise TooBig()
            old=env.pop(e.idx,None)
            for i in range(max(n,0)):
                env[e.idx]=i
                for cs,b in e.body:
                    if all(ev(c,env,rng) for c in cs): events(b,env,rng,out)
            env.pop(e.idx,None)
            if old is not None: env[e.idx]=old
        else:
            out.append((e.k,e.name,tuple(ev(a,env,rng) for a in e.args),e.sz))
            if len(out)>CAP: raise TooBig()
def confirm(facts,A,B,unordered,tries=8):
    """a point of the path at which the two effect lists denote different events; None if none was found"""
    from collections import Counter
    for seed in range(1,tries+1):
        env=find(facts,None,1200,seed,full=True)
        if env is None:
            if seed>=2: return None
            continue
        rng=random.Random(seed)
        for i in list(env):
            if isinstance(i,int) and byid(i).kind=='alloca': del env[i]
        STEPS[0]=-16000
        try:
            ea=dict(env); ea['_side']={}; la=[]; events(A,ea,rng,la)
            eb=dict(ea); eb['_side']={}; lb=[]; events(B,eb,rng,lb)
        except TooBig: continue
        if unordered=='runs':
            def runs(l):
                out=[]
                for x in l:
                    if out and out[-1][0]==x[:2]: out[-1][1][x]+=1
                    else: out.append((x[:2],Counter([x])))
                return out
            ra,rb=runs(la),runs(lb)
            if ra==rb: continue
            r={repr(byid(i)):v for i,v in env.items() if isinstance(i,int) and byid(i).kind in('sym','idx')}
            k=next((i for i,(x,y) in enumerate(zip(ra,rb)) if x!=y),min(len(ra),len(rb)))
            r['#first difference']="phase %d: got %r, expected %r"%(k,[(n,list(c)[:3]) for n,c in ra[k:k+1]],[(n,list(c)[:3]) for n,c in rb[k:k+1]])
            return r
        if (Counter(la)!=Counter(lb)) if unordered else (la!=lb):
            k=next((i for i,(x,y) in enumerate(zip(la,lb)) if x!=y),min(len(la),len(lb)))
            r={repr(byid(i)):v for i,v in env.items() if isinstance(i,int) and byid(i).kind in('sym','idx')}
            if unordered:
                ca,cb=Counter(la),Counter(lb)
                r['#extra']=[repr(x) for x in (ca-cb)][:3]; r['#missing']=[repr(x) for x in (cb-ca)][:3]
            else: r['#first difference']="event %d: got %r, expected %r"%(k,la[k] if k<len(la) else None,lb[k] if k<len(lb) else None)
            return r
    return None
