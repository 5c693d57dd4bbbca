"""Build witness units from /repo's current tree, analyse every IMPL/SPEC pair."""
import os, sys, re, json, time, subprocess, hashlib, shutil, signal, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VF_REPO","/repo")
INC=REPO+"/include"
PASSES="cgscc(inline),function(sroa,early-cse,instsimplify,simplifycfg),cgscc(inline),function(sroa,instsimplify,simplifycfg),globaldce"
PAIR_LIMIT=int(os.environ.get("VF_PAIR_LIMIT","400"))

def directives(path):
    d={}
    with open(path) as f:
        for line in f:
            m=re.match(r'//\s*(\w+):\s*(.*)',line)
            if not m: break
            d[m.group(1)]=m.group(2).strip()
    return d

MODES={"ndebug":["-DNDEBUG"],"assert":[],"int":["-DNDEBUG","-DNDARRAY_INT_INDICES"],"intassert":["-DNDARRAY_INT_INDICES"],
       "ndebug17":["-DNDEBUG","-std=c++17"],"ndebug20":["-DNDEBUG","-std=c++20"],"assert17":["-std=c++17"]}

def compile_unit(src,mode,outdir):
    base=os.path.basename(src)+"."+mode
    ll=os.path.join(outdir,base+".raw.bc"); bc=os.path.join(outdir,base+".bc")
    cmd=["clang++","-std=c++14","-gline-tables-only","-fno-exceptions","-fno-rtti","-ffp-contract=off","-Wno-everything","-O1","-Xclang","-disable-llvm-passes",
         "-I"+INC,"-I"+ROOT+"/witness","-I"+REPO+"/examples","-I"+REPO,"-c","-emit-llvm","-o",ll,src]+MODES[mode]
    p=subprocess.run(cmd,capture_output=True,text=True)
    if p.returncode: return dict(ok=False,err=p.stderr,src=src,mode=mode)
    p=subprocess.run(["opt-18","-passes="+PASSES,"-inline-threshold=100000000","-o",bc,ll],capture_output=True,text=True)
    if p.returncode: return dict(ok=False,err=p.stderr,src=src,mode=mode,tool=True)
    os.unlink(ll)
    return dict(ok=True,bc=bc,src=src,mode=mode)

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

_mods={}
def _mod(bc):
    import llvmc
    if bc not in _mods:
        _mods.clear(); _mods[bc]=llvmc.Module(bc)
    return _mods[bc]

def locstr(loc,src):
    """user-facing location: innermost frame inside the repository"""
    if not loc: return None
    out=[]
    for f,l in loc:
        if f.startswith(REPO): out.append("%s:%d"%(os.path.relpath(f,REPO),l))
    return " <- ".join(out[:6]) if out else "%s:%d"%(loc[0][0],loc[0][1])

def analyse(task):
    bc,src,mode,name,kind=task
    import compare, model, absint, facts, terms
    terms.reset(); facts._fmcache.clear()
    t=time.time()
    signal.signal(signal.SIGALRM,_alarm); signal.alarm(PAIR_LIMIT)
    sys.setrecursionlimit(20000)
    r=dict(src=os.path.basename(src),mode=mode,name=name,ok=True,mism=[],err=None)
    try:
        M=_mod(bc)
        ms,st=compare.run_pair(M,"impl_"+name,{'u':"specu_",'p':"specp_",'o':"spec_"}[kind]+name,unordered={'u':True,'p':'runs','o':False}[kind])
        r.update(obligations=st['obligations'],paths=st['paths'])
        F=M.func("impl_"+name)
        lines=set()
        for b in F.blocks:
            for i in b.instrs:
                if i.loc:
                    for f,l in i.loc:
                        if f.startswith(REPO): lines.add((os.path.relpath(f,REPO),l))
        r['lines']=sorted(lines); r['ninstr']=F.ninstr
        und=0
        seen=set()
        for m in ms:
            k=(m.msg.split(':')[0],m.loc)
            env=model.confirm(m.facts,m.pair[0],m.pair[1],{'u':True,'p':'runs','o':False}[kind]) if m.pair else model.find(m.facts,m.diff)
            if env is None:
                und+=1
                if os.environ.get('VF_UND'): print('UND',name,m.msg[:300],[repr(c) for c in m.facts.log][:60],flush=True)
                continue
            if k in seen: continue
            seen.add(k)
            r['mism'].append(dict(msg=m.msg,loc=locstr(m.loc,src),path=[repr(c) for c in m.facts.log][:40],point=env))
            if len(r['mism'])>=3: break
        r['undecided']=und
        if st['paths']==0: r['err']="no comparable path (witness vacuous)"
    except absint.Unsupported as e: r['err']="unsupported: %s"%e
    except Timeout: r['err']="analysis time limit"
    except RecursionError: r['err']="recursion"
    except Exception as e: r['err']="internal: "+traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    r['wall']=round(time.time()-t,2)
    return r

def pairs_in(src_text):
    pass

def list_pairs(bc):
    import llvmc
    M=llvmc.Module(bc); n=set(M.fnames)
    out=[]
    for f in sorted(n):
        if f.startswith("impl_"):
            x=f[5:]; k=0
            if "spec_"+x in n: out.append((x,'o')); k=1
            if "specu_"+x in n: out.append((x,'u')); k=1
            if "specp_"+x in n: out.append((x,'p')); k=1
            if not k: raise RuntimeError("witness %s has no specification"%x)
    return out

def run_ir(pid,tier,outdir,files=None,only=None,jobs=8):
    """-> dict(results, errors, compile_failures, units)"""
    wdir=os.path.join(ROOT,"witness")
    srcs=sorted(f for f in os.listdir(wdir) if f.startswith(pid+"_") and f.endswith(".cpp"))
    units=[]
    for f in srcs:
        d=directives(os.path.join(wdir,f))
        if d.get("tier")=="thorough" and tier!="thorough": continue
        modes=d.get("modes","ndebug").split()
        if tier=="thorough": modes=modes+[m for m in d.get("thorough","").split() if m not in modes]
        if os.environ.get("VF_FAST"): modes=modes[-1:]   # development aid: last mode only, stop at the first mismatch
        for m in modes: units.append((os.path.join(wdir,f),m))
    with ThreadPoolExecutor(jobs) as ex: cs=list(ex.map(lambda u: compile_unit(u[0],u[1],outdir),units))
    fails=[c for c in cs if not c['ok']]
    tasks=[]
    for c in cs:
        if c['ok']:
            for n,k in list_pairs(c['bc']):
                if only and not re.search(only,n): continue
                tasks.append((c['bc'],c['src'],c['mode'],n,k))
    results=[]
    if tasks:
        with mp.Pool(min(jobs,len(tasks))) as p:
            for r in p.imap_unordered(analyse,tasks,chunksize=1):
                results.append(r)
                if os.environ.get("VF_FAST") and r['mism']: p.terminate(); break
    results.sort(key=lambda r:(r['src'],r['mode'],r['name']))
    return dict(results=results,fails=fails,units=[(os.path.basename(a),b) for a,b in units])
