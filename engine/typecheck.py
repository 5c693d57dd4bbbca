"""Type-level obligations.  Files /verif/types/<ID>_*.cpp contain
   * ordinary code and static_asserts, under  // CASE name : compile
   * code that must be rejected,        under  // CASE name : reject [regex]
Each case is compiled on its own (-fsyntax-only -DCASE_name); text outside cases is shared."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from driver import ROOT, REPO, INC, directives
STD={"cxx14":["-std=c++14"],"cxx17":["-std=c++17"],"cxx20":["-std=c++20"],"int":["-std=c++14","-DNDARRAY_INT_INDICES"],"gcc":["-std=c++14"]}
def cases(path):
    out=[]
    for n,l in enumerate(open(path),1):
        m=re.match(r'\s*#\s*(?:el)?if.*\bCASE_(\w+)\b.*//\s*(compile|reject)\s*(.*)',l)
        if m: out.append((m.group(1),m.group(2),m.group(3).strip(),n))
    return out
def one(args):
    path,name,kind,rx,line,std,lang=args
    cc="g++" if std=="gcc" else "clang++"
    cmd=[cc]+STD[std]+["-fsyntax-only","-w","-I"+INC,"-I"+ROOT+"/witness","-I"+REPO]
    if name: cmd.append("-DCASE_"+name)
    if lang=="cuda":
        cmd=["clang++"]+STD[std]+["-x","cuda","--cuda-gpu-arch=sm_52","-nocudalib","-nocudainc","--cuda-device-only","-emit-llvm","-c","-o","/dev/null","-w","-I"+INC,"-I"+REPO+"/test","-I"+ROOT+"/types","-I"+REPO]+lang_flags()
        if name: cmd.append("-DCASE_"+name)
    p=subprocess.run(cmd+[path],capture_output=True,text=True)
    key="type:%s:%s:%s"%(os.path.basename(path),name or "base",std)
    err=[l for l in p.stderr.splitlines() if 'error' in l]
    fatal=any('fatal error' in l for l in err)
    loc=next((l.strip() for l in p.stderr.splitlines() if REPO+"/include" in l and ('note' in l or 'error' in l)),"")
    r=dict(key=key,status='ok',msg="")
    if name is None or kind=='compile':
        if p.returncode: r.update(status='viol',msg="%s must compile (%s:%d) but does not: %s %s"%(name or "shared part",os.path.basename(path),line," | ".join(err[:2]),loc))
    else:
        if p.returncode==0: r.update(status='viol',msg="%s must be rejected at compile time (%s:%d) but compiles"%(name,os.path.basename(path),line))
        elif rx and not any(re.search(rx,l) for l in p.stderr.splitlines()): r.update(status='error',msg="%s rejected for another reason: %s"%(name," | ".join(err[:2])))
    return r
def lang_flags(): return []
def run(pid,tier,outdir,only=None,jobs=8):
    d=os.path.join(ROOT,"types"); tasks=[]
    for f in sorted(os.listdir(d)):
        if not f.startswith(pid+"_") or not f.endswith((".cpp",".cu")): continue
        p=os.path.join(d,f); dr=directives(p)
        lang="cuda" if f.endswith(".cu") else "c++"
        stds=dr.get("std","cxx14").split()
        if tier=="thorough" and lang!="cuda": stds=stds+[s for s in dr.get("thorough","gcc cxx17 cxx20").split() if s not in stds]
        for s in stds:
            tasks.append((p,None,'compile','',0,s,lang))
            for n,k,rx,ln in cases(p):
                if only and not re.search(only,n): continue
                tasks.append((p,n,k,rx,ln,s,lang))
    with ThreadPoolExecutor(jobs) as ex: rs=list(ex.map(one,tasks))
    # a reject case only means something if the shared part compiles
    bad=set(t[0] for t,r in zip(tasks,rs) if t[1] is None and r['status']!='ok')
    return dict(results=rs)
