#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only REGEX] [-v]
Static checks for dsharlet/array.  Exit 0: property held on everything analysed;
1: VIOLATION; 2: the analysis could not give an answer."""
import sys, os, json, time, argparse, tempfile, shutil, re
ROOT=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(ROOT,"engine"))
sys.dont_write_bytecode=True
if os.environ.get('PYTHONHASHSEED')!='0':
    os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)  # same answer on every run
import driver, typecheck, registry

def main():
    ap=argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick"))
    ap.add_argument("--only"); ap.add_argument("-v",action="store_true"); ap.add_argument("--keep",action="store_true")
    ap.add_argument("-j",type=int,default=os.cpu_count() or 8)
    a=ap.parse_args()
    pid=a.prop; t0=time.time()
    known=[]
    kf=os.path.join(ROOT,"known_findings.json")
    if os.path.exists(kf): known=[k for k in json.load(open(kf)) if k.get("property")==pid and k.get("status")=="known"]
    out=tempfile.mkdtemp(prefix="vf_%s_"%pid)
    violations=[]; errors=[]; noans=[]; hits={}
    try:
        ir=driver.run_ir(pid,a.tier,out,only=a.only,jobs=a.j)
        ty=typecheck.run(pid,a.tier,out,only=a.only,jobs=a.j)
        extra=registry.run(pid,a.tier,out,only=a.only)
    finally:
        if not a.keep: shutil.rmtree(out,ignore_errors=True)
    def viol(key,msg,detail):
        for k in known:
            if re.fullmatch(k["match"],key):
                hits.setdefault(k["id"],(k,key)); return
        violations.append((key,msg,detail))
    obl=disch=paths=und=0; lines=set(); perpair=[]
    for f in ir['fails']:
        if f.get('tool'): errors.append("opt failed on %s: %s"%(f['src'],f['err'][:400])); continue
        first=[l for l in f['err'].splitlines() if 'error' in l][:3]
        viol("build:%s:%s"%(os.path.basename(f['src']),f['mode']),"documented use of the library no longer compiles (%s, %s): %s"%(os.path.basename(f['src']),f['mode']," | ".join(first)),f['err'])
    for r in ir['results']:
        n="%s:%s:%s"%(r['src'],r['mode'],r['name'])
        o=r.get('obligations',0); obl+=max(o,1); paths+=r.get('paths',0)
        for l in r.get('lines',[]): lines.add(tuple(l))
        perpair.append([n,o,r.get('paths',0),len(r['mism']),r.get('undecided',0),r['wall']])
        if r['err']: noans.append("%s: %s"%(n,r['err']))
        for m in r['mism']:
            viol("pair:"+n,"%s at %s: %s"%(r['name'],m['loc'] or "?",m['msg']),m)
        und+=r.get('undecided',0)
        if not r['err'] and not r['mism']: disch+=max(o,1)-r.get('undecided',0)
        if a.v: print("%-60s obl=%-5d paths=%-5d mism=%d und=%d %.1fs %s"%(n,o,r.get('paths',0),len(r['mism']),r.get('undecided',0),r['wall'],r['err'] or ""))
    for c in ty['results']:
        obl+=1
        if c['status']=='ok': disch+=1
        elif c['status']=='error': errors.append(c['msg'])
        else: viol(c['key'],c['msg'],c)
        if a.v: print("%-60s %s"%(c['key'],c['status']))
    for c in extra:
        obl+=c.get('obligations',1)
        if c['status']=='ok': disch+=c.get('obligations',1)
        elif c['status']=='error': errors.append(c['msg'])
        else: viol(c['key'],c['msg'],c)
        if a.v: print("%-60s %s"%(c['key'],c['status']))
    if obl==0: errors.append("nothing was analysed")
    # a witness the analysis cannot summarise is undecided: it is reported and not counted as discharged; when that
    # happens to most of the witnesses the check has no answer
    if noans and len(noans)*2>len(ir['results']): errors.append("%d of %d witnesses could not be analysed"%(len(noans),len(ir['results'])))
    wall=round(time.time()-t0,2)
    meta=registry.META.get(pid,{})
    ev=dict(property=pid,tier=a.tier if a.tier in("quick","thorough") else "quick",seed=int(os.environ.get("VERIF_SEED","0") or 0),level=meta.get("level","proof"),
        coverage=dict(obligations=obl,discharged=disch,checker_cmd="python3 /verif/check.py %s --tier %s"%(pid,a.tier),
            trusted_base=["clang 18 front end and the LLVM inline/sroa/early-cse/instsimplify/simplifycfg passes","/verif/engine abstract interpreter","plain-C++ specifications in /verif/witness and /verif/types","assumption: index arithmetic does not overflow"],
            explanation=meta.get("rule","abstract effect trees of library instantiations compared with plain-arithmetic specifications, on every abstract path; type-level obligations decided by the compiler front end"),
            witness_units=ir['units'],pairs=len(ir['results']),abstract_paths=paths,undecided=und,type_obligations=len(ty['results']),lint_obligations=sum(c.get('obligations',1) for c in extra),
            analysed_source_lines=len(lines),analysed_files=sorted(set(f for f,_ in lines)),
            per_pair=perpair[:400],errors=errors[:20],not_analysed=noans[:40],violations=[v[1] for v in violations][:20],known=[k for k in hits]),
        wall_s=wall)
    if os.environ.get('VF_LINES'): json.dump(sorted(lines),open(os.path.join(os.environ['VF_LINES'],pid+'.json'),'w'))
    if not a.only and not os.environ.get('VF_NOEVIDENCE'):
        os.makedirs(os.path.join(ROOT,"evidence"),exist_ok=True)
        json.dump(ev,open(os.path.join(ROOT,"evidence",pid+".json"),"w"),indent=1)
    for k,(kk,key) in hits.items(): print("KNOWN-FINDING: property=%s %s"%(pid,kk["what"]))
    print("%s: %d obligations, %d discharged, %d undecided, %d witness pairs, %d type obligations, %d source lines analysed, %.1fs"%(pid,obl,disch,und,len(ir['results']),len(ty['results']),len(lines),wall))
    if violations:
        d=os.path.join(ROOT,"out"); os.makedirs(d,exist_ok=True)
        rp=os.path.join(d,pid+".replay.json")
        json.dump(dict(property=pid,cmd="python3 %s/check.py %s"%(ROOT,pid),violations=[dict(key=k,msg=m,detail=str(x)[:6000]) for k,m,x in violations]),open(rp,"w"),indent=1)
        for k,m,x in violations[:12]:
            print("  %s: %s"%(k,m))
            if isinstance(x,dict) and x.get('point'): print("      on the path containing e.g. %s"%", ".join("%s=%s"%(a,b) for a,b in list(x['point'].items())[:14]))
        for e in (errors+noans)[:5]: print("  (no answer) "+e)
        print("VIOLATION property=%s replay=%s"%(pid,rp))
        return 1
    for e in noans[:12]: print("UNDECIDED "+e)
    if errors:
        for e in errors[:12]: print("ANALYSIS-ERROR "+e)
        return 2
    return 0
sys.exit(main())
