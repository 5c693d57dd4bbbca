#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): tools/mutate.py OUTDIR [--sample N] [--seed S] [--files a,b] [--jobs J] [--lines lo-hi]
Each mutant is one token-level change of /repo/include/array; the checks run on it, cheapest and line-covering first,
until one reports a violation.  Result lines: key, status (caught:<ID> | build:<ID> | survived), diff."""
import os,re,sys,random,json,subprocess,shutil,argparse
from concurrent.futures import ThreadPoolExecutor
ap=argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--sample",type=int,default=0); ap.add_argument("--seed",type=int,default=1)
ap.add_argument("--files",default="array.h,image.h,matrix.h,ein_reduce.h,z_order.h"); ap.add_argument("--jobs",type=int,default=6); ap.add_argument("--lines",default=""); ap.add_argument("--linesdir",default="/tmp/lines")
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a=ap.parse_args(); os.makedirs(a.out,exist_ok=True)
R=[(r'<=',['<','>=']),(r'>=',['>','<=']),(r'(?<![<>=!\-])==',['!=']),(r'!=',['==']),(r'&&(?=\s)',['||']),(r'\|\|',['&&']),
   (r'(?<=[\w\)\]] )\+(?= )',['-']),(r'(?<=[\w\)\]] )-(?= )',['+']),(r'(?<=[\w\)\]] )\*(?= [\w(])',['+']),(r'(?<=[\w\)\]] )/(?= )',['*']),
   (r'(?<= )<(?= )',['<=','>']),(r'(?<= )>(?= )',['>=','<']),(r'\bstd::move\((\w+)\)',[r'\1']),(r'\bstd::forward<\w+>\((\w+)\)',[r'\1']),
   (r'\bmin\b',['max']),(r'\bmax\b',['min']),(r'\bextent\b',['stride']),(r'\bstride\b',['extent']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),
   (r'\btrue_type\b',['false_type']),(r'(?<![\w.])0(?![\w.])',['1']),(r'(?<![\w.])1(?![\w.])',['0','2']),(r'\+=',['-=','=']),(r'-=',['+=']),(r'\+\+',['--']),
   (r'\bsrc\b',['dst']),(r'\bdst\b',['src']),(r'\ba\b',['b']),(r'\bb\b',['a']),(r'_src\b',['_dst']),(r'_dst\b',['_src']),(r'\bif \(',['if (!']),(r'!(?=[\w(])',['']),
   (r'\bmins\b',['maxs']),(r'\bNDARRAY_HOST_DEVICE ',['']),(r'\bconst (?=auto|Shape|T|array)',['']),(r', (?:class )?= [\w:]*enable_if\w*<[^;{}]*?>(?=>)',['']),(r'\binner\b',['outer']),(r'\bouter\b',['inner']),(r'\bfirst\b',['second']),
   (r'\bother\.(?=\w)',['this->']),(r'<0>',['<1>']),(r'<1>',['<0>']),(r'&&(?= \w+\))',['&'])]
STMT=re.compile(r'^\s+[\w:.\->\*\[\]<>(]+.*;\s*$')
def muts():
    out=[]
    for f in a.files.split(","):
        p="/repo/include/array/"+f; incom=False
        for n,l in enumerate(open(p).read().split("\n"),1):
            s=l.strip()
            if incom:
                if '*/' in s: incom=False
                continue
            if s.startswith("/*"):
                if '*/' not in s: incom=True
                continue
            if s.startswith(("//","#","using std","static_assert","namespace")) or not s or re.match(r"template <[^=(]*>$",s): continue
            code=l.split("//")[0]
            for rx,reps in R:
                for m in re.finditer(rx,code):
                    for r in reps:
                        new=l[:m.start()]+m.expand(r)+l[m.end():]
                        if rx==r'\bif \(':
                            # negate a single-line condition
                            d=0;e=None
                            for k in range(m.end()-1,len(code)):
                                if code[k]=='(':d+=1
                                elif code[k]==')':
                                    d-=1
                                    if d==0:e=k;break
                            if e is None: continue
                            new=l[:m.end()-1]+"(!("+l[m.end():e]+"))"+l[e+1:]
                        if new!=l: out.append((f,n,l,new))
            if STMT.match(code) and not re.match(r'\s*(return|const|auto|constexpr|static|using|bool|index_t|size_t|else|break|public|private|template|explicit|operator)\b',code) and code.count('(')==code.count(')'):
                out.append((f,n,l,re.match(r'\s*',l).group(0)+";"))
    seen=set(); u=[]
    for m in out:
        if (m[0],m[1],m[3]) in seen: continue
        seen.add((m[0],m[1],m[3])); u.append(m)
    return u
M=muts()
if a.lines:
    lo,hi=map(int,a.lines.split("-")); M=[m for m in M if lo<=m[1]<=hi]
print(len(M),"mutants")
random.Random(a.seed).shuffle(M)
if a.sample: M=M[:a.sample]
IDS=["C%02d"%i for i in range(1,60) if any(x.startswith("C%02d_"%i) for d in ("witness","types","lint") if os.path.isdir(V+"/"+d) for x in os.listdir(V+"/"+d))]
cov={}; cost={}
for p in IDS:
    try: cov[p]=set(map(tuple,json.load(open("%s/%s.json"%(a.linesdir,p)))))
    except Exception: cov[p]=set()
    try: cost[p]=json.load(open(V+"/evidence/%s.json"%p))["wall_s"]
    except Exception: cost[p]=5
def run(k):
    f,n,old,new=M[k]
    w="/tmp/mut/w%d_%d"%(os.getpid(),k); shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    for d in ("include","test","absl"): shutil.copytree("/repo/"+d,w+"/"+d)
    p=w+"/include/array/"+f; L=open(p).read().split("\n"); assert L[n-1]==old; L[n-1]=new; open(p,"w").write("\n".join(L))
    order=sorted(IDS,key=lambda p:(("include/array/"+f,n) not in cov[p],cost[p]))
    st="survived"; env=dict(os.environ,VF_REPO=w,VF_NOEVIDENCE="1"); notes=[]
    # the mutant must compile somewhere sensible
    t=subprocess.run("for f in array array_lifetime ein_reduce shape; do [ -f %s/test/$f.cpp ] && { clang++ -std=c++14 -fsyntax-only -w -I%s/include %s/test/$f.cpp || exit 1; }; done; true"%(w,w,w),shell=True,capture_output=True,text=True)
    if t.returncode: st="nocompile"
    else:
        for p in order:
            r=subprocess.run(["python3",V+"/check.py",p,"-j","2"],capture_output=True,text=True,env=env)
            if r.returncode==1:
                real=[x for x in r.stdout.splitlines() if x.startswith("  ") and not x.startswith("  build:")]
                st=("caught:" if real else "build:")+p; break
            if r.returncode!=0: notes.append("%s=%d"%(p,r.returncode))
            if "UNDECIDED" in r.stdout: notes.append(p+":und")
    shutil.rmtree(w,ignore_errors=True)
    line="%s:%d\t%s\t%s\n\t-%s\n\t+%s\n"%(f,n,st," ".join(notes),old.strip(),new.strip())
    with open(a.out+"/results.txt","a") as o: o.write(line)
with ThreadPoolExecutor(a.jobs) as ex: list(ex.map(run,range(len(M))))
