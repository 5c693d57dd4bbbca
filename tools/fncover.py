#!/usr/bin/env python3
"""Development aid: which functions of the library's headers does no witness instantiate at all?  (tools/fncover.py)"""
import re,subprocess,glob,os,sys,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get('VF_REPO','/repo')
inst=set()
tus=sorted(glob.glob(V+'/witness/*.cpp'))
def ir(t,extra=()):
    return subprocess.run(['clang++','-std=c++14','-O0','-gline-tables-only','-S','-emit-llvm','-w','-I'+R+'/include','-I'+V+'/witness',*extra,t,'-o','-'],capture_output=True,text=True).stdout
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(8) as ex:
    for o in ex.map(ir,tus):
        files=dict(re.findall(r'^(!\d+) = !DIFile\(filename: "([^"]*)"',o,re.M))
        for m in re.finditer(r'DISubprogram\(([^)]*)\)',o):
            f=re.search(r'file: (!\d+)',m.group(1)); l=re.search(r'line: (\d+)',m.group(1))
            if f and l and '/include/array/' in files.get(f.group(1),''): inst.add((os.path.basename(files[f.group(1)]),int(l.group(1))))
# declared functions with a body
src='\n'.join('#include "array/%s"'%h for h in('array.h','ein_reduce.h','image.h','matrix.h','z_order.h'))
open('/tmp/fncover.cpp','w').write(src)
o=subprocess.run(['clang++','-std=c++14','-fsyntax-only','-I'+R+'/include','-Xclang','-ast-dump=json','-Xclang','-ast-dump-filter=nda','/tmp/fncover.cpp'],capture_output=True,text=True).stdout
dec=json.JSONDecoder(); i=0; cur=[None,None]; decl={}
def walk(n,intmpl=False):
    loc=n.get('loc',{})
    loc=loc.get('expansionLoc',loc)
    if 'file' in loc: cur[0]=loc['file']
    if 'line' in loc: cur[1]=loc['line']
    me=(cur[0],cur[1])
    k=n.get('kind')
    for key in('range',):
        for e in('begin','end'):
            x=n.get(key,{}).get(e,{}); x=x.get('expansionLoc',x)
            if 'file' in x: cur[0]=x['file']
            if 'line' in x: cur[1]=x['line']
    if k in('FunctionDecl','CXXMethodDecl','CXXConstructorDecl','CXXDestructorDecl','CXXConversionDecl') and not n.get('isImplicit') and '/include/array/' in (me[0] or ''):
        if any(c.get('kind')=='CompoundStmt' for c in n.get('inner',[])): decl.setdefault((os.path.basename(me[0]),me[1]),n.get('name'))
    for c in n.get('inner',[]): 
        if isinstance(c,dict): walk(c)
o=re.sub(r'^Dumping .*:$','',o,flags=re.M)
while True:
    while i<len(o) and o[i] in ' \n\r\t': i+=1
    if i>=len(o): break
    d,i=dec.raw_decode(o,i); walk(d)
print(len(decl),'functions with a body,',len(inst),'instantiated lines')
for (f,l),n in sorted(decl.items()):
    if not any((f,l+k) in inst for k in(0,)): print(f,l,n)
