#!/usr/bin/env python3
"""Rewrite the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import os,json,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| change | caught by | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(os.listdir(R+"/seeded")):
    m=json.load(open("%s/seeded/%s/meta.json"%(R,d)))
    rows.append("| %s | %s | %s | %s |"%(d,m['property'],m['what_it_breaks'].replace("|","/"),m['needs'].replace("|","/")))
s=open(R+"/DESIGN.md").read()
i=s.index("| change |"); j=s.index("## Refactorings")
open(R+"/DESIGN.md","w").write(s[:i]+"\n".join(rows)+"\n\n"+s[j:])
