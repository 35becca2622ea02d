#!/usr/bin/env python3
"""Refresh the generated parts of DESIGN.md (between <!--X--> and <!--/X--> markers): the fixes from
known_findings.tsv and the planted bugs from seeded/*/meta.json plus seeded/caught.tsv."""
import re,json,os,subprocess
V="/verif"; s=open(f"{V}/DESIGN.md").read()
fx="\n".join("* "+l.strip().replace("fixed: ","").replace("property=","") for l in open(f"{V}/known_findings.tsv") if l.startswith("fixed:"))
caught={}
p=f"{V}/tools/caught.tsv"
if os.path.exists(p):
    for l in open(p):
        a=l.rstrip("\n").split("\t"); caught[a[0]]=a[1]
rows=["| planted bug | needs | caught by |","|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {caught.get(d,'?')} |")
def put(n,t):
    global s
    s=re.sub(f"(<!--{n}-->\n).*?(<!--/{n}-->)",lambda m:m[1]+t+"\n"+m[2],s,flags=re.S)
put("FIXES",fx); put("SEEDED","\n".join(rows))
open(f"{V}/DESIGN.md","w").write(s)
