#!/usr/bin/env python3
"""Refreshes the list of repairs (section 4) and the table of planted bugs (section 6) in DESIGN.md."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(V+"/DESIGN.md").read()
fx=[json.loads(l) for l in open(V+"/known_findings.jsonl")]
lst="\n".join("* %s %s %s"%(f["property"],f["commit"],f["text"].split(f["commit"]+" ",1)[1]) for f in fx if f["status"]=="fixed")
s=re.sub(r"(## 4\..*?no open finding\.\n\n)(\* C.*?\n)(\n)",lambda m:m.group(1)+lst+"\n"+m.group(3),s,count=1,flags=re.S)
miss={}
if os.path.exists(V+"/tools/misses.json"): miss=json.load(open(V+"/tools/misses.json"))
rows=[]
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d)); rows.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"].replace("|","/"),miss.get(i,m["property"]+" quick")))
tab="| bug | property | needs | caught by |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"
s=re.sub(r"\| bug \| property.*?\n\n|\| bug \| property.*\Z",lambda m:tab+("\n" if m.group(0).endswith("\n\n") else ""),s,count=1,flags=re.S)
open(V+"/DESIGN.md","w").write(s)
