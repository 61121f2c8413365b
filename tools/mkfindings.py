#!/usr/bin/env python3
"""Writes known_findings.jsonl: the repaired defects (from the fix: commits in /repo)
and the open findings listed below."""
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP=[l.rstrip("\n").split("|",1) for l in open(V+"/tools/fix_properties.txt") if l.strip() and not l.startswith("#")]
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
out=[];miss=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    p=[a for a,b in PROP if b.strip()==s[4:].strip()]
    if not p: miss.append(s); continue
    out.append({"property":p[0].split()[0],"status":"fixed","commit":h,"text":f"fixed: property={p[0].split()[0]} {h} {s[4:].strip()}"})
for l in open(V+"/tools/open_findings.jsonl"):
    if l.strip(): out.append(json.loads(l))
with open(V+"/known_findings.jsonl","w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
print(len(out),"entries; unassigned:",miss)
