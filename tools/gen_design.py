#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written prose below, the list of fixed defects from known_findings.json, the table of planted bugs from tools/seeded.json."""
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(H+"/properties.jsonl")]
D=json.load(open(H+"/tools/design.json"))
K=json.load(open(H+"/known_findings.json")); K=K["findings"] if isinstance(K,dict) else K
S=json.load(open(H+"/tools/seeded.json"))
o=open(H+"/tools/design_head.md").read().rstrip()+"\n\n## Properties\n"
for p in P:
    o+="\n### %s %s\n\n%s\n"%(p["id"],p["title"],D[p["id"]])
o+="\n## Genuine defects found in the unchanged tree\n\nRecorded, not repaired:\n\n"
for k in K:
    if k.get("status")!="fixed": o+="- %s (%s): %s\n"%(k["id"],k["property"],k["what"])
o+="\nRepaired, each by one `fix:` commit in /repo (the checks report it again if it returns):\n\n"
for k in K:
    if k.get("status")=="fixed": o+="- %s %s\n"%(k["id"],k["what"][len("fixed: "):])
o+="\n## Planted bugs (/verif/seeded) and who catches them\n\n| bug | property | caught by | what it needs |\n|---|---|---|---|\n"
for s in S: o+="| %s | %s | %s | %s |\n"%tuple(s)
o+="\n"+open(H+"/tools/design_tail.md").read()
open(H+"/DESIGN.md","w").write(o); print(len(o))
