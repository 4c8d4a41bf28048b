#!/usr/bin/env python3
import json,os,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,here)
import checks
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
TECH=json.load(open(here+"/tools/techniques.json"))
cs=[];na=[]
for p in props:
    i=p["id"]
    if i in checks.SPECS:
        t,n=TECH.get(i,TECH["default"])
        cs.append(dict(property=i,quick_cmd="python3 run_check.py "+i,thorough_cmd="python3 run_check.py %s thorough"%i,evidence_file="evidence/%s.json"%i,technique=t,level="exploration",level_note=n))
    else: na.append(dict(property=i,reason=TECH.get("na_"+i,"check not built yet")))
m=dict(version=1,setup_cmd="true",hooks=dict(guard="FFLASFFPACK_VERIF",enable="the checks compile some executables with -DFFLASFFPACK_VERIF -DFFLASFFPACK_VERIF_SEQPARTHRESHOLD=5 -DFFLASFFPACK_VERIF_PTRSM_THRESHOLD=6 (TINY in checks.py), which lowers the thresholds below which parallel fgemm and ftrsm run sequentially",source_commits=["c43ff4e"]),checks=cs,not_applicable=na,notes="Each check compiles its monitored executables from /repo's working tree; see DESIGN.md")
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); print(len(cs),"checks",len(na),"na")
