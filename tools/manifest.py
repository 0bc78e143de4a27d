#!/usr/bin/env python3
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,os.path.join(V,"vx"))
from config import CHECKS, NOT_APPLICABLE
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        checks.append(dict(property=i,quick_cmd="python3 check.py %s"%i,thorough_cmd="python3 check.py %s --thorough"%i,
          technique=c.get("technique","contract-based deductive verification: Verus contracts and invariants on functions extracted from /repo/src on every run"),
          level="proof",level_note=c["note"]))
    else: na.append(dict(property=i,reason=NOT_APPLICABLE.get(i,"not yet under contract")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 hooks=dict(guard="none",enable="no hooks: the checks read /repo/src and use the public API",source_commits=[]))
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
