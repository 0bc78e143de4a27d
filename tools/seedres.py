#!/usr/bin/env python3
"""development tool: collects the outputs /tmp/chk_<seed>.out of the checks run on planted bugs into tools/seed_results.json (read by design.py)"""
import json,os,re,glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),".."); P=os.path.join(V,"tools","seed_results.json")
d=json.load(open(P)) if os.path.exists(P) else {}
for f in glob.glob("/tmp/chk_*.out"):
    i=os.path.basename(f)[4:-4]; t=open(f).read()
    if not os.path.isdir(os.path.join(V,"seeded",i)): continue
    v=re.search(r"VIOLATION property=(\S+)",t)
    if not v: d[i]="not caught"; continue
    ob=[m for m in re.findall(r"FAILED OBLIGATION: (?:error: )?(.*)",t)]
    und="contract anchor lost" if "UNDECIDED" in t else ""
    d[i]="**caught by `%s`**: %s%s"%(v.group(1), ("refuted: "+"; ".join(sorted(set(ob)))[:160]) if ob else (und or "the proof did not decide"), "" if "no-failing-input-found" in t else ("; " if ob or und else "")+"failing input found by the companion")
json.dump(d,open(P,"w"),indent=1,sort_keys=True); print(len(d))
