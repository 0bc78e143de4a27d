#!/usr/bin/env python3
"""development tool: mkseed.py FILE.py  -- each entry of SEEDS becomes /verif/seeded/<id> (patch made in the scratch copy /tmp/sr)"""
import sys, os, subprocess, json, shutil
ns={}; exec(open(sys.argv[1]).read(), ns)
R="/tmp/sr"; D=os.environ.get("SEEDED","/verif/seeded")
subprocess.run("git fetch -q /repo && git checkout -q -f FETCH_HEAD",shell=True,cwd=R,check=True)
for s in ns["SEEDS"]:
    if len(sys.argv)>2 and s["id"] not in sys.argv[2:]: continue
    for f,a,b in s["edits"]:
        p=os.path.join(R,f); t=open(p).read(); assert t.count(a)==s.get("count",1),(s["id"],f,t.count(a))
        open(p,"w").write(t.replace(a,b))
    d=os.path.join(D,s["id"]); os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(subprocess.run(["git","diff"],cwd=R,stdout=subprocess.PIPE,text=True).stdout)
    subprocess.run("git checkout -q -f .",shell=True,cwd=R)
    shutil.copy("/verif/tools/demo.sh",d+"/demo.sh"); open(d+"/demo.rs","w").write("#![allow(unused)]\n"+s["demo"].strip()+"\n")
    json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    print(s["id"])
