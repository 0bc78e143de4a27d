#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md, then one section per property from properties.jsonl, vx/config.py, the .vs files and seeded/"""
import json, os, re, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,os.path.join(V,"vx"))
from config import CHECKS, NOT_APPLICABLE
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
seeds={}
for d in sorted(os.listdir(os.path.join(V,"seeded"))):
    p=os.path.join(V,"seeded",d,"meta.json")
    if os.path.exists(p):
        m=json.load(open(p)); seeds.setdefault(m["property"],[]).append((d,m))
caught={}
p=os.path.join(V,"tools","seed_results.json")
if os.path.exists(p): caught=json.load(open(p))
known={}
for l in open(os.path.join(V,"known_findings.jsonl")):
    if l.strip(): k=json.loads(l); known.setdefault(k["property"],[]).append(k)
def fns(f,seen=None):
    out=[]
    for l in open(os.path.join(V,"verus",f)):
        m=re.match(r"@@ fn (\S+) (.*)$",l)
        if m: out.append("%s: %s"%(m.group(1),m.group(2).strip()))
    return out
L=[open(os.path.join(V,"tools","design_head.md")).read(),"## 6. Per property\n"]
for p in props:
    i=p["id"]; L.append("### %s %s\n"%(i,p["title"]))
    if i not in CHECKS:
        L.append("Not claimed: %s\n"%NOT_APPLICABLE.get(i,"not yet under contract")); continue
    c=CHECKS[i]
    L.append("* **Decided by** "+", ".join(["Verus on verus/%s"%f for f in c.get("verus",[])]+["Kani (kani/src, %s)"%k for k in c.get("kani",[])])+"; companion `%s`, %d s quick."%(i,c.get("secs",6)))
    L.append("* **Specified and proved:** %s."%c["note"])
    if i!="C30":
        ff=[x for f in c.get("verus",[]) for x in fns(f)]
        if ff:
            byf={}
            for x in ff:
                a,b=x.split(": ",1); byf.setdefault(a,[]).append(b)
            L.append("* **Functions under contract:** "+"; ".join("%s (%s)"%(a,", ".join(sorted(set(b)))) for a,b in byf.items())+".")
    L.append("* **Domain:** %s. **Out of the tests' reach:** %s"%(p.get("quantifier",p.get("domain","")) , p.get("why_not_tests",p.get("why",""))) if False else "* **Bounded stand-ins:** %s"%("; ".join(c["bounded"]) if c.get("bounded") else "none"))
    L.append("* **Assumed:** %s"%("; ".join(c["assumptions"]) if c.get("assumptions") else "only the common base of section 2"))
    if c.get("uncontracted"): L.append("* **Without contract:** "+", ".join("`%s`"%u for u in c["uncontracted"]))
    for k in known.get(i,[]):
        L.append("* **Finding (%s):** %s"%(k["status"],k["what"]))
    for d,m in seeds.get(i,[]):
        L.append("* **Planted bug** `%s`: %s (needs %s)%s"%(d,m["what_it_breaks"],m["needs"],"; "+caught[d] if d in caught else ""))
    L.append("")
open(os.path.join(V,"DESIGN.md"),"w").write("\n".join(L)+"\n")
print(len(L))
