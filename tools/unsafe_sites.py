"""every non-test function of /repo/src whose body contains `unsafe` (or that is an unsafe fn), and the .vs file that puts it under contract"""
import os, sys, glob, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vx"))
import extract
from rtok import match_close
def sites():
    out = []
    for d, _, fs in os.walk(extract.SRC):
        for f in sorted(fs):
            if not f.endswith(".rs"): continue
            rel = os.path.relpath(os.path.join(d, f), extract.SRC)
            s, t, its = extract.load(rel)
            for it in its:
                if it.kind != "fn" or it.body is None: continue
                if "tests::" in it.path or it.path.startswith(("bench", "test")): continue
                if any(t[i].s == "unsafe" for i in range(it.a, it.b)): out.append((rel, it.path))
    return out
def contracts():
    m = {}
    for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "verus", "*.vs"))):
        for e in extract.parse_vs(p):
            if e["kind"] == "fn" and not e.get("uses"): m.setdefault((e["file"], re.sub(r"\s", "", e["path"])), []).append(os.path.basename(p))
            if e["kind"] == "inline": m.setdefault((e["file"], re.sub(r"\s", "", e["path"])), []).append(os.path.basename(p)+" (inlined)")
    return m
if __name__ == "__main__":
    m = contracts()
    for f, p in sites(): print(f, p, m.get((f, re.sub(r"\s", "", p)), "-----"))
