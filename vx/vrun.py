"""Run Verus on a generated file and attribute failures to extracted functions."""
import subprocess, re, os, time, json
def run(vs, workdir, tag, rlimit=None, threads=4):
    import extract
    os.makedirs(workdir, exist_ok=True)
    out = os.path.join(workdir, tag + ".rs")
    info, full = extract.generate(vs, out)
    return verify(out, info, full, rlimit, threads)
def verify(out, info, full, rlimit=None, threads=4, log=None):
    t0 = time.time()
    cmd = ["verus", "--crate-type=lib", out, "--output-json", "--time-expanded", "--num-threads", str(threads), "--multiple-errors", "5"]
    if log: cmd += ["--log", "air", "--log-dir", log]
    if rlimit: cmd += ["--rlimit", str(rlimit)]
    env = dict(os.environ); env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=os.path.dirname(out))
    res = dict(rc=p.returncode, wall=time.time() - t0, stderr=p.stderr, cmd=" ".join(cmd))
    try: j = json.loads(p.stdout)
    except Exception: j = None
    res["json"] = j
    vr = (j or {}).get("verification-results", {})
    res["encountered_vir_error"] = vr.get("encountered-vir-error")
    ok_compile = bool(j) and "verified" in vr and not vr.get("encountered-vir-error")
    res["compiled"] = ok_compile
    res["verified"] = vr.get("verified", 0); res["errors"] = vr.get("errors", 0)
    # error blocks
    blocks = re.split(r"\n(?=(?:error|warning|note: )[^\n]*\n)", "\n" + p.stderr)
    errs = []
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"): continue
        head = b.split("\n")[0]
        if head.startswith("error: aborting") : continue
        lines = [int(x) for x in re.findall(re.escape(os.path.basename(out)) + r":(\d+):\d+", b)]
        fn = None
        for l in lines:
            for r in info:
                if "lines" in r and r["lines"][0] <= l <= r["lines"][1]: fn = r["name"]; break
            if fn: break
        errs.append(dict(head=head, text=b, fn=fn, lines=lines))
    res["errs"] = errs
    # a failed obligation has one of these heads; anything else means Verus did not accept the text as a program
    OBL = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic", "possible division",
           "possible bit shift", "decreases not satisfied", "could not prove termination", "unable to prove", "rlimit", "resource limit", "constructed value may fail", "recommendation not met", "loop must have a decreases", "might not be allowed", "bitvector", "nonlinear", "by(")
    if any(not any(o.lower() in e["head"].lower() for o in OBL) for e in errs): res["compiled"] = False
    return res, info, full
def canary(out, info, full):
    """every extracted function with assert(false) as its first statement: all must be refuted (else its contract is vacuous)"""
    lines = full.split("\n")
    import rtok
    fns = [i for i in info if not i.get("decl") and not i["lost"]]
    text = full
    names = []
    marks = []
    for i in sorted(fns, key=lambda i: -i["lines"][0]):
        a, b = i["lines"]
        seg = "\n".join(lines[a-1:b])
        k = seg.rfind("@@BODY@@")
        p = seg.find("/*BODY*/{")
        if p < 0: continue
        p = re.compile(r"/\*BODY\*/\{(\s*hide\([\w:]+\);)*").search(seg, p).end()
        seg = seg[:p] + " assert(false);" + seg[p:]
        lines[a-1:b] = seg.split("\n")
        names.append(i)
    co = out.replace(".rs", "_canary.rs")
    open(co, "w").write("\n".join(lines))
    env = dict(os.environ); env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["verus", "--crate-type=lib", co, "--num-threads", "3", "--rlimit", "20"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=os.path.dirname(out))
    hit = set()
    for b in re.split(r"\n(?=error)", "\n" + p.stderr):
        for l in re.findall(re.escape(os.path.basename(co)) + r":(\d+):\d+", b):
            hit.add(int(l))
    vac = [i["name"] for i in names if not any(i["lines"][0] <= h <= i["lines"][1] for h in hit)]
    return dict(n=len(names), refuted=len(names) - len(vac), vacuous=vac)

if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    vs = sys.argv[1]
    r, info, full = run(vs, "/tmp/vxout", os.path.basename(vs).replace(".vs", ""), rlimit=(sys.argv[2] if len(sys.argv) > 2 else 40))
    for i in info:
        if i["lost"]: print("LOST", i["name"], i["lost"])
    print(r["stderr"][-6000:])
    print("verified", r["verified"], "errors", r["errors"], "wall %.1f" % r["wall"])
    tm = (r["json"] or {}).get("times-ms", {}).get("smt", {})
    for m in tm.get("smt-run-module-times", []) if tm else []:
        for f in sorted(m.get("function-breakdown", []), key=lambda f: -f.get("time", 0))[:6]: print("   ", f.get("function"), f.get("time"), f.get("rlimit"))
