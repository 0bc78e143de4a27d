#!/usr/bin/env python3
"""check.py PID  -- decide one property on /repo's current tree.   See DESIGN.md."""
import sys, os, json, time, subprocess, threading, re, traceback, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vx"))
import extract, vrun
from config import CHECKS

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv: TIER = "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
B = os.path.join(V, ".build")
C = CHECKS[PID]
T0 = time.time()
os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)

def cargo_env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"; e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): e.pop(k, None)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    return e

UNCHECKED = C.get("unchecked", False)   # C30: many files, only unchecked accesses are decided
HDIR, HT, HBIN = ("harness30", "h30", "vh30") if UNCHECKED else ("harness", "h", "vh")
def build_harness(res):
    t = time.time()
    env = cargo_env()
    if UNCHECKED:
        sys.path.insert(0, os.path.join(V, "tools"))
        import image_checked
        image_checked.make(os.path.join(B, "image-checked"), os.path.join(V, "harness", "Cargo.lock"))
        env["RUSTFLAGS"] = "-Zub-checks=yes"
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", os.path.join(B, HT)], cwd=os.path.join(V, HDIR),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res["build_ok"] = p.returncode == 0; res["build_log"] = p.stdout[-4000:]; res["build_s"] = time.time() - t

def run_harness(seed, secs, cases=None, only=None, trace=False, timeout=None):
    cmd = [os.path.join(B, HT, "debug", HBIN), PID, "--seed", str(seed), "--secs", str(secs)]
    if cases: cmd += ["--cases", str(cases)]
    if only is not None: cmd += ["--only", str(only)]
    if trace: cmd += ["--trace"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout or secs + 60, errors="replace")
    except subprocess.TimeoutExpired as x:
        return dict(crash="a case did not terminate within %d s" % (timeout or secs + 60), cmd=cmd, stderr=(x.stderr or b"")[-2000:].decode(errors="replace") if x.stderr else "")
    try: j = json.loads(p.stdout.strip().split("\n")[-1])
    except Exception: j = dict(crash="process ended with status %d" % p.returncode, stderr=p.stderr[-3000:])
    j["cmd"] = " ".join(cmd)
    if UNCHECKED and "crash" in j and "unsafe precondition(s) violated" not in (j.get("stderr") or "") and not re.search(r"status -(11|7|4)$", j["crash"]):
        # not about unchecked accesses (e.g. a non-terminating operation)
        j["inconclusive"] = j.pop("crash")
    return j

def harness_stage(res):
    build_harness(res)
    if not res["build_ok"]: return
    secs = C.get("secs", 6) if TIER == "quick" else C.get("secs_thorough", 120)
    j = run_harness(SEED, secs)
    if "crash" in j:
        # locate the crashing / hanging case (deterministic by index) by tracing single threaded
        tr = run_harness(SEED, secs + 20, trace=True, timeout=secs + 40)
        last = [l for l in (tr.get("stderr") or "").split("\n") if l.startswith("CASE ")]
        j["failure"] = dict(index=None, input=(last[-1][5:] if last else "(see stderr)"), message="crashed or hung: " + j["crash"] + " " + (tr.get("crash") or ""))
    res["run"] = j

def count_air(logdir):
    n = {}
    f = os.path.join(logdir, "root.air")
    if os.path.exists(f):
        for m in re.finditer(r'\(assert\s+\("([^"]+)"', open(f).read()): n[m.group(1)] = n.get(m.group(1), 0) + 1
    for f in os.listdir(logdir) if os.path.isdir(logdir) else []:
        try: os.remove(os.path.join(logdir, f))
        except OSError: pass
    return n

def verus_file(vs, threads):
    path = os.path.join(V, "verus", vs)
    out = os.path.join(B, "v_%s_%s.rs" % (PID, vs.replace(".vs", "")))
    log = os.path.join(B, "log_%s_%s" % (PID, vs.replace(".vs", "")))
    try:
        info, full = extract.generate(path, out)
        r, info, full = vrun.verify(out, info, full, rlimit=C.get("rlimit", 40), threads=threads, log=log)
        r["air"] = count_air(log)
        r["rlimit_hit"] = [e for e in r["errs"] if "rlimit" in e["head"].lower() or "resource limit" in e["head"].lower()]
    except extract.Lost as x:
        r = dict(compiled=False, verified=0, errors=0, errs=[], stderr=str(x), wall=0, cmd="", air={}, rlimit_hit=[], json=None); info, full = [], ""
    except Exception as x:
        r = dict(compiled=False, verified=0, errors=0, errs=[], stderr=traceback.format_exc(), wall=0, cmd="", air={}, rlimit_hit=[], json=None); info, full = [], ""
    r["vs"] = vs; r["info"] = info; r["full"] = full; r["out"] = out
    return r

def verus_stage(res):
    if UNCHECKED:
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(3) as ex: res["files"] = list(ex.map(lambda vs: verus_file(vs, 3), C["verus"]))
        return
    res["files"] = []
    for vs in C.get("verus", []):
        r = verus_file(vs, 6)
        res["files"].append(r)
        # vacuity: assert(false) at the start of every extracted function must be refuted
        if r["compiled"] and not r["errors"]:
            res.setdefault("canary", []).append(vrun.canary(r["out"], r["info"], r["full"]))

def is_unchecked_obligation(e):
    return "precondition not satisfied" in e["head"] and re.search(r"unsafe_get_pixel|unsafe_put_pixel|get_unchecked|\b(?:read|check|incr|decr|set_to_median|channel_median)\(|self\.(?:parent|tree_size)\b", e["text"]) is not None

def uncovered_unsafe():
    """functions of the current source with unsafe code that no contract file extracts, beyond those named in the configuration"""
    sys.path.insert(0, os.path.join(V, "tools"))
    import unsafe_sites
    m = unsafe_sites.contracts()
    norm = lambda p: re.sub(r"\s", "", p)
    known = set(norm(x) for x in C.get("uncontracted", []))
    return ["%s %s" % (f, p) for f, p in unsafe_sites.sites() if (f, norm(p)) not in m and norm(p) not in known]

def kani_stage(res):
    hs = C.get("kani", [])
    if not hs: return
    cmd = ["cargo", "kani", "--target-dir", os.path.join(B, "k"), "-Z", "function-contracts", "--output-format", "terse", "-j", "--exact"] if False else \
          ["cargo", "kani", "--target-dir", os.path.join(B, "k"), "-Z", "function-contracts", "--output-format", "terse", "-j", "6"]
    for h in hs: cmd += ["--harness", h]
    env = cargo_env(); env.pop("RUSTUP_TOOLCHAIN", None)
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.join(V, "kani"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
        so, se, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        so, se, rc = "", "timeout", -9
    res["rc"] = rc; res["out"] = so[-20000:]; res["err"] = se[-4000:]; res["wall"] = time.time() - t; res["cmd"] = " ".join(cmd)
    m = re.search(r"(\d+) successfully verified harnesses, (\d+) failures, (\d+) total", so)
    res["ok"] = int(m.group(1)) if m else 0; res["fail"] = int(m.group(2)) if m else None
    res["checks"] = sum(int(x) for x in re.findall(r"\*\* \d+ of (\d+) failed", so))
    res["failed_checks"] = re.findall(r"Failed Checks: (.*)", so)
    res["failed_harnesses"] = re.findall(r"Verification failed for - (\S+)", so)
    res["timeout"] = "CBMC timed out" in so or rc == -9
    res["time"] = sum(float(x) for x in re.findall(r"Verification Time: ([0-9.]+)s", so))

def main():
    hres, vres, kres = {}, {}, {}
    th = [threading.Thread(target=f, args=(r,)) for f, r in ((harness_stage, hres), (verus_stage, vres), (kani_stage, kres))]
    for t in th: t.start()
    for t in th: t.join()

    undecided, refuted, lost = [], [], []
    obl = disch = 0
    kinds = {}
    fns, dropped = [], []
    smt_ms = 0
    for r in vres.get("files", []):
        for i in r["info"]:
            if i["lost"]: lost.append("%s %s: %s" % (i["file"], i["name"], i["lost"]))
            elif not i.get("decl") and not i.get("uses"): fns.append("%s::%s" % (i["file"], i["name"]))
        for k, v in r["air"].items(): kinds[k] = kinds.get(k, 0) + v
        n = sum(r["air"].values())
        try: smt_ms += r["json"]["times-ms"]["smt"]["total"]
        except Exception: pass
        if not r["compiled"]:
            undecided.append("verus did not accept %s as a program: %s" % (r["vs"], "; ".join(e["head"] for e in r["errs"][:3]) or r["stderr"][-300:]))
            obl += max(n, 1)
        else:
            obl += n
            bad = [e for e in r["errs"] if e not in r["rlimit_hit"]]
            disch += max(0, n - max(len(r["errs"]), r["errors"]))
            if r["rlimit_hit"]: undecided.append("solver resource limit in %s: %s" % (r["vs"], ", ".join(str(e["fn"]) for e in r["rlimit_hit"])))
            for e in bad:
                if UNCHECKED and not is_unchecked_obligation(e):
                    undecided.append("%s of %s in %s is not discharged on this tree" % (e["head"].replace("error: ", ""), e["fn"], r["vs"]))
                else: refuted.append(e)
            if r["errors"] and not r["errs"]: undecided.append("unparsed verus errors")
    for x in lost: undecided.append("contract anchor lost: " + x)
    vac = [c for c in vres.get("canary", []) if c["vacuous"]]
    for c in vac: undecided.append("vacuous contract (assert(false) provable): %s" % c["vacuous"])
    if C.get("kani"):
        if kres.get("fail") is None: undecided.append("kani gave no result: " + (kres.get("err", "")[-300:]))
        else:
            obl += kres["checks"]; disch += kres["checks"] - len(kres["failed_checks"])
            if kres["fail"]:
                if kres["timeout"]: undecided.append("kani timed out")
                unw = [c for c in kres["failed_checks"] if "unwinding assertion" in c or "not currently supported" in c or "unsupported" in c]
                real = [c for c in kres["failed_checks"] if c not in unw]
                if unw and not real: undecided.append("kani: " + "; ".join(unw[:3]))
                if real: refuted.append(dict(head="kani: " + "; ".join(real[:5]) + " in " + ", ".join(kres["failed_harnesses"]), text=kres["out"], fn=", ".join(kres["failed_harnesses"]), lines=[]))
            elif kres["ok"] < C.get("kani_n", 1): undecided.append("kani verified %d of %d harnesses" % (kres["ok"], C.get("kani_n", 1)))
            for h in re.findall(r"Checking harness (\S+?)\.\.\.", kres["out"]): fns.append("kani:" + h)

    if UNCHECKED:
        try:
            for u in uncovered_unsafe(): undecided.append("unsafe code without a contract: " + u)
        except Exception as x: undecided.append("unsafe sites not enumerated: %r" % x)
    run = hres.get("run") or {}
    if run.get("inconclusive"): undecided.append("companion: " + run["inconclusive"])
    if not hres.get("build_ok"): undecided.append("the companion harness does not build against this tree")
    known = load_known()
    violation = None
    listed = {k["key"]: k for k in known if k["property"] == PID and k["status"] == "known"}
    def eff_failure(run):
        f = run.get("failure")
        if f: return f
        for k in run.get("known", []):
            if k["key"] not in listed: return dict(index=k["index"], input=k["input"], message="finding %s is not in known_findings.jsonl" % k["key"])
        return None
    f = eff_failure(run)
    if f: violation = dict(kind="input", failure=f, run=run.get("cmd"), refuted=[e["head"] + " @ " + str(e["fn"]) for e in refuted])
    elif refuted:
        # an obligation of the current source is refuted: look harder for a failing input
        if hres.get("build_ok"):
            for s in range(1, 4):
                r2 = run_harness(SEED + 1000 * s, 20)
                if "crash" in r2 and not r2.get("failure"): r2["failure"] = dict(index=None, input="?", message=r2["crash"])
                f = eff_failure(r2)
                if f: violation = dict(kind="input", failure=f, run=r2.get("cmd"), refuted=[e["head"] + " @ " + str(e["fn"]) for e in refuted]); break
        if not violation: violation = dict(kind="obligation", refuted=[e["head"] + " @ " + str(e["fn"]) for e in refuted], verifier_output="\n\n".join(e["text"] for e in refuted)[:20000])

    proved = not undecided and not refuted
    fixed = [k for k in known if k["property"] == PID and k["status"] == "fixed"]
    level = C.get("level", "proof") if proved else "other"
    assumed = assumptions(vres)
    cov = dict(
        obligations=obl, discharged=disch if not (refuted or undecided) else min(disch, max(obl - 1, 0)),
        obligation_kinds=kinds, functions_under_contract=fns, functions_verified_by_verus=sum(r["verified"] for r in vres.get("files", [])),
        checker_cmd="; ".join([r["cmd"] for r in vres.get("files", []) if r["cmd"]] + ([kres["cmd"]] if kres.get("cmd") else [])) or "none",
        trusted_base=assumed + C.get("trusted", []),
        back_ends=dict(verus="Verus 0.2026.09.13 / Z3 (bundled)", kani=("Kani 0.68 / CBMC" if C.get("kani") else None)),
        smt_ms=smt_ms, kani_solver_s=kres.get("time"), kani_checks=kres.get("checks"),
        vacuity_canary=dict(functions=sum(c["n"] for c in vres.get("canary", [])), refuted=sum(c["refuted"] for c in vres.get("canary", []))),
        bounded_standins=C.get("bounded", []),
        undecided=undecided,
        explanation=("all obligations discharged on the current source" if proved else "NOT proved on this tree (%s); the bounded companion stands in" % "; ".join(undecided or ["obligation refuted"])),
        evaluations=run.get("evaluations", 0), distinct_nontrivial=run.get("distinct_nontrivial", 0),
        rule="companion (bounded, never counted as proved): the executable contracts run against the real crate on seeded small-scope inputs; non-trivial = distinct written-out inputs. " + C.get("rule", ""),
        samples=run.get("samples", []),
    )
    ev = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=C.get("assumptions", []) , wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(V, "evidence", PID + ".json"), "w"), indent=1)

    for k in listed.values(): print("KNOWN-FINDING: property=%s %s" % (PID, k["what"]))
    for u in undecided: print("UNDECIDED: %s" % u)
    for e in refuted: print("FAILED OBLIGATION: %s in %s" % (e["head"], e["fn"]))
    print("%s: %d/%d obligations discharged, %d functions, %d companion cases (%d distinct), %.1f s" % (PID, cov["discharged"], obl, len(fns), cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))
    if violation:
        rp = os.path.join(V, "evidence", "replay_%s.json" % PID)
        violation["how_to_replay"] = "run the command in 'run' with --only <index> (its binary is built by this check; C30: /verif/harness30, others: /verif/harness)" if violation["kind"] == "input" else "verus output attached; no failing input was found"
        json.dump(violation, open(rp, "w"), indent=1)
        if violation["kind"] == "input":
            print("  input:   %s" % violation["failure"]["input"][:600]); print("  message: %s" % violation["failure"]["message"][:600])
        print("VIOLATION property=%s replay=%s%s" % (PID, rp, "" if violation["kind"] == "input" else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)

def load_known():
    p = os.path.join(V, "known_findings.jsonl")
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def assumptions(vres):
    """every assumed contract that is in the verified file, read from the generated text of this run"""
    out = []
    for r in vres.get("files", []):
        lines = r["full"].split("\n")
        used = {i["name"].split("::")[-1]: i for i in r["info"] if i.get("uses")}
        for i in used.values(): out.append("contract of %s::%s, discharged by the check of %s" % (i["file"], i["name"], i["uses"].replace(".vs", "")))
        for i, l in enumerate(lines):
            if "external_body" in l and "//" not in l.split("external_body")[0]:
                for k in range(i, min(i + 4, len(lines))):
                    m = re.search(r"\b(fn|struct)\s+(\w+)", lines[k])
                    if m:
                        if m.group(2) not in used: out.append("assumed contract: %s %s" % (m.group(1), m.group(2)))
                        break
            m = re.search(r"assume_specification(?:<[^>]*>)?\s*\[\s*([^\]]*(?:\[T\])?[^\]]*)\]", l)
            if m: out.append("assumed std contract: " + m.group(1).strip())
            m = re.search(r"\baxiom fn (\w+)", l)
            if m: out.append("axiom: " + m.group(1))
            if re.search(r"\b(assume|admit)\s*\(", l) and "canary" not in l: out.append("ASSUME: " + l.strip()[:160])
    seen = []
    for o in out:
        if o not in seen: seen.append(o)
    if seen: seen.append("extraction rewrites G1-G18 of vx/extract.py and the `subst` entries of " + ", ".join(C.get("verus", [])))
    return seen

main()
