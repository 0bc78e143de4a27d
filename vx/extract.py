"""Mechanical extraction of functions of /repo/src into a Verus file.

Every run: tokenise the *current* source, cut the named items out verbatim, apply the fixed list of rewrites below,
insert the contracts / invariants / proof text of the annotation file (*.vs) and write one Verus crate.

Global rewrites (each meaning-preserving or adding an obligation):
  G1  attributes and comments are dropped (cfg'd-out rayon twins are separate functions and never selected)
  G2  `-> T` becomes `-> (r: T)` so that the postcondition can name the result
  G3  `unsafe { B }` becomes `{ B }`: the unsafe callee's safety precondition is a `requires` of its stand-in
  G4  assert!(c)/debug_assert!(c) -> `if !(c) { vpanic(); }`, panic!/unreachable!/todo! -> `vpanic()`;
      vpanic() requires false, so "never panics" becomes an obligation.  assert_eq!/assert_ne! likewise.
  G5  `for &p in E {B}` -> `for p__r in E { let p = *p__r; B}`;  `for (a, b) in E {B}` -> `for t__k in E { let (a, b) = t__k; B}`;
      a closure whose contract names its argument q__: `|(a, b)| B` -> `|q__| { let (a, b) = q__; B }`
  G6  `crate::a::b::f` paths lose their module prefix (the output is one flat module)
  G8  the k-th loop `for p in A..B` has its bounds named: `let start__k = A; let end__k = B; for p in start__k..end__k`
      (same for `A..=B` and `(A..B).rev()`); Rust evaluates both once before the loop, so this is the same program
  G9  `for p in I.iter_mut()` (I an image), `I.pixels()`, `I.pixels_mut()`, `I.enumerate_pixels()`: the loop over the image-crate
      iterator becomes an index loop over its documented row-major order, `for k__n in 0..I.len_px() { let p = I.<item>(k__n); .. }`
  G10 the associated constant `P::CHANNEL_COUNT` becomes the call `P::channel_count()` (contract: equals the constant)
  G11 `b |= E;` on a bool `b` (section `@ boolor`) becomes `b = bor(b, E);` (both operands evaluated, as in Rust)
  G12 `for .. { .. if c { continue; } REST }` becomes `for .. { .. if c { } else { REST } }`; in nested if/else blocks it sets a flag that guards REST
  G13 `for _ in` becomes `for u__k in` (so that invariants can mention the counter)
  G14 `format!(..)` (error messages) becomes `vfmt()`, an arbitrary String
  G15 (directive `@@ inline FILE PATH`) calls `recv.f(args.., |p..| B)` of the named higher-order method are beta-reduced: the callee's current
      body is placed at the call with its parameters bound to the arguments and each `for_each(a..)` replaced by `{ let (p..) = (a..); B }`;
      refused if a variable of B would be captured by a local of the callee, or if B or the callee contains `return`
  G16 `x op= E;` (op in + - * /) for the float variables (or fields of self) listed in `@ floats` becomes `x = x op (E);`
  G17 (section `@ unchecked`) `*E.get_unchecked(i)` / `*E.get_unchecked_mut(i)` becomes `E[i]`, without the `*` `(&E[i])` / `(&mut E[i])`:
      the safety condition of the unchecked access becomes the bounds obligation of the indexing
  G18 (section `@ maypanic`) the function's own panics become `vhalt()`, which may be reached and never returns: the postcondition then
      states what holds whenever the function returns (used for constructors whose documented contract is "panics unless ..")
  G7  visibility `pub(crate)`/none -> `pub`
"""
import re, os, sys
from rtok import tokenize, match_close, items, OPEN

class Lost(Exception):
    pass

SRC = os.environ.get("REPO_SRC", "/repo/src")
_cache = {}
def load(fn):
    if fn not in _cache:
        p = os.path.join(SRC, fn)
        if not os.path.exists(p): raise Lost("file %s not found" % fn)
        s = open(p).read()
        for path in INLINE.get(fn, []): s = inline_hof(s, path, fn)
        t = tokenize(s)
        _cache[fn] = (s, t, items(t))
    return _cache[fn]

INLINE = {}
def split_args(t, a, b):
    """token ranges of the comma-separated pieces of t[a:b]"""
    out, i, st = [], a, a
    while i < b:
        if t[i].k == "p" and t[i].s in OPEN: i = match_close(t, i)
        elif t[i].s == "|" and t[i-1].s in (",", "(", "move"):
            i += 1
            while t[i].s != "|": i += 1
        elif t[i].s == ",": out.append((st, i)); st = i + 1
        i += 1
    if st < b: out.append((st, b))
    return out

def inline_hof(s, path, fn):
    """G15"""
    t = tokenize(s)
    norm = lambda p: re.sub(r"\s+", "", p)
    c = [x for x in items(t) if x.kind == "fn" and norm(x.path) == norm(path)]
    if len(c) != 1 or c[0].body is None: raise Lost("%s not found in %s" % (path, fn))
    it = c[0]; ty = path.split("::")[-2]
    po = it.fn + 2
    ps = split_args(t, po + 1, match_close(t, po))
    pats = []
    for a, b in ps:
        if "self" in [x.s for x in t[a:b]]: continue
        k = a
        while t[k].s != ":":
            if t[k].k == "p" and t[k].s in OPEN: k = match_close(t, k)
            k += 1
        pats.append((a, k, k + 1, b))
    fa, fk, fb, fe = pats.pop()
    fname = [x.s for x in t[fa:fk] if x.s != "mut"][0]
    q = fb
    while t[q].s != "(": q += 1
    arity = len(split_args(t, q + 1, match_close(t, q)))
    b0, b1 = it.body + 1, it.b - 1
    body = t[b0:b1]
    if any(x.s in ("return", "?") for x in body): raise Lost("%s cannot be inlined" % path)
    bound = {x.s for x in t[pats[0][0]:fk] if x.k == "id"} if pats else {fname}
    for i in range(b0, b1):
        if t[i].s in ("let", "for"):
            k = i + 1
            while t[k].s not in ("=", "in", ";"):
                if t[k].k == "id": bound.add(t[k].s)
                k += 1
    ed = Edits()
    for i in range(0, len(t) - 2):
        if not (t[i].s == "." and t[i+1].s == it.name and t[i+2].s == "("): continue
        e = match_close(t, i + 2)
        args = split_args(t, i + 3, e)
        ca, cb = args[-1]
        if t[ca].s == "move": ca += 1
        if t[ca].s != "|": raise Lost("call of %s without a closure" % it.name)
        k = ca + 1
        while t[k].s != "|": k += 1
        cps = split_args(t, ca + 1, k)
        if len(cps) != arity: continue
        if t[i-1].k != "id" or t[i-2].s == ".": raise Lost("receiver of %s" % it.name)
        recv = t[i-1].s
        cbody = s[t[k+1].a:t[cb-1].b]
        params = {x.s for x in t[ca+1:k]}
        for x in t[k+1:cb]:
            if x.s == "return": raise Lost("closure with return")
            if x.k == "id" and x.s in bound and x.s not in params: raise Lost("capture of %s" % x.s)
        pl = "(" + ", ".join(s[t[a].a:t[b-1].b] for a, b in cps) + ")"
        sub = Edits()
        j = b0
        while j < b1:
            if t[j].s == "self": sub.rep(t[j].a, t[j].b, recv)
            elif t[j].s == "Self": sub.rep(t[j].a, t[j].b, ty)
            elif t[j].s == fname and t[j+1].s == "(":
                z = match_close(t, j + 1)
                if any(x.s == fname for x in t[j+1:z]): raise Lost("nested " + fname)
                sub.rep(t[j].a, t[j].b, "{ let " + pl + " = ")
                sub.ins(t[z].b, "; " + cbody + " }")
            elif t[j].s == fname: raise Lost("%s escapes" % fname)
            j += 1
        pre = "".join("let %s = %s; " % (s[t[a].a:t[b-1].b], s[t[x].a:t[y-1].b]) for (a, b, _, _), (x, y) in zip(pats, args))
        ed.rep(t[i-1].a, t[e].b, "{ " + pre + sub.apply(s, t[b0].a, t[b1-1].b) + " }")
    return ed.apply(s, 0, len(s))

def parse_vs(path, seen=None):
    """-> list of entries: ('text', txt) | dict(fn..)"""
    if seen is None: seen = set()
    entries = []
    cur = None
    sub = None
    def flush(): pass
    for ln, line in enumerate(open(path).read().split("\n"), 1):
        if line.startswith("@@"):
            d = line[2:].split()
            sub = None
            if d[0] == "include":
                p2 = os.path.join(os.path.dirname(path), d[1])
                if os.path.realpath(p2) not in seen:   # each file enters once
                    seen.add(os.path.realpath(p2))
                    entries.extend(parse_vs(p2, seen) if d[1].endswith(".vs") else [dict(kind="text", lines=open(p2).read().split("\n"), src=d[1])])
                cur = None
            elif d[0] == "uses":   # contracts discharged by the check of the other file
                es = parse_vs(os.path.join(os.path.dirname(path), d[1]), seen)
                for x in es:
                    if x["kind"] == "fn": x["uses"] = x.get("uses") or d[1]
                entries.extend(es); cur = None
            elif d[0] == "text":
                cur = dict(kind="text", lines=[], src=os.path.basename(path)); entries.append(cur)
            elif d[0] in ("fn", "struct", "const", "enum"):
                cur = dict(kind=d[0], file=d[1], path=" ".join(d[2:]), subs=[], vs="%s:%d" % (os.path.basename(path), ln)); entries.append(cur)
            elif d[0] == "end":
                cur = None
            elif d[0] == "inline":
                entries.append(dict(kind="inline", file=d[1], path=d[2])); cur = None
            else: raise Exception("%s:%d bad directive %s" % (path, ln, line))
        elif cur is None:
            continue
        elif cur["kind"] == "text":
            cur["lines"].append(line)
        elif line.startswith("@ "):
            sub = [line[2:].strip(), []]
            cur["subs"].append(sub)
        elif sub is not None:
            sub[1].append(line)
    return entries

def subtext(e, name):
    for k, v in e["subs"]:
        if k == name: return "\n".join(v)
    return None

def find_item(fn, path, kinds):
    s, t, its = load(fn)
    norm = lambda p: re.sub(r"\s+", "", p)
    c = [x for x in its if x.kind in kinds and norm(x.path) == norm(path)]
    c = [x for x in c if not any("cfg" in a and ("rayon" in a or "test" in a) and "not" not in a for a in x.attrs)] or c
    if not c: raise Lost("%s %s not found in %s" % (kinds[0], path, fn))
    if len(c) > 1: raise Lost("%s ambiguous in %s" % (path, fn))
    return s, t, c[0]

class Edits:
    def __init__(self): self.e = []
    def rep(self, a, b, txt, pri=0): self.e.append((a, b, txt, pri, len(self.e)))
    def ins(self, a, txt, pri=0): self.rep(a, a, txt, pri)
    def apply(self, s, a, b):
        out, pos = [], a
        for (x, y, txt, pri, n) in sorted(self.e, key=lambda e: (e[0], e[1] != e[0], e[3], e[4])):
            if x < a or y > b: continue
            if x < pos: raise Lost("overlapping rewrites near %r" % s[x:x+40])
            out.append(s[pos:x]); out.append(txt); pos = y
        out.append(s[pos:b])
        return "".join(out)

def find_pat(toks, i0, i1, pat):
    """all start indices where the token texts of pat occur in toks[i0:i1]"""
    pt = [x.s for x in tokenize(pat)]
    res = []
    i = i0
    while i + len(pt) <= i1:
        if all(toks[i+k].s == pt[k] for k in range(len(pt))):
            res.append(i); i += len(pt)
        else: i += 1
    return res, len(pt)

def loops_in(toks, i0, i1):
    """(kw index, body-open index) in source order"""
    out = []
    i = i0
    while i < i1:
        t = toks[i]
        if t.k == "id" and t.s in ("for", "while", "loop") and not (t.s == "for" and toks[i+1].s == "<"):
            j = i + 1
            while toks[j].s != "{":
                if toks[j].k == "p" and toks[j].s in ("(", "["): j = match_close(toks, j)
                j += 1
            out.append((i, j))
        i += 1
    return out

def closures_in(toks, i0, i1):
    """(start '|', end '|' index, body start idx, body end idx exclusive)"""
    out = []
    i = i0
    while i < i1:
        t = toks[i]
        if t.s in ("|", "||") and toks[i-1].s in ("(", ",", "=", "=>", "{", ";", "return", "move", "&"):
            if t.s == "||": e = i
            else:
                e = i + 1
                while toks[e].s != "|":
                    if toks[e].s in ("(", "["): e = match_close(toks, e)
                    e += 1
            bs = e + 1
            if toks[bs].s == "{":
                be = match_close(toks, bs) + 1
                # `{..}.foo` is not expected
            else:
                be = bs; 
                while True:
                    x = toks[be].s
                    if x in OPEN and toks[be].k == "p": be = match_close(toks, be) + 1; continue
                    if x in (",", ")", ";", "}", "]"): break
                    be += 1
            out.append((i, e, bs, be))
            i = e + 1
            continue
        i += 1
    return out

def emit_sig(s, t, it, e):
    """source signature text with named result"""
    i0, i1 = it.fn, (it.body if it.body is not None else it.b - 1)
    ed = Edits()
    # find '->' at depth 0 after params
    j = i0 + 2
    if t[j].s == "<":
        from rtok import skip_generics
        j = skip_generics(t, j)
    j = match_close(t, j) + 1
    if t[j].s == "->":
        k = j + 1
        while k < i1 and t[k].s != "where":
            if t[k].k == "p" and t[k].s in OPEN: k = match_close(t, k)
            k += 1
        ed.ins(t[j+1].a, "(r: "); ed.ins(t[k-1].b, ")")
    for i in range(i0, i1):
        if t[i].s == "crate" and t[i+1].s == "::":
            q = i
            while t[q+1].s == "::" and t[q+2].k == "id" and (q == i or t[q].s.islower()): q += 2
            while not False and t[q].s.islower() and t[q].s != "crate" and False: q += 2
            ed.rep(t[i].a, t[q].a, "")
    # comments inside the signature are dropped by construction (ed works on raw text) -- strip them
    txt = ed.apply(s, t[i0].a, t[i1-1].b)
    return re.sub(r"//[^\n]*", "", txt)

def norm(txt): return " ".join(x.s for x in tokenize(txt))

def emit_fn(e, lost=None):
    """returns text; lost: reason -> emit as assumed external_body"""
    s, t, it = find_item(e["file"], e["path"], ("fn",))
    if it.body is None: raise Lost("no body: " + e["path"])
    b0, b1 = it.body, it.b - 1
    ed = Edits()
    subs = e["subs"]
    sig = None
    for k, v in subs:
        if k == "sig":
            txt = "\n".join(v)
            want, repl = txt.split("=>>")
            have = norm(s[t[it.fn].a:t[b0-1].b])
            if norm(want) != have: raise Lost("signature changed: %s" % have)
            sig = repl.strip()
    if sig is None: sig = emit_sig(s, t, it, e)
    for k, v in subs:
        if k.startswith("sigsub "):
            a, b = k[7:].split("=>>")
            a2 = r"\s+".join(re.escape(w) for w in a.split())
            if not re.search(a2, sig): raise Lost("signature changed (no %r)" % a)
            sig = re.sub(a2, lambda m: b.strip(), sig)
    name = None
    for k, v in subs:
        if k.startswith("as "):
            sig = re.sub(r"^fn\s+\w+", "fn " + k[3:].strip(), sig)
    spec = subtext(e, "spec") or ""
    opts = subtext(e, "opts")
    if opts is None: opts = "#[verifier::loop_isolation(false)]"
    if lost is None:
        # ---- global rewrites
        taken = []
        for k, v in subs:
            if k == "subst":
                pat, repl = "\n".join(v).split("=>>")
                hits, n = find_pat(t, b0, b1 + 1, pat)
                if not hits: raise Lost("expected code not found: %s" % norm(pat))
                for h in hits:
                    taken.append((h, h + n)); ed.rep(t[h].a, t[h+n-1].b, repl.strip())
            elif k == "subst?":
                pat, repl = "\n".join(v).split("=>>")
                hits, n = find_pat(t, b0, b1 + 1, pat)
                for h in hits:
                    taken.append((h, h + n)); ed.rep(t[h].a, t[h+n-1].b, repl.strip())
        inside = lambda i: any(a <= i < b for a, b in taken)
        floats = (subtext(e, "floats") or "").split()
        boolor = (subtext(e, "boolor") or "").split()
        uncheck = subtext(e, "unchecked") is not None
        VP = "vhalt()" if subtext(e, "maypanic") is not None else "vpanic()"   # G18
        i = b0
        while i < b1:
            x = t[i]
            if inside(i): i += 1; continue
            if x.s == "#" and t[i+1].s == "[":
                q = match_close(t, i + 1)
                ed.rep(x.a, t[q].b, ""); i = q + 1; continue
            if x.s == "unsafe" and t[i+1].s == "{":
                ed.rep(x.a, x.b, ";" if t[i-1].s == "}" else "")
            if x.s in ("assert", "debug_assert") and t[i+1].s == "!":
                q = match_close(t, i + 2)
                d, c = 0, None
                m = i + 3
                while m < q:
                    if t[m].k == "p" and t[m].s in OPEN: m = match_close(t, m)
                    elif t[m].s == ",": c = m; break
                    m += 1
                ed.rep(x.a, t[i+2].b, "if !(")
                ed.rep(t[(c if c else q)].a, t[q].b, ") { %s; }" % ("vpanic()" if x.s.startswith("debug") else VP))
                if t[q+1].s == ";": ed.rep(t[q+1].a, t[q+1].b, "")
                i += 3; continue
            if x.s in ("assert_eq", "assert_ne", "debug_assert_eq") and t[i+1].s == "!":
                q = match_close(t, i + 2)
                cs = []
                m = i + 3
                while m < q:
                    if t[m].k == "p" and t[m].s in OPEN: m = match_close(t, m)
                    elif t[m].s == ",": cs.append(m)
                    m += 1
                ed.rep(x.a, t[i+2].b, "if " + ("!((" if x.s != "assert_ne" else "(("))
                ed.rep(t[cs[0]].a, t[cs[0]].b, ") == (")
                ed.rep(t[(cs[1] if len(cs) > 1 else q)].a, t[q].b, ")) { %s; }" % ("vpanic()" if x.s.startswith("debug") else VP))
                if t[q+1].s == ";": ed.rep(t[q+1].a, t[q+1].b, "")
                i += 3; continue
            if x.s in ("panic", "unreachable", "todo", "unimplemented") and t[i+1].s == "!":
                q = match_close(t, i + 2)
                ed.rep(x.a, t[q].b, VP)
                i = q + 1; continue
            if x.s == "format" and t[i+1].s == "!":   # G14
                q = match_close(t, i + 2)
                ed.rep(x.a, t[q].b, "vfmt()")
                i = q + 1; continue
            if x.s in ("+=", "-=", "*=", "/=") and t[i-1].s in floats and (t[i-2].s in ("{", ";", "}") or (t[i-2].s == "." and t[i-3].s == "self" and t[i-4].s in ("{", ";", "}"))):   # G16
                q = i + 1
                while t[q].s not in (";", "}"):
                    if t[q].k == "p" and t[q].s in OPEN: q = match_close(t, q)
                    q += 1
                ed.rep(x.a, x.b, "= %s%s %s (" % ("self." if t[i-2].s == "." else "", t[i-1].s, x.s[0])); ed.ins(t[q-1].b, ")", -9)
                i += 1; continue
            if uncheck and x.s in ("get_unchecked", "get_unchecked_mut") and t[i-1].s == "." and t[i+1].s == "(":   # G17
                r0 = i - 2
                while True:
                    if t[r0].s in (")", "]"):
                        q = r0 - 1
                        while not (t[q].k == "p" and t[q].s in OPEN and match_close(t, q) == r0): q -= 1
                        if t[q-1].k == "id" or t[q-1].s in (")", "]"): r0 = q - 1; continue
                        r0 = q; break
                    if t[r0].k == "id" and t[r0-1].s in (".", "::"): r0 -= 2; continue
                    if t[r0].k in ("num", "int", "lit") and t[r0-1].s == ".": r0 -= 2; continue
                    break
                q = match_close(t, i + 1)
                ed.rep(t[i-1].a, t[i+1].b, "["); ed.rep(t[q].a, t[q].b, "]")
                if t[r0-1].s == "*" and t[r0-2].s in (";", "{", "}", "=", "(", ",", "+=", "-=", "return", "+", "-", "<", ">", "=="): ed.rep(t[r0-1].a, t[r0-1].b, "")
                else: ed.ins(t[r0].a, "(&mut " if x.s.endswith("_mut") else "(&", 3); ed.ins(t[q].b, ")", -8)
                i += 1; continue
            if x.s == "|=" and t[i-1].s in boolor:
                q = i + 1
                while t[q].s != ";":
                    if t[q].k == "p" and t[q].s in OPEN: q = match_close(t, q)
                    q += 1
                ed.rep(x.a, x.b, "= bor(%s," % t[i-1].s); ed.ins(t[q].a, ")", 5)
                i += 1; continue
            if x.s == "CHANNEL_COUNT" and t[i-1].s == "::":
                ed.rep(x.a, x.b, "channel_count()"); i += 1; continue
            if x.s == "crate" and t[i+1].s == "::":
                q = i + 2
                while t[q+1].s == "::" and t[q].s.islower(): q += 2
                ed.rep(x.a, t[q].a, "")
                i = q; continue
            i += 1
        lps = alllps = loops_in(t, b0, b1)
        want = set()
        for k, v in subs:
            m = re.match(r"loop (\d+)", k)
            if m: want.add(int(m.group(1)))
        nl = subtext(e, "loops")
        nl = int(nl) if nl else len(want)
        dropped = [i for i, (k, b) in enumerate(lps) if inside(k)]
        lps = [l for i, l in enumerate(lps) if i not in dropped]
        if len(lps) != nl: raise Lost("loop structure changed: %d loops, contracts for %d" % (len(lps), nl))
        images = (subtext(e, "images") or "image out").split()
        for n, (kw, bo) in enumerate(lps):
            # G5
            if t[kw].s == "for" and t[kw+1].s == "&" and t[kw+3].s == "in":
                v = t[kw+2].s
                ed.rep(t[kw+1].a, t[kw+2].b, v + "__r")
                ed.ins(t[bo].b, " let %s = *%s__r; " % (v, v), -5)
            if t[kw].s == "for":
                if t[kw+1].s == "_" and t[kw+2].s == "in": ed.rep(t[kw+1].a, t[kw+1].b, "u__%d" % n)   # G13
                j = kw + 1
                while t[j].s != "in":
                    if t[j].k == "p" and t[j].s in OPEN: j = match_close(t, j)
                    j += 1
                lo, hi = j + 1, bo
                if hi - lo == 5 and t[lo].k == "id" and t[lo+1].s == "." and t[lo+3].s == "(" and (t[lo+2].s in ("pixels", "pixels_mut", "enumerate_pixels") or (t[lo+2].s == "iter_mut" and t[lo].s in images)):
                    im = t[lo].s; meth = {"pixels": "px_at", "pixels_mut": "px_at_mut", "enumerate_pixels": "enum_at", "iter_mut": "sub_at_mut"}[t[lo+2].s]
                    pat = s[t[kw+1].a:t[j-1].b]
                    ed.ins(t[kw].a, "let end__%d = %s.len_px();\n" % (n, im), 0)
                    ed.rep(t[kw+1].a, t[hi-1].b, "k__%d in 0..end__%d" % (n, n), 9)
                    ed.ins(t[bo].b, " let %s = %s.%s(k__%d); " % (pat, im, meth, n), -5)
                    continue
                if t[kw+1].s == "(":   # G5, tuple pattern
                    pat = s[t[kw+1].a:t[j-1].b]
                    ed.rep(t[kw+1].a, t[j-1].b, "t__%d" % n)
                    ed.ins(t[bo].b, " let %s = t__%d; " % (pat, n), -5)
                if t[lo].s == "(" and t[match_close(t, lo) + 1].s == "." and t[match_close(t, lo) + 2].s == "rev": hi = match_close(t, lo); lo += 1
                dots, m = [], lo
                while m < hi:
                    if t[m].k == "p" and t[m].s in OPEN: m = match_close(t, m)
                    elif t[m].s in ("..", "..="): dots.append(m)
                    m += 1
                if len(dots) == 1 and dots[0] > lo and dots[0] < hi - 1 and not any(inside(q) for q in range(lo, hi)):
                    d = dots[0]
                    st = kw - 2 if (t[kw-1].s == ":" and t[kw-2].k == "life") else kw
                    def cut(x, y):
                        sub = Edits(); sub.e = [z for z in ed.e if x <= z[0] and z[1] <= y]
                        ed.e = [z for z in ed.e if not (x <= z[0] and z[1] <= y)]
                        return sub.apply(s, x, y)
                    A = cut(t[lo].a, t[d-1].b); B = cut(t[d+1].a, t[hi-1].b)
                    ed.ins(t[st].a, "let end__%d = %s; let start__%d = %s;\n" % (n, B, n, A), 0)
                    ed.rep(t[lo].a, t[hi-1].b, "start__%d%send__%d" % (n, t[d].s, n), 9)
        # G12
        conts = {}
        for i in range(b0, b1):
            if t[i].s == "continue" and t[i+1].s == ";" and not inside(i):
                # enclosing block must be exactly `{ continue; }` of an `if` directly inside a `for` body
                encl = [(kw, bo) for kw, bo in alllps if bo < i < match_close(t, bo)]
                if not encl: continue
                kw, bo = max(encl, key=lambda z: z[1])
                if t[kw].s != "for" or inside(kw): continue
                # simple form: the `if` statement is a direct child of the loop body, its block is exactly `{ continue; }`, and it has no else
                m, ok = bo + 1, False
                while m < match_close(t, bo):
                    if m == i - 1: ok = True; break
                    if t[m].k == "p" and t[m].s in OPEN: m = match_close(t, m)
                    m += 1
                if not (ok and t[i-1].s == "{" and t[i+2].s == "}" and t[i+3].s != "else"):
                    # general form: the last statement of nested if/else blocks in tail position of a statement of the loop body
                    if t[i+2].s != "}": raise Lost("continue in an unsupported position")
                    c, end = i + 2, match_close(t, bo)
                    while True:
                        q = c + 1
                        while t[q].s == "else":
                            while t[q].s != "{": q += 1
                            q = match_close(t, q) + 1
                        # does the block that closes at c belong directly to the loop body?
                        depth_open = [z for z in range(bo + 1, c) if t[z].k == "p" and t[z].s in OPEN and match_close(t, z) >= q]
                        if not depth_open: break
                        if t[q].s != "}": raise Lost("continue in an unsupported position")
                        c = q
                    if q >= end: ed.rep(t[i].a, t[i+1].b, ""); continue
                    flag = "cont__%d" % bo
                    if bo not in conts: conts[bo] = set(); ed.ins(t[bo].b, " let mut %s = false; " % flag, -5)
                    ed.rep(t[i].a, t[i+1].b, "%s = true;" % flag)
                    if q not in conts[bo]:
                        conts[bo].add(q); ed.ins(t[q].a, "if !%s {" % flag, -7); ed.ins(t[end].a, "}", -6)
                    continue
                ed.rep(t[i].a, t[i+1].b, "")
                ed.ins(t[i+2].b, " else {", -6); ed.ins(t[match_close(t, bo)].a, "}", -6)
        def endpos(bo): return t[match_close(t, bo)].a
        for k, v in subs:
            txt = "\n".join(v)
            m = re.match(r"loop (\d+)(?: (begin|end|before|after))?(?: iter (\w+))?$", k)
            if m:
                n = int(m.group(1))
                if n >= len(lps): raise Lost('%s: loop %d' % (e.get('name', '?') if isinstance(e, dict) else '?', n))
                kw, bo = lps[n]
                st = kw
                if t[kw-1].s == ":" and t[kw-2].k == "life": st = kw - 2
                if m.group(3):
                    j = kw + 1
                    while t[j].s != "in": j += 1
                    ed.ins(t[j].b, " " + m.group(3) + ":")
                w = m.group(2)
                if w is None: ed.ins(t[bo].a, "\n" + txt + "\n")
                elif w == "begin": ed.ins(t[bo].b, "\n" + txt + "\n")
                elif w == "end": ed.ins(endpos(bo), (";" if t[match_close(t, bo)-1].s not in (";", "}", "{") else "") + "\n" + txt + "\n")   # a unit tail expression becomes a statement
                elif w == "before": ed.ins(t[st].a, "\n" + txt + "\n", 1)
                elif w == "after": ed.ins(t[match_close(t, bo)].b, "\n" + txt + "\n")
                continue
            if k == "begin": ed.ins(t[b0].b, "\n" + txt + "\n", -1)
            if k == "end": ed.ins(t[b1].a, "\n" + txt + "\n", 9)
            if k == "ret":
                # the body becomes `let r = { body }; <text> r`: ghost code that can name the value of the tail expression
                ed.ins(t[b0].b, "\nlet r = {\n", -0.5); ed.ins(t[b1].a, "\n};\n" + txt + "\nr\n", 9)
            if k == "tail":
                # before the tail expression: position after last ';' or '}' at depth 1
                j, last = b0 + 1, b0
                while j < b1:
                    if t[j].k == "p" and t[j].s in OPEN:
                        q = match_close(t, j)
                        if t[j].s == "{" and q + 1 < b1 and t[q+1].s not in (".", "?", ")", ",", "else", ";", "&&", "||", "+", "-", "*", "/", "==", "as"):
                            last = q
                        j = q + 1; continue
                    if t[j].s == ";": last = j
                    j += 1
                ed.ins(t[last].b, "\n" + txt + "\n", 9)
            m = re.match(r"(after|before)( #(\d+))? (.*)$", k)
            if m:
                hits, n = find_pat(t, b0, b1 + 1, m.group(4))
                if not hits: raise Lost("expected statement not found: %s" % m.group(4))
                h = hits[int(m.group(3) or 0)]
                ed.ins(t[h+n-1].b if m.group(1) == "after" else t[h].a, "\n" + txt + "\n")
            m = re.match(r"closure (\d+)(!)?$", k)
            if m:
                cl = closures_in(t, b0, b1)
                n = int(m.group(1))
                if n >= len(cl): raise Lost("closure %d not found" % n)
                a, b_, bs, be = cl[n]
                ed.rep(t[a].a, t[b_].b, txt.strip() + " ", 5)
                # a pattern parameter: the source's own pattern is bound first in the body (q__ names the whole argument)
                pat = "let %s = q__; " % s[t[a].b:t[b_].a].strip() if "q__" in txt else ""
                if t[bs].s != "{":
                    ed.ins(t[bs].a, "{ " + pat); ed.ins(t[be-1].b, " }")
                elif pat: ed.ins(t[bs].b, pat)
        body = ed.apply(s, t[b0].a, t[b1].b)
        body = "/*BODY*/" + strip_comments(body)
    else:
        body = "{ unimplemented!() }"
        opts = "#[verifier::external_body]"
    if e.get("uses") and subtext(e, "const") is None: body = "{ unimplemented!() }"; opts = "#[verifier::external_body]"
    txt = "%s\npub %s\n%s\n%s\n" % (opts, sig, spec, body)
    if subtext(e, "const") is not None: txt = txt.replace("\npub fn", "\npub const fn", 1)   # evaluated in the crate's constants
    if subtext(e, "nopub") is not None: txt = txt.replace("\npub fn", "\nfn", 1)
    if it.implhdr:
        h = subtext(e, "hdr")
        hdr = h if h is not None else s[it.implhdr[0]:it.implhdr[1]]
        if hdr.strip() != "none":
            if " for " in hdr: txt = txt.replace("\npub fn", "\nfn", 1)
            txt = hdr.strip() + " {\n" + txt + "}\n"
    return txt

def strip_comments(txt):
    # comments of the *source*; annotation text uses /*@ */ never
    out, i, n = [], 0, len(txt)
    for ln in txt.split("\n"):
        # remove // outside strings (sources extracted here have no '//' inside strings)
        j = ln.find("//")
        if j >= 0 and '"' not in ln[:j]: ln = ln[:j]
        out.append(ln)
    return "\n".join(out)

def emit_other(e):
    s, t, it = find_item(e["file"], e["path"], (e["kind"],))
    ed = Edits()
    i = it.a
    while i < it.b:
        if t[i].s == "#" and t[i+1].s == "[":
            q = match_close(t, i + 1); ed.rep(t[i].a, t[q].b, ""); i = q + 1; continue
        i += 1
    for k, v in e["subs"]:
        if k == "subst":
            pat, repl = "\n".join(v).split("=>>")
            hits, n = find_pat(t, it.a, it.b, pat)
            if not hits: raise Lost("expected code not found: %s" % norm(pat))
            for h in hits: ed.rep(t[h].a, t[h+n-1].b, repl.strip())
    txt = strip_comments(ed.apply(s, t[it.a].a, t[it.b-1].b))
    txt = re.sub(r"^pub\s*\([^)]*\)", "pub", txt)
    if not txt.startswith("pub"): txt = "pub " + txt
    if e["kind"] == "const" and subtext(e, "spec") is not None:   # an exec const with a postcondition
        h, b = txt.split("=", 1)
        txt = h.replace("pub const", "pub exec const", 1).rstrip() + "\n" + subtext(e, "spec") + "\n{ " + b.rstrip().rstrip(";") + " }"
    if e["kind"] == "const" and it.implhdr: txt = s[it.implhdr[0]:it.implhdr[1]].strip() + " { " + txt + " }"
    if e["kind"] == "struct" and "{" not in txt:   # tuple struct
        txt = re.sub(r"\((?!pub)", "(pub ", txt, count=1)
    if e["kind"] == "struct" and "{" in txt:   # fields public so that open specs may mention them
        h, b = txt.split("{", 1)
        b = re.sub(r"\bpub\s*\(\s*(crate|super)\s*\)", "pub", b)
        b = re.sub(r"(^|[{,])(\s*)(?!pub\b)([a-z_][A-Za-z0-9_]*\s*:)(?!:)", r"\1\2pub \3", b)
        txt = h + "{" + b
    return (subtext(e, "opts") or "") + "\n" + txt + "\n"

def called_helpers(e, known):
    """free functions of the same file that the extracted body calls and that have no contract here"""
    s, t, it = find_item(e["file"], e["path"], ("fn",))
    _, _, its = load(e["file"])
    names = {x.name for x in its if x.kind == "fn"}
    res = set()
    for i in range(it.body, it.b - 1):
        if t[i].k == "id" and t[i+1].s in ("(", "::") and t[i].s in names and t[i].s not in known and t[i-1].s not in (".", "fn"):
            if t[i+1].s == "::" and t[i+2].s != "<": continue
            res.add(t[i].s)
    return res

def generate(vs, out):
    """-> dict(functions=[{name,file,lines,lost}], lost=[...])"""
    entries = parse_vs(vs)
    _cache.clear(); INLINE.clear()
    for e in entries:
        if e["kind"] == "inline": INLINE.setdefault(e["file"], []).append(e["path"])
    entries = [e for e in entries if e["kind"] != "inline"]
    parts, info, line = [], [], 1
    def add(txt):
        nonlocal line
        parts.append(txt)
        a = line
        line += txt.count("\n")
        return a, line
    add("#![verifier::allow(undeclared_external_trait)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_assignments, unused_braces, unused_doc_comments, non_camel_case_types, unused_unsafe)]\nuse vstd::prelude::*;\n")
    for e in entries:
        if e["kind"] == "text":
            add("\n".join(e["lines"]) + "\n")
        elif e["kind"] == "fn":
            rec = dict(name=e["path"], file=e["file"], lost=None)
            try:
                txt = emit_fn(e)
            except Lost as x:
                rec["lost"] = str(x)
                try: txt = emit_fn(e, lost=str(x))
                except Lost as y:
                    rec["lost"] += " / " + str(y); txt = "\n"
            a, b = add("// ---- extracted: %s %s\n%s" % (e["file"], e["path"], txt))
            rec["lines"] = (a, b)
            rec["entry"] = e
            if e.get("uses"): rec["uses"] = e["uses"]
            info.append(rec)
        else:
            rec = dict(name=e["path"], file=e["file"], lost=None)
            try: txt = emit_other(e)
            except Lost as x: rec["lost"] = str(x); txt = "\n"
            a, b = add(txt); rec["lines"] = (a, b); rec["decl"] = True
            info.append(rec)
    add("} // verus!\n")
    full = "".join(parts)
    with open(out, "w") as f: f.write(full)
    return info, full
