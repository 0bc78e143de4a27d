"""Minimal Rust tokenizer and item finder (used for mechanical extraction)."""
import re

class Tok:
    __slots__ = ("k", "s", "a", "b")
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return "%s:%r" % (self.k, self.s)

_ident = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9_]+)?|[0-9][0-9_]*\.)([A-Za-z0-9_]*)")
_puncts = ["..=", "...", "<<=", ">>=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=",
           "^=", "&=", "|=", "<<", ">>", ".."]

def tokenize(src):
    """tokens without whitespace and comments"""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = re.match(r'(b|c)?r(#*)"', src[i:i+12])
        if m:
            end = src.find('"' + m.group(2), i + len(m.group(0)))
            j = end + 1 + len(m.group(2))
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i+1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == "'" or (c == "b" and i + 1 < n and src[i+1] == "'"):
            st = i if c == "'" else i + 1
            m = re.match(r"'(\\x..|\\u\{[^}]*\}|\\.|[^\\'])'", src[st:st+16], re.S)
            if m:
                j = st + len(m.group(0))
                out.append(Tok("chr", src[i:j], i, j)); i = j; continue
            m = re.match(r"'[A-Za-z_][A-Za-z0-9_]*", src[i:])
            if m:
                j = i + len(m.group(0))
                out.append(Tok("life", src[i:j], i, j)); i = j; continue
        m = _ident.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end())); i = m.end(); continue
        if c.isdigit():
            m = re.match(r"0x[0-9a-fA-F_]+[A-Za-z0-9_]*|0b[01_]+[A-Za-z0-9_]*|0o[0-7_]+[A-Za-z0-9_]*", src[i:])
            if not m:
                m = re.match(r"[0-9][0-9_]*(\.[0-9][0-9_]*|\.(?![.A-Za-z_]))?([eE][+-]?[0-9_]+)?[A-Za-z0-9_]*", src[i:])
            j = i + len(m.group(0))
            out.append(Tok("num", src[i:j], i, j)); i = j; continue
        for p in _puncts:
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p))); i += len(p); break
        else:
            out.append(Tok("p", c, i, i + 1)); i += 1
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k == "p":
            if s in OPEN: d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0: return j
    raise ValueError("unbalanced")

def skip_generics(toks, i):
    """toks[i] is '<': index after matching '>'"""
    d = 0
    while True:
        s = toks[i].s
        if s == "<": d += 1
        elif s == ">": d -= 1
        elif s == ">>": d -= 2
        elif s == "<<": d += 2
        elif s in OPEN and toks[i].k == "p":
            i = match_close(toks, i)
        i += 1
        if d <= 0: return i

class Item:
    """kind fn/struct/const/enum/impl ; path e.g. 'DisjointSetForest::union'"""
    def __init__(self, **kw): self.__dict__.update(kw)

def items(toks, i=0, end=None, ctx="", out=None, implhdr=None):
    """Collect fn/struct/const/enum/macro items; skips #[cfg(test)] modules. Each item has token range [a,b) without
    attributes; attrs is the text list."""
    if out is None: out = []
    if end is None: end = len(toks)
    attrs = []
    start = None
    while i < end:
        t = toks[i]
        if t.s == "#" and i + 1 < end and toks[i+1].s in ("[", "!"):
            j = i + 1
            if toks[j].s == "!": j += 1
            e = match_close(toks, j)
            attrs.append(" ".join(x.s for x in toks[i:e+1]))
            i = e + 1; continue
        if start is None: start = i
        if t.s == "pub":
            i += 1
            if toks[i].s == "(": i = match_close(toks, i) + 1
            continue
        if t.s in ("unsafe", "async", "extern", "default") and toks[i+1].s not in ("{",):
            i += 1; continue
        if t.s == "const" and toks[i+1].s == "fn":
            i += 1; continue
        if t.s == "mod" and toks[i+2].s == "{":
            e = match_close(toks, i + 2)
            if not any("cfg" in a and "test" in a for a in attrs):
                items(toks, i + 3, e, ctx + toks[i+1].s + "::", out)
            i = e + 1; attrs = []; start = None; continue
        if t.s in ("impl", "trait"):
            j = i + 1
            while toks[j].s != "{":
                if toks[j].k == "p" and toks[j].s in ("(", "["): j = match_close(toks, j)
                j += 1
                if toks[j].s == ";": break
            if toks[j].s == ";":
                i = j + 1; attrs = []; start = None; continue
            e = match_close(toks, j)
            hdr = toks[i:j]
            k = 1
            if k < len(hdr) and hdr[k].s == "<": k = skip_generics(hdr, k)
            rest = hdr[k:]
            # cut where clause
            for q, x in enumerate(rest):
                if x.s == "where": rest = rest[:q]; break
            txt = "".join((" " + x.s + " ") if x.s in ("for", "dyn") else x.s for x in rest)
            if t.s == "trait": name = rest[0].s
            elif " for " in txt:
                tr, ty = txt.split(" for ", 1)
                name = "<%s as %s>" % (ty, tr)
            else:
                name = re.sub(r"<.*", "", txt)
            hdr_text = (toks[i].a, toks[j].a)
            out.append(Item(kind=t.s, path=ctx + name, a=start, b=e + 1, body=j, attrs=attrs, hdr=hdr_text, implhdr=None))
            items(toks, j + 1, e, ctx + name + "::", out, implhdr=hdr_text)
            i = e + 1; attrs = []; start = None; continue
        if t.s == "fn":
            name = toks[i+1].s
            j = i + 2
            while toks[j].s not in ("{", ";"):
                if toks[j].k == "p" and toks[j].s in ("(", "["): j = match_close(toks, j)
                j += 1
            if toks[j].s == ";":
                e = j
            else:
                e = match_close(toks, j)
            out.append(Item(kind="fn", path=ctx + name, name=name, a=start, fn=i, body=(j if toks[j].s == "{" else None), b=e + 1,
                            attrs=attrs, implhdr=implhdr))
            i = e + 1; attrs = []; start = None; continue
        if t.s in ("struct", "enum", "union"):
            name = toks[i+1].s
            j = i + 2
            while toks[j].s not in ("{", ";"):
                if toks[j].k == "p" and toks[j].s in ("(", "["): j = match_close(toks, j)
                j += 1
            e = match_close(toks, j) if toks[j].s == "{" else j
            out.append(Item(kind=t.s, path=ctx + name, a=start, b=e + 1, attrs=attrs, implhdr=None))
            i = e + 1; attrs = []; start = None; continue
        if t.s == "macro_rules":
            e = match_close(toks, i + 3)
            out.append(Item(kind="macro", path=ctx + toks[i+2].s + "!", a=start, b=e + 1, attrs=attrs, implhdr=None))
            i = e + 1
            if i < end and toks[i].s == ";": i += 1
            attrs = []; start = None; continue
        if t.s in ("const", "static", "type", "use"):
            j = i
            while toks[j].s != ";":
                if toks[j].k == "p" and toks[j].s in OPEN: j = match_close(toks, j)
                j += 1
            if t.s != "use":
                out.append(Item(kind=t.s, path=ctx + toks[i+1].s, a=start, b=j + 1, attrs=attrs, implhdr=(implhdr if t.s == 'const' else None)))
            i = j + 1; attrs = []; start = None; continue
        # macro invocation item or other: skip to ';' or past a brace group
        j = i
        while j < end and toks[j].s != ";":
            if toks[j].k == "p" and toks[j].s in OPEN:
                br = toks[j].s
                j = match_close(toks, j)
                if br == "{": break
            j += 1
        i = j + 1; attrs = []; start = None
    return out
