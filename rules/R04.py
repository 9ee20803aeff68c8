"""R04: number and types of variadic arguments agree with the format text at every printf-style call."""
TECHNIQUE = "type-checked format lint: printf grammar of every format literal matched with the promoted argument types of its call site"
NOTE = "Decides every call of a printf-style function (library's own and C library's); format texts must be literals (through ?:, locals and forwarding parameters); trusts clang's types on this platform."
import re
from sa import tree
from sa.tree import strip, nodes, walk
from sa.report import Check

INT = {"": {"int", "unsigned int", "bool", "char", "short", "unsigned short", "signed char", "unsigned char", "wchar_t"}, "hh": {"int", "unsigned int", "char", "signed char", "unsigned char"}, "h": {"int", "unsigned int", "short", "unsigned short"},
       "l": {"long", "unsigned long"}, "ll": {"long long", "unsigned long long"}, "z": {"unsigned long", "long"}, "j": {"long", "unsigned long"}, "t": {"long", "unsigned long"}}
SPEC = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|L|z|j|t|q)?([a-zA-Z%])")

def expected(fmt):
    out = []
    i = 0
    while True:
        i = fmt.find("%", i)
        if i < 0: return out
        m = SPEC.match(fmt, i)
        if not m: return None
        i = m.end()
        if m.group(5) == "%": continue
        if m.group(2) == "*": out.append(("*", "", "d"))
        if m.group(3) == "*": out.append(("*", "", "d"))
        out.append((m.group(0), m.group(4) or "", m.group(5)))

def fits(spec, t):
    s, ln, c = spec
    if c in "di" or c in "ouxX": return t in INT.get(ln, ())
    if c == "c": return t in INT[""] | {"wint_t"}
    if c in "fFeEgGaA": return t == "long double" if ln == "L" else t in ("double", "float")
    if c == "s": return bool(re.match(r"^(const )?(signed |unsigned )?char( const)? ?\*", t)) or bool(re.match(r"^(const )?char ?\[\d*\]$", t))
    if c == "p": return t.endswith("*") or "(*)" in t or t == "std::nullptr_t"
    if c == "n": return False
    return False

def run():
    c = Check("R04", "For every printf-style call: the format text is known, the number of variadic arguments equals the number of conversions, and each promoted argument type is one its conversion may read")
    T = tree.tree()
    variadic = {}     # mangled / name -> index of the format parameter
    callers = {}
    for f in T.repo():
        for n in nodes(f):
            if n.get("k") in ("CallExpr", "CXXMemberCallExpr") and n.get("f"): callers.setdefault(n["f"].get("m"), []).append((f, n))
    for f in T.repo():
        b = [n for n in nodes(f) if n.get("k") in ("CallExpr",) and (n.get("f") or {}).get("n") in ("vsnprintf", "vsprintf", "vprintf", "vfprintf")]
        ps = f["params"]
        fi = [k for k, p in enumerate(ps) if re.match(r"const char ?\*", p["t"])]
        if any("va_list" in p["t"] for p in ps): continue
        if fi and (b or any(n.get("k") == "VAArgExpr" or (n.get("f") or {}).get("n") in ("__builtin_va_start",) for n in nodes(f))): variadic[f["m"]] = fi[-1]
    std = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2}
    calls = 0
    def texts_in(f, e, d=0):
            inits = f.get("_inits")
            if inits is None: inits = f["_inits"] = tree.local_inits(f)
            texts = lambda e, d: texts_in(f, e, d)
            e = strip(e)
            if d > 6 or not isinstance(e, dict): return None
            if e["k"] == "StringLiteral": return [e["v"]]
            if e["k"] == "ConditionalOperator":
                a, b = texts(e["c"][1], d + 1), texts(e["c"][2], d + 1)
                return None if a is None or b is None else a + b
            if e["k"] == "DeclRefExpr" and e["d"]["id"] in inits:
                # reassigned locals are not a single text
                for n in nodes(f):
                    if n.get("k") == "BinaryOperator" and n.get("op") == "=" and strip(n["c"][0]).get("d", {}).get("id") == e["d"]["id"]: return None
                return texts(inits[e["d"]["id"]], d + 1)
            if e["k"] == "DeclRefExpr" and e["d"].get("k") == "ParmVar" and f["m"] not in variadic and callers.get(f["m"]):
                out = []
                for g, n in callers[f["m"]]:
                    a = n["c"][1:]
                    t = texts_in(g, a[e["d"]["pi"]], d + 1) if e["d"]["pi"] < len(a) else None
                    if t is None: return None
                    out += t
                return out
            if e["k"] == "DeclRefExpr" and e["d"].get("global"):
                for g in T.globals.values():
                    if g["q"] == e["d"]["q"] and (g["const"] or g["constexpr"]) and isinstance(g.get("init"), dict): return texts(g["init"], d + 1)
            return None
    for f in T.repo():
        for n in nodes(f):
            if n.get("k") not in ("CallExpr", "CXXMemberCallExpr"): continue
            g = n.get("f") or {}
            k = variadic.get(g.get("m"))
            if k is None and g.get("n") in std and (g.get("q") in (g["n"], "std::" + g["n"])): k = std[g["n"]]
            if k is None: continue
            a = n["c"][1:]
            if not a or any("va_list" in x.get("t", "") for x in a) or len(a) <= k: continue
            calls += 1
            tx = texts_in(f, a[k])
            key = "%s calls %s" % (f["q"], g["n"])
            if tx is None:
                e = strip(a[k])
                if e.get("k") == "DeclRefExpr" and e["d"].get("k") == "ParmVar" and len(a) == k + 1: c.bad(key + " with a parameter as format", "%s: the format text is not a literal" % T.where(f, n)); continue
                c.bad(key + " with an unknown format", "%s: the format text cannot be determined" % T.where(f, n)); continue
            for t in tx:
                kk = "%s %r" % (key, t)
                ex = expected(t)
                if ex is None: c.bad(kk, "%s: malformed conversion in %r" % (T.where(f, n), t)); continue
                va = a[k + 1:]
                ts = [x.get("t", "") for x in va]
                if len(ex) != len(va): c.bad(kk, "%s: %d conversions but %d arguments" % (T.where(f, n), len(ex), len(va))); continue
                w = [(s[0], x) for s, x in zip(ex, ts) if not fits(s, x)]
                if w: c.bad(kk, "%s: conversion %s reads an argument of type %s" % (T.where(f, n), w[0][0], w[0][1]))
                else: c.ok(kk, T.where(f, n))
    c.cover(functions=len(T.repo()), call_sites=calls, printf_like=len(variadic))
    c.floor("printf-style calls", calls, 8)
    c.finish()
