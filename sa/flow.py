"""Guard conditions, integer ranges and checked-before-use flow over the IR model."""
from .ir import const, isnull, base_off

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "oeq": "une", "one": "ueq", "olt": "uge", "ole": "ugt", "ogt": "ule", "oge": "ult", "ueq": "one", "une": "oeq"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def edge_dominates(f, b, s, x):
    """is every path to block x through the edge b -> s?"""
    if f.succs(b).count(s) != 1: return False
    if s not in f.dom.get(x, ()): return False
    return all(p == b or (s in f.dom.get(p, ())) for p in f.preds[s] if p in f.dom)


def facts_of(f, o, truth, out, depth=0):
    """atomic facts implied by condition operand o having the given truth value"""
    n = f.inst(o)
    if n is None or depth > 8: return
    if n.o == "icmp" or n.o == "fcmp":
        p = n.g("p")
        out.append((p if truth else NEG.get(p, "?"), n.a[0], n.a[1], n))
        # comparison of a boolean with a constant
        if n.o == "icmp" and p in ("eq", "ne"):
            for x, y in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
                c = const(y)
                if c is not None:
                    i = f.inst(x)
                    if i is not None and i.o in ("zext", "sext") and i.g("ft") == "i1":
                        if c == 0: facts_of(f, i.a[0], (p == "ne") == truth, out, depth + 1)
    elif n.o == "xor" and const(n.a[1]) in (-1, 1) and n.t == "i1":
        facts_of(f, n.a[0], not truth, out, depth + 1)
    elif n.o == "select" and n.t == "i1":
        c, a, b = n.a
        if const(b) == 0 and truth:        # logical and
            facts_of(f, c, True, out, depth + 1); facts_of(f, a, True, out, depth + 1)
        elif const(a) in (1, -1) and not truth:  # logical or
            facts_of(f, c, False, out, depth + 1); facts_of(f, b, False, out, depth + 1)
        elif const(a) == 0 and const(b) in (1, -1): facts_of(f, c, not truth, out, depth + 1)
    elif n.o == "and" and n.t == "i1" and truth:
        for x in n.a: facts_of(f, x, True, out, depth + 1)
    elif n.o == "or" and n.t == "i1" and not truth:
        for x in n.a: facts_of(f, x, False, out, depth + 1)
    elif n.o in ("zext", "trunc", "freeze") and (n.t == "i1" or n.g("ft") == "i1"):
        facts_of(f, n.a[0], truth, out, depth + 1)
    elif n.o == "phi" and n.t == "i1":
        # short-circuit phi: incoming constants of the other truth value cannot be the taken ones
        live = [(v, b) for v, b in zip(n.a, n.g("pb")) if not (const(v) is not None and bool(const(v)) != truth)]
        if len(live) == 1:
            v, b = live[0]
            if const(v) is None: facts_of(f, v, truth, out, depth + 1)
            out += block_facts(f, b)
            if len(f.succs(b)) > 1: out += edge_facts(f, b, n.b)
    out.append((("true" if truth else "false"), o, None, n))


def edge_facts(f, b, s):
    t = f.blocks[b][-1]
    out = []
    if t.o == "br" and len(t.s) == 2 and t.s[0] != t.s[1]:
        facts_of(f, t.a[0], s == t.s[0], out)
    elif t.o == "switch":
        vals = [c for c, x in zip(t.g("cases"), t.s[1:]) if x == s]
        if s != t.s[0] and len(vals) == 1: out.append(("eq", t.a[0], ["c", vals[0], 64], t))
        if s == t.s[0]:
            for c, x in zip(t.g("cases"), t.s[1:]):
                if x != s: out.append(("ne", t.a[0], ["c", c, 64], t))
        elif len(vals) > 1: out.append(("in", t.a[0], vals, t))
    return out


def block_facts(f, x):
    """facts that hold whenever block x is entered (from dominating branch edges)"""
    c = f.__dict__.setdefault("_bf", {})
    if x in c: return c[x]
    c[x] = []
    out = []
    for d in f.dom.get(x, ()):
        for s in set(f.succs(d)):
            if len(f.succs(d)) > 1 and edge_dominates(f, d, s, x):
                out += edge_facts(f, d, s)
    c[x] = out
    return out


def canon(f, o, depth=0):
    """canonical key for a value: equal keys imply equal values (loads only if from the same never-changed place are not merged)"""
    if isinstance(o, list): return repr(o)
    n = f.inst(o)
    if n is None or depth > 6: return o
    if n.o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "freeze"):
        return (n.o, n.t, canon(f, n.a[0], depth + 1))
    if n.o == "getelementptr" and "off" in n.r:
        return ("gep", canon(f, n.a[0], depth + 1), n.r["off"])
    return o


class Ranges:
    """signed integer ranges, flow-insensitive on values, refined by dominating branch conditions, through calls"""
    FULL = {"i1": (0, 1), "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1)}
    def __init__(self, p, ext=None):
        self.p, self.ext, self.stack = p, ext or {}, []
    def full(self, t): return self.FULL.get(t, (-2**63, 2**63 - 1))
    def get(self, f, o, b, t="i32"):
        r = self.raw(f, o, t)
        lo, hi = r
        k = canon(f, o)
        for p, x, y, _ in block_facts(f, b):
            for pp, u, w in ((p, x, y), (SWAP.get(p), y, x)):
                if pp is None or w is None or p == "in": continue
                c = const(w)
                if c is None or canon(f, u) != k: continue
                if pp == "eq": lo, hi = max(lo, c), min(hi, c)
                elif pp in ("slt",): hi = min(hi, c - 1)
                elif pp in ("sle",): hi = min(hi, c)
                elif pp in ("sgt",): lo = max(lo, c + 1)
                elif pp in ("sge",): lo = max(lo, c)
                elif pp == "ult" and c > 0: lo, hi = max(lo, 0), min(hi, c - 1)
                elif pp == "ule" and c >= 0: lo, hi = max(lo, 0), min(hi, c)
                elif pp == "ne" and c == lo: lo += 1
                elif pp == "ne" and c == hi: hi -= 1
        return lo, hi
    def raw(self, f, o, t):
        c = const(o)
        if c is not None: return (c, c)
        if isinstance(o, list): return self.full(t)
        key = (f.name, o)
        if key in self.stack or len(self.stack) > 40: return self.full(t)
        self.stack.append(key)
        try:
            return self._raw(f, o, t)
        finally:
            self.stack.pop()
    def join(self, l):
        l = list(l)
        return (min(a for a, _ in l), max(b for _, b in l)) if l else None
    def _raw(self, f, o, t):
        if f.isarg(o):
            t = f.args[o]["t"]
            cs = self.p.callers().get(f.name, [])
            direct = [n for n in cs if n.f]
            if f.r.get("local") and direct and len(direct) == len(cs) and len(cs) <= 12:
                return self.join(self.get(n.fn, n.a[o], n.b, t) for n in direct)
            return self.full(t)
        n = f.v[o]; t = n.t or t
        if n.o == "zext":
            lo, hi = self.get(f, n.a[0], n.b, n.g("ft"))
            bits = int(n.g("ft")[1:])
            return (lo, hi) if lo >= 0 else (0, 2**bits - 1)
        if n.o in ("sext", "freeze"): return self.get(f, n.a[0], n.b, n.g("ft", t))
        if n.o == "trunc":
            r = self.get(f, n.a[0], n.b, n.g("ft")); F = self.full(t)
            return r if F[0] <= r[0] and r[1] <= F[1] else F
        if n.o == "and":
            for x in n.a:
                c = const(x)
                if c is not None and c >= 0: return (0, c)
        if n.o == "select": return self.join([self.get(f, n.a[1], n.b, t), self.get(f, n.a[2], n.b, t)])
        if n.o == "phi": return self.join(self.get(f, v, b, t) for v, b in zip(n.a, n.g("pb")))
        if n.o in ("add", "sub"):
            a, b2 = self.get(f, n.a[0], n.b, t), self.get(f, n.a[1], n.b, t)
            r = (a[0] + b2[0], a[1] + b2[1]) if n.o == "add" else (a[0] - b2[1], a[1] - b2[0])
            F = self.full(t)
            return r if F[0] <= r[0] and r[1] <= F[1] else F
        if n.o == "urem" and const(n.a[1]): return (0, const(n.a[1]) - 1)
        if n.o == "load":
            al = f.inst(n.a[0])
            if al is not None and al.o == "alloca":
                us = f.uses.get(al.i, [])
                if all(u.o == "load" or (u.o == "store" and u.a[1] == al.i) for u in us):
                    return self.join(self.get(f, u.a[0], u.b, t) for u in us if u.o == "store") or self.full(t)
        if n.iscall() and n.f:
            e = self.ext.get(n.f)
            if e: return e(self, f, n)
            g = self.p.func(n.f)
            if g and len(g.blocks) < 40:
                rs = [self.get(g, x.a[0], x.b, t) for bl in g.blocks for x in bl if x.o == "ret" and x.a]
                if rs: return self.join(rs)
        return self.full(t)


def affine(f, o, depth=0):
    """o as (root operand, constant offset); casts that preserve the value are stripped"""
    if const(o) is not None: return None, const(o)
    n = f.inst(o)
    if n is None or depth > 20: return o, 0
    if n.o in ("zext", "sext", "trunc", "freeze"): return affine(f, n.a[0], depth + 1)
    if n.o in ("add", "or", "sub") and const(n.a[1]) is not None and (n.o != "or" or n.r.get("disjoint")):
        r, c = affine(f, n.a[0], depth + 1)
        return r, c + (const(n.a[1]) if n.o != "sub" else -const(n.a[1]))
    return o, 0


def upper(f, o, depth=0):
    """affine upper bounds of o: list of (root, const); a minimum contributes the bounds of both operands"""
    out = [affine(f, o)]
    r, c = out[0]
    n = f.inst(r)
    if n is None or depth > 6: return out
    kids = []
    if n.iscall() and n.f and (n.f.startswith("llvm.umin") or n.f.startswith("llvm.smin")): kids = n.a
    elif n.o == "select":
        cmp = f.inst(n.a[0])
        if cmp is not None and cmp.o == "icmp":
            x, y = cmp.a; p = cmp.g("p")
            if (n.a[1], n.a[2]) == (x, y) and p in ("ult", "ule", "slt", "sle"): kids = [x, y]
            if (n.a[1], n.a[2]) == (y, x) and p in ("ugt", "uge", "sgt", "sge"): kids = [x, y]
    for k in kids:
        out += [(a, b + c) for a, b in upper(f, k, depth + 1)]
    return out
