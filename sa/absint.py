"""Abstract interpretation of IR functions over a finite relational domain.  Scalars are opaque atoms (or terms over atoms);
what is known about them is a weak order, refined three ways (<, =, >) where a comparison needs it and partitioned by those
cases.  Memory is a map from abstract objects to cells.  No values are computed beyond constants written in the source and
no solver is involved: a function over n atoms is decided for all inputs once every consistent order type is covered."""
import os
import re, struct
from . import facts
from .ir import const
from .facts import AnalysisError

INF = {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan")}
PURE = {"sqrt", "sqrtf", "fmod", "fmodf", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "tanh", "exp", "log", "pow", "powf", "floor", "ceil", "round", "roundf", "hypot", "fabs", "fabsf", "sinf", "cosf", "tanf", "floorf", "ceilf", "expf", "logf", "log10", "lround", "cbrt", "trunc", "atan2f", "acosf", "asinf", "cbrtf", "atanf", "fmodf", "hypotf", "log10f", "truncf", "copysign", "copysignf"}
COMMUT = {"fadd", "fmul", "add", "mul", "and", "or", "xor"}


class Infeasible(Exception): pass
class Diverges(Exception): pass
class Unmodelled(AnalysisError): pass
class Thrown(Exception):
    def __init__(self, ty, val=None): self.ty, self.val = ty, val


class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()


class Order:
    """a weak order on hashable atoms, built by case distinction"""
    def __init__(self, choose): self.lt, self.eq, self.atoms, self.choose = set(), {}, [], choose
    def find(self, x):
        while self.eq.get(x, x) != x: x = self.eq[x]
        return x
    def add(self, x):
        if x in self.eq: return
        self.eq[x] = x
        for y in self.atoms:
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and y in self.eq:
                if y < x: self.close(self.find(y), x)
                elif x < y: self.close(x, self.find(y))
        self.atoms.append(x)
    def close(self, a, b):
        """a < b for representatives"""
        lo = [x for x, y in self.lt if y == a] + [a]; hi = [y for x, y in self.lt if x == b] + [b]
        for x in lo:
            for y in hi: self.lt.add((x, y))
    def known(self, x, y):
        self.add(x); self.add(y)
        x, y = self.find(x), self.find(y)
        if x == y: return "="
        if (x, y) in self.lt: return "<"
        if (y, x) in self.lt: return ">"
    def set(self, x, y, r):
        x, y = self.find(x), self.find(y)
        if r == "<": self.close(x, y)
        elif r == ">": self.close(y, x)
        else:
            self.eq[y] = x
            new = set()
            for a, b in self.lt:
                a, b = (x if a == y else a), (x if b == y else b)
                if a == b: raise Infeasible()
                new.add((a, b))
            ch = True
            while ch:
                ch = False
                for a, b in list(new):
                    for c, d in list(new):
                        if b == c and (a, d) not in new:
                            if a == d: raise Infeasible()
                            new.add((a, d)); ch = True
            self.lt = new
    def rel(self, x, y, opts="<=>"):
        k = self.known(x, y)
        if k is None:
            k = self.choose(opts, (x, y)); self.set(x, y, k)
        return k


class Obj:
    __slots__ = ("name", "kind", "log", "init", "ext")
    def __init__(self, name, kind, init=None): self.name, self.kind, self.log, self.init, self.ext = name, kind, [], init, {}
    def __repr__(self): return "<%s>" % self.name


class P:
    """pointer into an abstract object"""
    __slots__ = ("o", "off")
    def __init__(self, o, off=0): self.o, self.off = o, off
    def __eq__(self, x): return isinstance(x, P) and x.o is self.o and x.off == self.off
    def __hash__(self): return hash((id(self.o), self.off if not isinstance(self.off, list) else 0))
    def __repr__(self): return "&%s+%s" % (self.o.name, self.off)


class Types:
    def __init__(self, p): self.p, self.c = p, {}
    def get(self, t):
        """(size, align, [(offset, type)...] for aggregates or None)"""
        if t in self.c: return self.c[t]
        self.c[t] = r = self._get(t)
        return r
    def _get(self, t):
        t = t.strip()
        if t in ("double", "ptr"): return 8, 8, None
        if t == "float": return 4, 4, None
        m = re.fullmatch(r"i(\d+)", t)
        if m:
            n = int(m.group(1)); s = 1
            while s * 8 < n: s *= 2
            return s, s, None
        if t == "x86_fp80": return 16, 16, None
        m = re.match(r"[\[<](\d+) x (.*)[\]>]$", t)
        if m and t[0] in "[<" and not t.startswith("<{"):
            n, e = int(m.group(1)), m.group(2)
            s, a, _ = self.get(e)
            return n * s, a, [(k * s, e) for k in range(n)]
        if t in self.p.structs:
            s = self.p.structs[t]; return s[0], 8, [(o, e) for o, e in s[1:]]
        if t.startswith("{") or t.startswith("<{"):
            packed = t.startswith("<")
            off, out, al = 0, [], 1
            for e in split(t.strip("<>")[1:-1]):
                s, a, _ = self.get(e)
                if not packed: off = (off + a - 1) // a * a; al = max(al, a)
                out.append((off, e)); off += s
            return (off + al - 1) // al * al, al, out
        raise Unmodelled("type " + t)


def split(s):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in "<([{": d += 1
            if ch in ">)]}": d -= 1
            if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def wrap(v, t):
    if not isinstance(v, int) or not t.startswith("i"): return v
    n = int(t[1:])
    if n == 1: return v & 1
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Engine:
    maxdepth = 120
    """one run; explore() repeats runs over all case distinctions"""
    def __init__(self, p, prefix=(), models=(), maxsteps=60000):
        self.p, self.T = p, Types(p)
        self.models = models
        self.dec, self.prefix = [], list(prefix)
        self.ord = {"s": Order(self.pick), "u": Order(self.pick), "f": Order(self.pick)}
        self.bools = {}
        self.globals, self.syms = {}, {}
        self.steps, self.maxsteps, self.depth, self.n, self.calls = 0, maxsteps, 0, 0, []
        self.events = []

    # ---- case distinctions
    def pick(self, opts, what=None):
        k = len(self.dec)
        i = self.prefix[k] if k < len(self.prefix) else 0
        self.dec.append((i, len(opts), what, opts[i]))
        return opts[i]
    def truth(self, term):
        """an opaque truth value"""
        if term not in self.bools: self.bools[term] = self.pick((1, 0), term)
        return self.bools[term]
    def rel(self, x, y, cls="f"):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if cls == "u": x, y = x & (2**64 - 1), y & (2**64 - 1)
            return "<" if x < y else ">" if x > y else "="
        if x == y: return "="
        if cls == "u":
            x, y = (v & (2**64 - 1) if isinstance(v, int) else v for v in (x, y))
            # nothing is below zero or above the maximum
            if y == 0 or x == 2**64 - 1: opts = "=>"
            elif x == 0 or y == 2**64 - 1: opts = "<="
            else: opts = "<=>"
        else: opts = "<=>"
        if cls in "su":
            a, b = x, y
            o = self.ord["s" if cls == "u" else "u"]
            if a in o.eq and b in o.eq:
                k = o.known(a, b)
                if k == "=": 
                    if self.ord[cls].known(x, y) is None: self.ord[cls].set(x, y, "=")
                    return "="
                if k: opts = opts.replace("=", "")
        return self.ord[cls].rel(x, y, opts)
    def lt(self, x, y, cls="f"): return self.rel(x, y, cls) == "<"
    def le(self, x, y, cls="f"): return self.rel(x, y, cls) != ">"
    def same(self, x, y, cls="f"): return self.rel(x, y, cls) == "="
    def assume(self, c):
        if not c: raise Infeasible()

    # ---- memory
    def obj(self, name, kind="undef", init=None):
        self.n += 1
        return Obj(name, kind, init)
    def sym(self, name):
        """an input object whose cells are atoms named after their offset"""
        if name not in self.syms: self.syms[name] = Obj(name, "sym")
        return P(self.syms[name])
    def glob(self, name):
        if name not in self.globals:
            g = self.p.globals.get(self.p.alias.get(name, name))
            if self.p.func(name) is not None or name in self.p.decls: return ("fn", self.p.alias.get(name, name))
            o = Obj("@" + name, "const" if g and g.get("const") and "init" in g else "sym", (g["init"], g["t"]) if g and "init" in g else None)
            self.globals[name] = o
        return P(self.globals[name])
    def initcell(self, o, off, t):
        if o.kind == "undef": return UNDEF
        if o.kind == "zero": return 0.0 if t in ("double", "float") else 0
        if o.kind == "const":
            return self.constcell(o.init[0], o.init[1], off, t)
        k = (off, t)
        if k not in o.ext:
            if t == "ptr": o.ext[k] = P(self.syms.setdefault("*%s.%s" % (o.name, off), Obj("*%s.%s" % (o.name, off), "sym")))
            else: o.ext[k] = ("s", o.name, off)
        return o.ext[k]
    def constcell(self, c, ty, off, t):
        if c[0] == "zero": return 0.0 if t in ("double", "float") else 0
        if c[0] == "data":
            sz = {"double": 8, "float": 4}.get(t) or self.T.get(t)[0]
            es = self.T.get(ty)[2][0][1]; es = self.T.get(es)[0]
            if off % es == 0 and sz == es and off // es < len(c[1]):
                v = c[1][off // es]
                return wrap(v, t) if isinstance(v, int) and t.startswith("i") else v
            return UNDEF
        if c[0] == "agg":
            for (eo, et), e in zip(self.T.get(ty)[2], c[1:]):
                if eo <= off < eo + self.T.get(et)[0]: return self.constcell(e, et, off - eo, t)
            return UNDEF
        return self.const(c) if off == 0 else UNDEF
    def load(self, ptr, t):
        if not isinstance(ptr, P):
            raise Unmodelled("load through %r" % (ptr,))
        sz, _, parts = self.T.get(t)
        if parts is not None: return tuple(self.load(P(ptr.o, ptr.off + o), e) for o, e in parts)
        return self.cell(ptr.o, ptr.off, sz, t, len(ptr.o.log))
    def cell(self, o, off, sz, t, upto):
        for k in range(upto - 1, -1, -1):
            e = o.log[k]
            if e[0] < off + sz and off < e[0] + e[1]:
                if len(e) == 5:      # copied region
                    if e[0] <= off and off + sz <= e[0] + e[1]: return self.cell(e[2], off - e[0] + e[3], sz, t, e[4])
                    if sz > 1 and sz % 2 == 0: return self.cat(o, off, sz, t, upto)
                    return UNDEF
                if e[0] == off and e[1] == sz: return self.conv(e[2], e[3], t)
                if e[0] <= off and off + sz <= e[0] + e[1]: return self.part(e[2], off - e[0], sz, t, e[1])
                return self.cat(o, off, sz, t, upto)
        if o.kind == "sym" and sz == 8 and t == "i64" and any(off <= x[0] < off + 8 and x[0] != off for x in o.ext): return self.cat(o, off, sz, t, upto)
        return self.initcell(o, off, t)
    def cat(self, o, off, sz, t, upto):
        h = sz // 2
        pt = "i%d" % (8 * h)
        for x in (off, off + h):
            for k in range(upto - 1, -1, -1):
                if o.log[k][0] == x and o.log[k][1] == h and len(o.log[k]) == 4: pt = o.log[k][3]
        a, b = self.cell(o, off, h, pt, upto), self.cell(o, off + h, h, pt, upto)
        if isinstance(a, int) and isinstance(b, int): return wrap((a & (1 << 8 * h) - 1) | b << 8 * h, t)
        return ("cat", a, b)
    def part(self, v, off, sz, t, full):
        if isinstance(v, int): return wrap(v >> (8 * off), t)
        if isinstance(v, tuple) and v and v[0] == "cat" and full % 2 == 0:
            h = full // 2
            if off + sz <= h or off >= h:
                w = v[1] if off < h else v[2]; o2 = off if off < h else off - h
                return w if sz == h else self.part(w, o2, sz, t, h)
        if v is UNDEF: return UNDEF
        return ("e", "part", off, sz, v)
    def conv(self, v, vt, t):
        if vt == t or v is UNDEF: return v
        if vt in ("double", "float") and t.startswith("i") and isinstance(v, float):
            return struct.unpack("<q" if vt == "double" else "<i", struct.pack("<d" if vt == "double" else "<f", v))[0]
        if t in ("double", "float") and isinstance(v, int):
            return struct.unpack("<d" if t == "double" else "<f", struct.pack("<q" if t == "double" else "<i", v))[0]
        return v
    def store(self, ptr, v, t):
        if not isinstance(ptr, P): raise Unmodelled("store through %r" % (ptr,))
        sz, _, parts = self.T.get(t)
        if parts is not None:
            if v is UNDEF: v = tuple(UNDEF for _ in parts)
            for (o, e), x in zip(parts, v): self.store(P(ptr.o, ptr.off + o), x, e)
            return
        if isinstance(v, tuple) and v and v[0] == "cat" and sz in (8, 4):
            h = sz // 2
            ht = "float" if t == "double" else "i%d" % (8 * h)
            ptr.o.log.append((ptr.off, h, v[1], "i%d" % (8 * h))); ptr.o.log.append((ptr.off + h, h, v[2], "i%d" % (8 * h)))
            return
        ptr.o.log.append((ptr.off, sz, v, t))
    def copy(self, d, s, n):
        if n == 0: return
        if not isinstance(n, int): raise Unmodelled("copy of symbolic size")
        d.o.log.append((d.off, n, s.o, s.off, len(s.o.log)))

    # ---- operands
    def const(self, o):
        k = o[0]
        if k == "c": return o[1] & 1 if o[2] == 1 else o[1]
        if k == "f": return INF[o[1]] if isinstance(o[1], str) else float(o[1])
        if k in ("null",): return 0
        if k == "zero": return ZERO
        if k in ("poison", "undef"): return UNDEF
        if k == "g": return self.glob(o[1])
        if k == "cgep":
            b = self.const(o[1]); return P(b.o, b.off + o[2]) if isinstance(b, P) else b
        if k == "agg": return tuple(self.const(x) for x in o[1:])
        if k == "data": return tuple(o[1])
        if k == "ce" and o[1] in ("ptrtoint", "inttoptr", "bitcast"): return self.const(o[2])
        if k == "md": return None
        raise Unmodelled("constant %s" % (o[:2],))
    def val(self, env, o, t=None):
        if isinstance(o, list):
            v = self.const(o)
            if v is ZERO:
                return self.zero(t) if t else 0
            return v
        return env[o]
    def zero(self, t):
        sz, _, parts = self.T.get(t)
        if parts is None: return 0.0 if t in ("double", "float") else 0
        return tuple(self.zero(e) for _, e in parts)

    # ---- terms
    def term(self, op, t, *a):
        if any(x is UNDEF for x in a): return UNDEF
        if op in COMMUT: a = tuple(sorted(a, key=repr))
        return ("e", op, t) + a
    def binop(self, op, t, x, y):
        if isinstance(x, (tuple,)) and x and not isinstance(x[0], str) and isinstance(y, tuple):
            return tuple(self.binop(op, t, a, b) for a, b in zip(x, y))
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, int) and isinstance(y, int) and t.startswith("i"):
            n = int(t[1:]); m = (1 << n) - 1
            ux, uy = x & m, y & m
            if op == "add": r = x + y
            elif op == "sub": r = x - y
            elif op == "mul": r = x * y
            elif op == "and": r = x & y
            elif op == "or": r = x | y
            elif op == "xor": r = x ^ y
            elif op == "shl": r = x << uy if uy < n else 0
            elif op == "lshr": r = ux >> uy if uy < n else 0
            elif op == "ashr": r = x >> uy if uy < n else 0
            elif op == "udiv": r = ux // uy if uy else 0
            elif op == "urem": r = ux % uy if uy else 0
            elif op == "sdiv": r = int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else 0
            elif op == "srem": r = abs(x) % abs(y) * (1 if x >= 0 else -1) if y else 0
            else: raise Unmodelled(op)
            return wrap(r, t)
        if isinstance(x, float) and isinstance(y, float):
            if op == "fadd": return x + y
            if op == "fsub": return x - y
            if op == "fmul": return x * y
            if op == "fdiv" and y: return x / y
        if isinstance(x, P) or isinstance(y, P):
            if op == "sub" and isinstance(x, P) and isinstance(y, P) and x.o is y.o and isinstance(x.off, int) and isinstance(y.off, int): return x.off - y.off
            if op == "sub" and isinstance(x, P) and isinstance(y, P): return self.term("pdiff", t, x, y)
            if op == "add" and isinstance(y, int): return P(x.o, x.off + y)
        if t == "i1":
            if op == "xor" and isinstance(y, int): return self.not_(x) if y else x
            if op == "xor" and isinstance(x, int): return self.not_(y) if x else y
            if op in ("and", "or"):
                x, y = self.bool(x), self.bool(y)
                return x & y if op == "and" else x | y
        if op in ("lshr",) and isinstance(x, tuple) and x[0] == "cat" and isinstance(y, int):
            n = int(t[1:])
            if y * 2 == n: return ("cat", x[2], 0)
        if op == "or" and isinstance(x, tuple) and isinstance(y, tuple):
            # (hi << 32) | zext lo
            for a, b in ((x, y), (y, x)):
                if a[0] == "e" and a[1] == "shl" and a[4] == 32 and b[0] != "e": return ("cat", b, a[3])
        for a, b in ((x, y), (y, x)):
            if op in ("add", "or", "xor") and isinstance(b, int) and b == 0: return a
            if op == "mul" and b == 1 and isinstance(b, int): return a
            if op == "fmul" and b == 1.0 and isinstance(b, float): return a
        if op in ("sub", "shl", "lshr", "ashr") and isinstance(y, int) and y == 0: return x
        if op == "fdiv" and y == 1.0 and isinstance(y, float): return x
        if op == "fsub" and isinstance(x, float) and x == 0: return self.term("fneg", t, y)
        if op == "sub" and x == y: return 0
        return self.term(op, t, x, y)
    def not_(self, x):
        return 1 - x if isinstance(x, int) else ("not", x) if not (isinstance(x, tuple) and x[0] == "not") else x[1]
    def bool(self, x):
        """decide an i1 value"""
        if isinstance(x, int): return x & 1
        if x is UNDEF: raise Unmodelled("branch on an undefined value")
        if isinstance(x, tuple) and x[0] == "not": return 1 - self.bool(x[1])
        if isinstance(x, tuple) and x[0] == "e" and x[1] == "trunc": return self.truth(x)
        return self.truth(x)
    def cmp(self, p, x, y):
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, P) or isinstance(y, P):
            if isinstance(x, P) and isinstance(y, P) and x.o is y.o and isinstance(x.off, int) and isinstance(y.off, int):
                return self.arith(p, (x.off > y.off) - (x.off < y.off))
            if p in ("eq", "ne"):
                a, b = (x, y) if isinstance(x, P) else (y, x)
                if b == 0 and a.o.kind != "sym": return int(p == "ne")
                if isinstance(b, P) and (a.o.kind != "sym" or b.o.kind != "sym") and not (a.o.kind == "sym" and b.o.kind == "sym"): return int(p == "ne")
                if b == 0:
                    e = self.truth(("null", a.o.name)) if a.o.name.startswith("*") else 0
                    return int((p == "eq") == bool(e))
                e = self.truth(("same", a, b)) if isinstance(b, P) else self.truth(("same", a, b))
                return int((p == "eq") == bool(e))
            return self.truth(("cmp", p, x, y))
        if isinstance(x, tuple) and x and x[0] == "fn" or isinstance(y, tuple) and y and y[0] == "fn":
            return int((x == y) == (p == "eq"))
        if isinstance(x, float) and x != x or isinstance(y, float) and y != y: return int(p[0] == "u" and p != "ueq" or p in ("uno", "ueq", "true"))
        if p == "ord": return 1
        if p == "uno": return 0
        if p in ("true", "false"): return int(p == "true")
        cls = "f" if p[0] in "ou" and p not in ("ult", "ugt", "ule", "uge") else "u" if p[0] == "u" else "s"
        # fcmp and icmp share ult/ule/...: decide by operand kinds
        if cls == "u" and (isinstance(x, float) or isinstance(y, float) or self.isfp(x) or self.isfp(y)): cls = "f"
        if cls != "f":
            for a, b, sw in ((x, y, False), (y, x, True)):
                if isinstance(a, tuple) and a and a[0] == "b2i" and isinstance(b, int):
                    # an integer made from a truth value
                    v = self.bool(a[1])
                    return self.cmp(p, v * a[2], y) if not sw else self.cmp(p, x, v * a[2])
        r = self.rel(x, y, cls)
        return self.arith(p, {"<": -1, "=": 0, ">": 1}[r])
    def isfp(self, x):
        if not isinstance(x, tuple) or not x: return False
        if x[0] == "e": return x[2] in ("double", "float")
        return x in self.fpatoms if hasattr(self, "fpatoms") else False
    def arith(self, p, d):
        q = p[1:] if len(p) == 3 else p
        return int({"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[q])

    # ---- execution
    def call(self, name, args):
        name = self.p.alias.get(name, name)
        f = self.p.func(name)
        if f is None: raise Unmodelled("no body for " + self.p.dem(name))
        if self.depth > self.maxdepth: raise Diverges("recursion")
        self.depth += 1
        try:
            return self.run(f, args)
        finally:
            self.depth -= 1
    def run(self, f, args):
        env = {}
        for k, a in enumerate(f.args):
            v = args[k] if k < len(args) else UNDEF
            if a.get("byval") and isinstance(v, P):
                o = self.obj("byval"); o.log.append((0, 1 << 20, v.o, v.off, len(v.o.log))); v = P(o, 0)
            env[k] = v
        b, prev = 0, None
        while True:
            phis = {}
            for n in f.blocks[b]:
                if n.o != "phi": break
                k = n.g("pb").index(prev)
                phis[n.i] = self.val(env, n.a[k], n.t)
            env.update(phis)
            nb = None
            for n in f.blocks[b]:
                if n.o == "phi": continue
                self.steps += 1
                if self.steps > self.maxsteps: raise Diverges("step budget in " + f.dem)
                r = self.inst(f, n, env)
                if r is not None:
                    if r[0] == "ret": return r[1]
                    nb = r[1]; break
            if nb is None: raise Unmodelled("block without terminator in " + f.dem)
            prev, b = b, nb
    def inst(self, f, n, env):
        o, t = n.o, n.t
        V = lambda k, ty=None: self.val(env, n.a[k], ty)
        if o == "br":
            if len(n.s) == 1: return ("br", n.s[0])
            return ("br", n.s[0] if self.bool(V(0)) else n.s[1])
        if o == "ret": return ("ret", self.val(env, n.a[0], f.r["ret"]) if n.a else None)
        if o == "switch":
            x = V(0)
            for c, s in zip(n.g("cases"), n.s[1:]):
                if self.cmp("eq", x, c): return ("br", s)
            return ("br", n.s[0])
        if o == "unreachable": raise Infeasible()
        if o == "resume": raise Thrown(*self.exc)
        if o == "alloca":
            env[n.i] = P(self.obj(f.q.split("::")[-1] + ":" + str(n.i)))
        elif o == "load": env[n.i] = self.loadhook(f, n, V(0))
        elif o == "store":
            self.store(V(1), V(0, n.g("vt")), n.g("vt"))
        elif o == "getelementptr":
            b = V(0)
            if "off" in n.r: d = n.r["off"]
            else:
                d = n.g("coff", 0)
                for v, s in n.g("var", ()):
                    x = self.val(env, v)
                    if isinstance(x, int) and isinstance(d, int): d += x * s
                    else: d = ("e", "+", "i64", d, x, s)
            if isinstance(b, P):
                if isinstance(b.off, int) and isinstance(d, int): env[n.i] = P(b.o, b.off + d)
                elif d == 0: env[n.i] = b
                else: env[n.i] = P(b.o, ("e", "ix", "i64", b.off, d))
            elif isinstance(b, int) and isinstance(d, int): env[n.i] = b + d
            else: env[n.i] = UNDEF if b is UNDEF else self.term("gep", "ptr", b, d)
        elif o in ("icmp", "fcmp"):
            x, y = V(0), V(1)
            p = n.g("p")
            if o == "fcmp" and p in ("ult", "ugt", "ule", "uge"): p = "o" + p[1:]
            if o == "icmp" and p in ("eq", "ne"):
                pass
            env[n.i] = self.cmp(p, x, y)
        elif o == "select":
            c = V(0)
            env[n.i] = V(1, t) if self.bool(c) else V(2, t)
        elif o in ("zext", "sext", "trunc"):
            x, ft = V(0), n.g("ft")
            if isinstance(x, int):
                if o == "zext": x &= (1 << int(ft[1:])) - 1
                elif ft == "i1" and o == "sext": x = -x
                env[n.i] = wrap(x, t)
            elif ft == "i1": env[n.i] = ("b2i", x, 1 if o == "zext" else -1)
            elif isinstance(x, tuple) and x[0] == "b2i" and o == "trunc" and t == "i1": env[n.i] = x[1]
            elif isinstance(x, tuple) and x[0] == "b2i": env[n.i] = x
            elif isinstance(x, tuple) and x[0] == "cat" and o == "trunc": env[n.i] = self.low(x, int(ft[1:]), t)
            elif o == "trunc" and t == "i1": env[n.i] = self.term("trunc", t, x)
            else: env[n.i] = self.widen(o, ft, t, x)
        elif o in ("fpext", "fptrunc"): 
            x = V(0)
            env[n.i] = x if o == "fpext" or isinstance(x, float) else self.term(o, t, x)
        elif o in ("sitofp", "uitofp"):
            x = V(0); env[n.i] = float(x) if isinstance(x, int) else self.term(o, t, x)
        elif o in ("fptosi", "fptoui"):
            x = V(0); env[n.i] = int(x) if isinstance(x, float) else self.term(o, t, x)
        elif o in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            x = V(0, t)
            if o == "bitcast" and isinstance(x, float) and t.startswith("i"): x = self.conv(x, "double" if t == "i64" else "float", t)
            env[n.i] = x
        elif o == "fneg":
            x = V(0, t); env[n.i] = -x if isinstance(x, float) else (x[3] if isinstance(x, tuple) and x[0] == "e" and x[1] == "fneg" else self.term("fneg", t, x))
        elif o == "extractvalue":
            x = V(0)
            for k in n.g("idx"): x = UNDEF if x is UNDEF else x[k]
            env[n.i] = x
        elif o == "insertvalue":
            x = V(0, t); v = V(1)
            if x is UNDEF: x = self.undef(t)
            env[n.i] = self.ins(x, n.g("idx"), v)
        elif o == "extractelement":
            x = V(0); k = V(1); env[n.i] = x[k] if x is not UNDEF else UNDEF
        elif o == "insertelement":
            x = V(0, t); k = V(2)
            if x is UNDEF: x = self.undef(t)
            env[n.i] = x[:k] + (V(1),) + x[k + 1:]
        elif o == "shufflevector":
            a = V(0); b = V(1); m = n.g("idx")
            k = len(a) if a is not UNDEF else len(b) if b is not UNDEF else 0
            al = list(a) if a is not UNDEF else [UNDEF] * k
            bl = list(b) if b is not UNDEF and not isinstance(b, int) else [UNDEF] * k
            l = al + bl
            env[n.i] = tuple(l[i] if i >= 0 else UNDEF for i in m)
        elif o in ("call", "invoke"):
            try:
                r = self.docall(f, n, env)
            except Thrown as e:
                if o == "call": raise
                self.exc = (e.ty, e.val)
                return ("br", n.s[1])
            env[n.i] = r
            if o == "invoke": return ("br", n.s[0])
        elif o == "landingpad":
            env[n.i] = (("exc",), self.selector(n))
        elif o in ("fence",): pass
        elif o == "atomicrmw":
            # one thread: read, combine, write
            q = V(0); old = self.load(q, t); x = V(1, t); k = n.g("p")
            if k != "xchg" and k not in ("add", "sub", "and", "or", "xor"): raise Unmodelled("atomicrmw " + str(k))
            self.store(q, x if k == "xchg" else self.binop(k, t, old, x), t); env[n.i] = old
        elif o == "cmpxchg":
            q = V(0); x = V(1); old = self.load(q, self.T.get(t)[2][0][1])
            eq = self.truth_of(self.cmp("eq", old, x)) if not isinstance(old, int) or not isinstance(x, int) else int(old == x)
            if eq: self.store(q, V(2), self.T.get(t)[2][0][1])
            env[n.i] = (old, eq)
        elif t is not None and len(n.a) == 2: env[n.i] = self.binop(o, t, V(0, t), V(1, t))
        else: raise Unmodelled("instruction " + o)
    def truth_of(self, x): return self.bool(x)
    def low(self, x, w, t):
        want = int(t[1:])
        while isinstance(x, tuple) and x and x[0] == "cat" and w // 2 >= want: x, w = x[1], w // 2
        return wrap(x, t) if isinstance(x, int) else x if w == want or x is UNDEF or isinstance(x, tuple) and x[0] == "b2i" else self.term("trunc", t, x)
    def widen(self, o, ft, t, x): return self.term(o, t, x) if o == "trunc" else x
    def loadhook(self, f, n, p): return self.load(p, n.t)
    def selector(self, n): return ("sel", self.exc[0])
    def undef(self, t):
        parts = self.T.get(t)[2]
        return UNDEF if parts is None else tuple(self.undef(e) for _, e in parts)
    def ins(self, x, idx, v):
        if x is UNDEF: raise Unmodelled("insert into undef")
        k = idx[0]
        return x[:k] + ((v if len(idx) == 1 else self.ins(x[k], idx[1:], v)),) + x[k + 1:]
    def docall(self, f, n, env):
        if n.f is None:
            fp = self.val(env, n.g("fp"))
            if isinstance(fp, tuple) and fp[0] == "fn": nm = fp[1]
            else:
                m = self.model(None, f, n)
                args = [self.val(env, a) for a in n.a]
                if m: return m(self, f, n, args)
                raise Unmodelled("indirect call in " + f.dem)
        else: nm = self.p.alias.get(n.f, n.f)
        m = self.model(nm, f, n)
        args = [self.val(env, a) for a in n.a]
        if m:
            r = m(self, f, n, args)
            if r is not NotImplemented: return r
        if nm.startswith("llvm."): return self.intrinsic(nm, n, args)
        if nm in ("__cxa_throw", "__cxa_rethrow"): raise Thrown(self.p.dem(n.a[1][1]) if len(n.a) > 1 and isinstance(n.a[1], list) and n.a[1][0] == "g" else "?")
        if nm == "__cxa_allocate_exception": return P(self.obj("exception"))
        if nm in ("__cxa_free_exception", "__cxa_end_catch", "__cxa_atexit", "__cxa_guard_release", "_ZSt9terminatev"): return None
        if nm == "__cxa_guard_acquire": return 1
        if nm == "__cxa_begin_catch": return P(self.obj("caught", "sym"))
        if nm in PURE: 
            return self.term(nm.rstrip("f") if nm.endswith("f") and nm not in ("erf",) else nm, n.t, *args)
        if self.p.func(nm) is not None: return self.call(nm, args)
        raise Unmodelled("call of " + self.p.dem(nm))
    def model(self, nm, f, n):
        if nm is None: return self.models.get("*") if isinstance(self.models, dict) else None
        if not self.models: return None
        if nm in self.models: return self.models[nm]
        q = self.p.q(nm) if nm.startswith("_Z") else nm
        return self.models.get(q)
    def intrinsic(self, nm, n, a):
        b = nm.split(".")[1]
        if b in ("dbg", "lifetime", "va_start", "va_end", "va_copy", "assume", "donothing", "invariant", "experimental", "trap", "type", "public"):
            return 1 if nm.startswith(("llvm.type.test", "llvm.public.type.test")) else None
        if b in ("memcpy", "memmove"): self.copy(a[0], a[1], a[2]); return None
        if b == "memset":
            if a[1] != 0: raise Unmodelled("memset")
            o = Obj("zero", "zero"); a[0].o.log.append((a[0].off, a[2], o, 0, 0)); return None
        if b in ("fmuladd", "fma"): return self.binop("fadd", n.t, self.binop("fmul", n.t, a[0], a[1]), a[2])
        if b == "fabs": return abs(a[0]) if isinstance(a[0], float) else self.term("fabs", n.t, a[0])
        if b in ("minnum", "maxnum", "smin", "smax", "umin", "umax"):
            cls = {"m": "f", "s": "s", "u": "u"}[b[0]] if b not in ("minnum", "maxnum") else "f"
            le = self.le(a[0], a[1], cls)
            return (a[0] if le else a[1]) if "min" in b else (a[1] if le else a[0])
        if nm.startswith("llvm.is.constant"): return 0
        if b == "expect": return a[0]
        if b == "abs": 
            if isinstance(a[0], int): return abs(a[0])
            return a[0] if self.le(0, a[0], "s") else self.term("neg", n.t, a[0])
        if b in ("ctlz", "cttz", "ctpop") and isinstance(a[0], int):
            w = int(n.t[1:]); u = a[0] & (1 << w) - 1
            return w - u.bit_length() if b == "ctlz" else (w if u == 0 else (u & -u).bit_length() - 1) if b == "cttz" else bin(u).count("1")
        if b == "eh": return ("tid", repr(n.a[0]))
        if b in ("sqrt", "floor", "ceil", "round", "pow", "sin", "cos", "exp", "log", "trunc", "copysign", "rint"): return self.term(b, n.t, *a)
        if b in ("sadd", "uadd", "smul", "umul", "ssub", "usub"): raise Unmodelled(nm)
        raise Unmodelled(nm)

class Zero: pass
ZERO = Zero()


def explore(p, body, models=None, maxpaths=40000, maxsteps=60000, engine=Engine):
    """run body(engine) for every consistent case distinction; yields (result, engine)"""
    prefix = []
    n = 0
    while True:
        e = engine(p, prefix, models or {}, maxsteps)
        try:
            r = body(e)
        except Infeasible: pass
        except (TypeError, AttributeError, IndexError, KeyError, ValueError) as x:
            # operations on values for which the interpreter has no meaning, e.g. arithmetic with memory that was never written
            if os.environ.get("XO_DEBUG"): raise
            raise Unmodelled("%s: %s" % (type(x).__name__, x))
        else: yield r, e
        n += 1
        if n > maxpaths: raise AnalysisError("too many cases")
        d = [(i, k) for i, k, _, _ in e.dec]
        while d and d[-1][0] + 1 >= d[-1][1]: d.pop()
        if not d: return
        prefix = [i for i, _ in d[:-1]] + [d[-1][0] + 1]
