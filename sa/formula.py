"""Value expressions of straight-line arithmetic: the abstract interpreter yields, for each case, the expression every output
cell holds in terms of the inputs; the expressions are brought to a normal form (sa/poly) and compared with a formula."""
import re
from fractions import Fraction
from . import ir, absint, poly
from .facts import AnalysisError, VERIF

D8 = lambda *n: [(x, 8 * k, "double") for k, x in enumerate(n)]
F4 = lambda *n: [(x, 4 * k, "float") for k, x in enumerate(n)]
LAYOUT = {"V": D8(*"xyz"), "vec3d": D8(*"xyz"), "vec3radd": D8(*"xyz"), "vec3f": F4(*"xyz"), "W": D8(*"xyzw"), "S": D8(*"xyz"), "C": F4(*"rgba"), "Q": D8(*"wxyz"), "quatf": F4(*"wxyz"),
          "D": D8("v"), "R": D8("v"), "G": D8("v"), "float": F4("v"), "size_t": D8("v"), "sphere": F4("r"), "box": F4(*"xyz"), "cylinder": F4("r", "h"), "capsule": F4("r", "h"), "cone": F4("r", "h"), "plane": F4(*"xyz"),
          "transformf": F4("px", "py", "pz", "qw", "qx", "qy", "qz"), "X": D8("px", "py", "pz", "qw", "qx", "qy", "qz"), "aabbf": F4("lx", "ly", "lz", "ux", "uy", "uz"), "bounds<D>": D8("lo", "hi"),
          "segment_<D>": D8("ax", "ay", "az", "bx", "by", "bz"), "line_<D>": D8("px", "py", "pz", "dx", "dy", "dz"), "line_<float>": F4("px", "py", "pz", "dx", "dy", "dz"),
          "M": D8(*["e%d%d" % (i, j) for i in range(3) for j in range(3)]), "std::array<D, 3>": D8("0", "1", "2"), "std::array<D, 4>": D8("0", "1", "2", "3"), "xo::time": D8("v"),
          "IIR": D8("b0", "x0", "x1", "y0", "y1", "b1", "b2", "a1", "a2"), "LP": D8("val", "k"), "AV": D8("val", "w"), "DE": D8("val"), "PL": [], "PC": [],
          "vec3f*": F4(*["%d%s" % (i, k) for i in range(8) for k in "xyz"])}
SCALAR = {"D", "R", "G", "float", "size_t", "xo::time"}

class N:
    """a rational function with operators"""
    def __init__(s, c, rf): s.c, s.rf = c, rf
    def lift(s, o): return o if isinstance(o, N) else N(s.c, s.c.c(Fraction(o)))
    def __add__(s, o): return NotImplemented if isinstance(o, Rec) else N(s.c, s.c.add(s.rf, s.lift(o).rf))
    __radd__ = __add__
    def __sub__(s, o): return NotImplemented if isinstance(o, Rec) else N(s.c, s.c.sub(s.rf, s.lift(o).rf))
    def __rsub__(s, o): return s.lift(o) - s
    def __mul__(s, o): return NotImplemented if isinstance(o, Rec) else N(s.c, s.c.mul(s.rf, s.lift(o).rf))
    __rmul__ = __mul__
    def __truediv__(s, o): return NotImplemented if isinstance(o, Rec) else N(s.c, s.c.div(s.rf, s.lift(o).rf))
    def __rtruediv__(s, o): return s.lift(o) / s
    def __neg__(s): return N(s.c, s.c.neg(s.rf))
    def __pow__(s, k):
        r = s.lift(1)
        for _ in range(k): r = r * s
        return r
    def __eq__(s, o): return s.c.eq(s.rf, s.lift(o).rf)
    __hash__ = None
    def zero(s): return s.c.eq(s.rf, s.c.c(0))

class Rec:
    def __init__(s, *v, names=None): s.v = list(v); s.names = names
    def bin(s, o, f): return Rec(*[f(x, y) for x, y in zip(s.v, o.v if isinstance(o, Rec) else [o] * len(s.v))], names=s.names)
    def __add__(s, o): return s.bin(o, lambda x, y: x + y)
    __radd__ = __add__
    def __sub__(s, o): return s.bin(o, lambda x, y: x - y)
    def __mul__(s, o): return s.bin(o, lambda x, y: x * y)
    __rmul__ = __mul__
    def __truediv__(s, o): return s.bin(o, lambda x, y: x / y)
    def __rtruediv__(s, o): return Rec(*[o / x for x in s.v], names=s.names)
    def __neg__(s): return Rec(*[-x for x in s.v], names=s.names)
    def __getitem__(s, k): return Rec(*s.v[k], names=s.names and s.names[k]) if isinstance(k, slice) else s.v[k]
    def __len__(s): return len(s.v)
    def __getattr__(s, k):
        if s.names and k in s.names: return s.v[s.names.index(k)]
        raise AttributeError(k)
    def __eq__(s, o): return len(s) == len(o) and all(x == y for x, y in zip(s.v, o.v))
    __hash__ = None

def dot(a, b): return sum((x * y for x, y in zip(a.v[1:], b.v[1:])), a[0] * b[0])
def cross(a, b): return Rec(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def sqrt(x): return N(x.c, x.c.sqrt(x.rf))
def fn(name, *a): return N(a[0].c, a[0].c.fn(name, *[x.rf for x in a]))
def length(a): return sqrt(dot(a, a))
def qmul(a, b):
    return Rec(a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
               a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0])
def conj(q): return Rec(q[0], -q[1], -q[2], -q[3])
def qrot(q, v):
    """vector part of q (0,v) conj(q): the rotation for a unit quaternion"""
    z = q[0] * 0
    return qmul(qmul(q, Rec(z, *v.v)), conj(q))[1:]

class Case:
    """one case of one entry point"""
    def __init__(s, E, name, params):
        s.E, s.name, s.params, s.ctx = E, name, params, poly.Ctx()
        s.i, s.types = {}, {}
    def n(s, v): return N(s.ctx, s.ctx.c(Fraction(v)))
    def arg(s, nm):
        t = s.params[nm]
        if nm not in s.i:
            v = [N(s.ctx, s.ctx.atom("%s.%d" % (nm, off))) for _, off, _ in LAYOUT[t]]
            s.i[nm] = v[0] if t in SCALAR else Rec(*v, names=[k for k, _, _ in LAYOUT[t]])
        return s.i[nm]
    def term(s, x): return N(s.ctx, poly.of_term(x, s.ctx))
    def out(s, nm):
        t = s.params[nm]; v = []
        for k, off, ty in LAYOUT[t]:
            x = s.E.load(absint.P(s.E.syms[nm], off), ty)
            if x is absint.UNDEF: raise Bad("component %s of the result is never set" % k)
            v.append(s.term(x))
        return v[0] if t in SCALAR else Rec(*v, names=[k for k, _, _ in LAYOUT[t]])
    def decisions(s):
        if not hasattr(s, "dd"):
            s.dd = []
            for _, _, w, r in s.E.dec:
                if isinstance(w, tuple) and len(w) == 2 and r in ("<", "=", ">"):
                    try: s.dd.append((s.term(w[0]), s.term(w[1]), r))
                    except AnalysisError: pass
        return s.dd
    def impossible(s):
        """the case contradicts the sign of a value that cannot be negative"""
        for p, q, r in s.decisions():
            d = (p - q).rf
            if s.ctx.nonneg(d.d):
                if r == "<" and s.ctx.nonneg(d.n) or r == ">" and s.ctx.nonneg(d.n.neg()): return True
        return False
    def rel(s, x, y=0):
        """relation of x to y decided on this path: '<', '=', '>' or None"""
        d = x - y
        for p, q, r in s.decisions():
            e = p - q
            if e == d: return r
            if e == -d: return {"<": ">", ">": "<"}.get(r, r)
        return None
    def small(s, x):
        """this case is one in which x was found to be (almost) zero"""
        for p, q, r in s.decisions():
            for a, b, ok in ((p, q, "<="), (q, p, ">=")):
                if b.rf.n.isconst() and b.rf.d.isconst() and 0 <= b.rf.n.get((), 0) <= Fraction(1, 1000) and r in ok:
                    if a == x or a == x * x: return True
        return False

class Bad(Exception): pass

_src = {}
def signatures(tu="algebra"):
    if tu not in _src:
        out = {}
        src = open("%s/tu/%s.cpp" % (VERIF, tu)).read()
        macros = dict((m.group(1), (m.group(2), m.group(3))) for m in re.finditer(r"^#define (\w+)\( ?([\w, ]+) ?\) (.*)$", src, re.M))
        text = re.sub(r"^#.*$", "", src, flags=re.M)
        def expand(m):
            if m.group(1) not in macros: return m.group(0)
            ps, body = macros[m.group(1)]
            for p, a in zip([x.strip() for x in ps.split(",")], [x.strip() for x in m.group(2).split(",")]):
                body = re.sub(r"##\s*%s\b|\b%s\s*##|\b%s\b" % (p, p, p), a, body)
            return body
        text = re.sub(r"\b([A-Z]{3,})\( ([^()]*) \)", expand, text)
        for m in re.finditer(r"\bF (\w+)\( ?(.*?) ?\) \{", text):
            ps = {}
            for a in absint.split(m.group(2)):
                t, n = a.rsplit(" ", 1)
                ps[n] = t.replace("const ", "").replace("&", "").strip() if not t.endswith("*") else t
            out[m.group(1)] = ps
        _src[tu] = out
    return _src[tu]

def abort(E, f, n, a): raise absint.Thrown("error path")
class Engine(absint.Engine):
    """calls that only error reporting makes end the case"""
    def docall(self, f, n, env):
        nm = self.p.alias.get(n.f, n.f) if n.f else None
        if nm and (self.p.func(nm) is None or "basic_string" in nm) and nm.startswith("_Z") and "basic_string" in self.p.dem(nm): raise absint.Thrown("error path")
        return super().docall(f, n, env)

def prog(): return ir.prog(tus=("algebra",), units=["xo/shape/box.cpp"])

def cases(p, name, tu="algebra", prep=None):
    params = signatures(tu).get(name)
    if params is None or p.func(name) is None: raise AnalysisError("no entry point " + name)
    def body(E):
        if prep: prep(E)
        try: E.call(name, [E.sym(x) for x in params])
        except absint.Thrown: return False
        return True
    k = 0
    for ok, E in absint.explore(p, body, engine=Engine):
        if ok: k += 1; yield Case(E, name, params)
    if not k: raise AnalysisError("no normal case of " + name)

def show(x):
    def rf(r): return pol(r.n) if r.d.isconst() else "(%s)/(%s)" % (pol(r.n), pol(r.d))
    def pol(p):
        if not p: return "0"
        t = []
        for m, c in sorted(p.items(), key=repr)[:6]:
            t.append("*".join(([] if c == 1 and m else ["%g" % float(c)]) + ["%s%s" % (a, "^%d" % e if e > 1 else "") for a, e in m]))
        return " + ".join(t) + (" + ..." if len(p) > 6 else "")
    return rf(x.rf)[:160] if isinstance(x, N) else "(" + ", ".join(show(v) for v in x.v)[:300] + ")"

def run_specs(c, p, specs, what="formula", tu="algebra", setup=None, prep=None):
    """specs: entry -> {output parameter: function(case) -> value, list of acceptable values, or None (no claim for this case)}"""
    total = 0
    for name, spec in specs.items():
        f, n, fail = p.func(name), 0, None
        if f is None: raise AnalysisError("no entry point " + name)
        try:
            for case in cases(p, name, tu, (prep or {}).get(name)):
                if setup: setup(case)
                if case.impossible(): continue
                for o, fx in spec.items():
                    want = fx(case)
                    if want is None: continue
                    n += 1
                    got = case.out(o)
                    alts = want if isinstance(want, list) else [want]
                    if not any(got == w for w in alts):
                        fail = fail or "%s is %s, expected %s" % (o, show(got), show(alts[0]))
        except Bad as e: fail = str(e)
        except poly.ZeroDiv: fail = "divides by a value that is always zero"
        total += n
        if fail: c.bad(name, fail + where(p, name))
        elif n == 0: raise AnalysisError("nothing compared for " + name)
        else: c.ok(name, "%d case(s) equal the %s" % (n, what))
    return total

def where(p, name):
    """the library functions the entry point reaches"""
    out, todo, seen = [], [name], {name}
    while todo:
        f = p.func(todo.pop(0))
        for b in f.blocks:
            for n in b:
                if n.o in ("call", "invoke") and n.f and n.f not in seen:
                    seen.add(n.f)
                    g = p.func(n.f)
                    if g is not None and p.q(n.f).startswith("xo::"):
                        out.append("%s (%s)" % (p.q(n.f), g.loc() if hasattr(g, "loc") else "")); todo.append(n.f)
    return " [via %s]" % ", ".join(out[:4])
