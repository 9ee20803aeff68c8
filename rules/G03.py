"""G03: every selection (min, max, clamp, membership, extension, extrema) picks the documented value in every order type of its arguments."""
TECHNIQUE = "abstract interpretation of the selection functions' IR over the finite domain of order types of their arguments, partitioned by case; the selected value is compared with the specification in every case"
NOTE = "Decides the selection for all argument orderings, ties included, of the listed functions as instantiated for double, float and int (unordered floating-point values excluded, signed zeros identified); ranges are assumed ordered (lower <= upper) where the interface requires it; value formulas are compared as terms."
from sa import ir, absint
from sa.report import Check
from sa.facts import AnalysisError
from sa.absint import P

TY = {"d": ("double", 8, "f"), "f": ("float", 4, "f"), "i": ("i32", 4, "s")}

class S:
    """one specification: builds inputs, runs the entry, compares"""
    def __init__(self, E, k): self.E, self.k = E, k; self.t, self.sz, self.c = TY[k]
    def a(self, n, off=0): return ("s", n, off)
    def lt(self, x, y): return self.E.lt(x, y, self.c)
    def le(self, x, y): return self.E.le(x, y, self.c)
    def zero(self): return 0 if self.k == "i" else 0.0
    def num(self, v): return int(v) if self.k == "i" else float(v)
    def load(self, p): return self.E.load(p, self.t)
    def sub(self, x, y): return self.E.binop("sub" if self.k == "i" else "fsub", self.t, x, y)
    def neg(self, x): return self.sub(0, x) if self.k == "i" else self.E.term("fneg", self.t, x) if not isinstance(x, float) else -x
    def min(self, *v):
        r = v[0]
        for x in v[1:]: r = x if self.lt(x, r) else r
        return r
    def max(self, *v):
        r = v[0]
        for x in v[1:]: r = x if self.lt(r, x) else r
        return r
    def clamp(self, v, l, u): return self.min(self.max(v, l), u)

def norm(E, x, c):
    """a term with atoms replaced by the representative of their order class"""
    if isinstance(x, (int, float)):
        o = E.ord[c]
        return x
    if isinstance(x, tuple) and x and x[0] == "s":
        o = E.ord[c]; r = o.find(x) if x in o.eq else x
        if isinstance(r, tuple):      # prefer a constant of the same class
            for y in o.atoms:
                if isinstance(y, (int, float)) and y in o.eq and o.find(y) == r: return y
        return r
    if isinstance(x, tuple) and x and x[0] == "e":
        if x[1] == "fabs":
            v = norm(E, x[3], c)
            return v if E.le(0.0, v, c) else fneg(v)
        a = [norm(E, y, c) for y in x[3:]]
        if x[1] == "fneg": return fneg(a[0])
        if x[1] in ("fsub", "sub"):
            if a[0] == a[1]: return 0
            if a[0] == 0: return fneg(a[1])
            if a[1] == 0: return a[0]
        return x[:3] + tuple(a)
    return x
def fneg(v):
    if isinstance(v, (int, float)): return -v
    if v[0] == "e" and v[1] == "fneg": return v[3]
    if v[0] == "e" and v[1] in ("fsub", "sub"): return v[:3] + (v[4], v[3])
    return ("e", "fneg", "t", v)

def value_eq(E, c, x, y):
    x, y = norm(E, x, c), norm(E, y, c)
    if x == y: return True
    if x is absint.UNDEF or y is absint.UNDEF: return False
    if isinstance(x, tuple) and isinstance(y, tuple) and (x[0] == "e") != (y[0] == "e"): return False
    if isinstance(x, (int, float)) and isinstance(y, (int, float)): return False
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "e" and y[0] == "e": return False
    if any(isinstance(z, tuple) and z[0] == "e" for z in (x, y)): return False
    return E.same(x, y, c)

# ---- specifications: name -> fn(S) returning list of (what, got, expected) with values, or booleans
def spec(k):
    L = {}
    def d(n):
        def w(fn): L[n] = fn
        return w
    A, B, C = ("s", "a", 0), ("s", "b", 0), ("s", "c", 0)
    n = lambda x: k + "_" + x
    def args(E, s): return [E.sym(x) for x in s]
    @d(n("min"))
    def _(s): return [("min", s.load(s.E.call(n("min"), args(s.E, "ab"))), s.min(A, B))]
    @d(n("max"))
    def _(s): return [("max", s.load(s.E.call(n("max"), args(s.E, "ab"))), s.max(A, B))]
    @d(n("min3"))
    def _(s): return [("min", s.load(s.E.call(n("min3"), args(s.E, "abc"))), s.min(A, B, C))]
    @d(n("max3"))
    def _(s): return [("max", s.load(s.E.call(n("max3"), args(s.E, "abc"))), s.max(A, B, C))]
    @d(n("abs"))
    def _(s): return [("abs", s.E.call(n("abs"), args(s.E, "a")), A if s.le(s.zero(), A) else s.neg(A))]
    @d(n("sign"))
    def _(s): return [("sign", s.E.call(n("sign"), args(s.E, "a")), s.num(1) if s.le(s.zero(), A) else s.num(-1))]
    def sg(s, x): return 1 if s.lt(s.zero(), x) else -1 if s.lt(x, s.zero()) else 0
    @d(n("signum"))
    def _(s): return [("signum", int_(s.E, s.E.call(n("signum"), args(s.E, "a"))), sg(s, A))]
    @d(n("same_sign"))
    def _(s): return [("same_sign", s.E.bool(s.E.call(n("same_sign"), args(s.E, "ab"))), int(sg(s, A) == sg(s, B)))]
    @d(n("smaller"))
    def _(s):
        s.E.call(n("smaller"), args(s.E, "ab")); return [("value", s.load(s.E.sym("a")), s.min(A, B)), ("other", s.load(s.E.sym("b")), B)]
    @d(n("bigger"))
    def _(s):
        s.E.call(n("bigger"), args(s.E, "ab")); return [("value", s.load(s.E.sym("a")), s.max(A, B)), ("other", s.load(s.E.sym("b")), B)]
    @d(n("different"))
    def _(s):
        r = s.E.bool(s.E.call(n("different"), args(s.E, "ab"))); return [("value", s.load(s.E.sym("a")), B), ("changed", r, int(not s.E.same(A, B, s.c)))]
    @d(n("clamp"))
    def _(s):
        s.E.assume(s.le(B, C)); r = s.E.call(n("clamp"), args(s.E, "abc")); return [("clamped", s.load(s.E.sym("a")), s.clamp(A, B, C)), ("returned", s.load(r), s.clamp(A, B, C))]
    @d(n("clamped"))
    def _(s):
        s.E.assume(s.le(B, C)); r = s.E.call(n("clamped"), args(s.E, "abc")); return [("clamped", r, s.clamp(A, B, C)), ("argument", s.load(s.E.sym("a")), A)]
    @d(n("between"))
    def _(s): return [("within", s.E.bool(s.E.call(n("between"), args(s.E, "abc"))), int(s.le(B, A) and s.le(A, C)))]
    z = TY[k][1]
    LO, UP = ("s", "r", 0), ("s", "r", z)
    def viol(s): return s.sub(A, LO) if s.lt(A, LO) else s.sub(A, UP) if s.lt(UP, A) else s.zero()
    @d(n("b_within"))
    def _(s): return [("within", s.E.bool(s.E.call(n("b_within"), args(s.E, "ra"))), int(s.le(LO, A) and s.le(A, UP)))]
    @d(n("b_violation"))
    def _(s):
        s.E.assume(s.le(LO, UP)); return [("violation", s.E.call(n("b_violation"), args(s.E, "ra")), viol(s))]
    @d(n("b_check"))
    def _(s):
        s.E.assume(s.le(LO, UP)); s.E.call(n("b_check"), args(s.E, "raov"))
        ok = s.E.load(s.E.sym("o"), "i8")
        return [("ok", int_(s.E, ok), int(s.le(LO, A) and s.le(A, UP))), ("amount", s.load(s.E.sym("v")), viol(s))]
    def bnd(s): return s.load(s.E.sym("r")), s.load(P(s.E.sym("r").o, z))
    @d(n("b_extend"))
    def _(s):
        s.E.call(n("b_extend"), args(s.E, "ra")); l, u = bnd(s); return [("lower", l, s.min(LO, A)), ("upper", u, s.max(UP, A))]
    @d(n("b_extendb"))
    def _(s):
        s.E.call(n("b_extendb"), args(s.E, "ra")); l, u = bnd(s); return [("lower", l, s.min(LO, A)), ("upper", u, s.max(UP, ("s", "a", z)))]
    @d(n("b_clamp"))
    def _(s):
        s.E.assume(s.le(LO, UP)); r = s.E.call(n("b_clamp"), args(s.E, "ra")); return [("clamped", s.load(s.E.sym("a")), s.clamp(A, LO, UP)), ("returned", s.load(r), s.clamp(A, LO, UP))]
    @d(n("b_clamped"))
    def _(s):
        s.E.assume(s.le(LO, UP)); r = s.E.call(n("b_clamped"), args(s.E, "ra")); return [("clamped", r, s.clamp(A, LO, UP)), ("argument", s.load(s.E.sym("a")), A)]
    @d(n("b_null"))
    def _(s): return [("null", s.E.bool(s.E.call(n("b_null"), args(s.E, "r"))), int(s.E.same(LO, s.zero(), s.c) and s.E.same(UP, s.zero(), s.c)))]
    @d(n("b_neg"))
    def _(s):
        s.E.call(n("b_neg"), args(s.E, "ra")); return [("lower", s.load(s.E.sym("a")), s.neg(UP)), ("upper", s.load(P(s.E.sym("a").o, z)), s.neg(LO))]
    V = [("s", "a", j * z) for j in range(3)]
    @d(n("minval"))
    def _(s): return [("min", s.E.call(n("minval"), args(s.E, "a")), s.min(*V))]
    @d(n("maxval"))
    def _(s): return [("max", s.E.call(n("maxval"), args(s.E, "a")), s.max(*V))]
    @d(n("minel"))
    def _(s): return [("min", s.load(s.E.call(n("minel"), args(s.E, "a"))), s.min(*V))]
    @d(n("maxel"))
    def _(s): return [("max", s.load(s.E.call(n("maxel"), args(s.E, "a"))), s.max(*V))]
    if k == "d":
        L6 = [("s", "r", 8 * j) for j in range(6)]
        def box(s): return [s.load(P(s.E.sym("r").o, 8 * j)) for j in range(6)]
        @d("aabb_addv")
        def _(s):
            s.E.call("aabb_addv", args(s.E, "ra")); b = box(s)
            return [("lower %s" % "xyz"[j], b[j], s.min(L6[j], ("s", "a", 8 * j))) for j in range(3)] + [("upper %s" % "xyz"[j], b[3 + j], s.max(L6[3 + j], ("s", "a", 8 * j))) for j in range(3)]
        @d("aabb_addb")
        def _(s):
            s.E.call("aabb_addb", args(s.E, "ra")); b = box(s)
            return [("lower %s" % "xyz"[j], b[j], s.min(L6[j], ("s", "a", 8 * j))) for j in range(3)] + [("upper %s" % "xyz"[j], b[3 + j], s.max(L6[3 + j], ("s", "a", 24 + 8 * j))) for j in range(3)]
        BIG = 1.7976931348623157e308
        @d("aabb_init")
        def _(s):
            s.E.call("aabb_init", args(s.E, "r")); b = box(s); return [("empty box %d" % j, b[j], BIG if j < 3 else -BIG) for j in range(6)]
        @d("aabb_point")
        def _(s):
            s.E.call("aabb_point", args(s.E, "ra")); b = box(s); return [("point box %d" % j, b[j], ("s", "a", 8 * (j % 3))) for j in range(6)]
        for nm, lo, hi in (("bounds_inf", -BIG, BIG), ("bounds_pos", 0.0, BIG), ("bounds_neg", -BIG, 0.0)):
            def _(s, nm=nm, lo=lo, hi=hi):
                s.E.call(nm, args(s.E, "r")); l, u = bnd(s); return [("lower", l, lo), ("upper", u, hi)]
            L[nm] = _
        @d("vec3_clamp")
        def _(s):
            s.E.assume(s.le(B, C)); s.E.call("vec3_clamp", args(s.E, "abc"))
            return [("component %s" % "xyz"[j], s.load(P(s.E.sym("a").o, 8 * j)), s.clamp(("s", "a", 8 * j), B, C)) for j in range(3)]
        @d("rad_abs")
        def _(s):
            s.E.call("rad_abs", args(s.E, "ar")); return [("angle", s.load(s.E.sym("r")), A if s.le(0.0, A) else s.neg(A))]
        @d("d_median3")
        def _(s):
            r = s.E.call("d_median3", args(s.E, "a")); x = V
            return [("median", r, s.max(s.min(x[0], x[1]), s.min(s.max(x[0], x[1]), x[2])))]
        for nm, f in (("fle", lambda s, e: s.lt(A, B) or e), ("fln", lambda s, e: s.lt(A, B) and not e), ("fge", lambda s, e: s.lt(B, A) or e), ("fgn", lambda s, e: s.lt(B, A) and not e)):
            def _(s, nm=nm, f=f):
                e = s.E.bool(s.E.call("feq", args(s.E, "ab"))); return [(nm, s.E.bool(s.E.call(nm, args(s.E, "ab"))), int(bool(f(s, e))))]
            L[nm] = _
    if k == "f":
        @d("color_clamp")
        def _(s):
            s.E.assume(s.le(B, C)); s.E.call("color_clamp", args(s.E, "abc"))
            return [("component %d" % j, s.load(P(s.E.sym("a").o, 4 * j)), s.clamp(("s", "a", 4 * j), B, C) if j < CLAMPED else ("s", "a", 4 * j)) for j in range(4)]
    if k == "i":
        U = lambda E, x, y: E.lt(x, y, "u")
        SB, SE, H = ("s", "r", 0), ("s", "r", 4), ("s", "a", 0)
        @d("span_contains")
        def _(s): return [("contains", s.E.bool(s.E.call("span_contains", args(s.E, "ra"))), int(not U(s.E, H, SB) and U(s.E, H, SE)))]
        @d("span_beyond")
        def _(s): return [("beyond", s.E.bool(s.E.call("span_beyond", args(s.E, "ra"))), int(not U(s.E, H, SE)))]
        @d("count_eq")
        def _(s): return [("count", int_(s.E, s.E.call("count_eq", args(s.E, "ab"))), sum(s.E.same(("s", "a", 4 * j), B, "s") for j in range(3)))]
        @d("find3")
        def _(s):
            r = s.E.call("find3", args(s.E, "ab")); w = next((4 * j for j in range(3) if s.E.same(("s", "a", 4 * j), B, "s")), 12)
            return [("position", r.off if r.o is s.E.sym("a").o else None, w)]
        @d("find_index3")
        def _(s):
            s.E.call("find_index3", args(s.E, "abr")); r = s.E.load(s.E.sym("r"), "i64"); w = next((j for j in range(3) if s.E.same(("s", "a", 4 * j), B, "s")), -1)
            return [("index", r, w)]
        @d("contains3")
        def _(s): return [("contains", s.E.bool(s.E.call("contains3", args(s.E, "ab"))), int(any(s.E.same(("s", "a", 4 * j), B, "s") for j in range(3))))]
        @d("opt_or")
        def _(s):
            r = s.E.call("opt_or", args(s.E, "ab")); return [("value_or", r, B if s.E.same(A, -2147483648, "s") else A)]
        @d("time_distance")
        def _(s):
            s.E.call("time_distance", args(s.E, "abr")); r = s.E.load(s.E.sym("r"), "i64")
            return [("distance", r, s.E.binop("sub", "i64", A, B) if s.E.le(B, A, "s") else s.E.binop("sub", "i64", B, A))]
    return L
CLAMPED = 4

def int_(E, x):
    """an integer result computed from truth values"""
    if isinstance(x, int): return x
    if isinstance(x, tuple) and x[0] == "b2i": return E.bool(x[1]) * x[2]
    if isinstance(x, tuple) and x[0] == "e" and x[1] in ("add", "sub", "and", "or", "xor"):
        a, b = int_(E, x[3]), int_(E, x[4])
        if isinstance(a, int) and isinstance(b, int): return E.binop(x[1], x[2], a, b)
    return x

def run():
    c = Check("G03", "For every order type of the arguments the selected value (or truth value) equals the specified one")
    p = ir.prog(tus=("order",), units=["xo/utility/color.cpp"])
    from rules.G04 import cases_text
    cases = 0
    for k in "dfi":
        for nm, fn in sorted(spec(k).items()):
            n, bad = 0, None
            def body(E):
                try: out = fn(S(E, k))
                except absint.Diverges as e: return ["does not terminate (%s)" % e]
                r = []
                for what, got, want in out:
                    if isinstance(want, int) and isinstance(got, bool): got = int(got)
                    if not value_eq(E, TY[k][2], got, want): r.append("%s is %s instead of %s" % (what, show(got), show(want)))
                return r
            for out, E in absint.explore(p, body):
                n += 1
                if out and bad is None: bad = "%s when %s" % (out[0], cases_text(E))
            cases += n
            f = p.func(nm)
            if bad: c.bad("selection " + nm, bad)
            else: c.ok("selection " + nm, "%d order types" % n)
    c.cover(order_types=cases)
    c.floor("order types", cases, 300)
    c.finish()

def show(x):
    if isinstance(x, tuple) and x and x[0] == "s": return "%s[%s]" % (x[1], x[2])
    if isinstance(x, tuple) and x and x[0] == "e": return "%s(%s)" % (x[1], ", ".join(show(y) for y in x[3:]))
    return str(x)
