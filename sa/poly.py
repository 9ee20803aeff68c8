"""Normal forms of arithmetic terms: multivariate rational functions over opaque atoms, with square roots and angles reduced
by their defining relations (s*s = argument, cos^2 = 1 - sin^2).  Used to compare value expressions of the abstract
interpreter with formulas, in exact arithmetic; float literals are matched with a relative tolerance of 1e-6."""
from fractions import Fraction
from . import absint
from .facts import AnalysisError

TOL = 1e-6

class ZeroDiv(AnalysisError): pass

class Poly(dict):
    """monomial (sorted tuple of (atom, power)) -> coefficient"""
    @staticmethod
    def const(c): return Poly({(): Fraction(c)}) if c else Poly()
    @staticmethod
    def atom(a): return Poly({((a, 1),): Fraction(1)})
    def __add__(p, q):
        r = Poly(p)
        for m, c in q.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def neg(p): return Poly({m: -c for m, c in p.items()})
    def mul(p, q, ctx):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = dict(m)
                for a, e in n: k[a] = k.get(a, 0) + e
                k = tuple(sorted(k.items()))
                r[k] = r.get(k, 0) + c * d
        return ctx.reduce(Poly({m: c for m, c in r.items() if c}))
    def small(p, scale):
        return all(abs(c) <= TOL * max(scale, Fraction(1, 10**12)) for c in p.values())
    def mag(p): return max((abs(c) for c in p.values()), default=Fraction(0))
    def isconst(p): return not p or list(p) == [()]
    def __hash__(p): return hash(frozenset(p.items()))

class RF:
    """numerator over denominator"""
    def __init__(s, n, d): s.n, s.d = n, d

class Ctx:
    def __init__(s):
        s.sq = {}        # atom -> polynomial its square equals
        s.fns = []       # (name, args, atom, ...)
        s.order = {}
        s.k = 0
    def atom(s, name): return RF(Poly.atom(name), Poly.const(1))
    def c(s, v): return RF(Poly.const(Fraction(v)), Poly.const(1))
    def reduce(s, p):
        for _ in range(60):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in s.sq: hit = (m, a, e); break
                if hit: break
            if not hit: return p
            # replace every even power of that atom at once
            a = hit[1]; out = Poly()
            for m, cf in p.items():
                d = dict(m); e = d.get(a, 0)
                if e < 2: out = out + Poly({m: cf}); continue
                d.pop(a)
                if e % 2: d[a] = 1
                base = Poly({tuple(sorted(d.items())): cf})
                for _ in range(e // 2): base = base.rawmul(s.sq[a]) if hasattr(base, "rawmul") else raw(base, s.sq[a])
                out = out + base
            p = out
        raise AnalysisError("reduction does not end")
    def mulp(s, p, q): return p.mul(q, s)
    def add(s, a, b):
        if a.d == b.d: return RF(a.n + b.n, a.d)
        if a.d.isconst() and b.d.isconst(): return s.norm(RF(s.mulp(a.n, b.d) + s.mulp(b.n, a.d), s.mulp(a.d, b.d)))
        q = s.quot(a.d, b.d)
        if q is not None: return RF(a.n + s.mulp(b.n, q), a.d)
        q = s.quot(b.d, a.d)
        if q is not None: return RF(s.mulp(a.n, q) + b.n, b.d)
        return s.norm(RF(s.mulp(a.n, b.d) + s.mulp(b.n, a.d), s.mulp(a.d, b.d)))
    def quot(s, a, b):
        """a / b when b is a monomial dividing a"""
        if len(b) != 1: return None
        (bm, bc), = b.items()
        r = {}
        for m, cf in a.items():
            d = dict(m)
            for x, e in bm:
                if d.get(x, 0) < e: return None
                d[x] -= e
                if not d[x]: d.pop(x)
            r[tuple(sorted(d.items()))] = cf / bc
        return Poly(r)
    def neg(s, a): return RF(a.n.neg(), a.d)
    def sub(s, a, b): return s.add(a, s.neg(b))
    def mul(s, a, b): return s.norm(RF(s.mulp(a.n, b.n), s.mulp(a.d, b.d)))
    def div(s, a, b):
        if not b.n: raise ZeroDiv("division by zero in a formula")
        return s.norm(RF(s.mulp(a.n, b.d), s.mulp(a.d, b.n)))
    def norm(s, r):
        if r.d.isconst():
            c = r.d.get((), Fraction(1))
            return r if c == 1 else RF(Poly({m: v / c for m, v in r.n.items()}), Poly.const(1))
        if not r.n: return RF(Poly(), Poly.const(1))
        # common monomial factor
        def low(p):
            it = iter(p); d = dict(next(it))
            for m in it:
                md = dict(m)
                d = {a: min(e, md.get(a, 0)) for a, e in d.items() if md.get(a, 0)}
            return d
        a, b = low(r.n), low(r.d)
        g = {x: min(e, b[x]) for x, e in a.items() if x in b}
        if g:
            def cut(p): return Poly({tuple(sorted((x, e - g.get(x, 0)) for x, e in m if e - g.get(x, 0))): v for m, v in p.items()})
            r = RF(cut(r.n), cut(r.d))
        # numerator a multiple of the denominator
        if len(r.n) == len(r.d) and set(r.n) == set(r.d):
            k = None
            for m in r.n:
                q = r.n[m] / r.d[m]
                if k is None: k = q
                elif abs(q - k) > abs(k) * Fraction(1, 10**9): k = False; break
            if k not in (None, False): return RF(Poly.const(k), Poly.const(1))
        if r.d.isconst(): return s.norm(r)
        return r
    def eq(s, a, b):
        x, y = s.mulp(a.n, b.d), s.mulp(b.n, a.d)
        d = x + y.neg()
        return d.small(max(x.mag(), y.mag()))
    def iszero(s, a): return a.n.small(Fraction(1)) if a.n else True
    # ---- functions
    def nonneg(s, p):
        """every monomial of p is a positive multiple of even powers and non-negative atoms"""
        return bool(p) and all(c > 0 and all(e % 2 == 0 or s.posatom(a) for a, e in m) for m, c in p.items())
    def posatom(s, a): return a in s.positive or a.startswith(("sqrt#", "fabs#", "exp#"))
    def fn(s, name, *args):
        if name == "copysign":
            x, y = args
            return s.div(s.mul(s.fn("fabs", x), y), s.fn("fabs", y))
        if name == "fabs":
            a = args[0]
            if a.n.isconst() and a.d.isconst(): return s.c(abs(a.n.get((), Fraction(0))) / a.d.get((), Fraction(1)))
            if s.nonneg(a.n) and s.nonneg(a.d): return a
            if s.nonneg(a.n.neg()) and s.nonneg(a.d): return s.neg(a)
            if not a.d.isconst(): return s.div(s.fn("fabs", RF(a.n, Poly.const(1))), s.fn("fabs", RF(a.d, Poly.const(1))))
            if len(a.n) == 1:
                (m, c), = a.n.items()
                if len(m) > 1 or m[0][1] > 1 or abs(c / a.d.get((), Fraction(1))) != 1:
                    r = s.c(abs(c / a.d.get((), Fraction(1))))
                    for at, e in m:
                        f = s.atom(at) if s.posatom(at) else s.fn("fabs", s.atom(at))
                        for _ in range(e): r = s.mul(r, f)
                    return r
        for n, a, at in s.fns:
            if n == name and len(a) == len(args) and all(s.eq(x, y) for x, y in zip(a, args)): return s.atom(at)
        if name in ("sin", "tan", "asin", "atan", "sinh", "tanh", "cbrt") and len(args) == 1:
            for n, a, at in s.fns:
                if n == name and s.eq(a[0], s.neg(args[0])): return s.neg(s.atom(at))
        if name in ("cos", "fabs", "cosh") and len(args) == 1:
            for n, a, at in s.fns:
                if n == name and s.eq(a[0], s.neg(args[0])): return s.atom(at)
        at = "%s#%d" % (name, len(s.fns)); s.fns.append((name, args, at))
        if name == "cos":
            sn = s.fn("sin", args[0]); s.sq[at] = Poly.const(1) + s.mulp(sn.n, sn.n).neg()
        if name == "fabs":
            s.sq[at] = s.mulp(args[0].n, args[0].n)
        if name == "sin" and False: pass
        return s.atom(at)
    def sqrt(s, a):
        if a.n.isconst() and a.d.isconst():
            import math
            return s.c(Fraction(math.sqrt(a.n.get((), 0) / a.d.get((), 1))))
        # sqrt(n/d) = sqrt(n*d)/d
        p = s.mulp(a.n, a.d)
        if len(p) == 1:
            (m, cf), = p.items()
            if cf > 0 and m and all(e % 2 == 0 for _, e in m):
                r = s.c(fsqrt(cf))
                for x, e in m:
                    for _ in range(e // 2): r = s.mul(r, s.fn("fabs", s.atom(x)))
                return s.div(r, RF(a.d, Poly.const(1)))
        # pull out squares of common atoms declared positive
        d = None
        for m in p:
            md = dict(m)
            d = dict(md) if d is None else {x: min(e, md[x]) for x, e in d.items() if x in md}
        out = {x: e // 2 * 2 for x, e in d.items() if e >= 2 and x in s.positive}
        if out:
            p = Poly({tuple(sorted((x, e - out.get(x, 0)) for x, e in m if e - out.get(x, 0))): v for m, v in p.items()})
        lead = Fraction(1)
        if not p.isconst():
            lead = abs(p[max(p, key=repr)])
            if lead != 1: p = Poly({m: c / lead for m, c in p.items()})
        f = RF(Poly({tuple(sorted((x, e // 2) for x, e in out.items())): fsqrt(lead)}), Poly.const(1))
        if p.isconst(): r = s.sqrt(RF(p, Poly.const(1)))
        else:
            sq = s.square_root(p)
            if sq is not None: r = RF(sq, Poly.const(1))
            else:
                r = None
                for n, ar, at in s.fns:
                    if n == "sqrt" and s.eq(ar[0], RF(p, Poly.const(1))): r = s.atom(at); break
                if r is None:
                    # the same polynomial up to a constant factor
                    at = "sqrt#%d" % len(s.fns); s.fns.append(("sqrt", (RF(p, Poly.const(1)),), at)); s.sq[at] = p
                    r = s.atom(at)
        return s.div(s.mul(r, f), RF(a.d, Poly.const(1)))
    positive = frozenset()
    def square_root(s, p):
        """a positive atom whose square is p"""
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 2 and m[0][0] in s.positive and c > 0:
                import math
                return Poly({((m[0][0], 1),): Fraction(math.sqrt(c))})
        return None

def fsqrt(x):
    import math
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(n, d) if n * n == x.numerator and d * d == x.denominator else Fraction(math.sqrt(x))

def raw(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = dict(m)
            for a, e in n: k[a] = k.get(a, 0) + e
            k = tuple(sorted(k.items())); r[k] = r.get(k, 0) + c * d
    return Poly({m: c for m, c in r.items() if c})

BIN = {"fadd": "add", "add": "add", "fsub": "sub", "sub": "sub", "fmul": "mul", "mul": "mul", "fdiv": "div"}

def of_term(x, ctx, sub=None):
    """term of the abstract interpreter -> rational function; sub: atom -> RF"""
    memo = {}
    def go(x):
        if isinstance(x, (int, float)): return ctx.c(Fraction(x))
        if x in memo: return memo[x]
        r = go1(x); memo[x] = r
        return r
    def go1(x):
        if isinstance(x, tuple) and x[0] == "s":
            if sub and x in sub: return sub[x]
            return ctx.atom("%s.%s" % (x[1], x[2]))
        if isinstance(x, tuple) and x[0] == "e":
            op, a = x[1], x[3:]
            if op in BIN: return getattr(ctx, BIN[op])(go(a[0]), go(a[1]))
            if op in ("fneg", "neg"): return ctx.neg(go(a[0]))
            if op in ("fpext", "fptrunc", "sitofp", "uitofp"): return go(a[0])
            if op == "sqrt": return ctx.sqrt(go(a[0]))
            if op == "pow":
                b, e = go(a[0]), go(a[1])
                if e.n.isconst() and e.d.isconst() and e.n.get((), Fraction(0)).denominator == 1 and 0 <= e.n.get((), 0) <= 8:
                    r = ctx.c(1)
                    for _ in range(int(e.n.get((), 0))): r = ctx.mul(r, b)
                    return r
                return ctx.fn("pow", b, e)
            return ctx.fn(op, *[go(y) for y in a])
        raise AnalysisError("value that is not a formula: %r" % (x,))
    return go(x)
