"""G02: formulas of shapes."""
TECHNIQUE = "abstract interpretation of the shape functions' IR with an algebraic value domain (normal forms of rational functions, case-partitioned), compared with the closed formulas of the solids"
NOTE = "Decides the formulas in exact arithmetic for positive sizes; operations the library marks as not implemented for a shape are not covered, nor is the axial extent of a capsule (its documentation leaves open whether the caps count)."
import math
from fractions import Fraction
from sa import formula
from sa.formula import N, Rec, dot, cross, sqrt, fn, length, qrot
from sa.report import Check

PI = math.pi
def S(**k): return k
A = lambda c: c.arg("a")
def vol(c, kind):
    a = A(c)
    return {"sphere": lambda: 4 / 3 * PI * a.r ** 3, "box": lambda: 8 * a.x * a.y * a.z, "cyl": lambda: PI * a.r ** 2 * a.h, "cone": lambda: PI * a.r ** 2 * a.h / 3, "cap": lambda: PI * a.r ** 2 * (a.h + 4 / 3 * a.r), "plane": lambda: c.n(0)}[kind]()
def inertia(c, kind):
    a, d = A(c), c.arg("s"); m = vol(c, kind) * d
    if kind == "sphere": return Rec(*[2 / 5 * m * a.r ** 2] * 3)
    if kind == "box": return Rec(m / 3 * (a.y ** 2 + a.z ** 2), m / 3 * (a.x ** 2 + a.z ** 2), m / 3 * (a.x ** 2 + a.y ** 2))
    if kind == "cyl": i = m / 12 * (3 * a.r ** 2 + a.h ** 2); return Rec(i, m / 2 * a.r ** 2, i)
    if kind == "plane": return Rec(c.n(0), c.n(0), c.n(0))
    m1, m2 = PI * a.r ** 2 * a.h * d, 4 / 3 * PI * a.r ** 3 * d
    i = m1 * (a.r ** 2 / 4 + a.h ** 2 / 12) + m2 * (2 / 5 * a.r ** 2 + 3 / 8 * a.r * a.h + a.h ** 2 / 4)
    return Rec(i, (m1 / 2 + m2 * 2 / 5) * a.r ** 2, i)
def radial(c, s): return sqrt(s.x * s.z)
def scaled(c, kind, s, v):
    a = A(c)
    if kind == "sphere": return Rec(a.r * (fn("cbrt", s.x * s.y * s.z) if v else s))
    if kind == "box": return a * s
    if kind == "plane": return a
    return Rec(a.r * (radial(c, s) if v else s), a.h * (s.y if v else s))
def dim(c, kind):
    a = A(c)
    return Rec(*[2 * a.r] * 3) if kind == "sphere" else a * 2 if kind == "box" else Rec(2 * a.r, a.h, 2 * a.r)
def unit_dir(case):
    """the direction argument has length one"""
    b = case.arg("b")
    case.ctx.sq["b.8"] = (1 - b.x * b.x - b.y * b.y).rf.n
def one_of(c, *alts): return list(alts)
def box_dist(c):
    a, b = A(c), c.arg("b"); q = [v / fn("fabs", d) for v, d in zip(a.v, b.v)]
    # whatever is returned must not exceed a quotient the case knows to be smaller
    return [x for x in q if not any(c.rel(y, x) == "<" for y in q if y is not x)]
def side(c, top, wall):
    a, b = A(c), c.arg("b"); v = sqrt(b.x * b.x + b.z * b.z); ay = fn("fabs", b.y)
    r = c.rel(ay * a.r, a.h / 2 * v)
    return [top] if r == ">" else [wall] if r == "<" else [top, wall]
def cyl_dist(c):
    a, b = A(c), c.arg("b"); v = sqrt(b.x * b.x + b.z * b.z)
    return side(c, a.h / 2 / fn("fabs", b.y), a.r / v)
def cap_dist(c):
    unit_dir(c)
    a, b = A(c), c.arg("b"); h = a.h / 2; ay = fn("fabs", b.y); v = sqrt(b.x * b.x + b.z * b.z)
    return side(c, ay * h + sqrt(b.y * b.y * h * h - h * h + a.r ** 2), a.r / v)
def corners(c):
    a = A(c); got = c.out("r")
    pts = [Rec(*got.v[3 * k:3 * k + 3]) for k in range(8)]
    want = [Rec(*[x * s for x, s in zip(a.v, (sx, sy, sz))]) for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)]
    for w in want:
        if not any(g == w for g in pts): return Rec(*[x for q in want for x in q.v])     # reported as a mismatch
    return got
def q_of(t): return Rec(*t.v[3:7])
def p_of(t): return Rec(*t.v[0:3])
def hit(c):
    l, t = c.arg("l"), c.arg("t"); n = qrot_any(q_of(t), A(c))
    pos, d = Rec(*l.v[0:3]), Rec(*l.v[3:6])
    return pos - d * (dot(pos - p_of(t), n) / dot(d, n))
def qrot_any(q, v):
    """the library's rotation formula v + 2w(qv x v) + 2 qv x (qv x v), equal to q v conj(q) for unit q"""
    u = q[1:]; a = cross(u, v)
    return v + a * (q[0] * 2) + cross(u, a) * 2
def seg(c):
    b, p = c.arg("b"), A(c); a0, a1 = Rec(*b.v[0:3]), Rec(*b.v[3:6]); d = a1 - a0; k = dot(p - a0, d); n = dot(d, d)
    near, far, mid = length(p - a0), length(p - a1), length(p - (a0 + d * (k / n)))
    r1, r2 = c.rel(k, 0), c.rel(n, k)
    if r1 == "<": return [near]
    if r1 == "=": return [near, mid]
    if r2 == "<": return [far]
    if r2 == "=": return [far, mid]
    return [mid] if r2 == ">" else [near, mid, far]
def lines(c, which):
    l1, l2 = A(c), c.arg("b"); p1, d1, p2, d2 = Rec(*l1.v[:3]), Rec(*l1.v[3:]), Rec(*l2.v[:3]), Rec(*l2.v[3:])
    for x, y, r in c.decisions():
        k = (y.rf if y.rf.n.isconst() else x.rf)
    w = p1 - p2; a, b, cc, d, e = dot(d1, d1), dot(d1, d2), dot(d2, d2), dot(d1, w), dot(d2, w); D = a * cc - b * b
    if c.small(D): return None      # parallel lines have no unique closest points
    s, t = (b * e - cc * d) / D, (a * e - b * d) / D
    q1, q2 = p1 + d1 * s, p2 + d2 * t
    return q1 if which == 0 else q2 if which == 1 else length(q1 - q2)
SPEC = {}
for k in ("sphere", "box", "cyl", "cap", "cone", "plane"):
    SPEC[k + "_volume"] = {"r": lambda c, k=k: vol(c, k)}
    SPEC[k + "_scale"] = {"a": lambda c, k=k: scaled(c, k, c.arg("s"), False)}
    SPEC[k + "_scalev"] = {"a": lambda c, k=k: scaled(c, k, c.arg("s"), True)}
    if k not in ("plane", "cap"): SPEC[k + "_dim"] = {"r": lambda c, k=k: dim(c, k)}
    if k != "cone": SPEC[k + "_inertia"] = {"r": lambda c, k=k: inertia(c, k)}
SPEC["sphere_dist"] = {"r": lambda c: A(c).r if hasattr(A(c), "r") else A(c)[0]}
SPEC["box_dist"] = {"r": box_dist}
SPEC["cyl_dist"] = {"r": cyl_dist}
SPEC["cap_dist"] = {"r": cap_dist}
SPEC["sphere_aabb"] = {"r": lambda c: Rec(*[x - A(c).r for x in c.arg("t").v[:3]] + [x + A(c).r for x in c.arg("t").v[:3]])}
SPEC["box_corners"] = {"r": corners}
SPEC["box_make"] = {"r": lambda c: Rec(c.arg("a") / 2, c.arg("b") / 2, c.arg("c") / 2)}
SPEC["plane_hit"] = {"r": hit}
SPEC["seg_dist"] = {"r": seg}
SPEC["line_closest"] = {"r": lambda c: lines(c, 0), "s": lambda c: lines(c, 1)}
SPEC["line_dist"] = {"r": lambda c: lines(c, 2)}

def setup(case):
    if case.name.split("_")[0] in ("sphere", "box", "cyl", "cap", "cone"): case.ctx.positive = frozenset(["a.0", "a.4", "a.8"])
    if case.name == "cap_dist": unit_dir(case)

def run():
    c = Check("G02", "Volume, rotational inertia, size, scaling and distance of every shape equal the closed formula of the solid, as rational functions, in every case of the computation")
    p = formula.prog()
    n = formula.run_specs(c, p, SPEC, "closed formula", setup=setup)
    c.cover(operations=len(SPEC), comparisons=n)
    c.floor("operations", len(SPEC), 30)
    c.finish()
