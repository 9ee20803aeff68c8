"""N02: rotations and rigid transforms."""
TECHNIQUE = "abstract interpretation of the rotation and transform functions' IR with an algebraic value domain (rational functions modulo the unit-length and half-angle relations, case-partitioned), compared with the defining identities"
NOTE = "Decides the identities in exact arithmetic for unit quaternions; rounding, the numerically singular neighbourhoods the code handles separately and the documented #todo functions (pitch, yaw, roll) are not covered."
import math
from fractions import Fraction
from sa import formula, poly, absint
from sa.formula import N, Rec, dot, cross, sqrt, fn, length, qmul, conj, qrot
from sa.report import Check
from sa.facts import AnalysisError

A = lambda c: c.arg("a")
B = lambda c: c.arg("b")
def V(c, *v): return Rec(*[x if isinstance(x, N) else c.n(x) for x in v])
def unit(case, *names):
    for nm in names:
        t = case.params.get(nm)
        if t == "Q": w, x, y, z = (case.ctx.atom("%s.%d" % (nm, o)) for o in (0, 8, 16, 24)); k = "%s.24" % nm
        elif t == "X": w, x, y, z = (case.ctx.atom("%s.%d" % (nm, o)) for o in (24, 32, 40, 48)); k = "%s.48" % nm
        else: continue
        s = case.n(1) - N(case.ctx, w) ** 2 - N(case.ctx, x) ** 2 - N(case.ctx, y) ** 2
        case.ctx.sq[k] = s.rf.n
def half(c, name="b", k=1): return c.arg(name) * k / 2
def sc(x): return fn("sin", x), fn("cos", x)
def axis_angle(c, ax, ang):
    s, co = sc(ang / 2); return Rec(co, *[s * v for v in ax.v])
def rotvec(c):
    v = A(c); l = length(v)
    if c.small(l): return V(c, 1, 0, 0, 0)
    s, co = sc(l / 2); return Rec(co, *[x * s / l for x in v.v])
def dirs(c):
    a, b = A(c), B(c); d = dot(a, b)
    for p, q, r in c.decisions():       # opposite directions have no unique rotation between them
        if p == d and q.rf.n.isconst() and r == "<" and q.rf.n.get((), 0) < 0: return None
    q = Rec(d + 1, *cross(a, b).v); return q / length(q)
def pole(c, q):
    """the case found no rotation"""
    return c.small(length(q[1:])) or c.rel(q[0], c.n(1)) in ("=", ">")
def to_rv(c): q = A(c); return V(c, 0, 0, 0) if pole(c, q) else q[1:] * (2 * fn("acos", q[0]) / length(q[1:]))
def to_ang(c): q = A(c); return c.n(0) if pole(c, q) else 2 * fn("acos", q[0])
def to_axis(c): q = A(c); return None if pole(c, q) else q[1:] / length(q[1:])
def local(c, k, q=None): return qrot(q or A(c), V(c, *[int(i == k) for i in range(3)]))
AX = "xyz"
def single(c, k, ang):
    s, co = sc(ang / 2); return V(c, co, *[s if i == k else 0 for i in range(3)])
def euler(c, order):
    a = A(c); r = None
    for ch in order:
        k = AX.index(ch); q = single(c, k, a[k]); r = q if r is None else qmul(r, q)
    return r
def q_of(t): return Rec(*t.v[3:7])
def p_of(t): return Rec(*t.v[0:3])
def T(p, q): return Rec(*(p.v + q.v))
def tmul(c, a, b): return T(p_of(a) + qrot(q_of(a), p_of(b)), qmul(q_of(a), q_of(b)))
def around(c, k):
    q = A(c); n = sqrt(q[0] ** 2 + q[k] ** 2)
    return [fn("copysign", 2 * fn("acos", q[0] / n), q[k]), 2 * fn("atan2", q[k], q[0])]
def around_axis(c):
    q, ax = A(c), B(c); d = dot(q[1:], ax); l = length(Rec(q[0], *(ax * d).v))
    return c.n(0) if c.small(l) else fn("copysign", 2 * fn("acos", q[0] / l), d)
R = lambda f: {"r": f}
D2R = math.pi / 180
SPEC = {
 "q_mul": R(lambda c: qmul(A(c), B(c))), "q_imul": R(lambda c: qmul(c.arg("r"), B(c))), "q_rot": R(lambda c: qrot(A(c), B(c))), "q_conj": R(lambda c: conj(A(c))), "q_neg": R(lambda c: conj(A(c))),
 "q_inv": R(lambda c: conj(A(c)) / dot(A(c), A(c))), "q_pos": R(lambda c: {"<": [-A(c)], "=": [A(c), -A(c)], ">": [A(c)]}.get(c.rel(A(c)[0]), [A(c)])), "q_norm": R(lambda c: A(c) / length(A(c))), "q_normfast": R(lambda c: A(c)),
 "q_normtry": R(lambda c: [A(c) / length(A(c))] + ([A(c) * 2 / (1 + dot(A(c), A(c)))] if c.small(fn("fabs", 1 - dot(A(c), A(c)))) else [])),
 "q_axang": R(lambda c: axis_angle(c, A(c), B(c))), "q_axangd": R(lambda c: axis_angle(c, A(c), B(c) * D2R)), "q_rv": R(rotvec), "q_dirs": R(dirs), "q_quats": R(lambda c: qmul(conj(A(c)), B(c))),
 "q_torv": R(to_rv), "q_torva": {"r": to_rv, "s": to_ang}, "q_toaa": {"r": to_axis, "s": to_ang},
 "q_lx": R(lambda c: local(c, 0)), "q_ly": R(lambda c: local(c, 1)), "q_lz": R(lambda c: local(c, 2)), "q_axes": {"r": lambda c: local(c, 0), "s": lambda c: local(c, 1), "t": lambda c: local(c, 2)},
 "q_fx": R(lambda c: single(c, 0, A(c))), "q_fy": R(lambda c: single(c, 1, A(c))), "q_fz": R(lambda c: single(c, 2, A(c))), "q_fxd": R(lambda c: single(c, 0, A(c) * D2R)), "q_fyd": R(lambda c: single(c, 1, A(c) * D2R)), "q_fzd": R(lambda c: single(c, 2, A(c) * D2R)),
 "q_rax": R(lambda c: around(c, 1)), "q_ray": R(lambda c: around(c, 2)), "q_raz": R(lambda c: around(c, 3)), "q_ra": R(around_axis),
 "m_axes": R(lambda c: Rec(*[v for k in range(3) for v in (A(c)[k], B(c)[k], c.arg("c")[k])])), "m_diag": R(lambda c: V(c, A(c)[0], 0, 0, 0, A(c)[1], 0, 0, 0, A(c)[2])),
 "t_mul": R(lambda c: tmul(c, A(c), B(c))), "t_imul": R(lambda c: tmul(c, c.arg("r"), B(c))), "t_trans": R(lambda c: tmul(c, A(c), B(c))), "t_inv": R(lambda c: T(qrot(conj(q_of(A(c))), -p_of(A(c))), conj(q_of(A(c))))),
 "t_invt": R(lambda c: T(qrot(conj(q_of(A(c))), p_of(B(c)) - p_of(A(c))), qmul(conj(q_of(A(c))), q_of(B(c))))), "t_v": R(lambda c: p_of(A(c)) + qrot(q_of(A(c)), B(c))), "t_tv": R(lambda c: p_of(A(c)) + qrot(q_of(A(c)), B(c))),
 "t_itv": R(lambda c: qrot(conj(q_of(A(c))), B(c) - p_of(A(c)))), "t_q": R(lambda c: qmul(q_of(A(c)), B(c))), "t_tq": R(lambda c: qmul(q_of(A(c)), B(c))), "t_itq": R(lambda c: qmul(conj(q_of(A(c))), B(c))),
 "t_id": R(lambda c: V(c, 0, 0, 0, 1, 0, 0, 0)), "t_def": R(lambda c: V(c, 0, 0, 0, 1, 0, 0, 0)), "t_pos": R(lambda c: V(c, *A(c).v, 1, 0, 0, 0)), "t_ori": R(lambda c: V(c, 0, 0, 0, *A(c).v)),
}
ORDERS = ("xyz", "xzy", "yxz", "yzx", "zxy", "zyx")
for o in ORDERS: SPEC["q_fe_" + o] = R(lambda c, o=o: euler(c, o))
NOUNIT = {"q_mul", "q_imul", "q_conj", "q_neg", "q_inv", "q_pos", "q_norm", "q_normtry", "q_rax", "q_ray", "q_raz", "q_ra", "q_torv", "q_torva", "q_toaa"}
def setup(case):
    if case.name not in NOUNIT: unit(case, "a", "b", "r")

def to_euler(p, order, c):
    """the three angles recovered from the quaternion of three angles are those angles"""
    name = "q_te_" + order
    n = 0
    for case in formula.cases(p, name):
        x = case.ctx
        ang = [N(x, x.atom("t%d" % k)) for k in range(3)]
        s, co = zip(*[sc(a / 2) for a in ang])
        q = None
        for ch in order:
            k = AX.index(ch); e = V(case, co[k], *[s[k] if i == k else 0 for i in range(3)]); q = e if q is None else qmul(q, e)
        sub = {("s", "a", 8 * k): q[k].rf for k in range(4)}
        mid = AX.index(order[1])
        for k in range(3):
            t = case.E.load(absint.P(case.E.syms["r"], 8 * k), "double")
            S, C = 2 * s[k] * co[k], 1 - 2 * s[k] ** 2
            while isinstance(t, tuple) and t[0] == "e" and t[1] in ("fpext", "fptrunc"): t = t[3]
            op = t[1] if isinstance(t, tuple) and t[0] == "e" else None
            ev = lambda y: N(x, poly.of_term(y, x, sub))
            if op == "asin": ok, say = ev(t[3]) == S, "asin of %s, not of the sine of that angle"
            elif op == "atan2":
                a, b = ev(t[3]), ev(t[4])
                ok = a * C == b * S and a * S + b * C == 1 - 2 * s[mid] ** 2
                say = "atan2 of %s, which is not that angle"
            else: raise AnalysisError("%s: angle %s is neither asin nor atan2: %s" % (name, AX[k], op))
            if not ok: c.bad("%s angle %s" % (name, AX[k]), say % ", ".join(formula.show(case.term(y)) for y in t[3:]) + formula.where(p, name))
            else: n += 1
    c.ok(name, "%d angles recovered" % n) if n else None
    return n

def from_matrix(p, c):
    """the quaternion of the matrix of a unit quaternion is that quaternion up to sign, in every case of the extraction"""
    n = 0
    for case in formula.cases(p, "m_q"):
        hit = False
        for elim in (3, 0, 1, 2):
            x = poly.Ctx(); q = Rec(*[N(x, x.atom("q%d" % k)) for k in range(4)])
            one = N(x, x.c(1))
            x.sq["q%d" % elim] = (one - sum((q[k] ** 2 for k in range(4) if k != elim), one * 0)).rf.n
            cols = [qrot(q, Rec(*[one if i == k else one * 0 for i in range(3)])) for k in range(3)]
            sub = {("s", "a", 8 * (3 * i + j)): cols[j][i].rf for i in range(3) for j in range(3)}
            got = Rec(*[N(x, poly.of_term(case.E.load(absint.P(case.E.syms["r"], 8 * k), "double"), x, sub)) for k in range(4)])
            for k in range(4):
                if k == elim: continue
                sg = q[k] / fn("fabs", q[k])
                if got == q * sg: hit = k
            if hit is not False: break
        n += 1
        if hit is not False and not nonzero(case, hit): c.bad("quat_from_mat33", "the extraction divides by component %s in a case where it can be zero" % "wxyz"[hit] + formula.where(p, "m_q")); return n
        if hit is False: c.bad("quat_from_mat33", "a case of the extraction does not give back the quaternion (or its negation)" + formula.where(p, "m_q")); return n
    c.ok("quat_from_mat33", "%d cases give back the quaternion up to sign" % n)
    return n

def nonzero(case, k):
    """the case has established that component k is not zero: the trace is positive, or a diagonal entry exceeds another, or is the largest with no positive trace"""
    a = A(case); e = [a[0], a[4], a[8]]
    t = case.rel(e[0] + e[1] + e[2])
    if k == 0: return t == ">"
    r = [case.rel(e[k - 1], e[j]) for j in range(3) if j != k - 1]
    return ">" in r or all(x in ("=", ">") for x in r)

def run():
    c = Check("N02", "Composition, inversion and application of rotations and rigid transforms, and every conversion between their representations, equal the defining identity as rational functions modulo |q| = 1 and the half-angle relations")
    p = formula.prog()
    n = formula.run_specs(c, p, SPEC, "defining identity", setup=setup)
    for o in ORDERS: n += to_euler(p, o, c)
    n += from_matrix(p, c)
    c.cover(operations=len(SPEC) + 7, comparisons=n)
    c.floor("operations", len(SPEC), 50)
    c.finish()
