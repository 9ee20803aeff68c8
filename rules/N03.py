"""N03: interpolation, polynomials, regression, averages and filters."""
TECHNIQUE = "abstract interpretation of the numerical functions' IR with an algebraic value domain (rational functions, case-partitioned by the order of the argument and the data), compared with the defining formulas"
NOTE = "Decides the formulas in exact arithmetic; loops over data are decided for data sets of three (or four) symbolic values, which exercises every iteration of their recurrences but not every length; median-based regression and the delay lines are not covered."
import math
from sa import formula, absint
from sa.formula import N, Rec, dot, sqrt, fn, length
from sa.report import Check

a = lambda c, n="a": c.arg(n)
def args(c): return [c.arg(k) for k in "abcd" if k in c.params]
def horner(c):
    k = args(c); t = c.arg("t"); r = k[-1]
    for x in reversed(k[:-1]): r = r * t + x
    return r
def catmull(c):
    p0, p1, p2, p3 = args(c); t = c.arg("t")
    return (2 * p1 + (p2 - p0) * t + (2 * p0 - 5 * p1 + 4 * p2 - p3) * t * t + (3 * p1 - p0 - 3 * p2 + p3) * t ** 3) / 2
def mean(v): return sum(v[1:], v[0]) / len(v)
def var(v): m = mean(v); return mean([(x - m) ** 2 for x in v])
def fit(c, xs, ys):
    mx, my = mean(xs), mean(ys)
    k = sum(((x - mx) * (y - my) for x, y in zip(xs, ys)), mx * 0) / sum(((x - mx) ** 2 for x in xs), mx * 0)
    return my - k * mx, k
def grid(c): return [c.arg("b") + c.arg("c") * k for k in range(4)]
def iir(c):
    f, x = c.arg("a"), c.arg("b"); return f.b0 * x + f.b1 * f.x0 + f.b2 * f.x1 + f.a1 * f.y0 + f.a2 * f.y1
def iir_state(c):
    f, x = c.arg("a"), c.arg("b"); return Rec(f.b0, x, f.x0, iir(c), f.y0, f.b1, f.b2, f.a1, f.a2)
def butter(c):
    i = 1 / fn("tan", math.pi * c.arg("a")); q = math.sqrt(2); b0 = 1 / (1 + q * i + i * i); z = c.n(0)
    return Rec(b0, z, z, z, z, 2 * b0, b0, 2 * (i * i - 1) * b0, -(1 - q * i + i * i) * b0)
def decay(c): f, x, dt = c.arg("a"), c.arg("b"), c.arg("c"); return x + (f.val - x) * fn("exp", -f.k * dt)
def euler(c): f, x, dt = c.arg("a"), c.arg("b"), c.arg("c"); return f.val + dt * f.k * (x - f.val)
def getavg(c):
    v = c.arg("a"); r = c.rel(v.w)
    return {">": [v.val / v.w], "<": None, "=": None}.get(r, [v.val / v.w])
# ---- piecewise functions over three points
def points(c): return [(N(c.ctx, c.ctx.atom("pts.%d" % (16 * k))), N(c.ctx, c.ctx.atom("pts.%d" % (16 * k + 8)))) for k in range(3)]
def prep(E):
    f, pts = E.sym("a"), E.sym("pts")
    for k, off in enumerate((0, 48, 48)): E.store(absint.P(f.o, 8 * k), absint.P(pts.o, off), "ptr")
    x = [E.load(absint.P(pts.o, 16 * k), "double") for k in range(3)]
    E.assume(E.lt(x[0], x[1])); E.assume(E.lt(x[1], x[2]))
def order(c):
    """relations of the argument to the three abscissae, as the case has established them (with what follows from their order)"""
    r = [c.rel(c.arg("b"), x) for x, _ in points(c)]
    for k in (1, 2):
        if r[k] in (">", "="): r[:k] = [">"] * k
    for k in (0, 1):
        if r[k] in ("<", "="): r[k + 1:] = ["<"] * (2 - k)
    return r
def seg(c, k):
    (x0, y0), (x1, y1) = points(c)[k:k + 2]; return y0 + (c.arg("b") - x0) / (x1 - x0) * (y1 - y0)
def pwl(c):
    r = order(c)
    if r[1] == "<": return [seg(c, 0)]
    if r[1] == ">": return [seg(c, 1)]
    if r[1] == "=": return [seg(c, 0), seg(c, 1), points(c)[1][1]]
    return None
def pwc(c):
    r, y = order(c), [y for _, y in points(c)]
    if r[2] in (">", "="): return [y[2]]
    if r[1] in (">", "="): return [y[1]] if r[2] == "<" else None
    if r[0] in (">", "=", "<"): return [y[0]] if r[1] == "<" else None
    return [y[0]] if r[1] == "<" else None
def lspan(c):
    v, t = c.arg("a").v, c.arg("t"); fl = fn("floor", t)
    if c.rel(t) in ("<", "="): return [v[0]]
    return None
R = lambda f: {"r": f}
SPEC = {
 "n_lerp": R(lambda c: a(c) + c.arg("t") * (a(c, "b") - a(c))), "n_lerpp": R(lambda c: a(c) + c.arg("t") * (a(c, "b") - a(c))), "n_lerpv": R(lambda c: a(c) + (a(c, "b") - a(c)) * c.arg("t")),
 "n_cr": R(catmull), "n_lin": R(horner), "n_quad": R(horner), "n_cubic": R(horner), "n_icy": R(lambda c: (c.arg("t") - c.arg("a")) / c.arg("b")),
 "n_reg": {"r": lambda c: fit(c, c.arg("a").v, c.arg("b").v)[0], "s": lambda c: fit(c, c.arg("a").v, c.arg("b").v)[1]}, "n_regs": {"r": lambda c: fit(c, grid(c), c.arg("a").v)[0], "s": lambda c: fit(c, grid(c), c.arg("a").v)[1]},
 "n_avg": R(lambda c: mean(c.arg("a").v)), "n_meanvar": {"r": lambda c: mean(c.arg("a").v), "s": lambda c: var(c.arg("a").v)}, "n_meanstd": {"r": lambda c: mean(c.arg("a").v), "s": lambda c: sqrt(var(c.arg("a").v))}, "n_acc": R(lambda c: sum(c.arg("a").v, c.arg("b"))),
 "n_iir": {"r": iir, "a": iir_state}, "n_butter": R(butter), "n_lpa": {"r": decay, "a": lambda c: Rec(decay(c), c.arg("a").k)}, "n_lpf": {"r": euler, "a": lambda c: Rec(euler(c), c.arg("a").k)}, "n_lpc": {"r": decay, "a": lambda c: Rec(decay(c), c.arg("a").k)},
 "n_jerk": R(lambda c: 6 * a(c) ** 5 - 15 * a(c) ** 4 + 10 * a(c) ** 3), "n_delta": {"r": lambda c: c.arg("b") - c.arg("a").val, "a": lambda c: Rec(c.arg("b"))},
 "n_avadd": {"a": lambda c: Rec(c.arg("a").val + c.arg("c") * c.arg("b"), c.arg("a").w + c.arg("c"))}, "n_avadd1": {"a": lambda c: Rec(c.arg("a").val + c.arg("b"), c.arg("a").w + 1)}, "n_avget": R(getavg), "n_avreset": {"a": lambda c: Rec(c.n(0), c.n(0))},
 "n_pwl": R(pwl), "n_pwc": R(pwc), "n_lspan": R(lspan),
}
def run():
    c = Check("N03", "Interpolation, polynomial evaluation, regression, averages and filters compute, in every case, the rational function that defines them")
    p = formula.prog()
    n = formula.run_specs(c, p, SPEC, "defining formula", prep={"n_pwl": prep, "n_pwc": prep})
    c.cover(operations=len(SPEC), comparisons=n)
    c.floor("operations", len(SPEC), 20)
    c.finish()
