"""G01: component formulas of vectors, colours, quaternions, scales and angles."""
TECHNIQUE = "abstract interpretation of the operations' IR with an algebraic value domain (normal forms of rational functions, case-partitioned): the value stored to every component is compared with the component formula"
NOTE = "Decides the component formulas in exact arithmetic (rounding is not modelled; literals match to 1e-6) for the double and float instantiations of the listed operations; approximate comparison, text conversion and random construction are not covered."
import math
from sa import formula
from sa.formula import N, Rec, dot, cross, sqrt, fn, length
from sa.report import Check

def comp(f): return {"r": f}
def A(op): return comp(lambda c: op(c.arg("a"), c.arg("b")))
add, sub, mul, div = (lambda x, y: x + y), (lambda x, y: x - y), (lambda x, y: x * y), (lambda x, y: x / y)
def bin_(op, x="a", y="b"): return comp(lambda c: op(c.arg(x), c.arg(y)))
def const(*v): return comp(lambda c: Rec(*[c.n(x) for x in v]) if len(v) > 1 else c.n(v[0]))
def unit(k, n, s=1): return const(*[s if i == k else 0 for i in range(n)])
def norm(c, a): return [a] if c.small(length(a)) else [a / length(a)]

SPEC = {
 "v3_add": bin_(add), "v3_iadd": bin_(add, "r"), "v3_sub": bin_(sub), "v3_isub": bin_(sub, "r"), "v3_neg": comp(lambda c: -c.arg("a")), "v3_imul": bin_(mul, "r", "s"), "v3_smul": bin_(mul, "a", "s"), "v3_muls": bin_(mul, "a", "s"),
 "v3_divs": bin_(div, "a", "s"), "v3_idivs": bin_(div, "r", "s"), "v3_divn": bin_(div, "a", "s"), "v3_idivn": bin_(div, "r", "s"), "v3_sdiv": comp(lambda c: c.arg("s") / c.arg("a")), "v3_imulv": bin_(mul, "r", "b"), "v3_divv": bin_(div), "v3_idivv": bin_(div, "r", "b"),
 "v3_multiply": bin_(mul), "v3_scale": bin_(mul, "r", "b"), "v3_scaled": bin_(mul),
 "v3_length": comp(lambda c: length(c.arg("a"))), "v3_sqlen": comp(lambda c: dot(c.arg("a"), c.arg("a"))), "v3_manh": comp(lambda c: sum((fn("fabs", x) for x in c.arg("a").v[1:]), fn("fabs", c.arg("a")[0]))),
 "v3_dist": comp(lambda c: length(c.arg("a") - c.arg("b"))), "v3_sqdist": comp(lambda c: dot(c.arg("a") - c.arg("b"), c.arg("a") - c.arg("b"))), "v3_abs": comp(lambda c: Rec(*[fn("fabs", x) for x in c.arg("a").v])),
 "v3_dot": comp(lambda c: dot(c.arg("a"), c.arg("b"))), "v3_cross": comp(lambda c: cross(c.arg("a"), c.arg("b"))), "v3_proj": comp(lambda c: c.arg("b") * (dot(c.arg("a"), c.arg("b")) / dot(c.arg("b"), c.arg("b")))),
 "v3_pxy": comp(lambda c: Rec(c.arg("a").x, c.arg("a").y, c.n(0))), "v3_pxz": comp(lambda c: Rec(c.arg("a").x, c.n(0), c.arg("a").z)), "v3_pyz": comp(lambda c: Rec(c.n(0), c.arg("a").y, c.arg("a").z)),
 "v3_set": comp(lambda c: Rec(c.arg("a"), c.arg("b"), c.arg("c"))), "v3_ctor": comp(lambda c: Rec(c.arg("a"), c.arg("b"), c.arg("c"))), "v3_clear": const(0, 0, 0), "v3_zero": const(0, 0, 0), "v3_one": const(1, 1, 1),
 "v3_ux": unit(0, 3), "v3_uy": unit(1, 3), "v3_uz": unit(2, 3), "v3_nx": unit(0, 3, -1), "v3_ny": unit(1, 3, -1), "v3_nz": unit(2, 3, -1), "v3_diag": comp(lambda c: Rec(*[c.arg("s")] * 3)), "v3_axis0": unit(0, 3), "v3_axis1": unit(1, 3), "v3_axis2": unit(2, 3),
 "v3_fromf": comp(lambda c: c.arg("a")), "v3_norm": comp(lambda c: norm(c, c.arg("a"))), "v3_inorm": {"r": lambda c: norm(c, c.arg("r")), "l": lambda c: [length(c.arg("r"))] + ([c.n(0)] if c.small(length(c.arg("r"))) else [])},
 "v3_dirlen": {"r": lambda c: None if c.small(length(c.arg("a"))) else c.arg("a") / length(c.arg("a")), "l": lambda c: None if c.small(length(c.arg("a"))) else length(c.arg("a"))}, "v3_value": comp(lambda c: c.arg("a")),
 "v3_polar": comp(lambda c: Rec(c.arg("s") * fn("sin", c.arg("a")) * fn("sin", c.arg("b")), c.arg("s") * fn("cos", c.arg("a")), c.arg("s") * fn("sin", c.arg("a")) * fn("cos", c.arg("b")))), "v3_begin": comp(lambda c: c.arg("a")),
 "v3_idx0": comp(lambda c: c.arg("a").x), "v3_idx1": comp(lambda c: c.arg("a").y), "v3_idx2": comp(lambda c: c.arg("a").z),
 "v4_add": bin_(add), "v4_iadd": bin_(add, "r"), "v4_sub": bin_(sub), "v4_isub": bin_(sub, "r"), "v4_neg": comp(lambda c: -c.arg("a")), "v4_smul": bin_(mul, "a", "s"), "v4_muls": bin_(mul, "a", "s"), "v4_imuls": bin_(mul, "r", "s"), "v4_divs": bin_(div, "a", "s"), "v4_idivs": bin_(div, "r", "s"),
 "v4_len": comp(lambda c: length(c.arg("a"))), "v4_sqlen": comp(lambda c: dot(c.arg("a"), c.arg("a"))), "v4_ux": unit(0, 4), "v4_uy": unit(1, 4), "v4_uz": unit(2, 4), "v4_uw": unit(3, 4), "v4_zero": const(0, 0, 0, 0),
 "s3_mulv": bin_(mul), "s3_vmul": bin_(mul), "s3_mul": bin_(mul), "s3_ivmul": bin_(mul, "r", "b"), "s3_imul": bin_(mul, "r", "b"), "s3_vdiv": bin_(div), "s3_div": bin_(div), "s3_ivdiv": bin_(div, "r", "b"), "s3_idiv": bin_(div, "r", "b"),
 "s3_set": comp(lambda c: Rec(c.arg("a"), c.arg("b"), c.arg("c"))), "s3_reset": const(1, 1, 1), "s3_uni": comp(lambda c: Rec(*[c.arg("s")] * 3)), "s3_ctor": const(1, 1, 1), "s3_ctor1": comp(lambda c: Rec(*[c.arg("s")] * 3)),
 "c_mul": bin_(mul, "a", "s"), "c_muls": bin_(mul, "a", "s"), "c_add": bin_(add), "c_sub": bin_(sub), "c_ctor": comp(lambda c: Rec(*[c.arg(k) for k in "abcs"])), "c_ctord": comp(lambda c: Rec(*[c.arg(k) for k in "abcs"])), "c_def": const(0, 0, 0, 1), "c_null": const(0, 0, 0, 0),
 "q_scale": bin_(mul, "r", "s"), "q_len": comp(lambda c: length(c.arg("a"))), "q_sqlen": comp(lambda c: dot(c.arg("a"), c.arg("a"))), "q_lenxyz": comp(lambda c: length(c.arg("a")[1:])), "q_set": comp(lambda c: Rec(*[c.arg(k) for k in "abcs"])), "q_id": const(1, 0, 0, 0), "q_def": const(1, 0, 0, 0), "q_fromf": comp(lambda c: c.arg("a")),
 "a_add": bin_(add), "a_sub": bin_(sub), "a_neg": comp(lambda c: -c.arg("a")), "a_muls": bin_(mul, "a", "s"), "a_smul": bin_(mul, "a", "s"), "a_divs": bin_(div, "a", "s"), "a_imul": bin_(mul, "r", "s"), "a_idiv": bin_(div, "r", "s"), "a_iadd": bin_(add, "r"), "a_isub": bin_(sub, "r"),
 "m_inv": comp(lambda c: 1 / c.arg("a")), "m_sq": comp(lambda c: c.arg("a") ** 2), "m_cub": comp(lambda c: c.arg("a") ** 3), "m_mid": comp(lambda c: (c.arg("a") + c.arg("b")) / 2), "m_pow3": comp(lambda c: c.arg("a") ** 3), "m_pown2": comp(lambda c: 1 / c.arg("a") ** 2), "m_pow0": const(1), "m_invsqrt": comp(lambda c: 1 / sqrt(c.arg("a"))),
 "b_len": comp(lambda c: c.arg("a").hi - c.arg("a").lo), "b_center": comp(lambda c: (c.arg("a").hi + c.arg("a").lo) / 2),
 "tm_add": bin_(add), "tm_sub": bin_(sub), "tm_iadd": bin_(add, "r"), "tm_isub": bin_(sub, "r"),
}
for n, m in dict(red="100", green="010", blue="001", white="111", yellow="110", cyan="011", magenta="101").items():
    SPEC["c_" + n] = comp(lambda c, m=m: Rec(*[c.arg("s") if k == "1" else c.n(0) for k in m] + [c.n(1)]))
R2D = 180 / math.pi
for n in ("a_todeg", "a_degval", "a_r2d"): SPEC[n] = comp(lambda c: c.arg("a") * R2D)
for n in ("a_torad", "a_radval", "a_d2r"): SPEC[n] = comp(lambda c: c.arg("a") / R2D)

def run():
    c = Check("G01", "The value stored to every component of the result equals the component's formula over the corresponding operand components, for every case of the operation, as rational functions")
    p = formula.prog()
    n = formula.run_specs(c, p, SPEC, "component formula")
    c.cover(operations=len(SPEC), comparisons=n)
    c.assume_("double and float instantiations stand for the templates")
    c.floor("operations", len(SPEC), 100)
    c.finish()
