"""R03: every position handed to a text operation is provably inside the text."""
TECHNIQUE = "linear position analysis on LLVM IR: 0 <= pos <= size() proved from dominating tests, search results and loop invariants"
NOTE = "Decides every substr/compare/erase/replace/insert/operator[]/front/back call on a std::string in the library's text helpers; aliasing of texts between the test and the use is assumed absent."
from sa import ir, flow, linear
from sa.ir import const
from sa.report import Check

POS = {"substr": 0, "compare": 0, "erase": 0, "replace": 0, "insert": 0, "copy": 1}
FILES = ("xo/string/", "xo/filesystem/", "xo/system/", "xo/serialization/", "xo/container/", "xo/utility/", "xo/numerical/")

def run():
    c = Check("R03", "Every position passed to a std::string operation that fails out of range is proved to satisfy 0 <= pos <= size() on every path; element access and front/back need pos < size()")
    p = ir.prog(tus=("strings",), inline=ir.INL_MINMAX + ir.INL_LAMBDA + ir.INL_ITER, passes=ir.SIMPLIFY, helpers=True)
    L = linear.Lin(p)
    n_sites = 0
    for f in p.repo_funcs():
        if f.name in p.helpers: continue
        if not any(x in f.file for x in FILES): continue
        for n in f.calls():
            m, ob = L.member(n)
            if not m: continue
            a = n.a[1:] if n.g("sret") else n.a
            strict = False
            if m in POS:
                d = p.dem(n.f)
                if POS[m] + 1 >= len(a): continue
                # iterator overloads have no positions
                sig = d.split("::" + m, 1)[-1]
                if "__normal_iterator" in sig: continue
                if m == "compare" and sig.count("unsigned long") < 2: continue
                if m == "copy":
                    if len(a) < 4: continue
                    pos = a[3]
                elif m in ("insert", "erase", "replace", "substr", "compare"): pos = a[1]
                mode = "<="
            elif m == "operator[]": pos, mode = a[1], "<="
            elif m in ("front", "back", "pop_back"): pos, mode = ["c", 0, 64], "<"
            else: continue
            n_sites += 1
            key = "%s %s" % (f.q, m)
            l, k = L.lin(f, pos)
            e = {t: -w for t, w in l.items()}; s = ("size", ob)
            e[s] = e.get(s, 0) + 1
            if e[s] == 0: del e[s]
            hi = L.prove(f, (e, -k - (1 if mode == "<" else 0)), n.b)
            lo = all(w > 0 for w in l.values()) and k >= 0 and all(t[0] == "size" or unsigned(f, t) for t in l) or L.prove(f, (dict(l), k), n.b)
            if hi and lo: c.ok("%s @%s" % (key, n.where().split(":")[0]), n.where())
            else: c.bad(key, "%s: position of %s() is not proved to be %s" % (n.where(), m, "non-negative (it may wrap around)" if hi else "at most the text's size"))
            # a length that comes from a signed number must not be negative (it would turn into "everything")
            ln = {"substr": 2, "erase": 2, "compare": 2, "replace": 2}.get(m)
            if ln is not None and ln < len(a) and signed(f, a[ln]):
                l, k = L.lin(f, a[ln])
                if not any(t[0] != "size" for t in l) and all(w > 0 for w in l.values()) and k >= 0 or L.prove(f, (dict(l), k), n.b): c.ok("%s @%s length" % (key, n.where().split(":")[0]), n.where())
                else: c.bad(key + " length", "%s: the length of %s() comes from a signed number that is not proved to be non-negative" % (n.where(), m))
    c.cover(functions=len(p.funcs), positions=n_sites)
    c.floor("text positions", n_sites, 8)
    c.finish()

def unsigned(f, t):
    """an argument or result of unsigned type is never negative"""
    if t[0] != "v" or not isinstance(t[1], int): return False
    o = t[1]
    if f.isarg(o):
        dv = f.args[o].get("dv")
        return bool(dv) and "unsigned" in f.p.typename(dv[0][1])
    return f.v[o].t == "i64"

def signed(f, o, depth=0):
    """the value stems from a widened signed number"""
    n = f.inst(o)
    if n is None or depth > 12: return False
    if n.o == "sext": return True
    if n.o in ("phi",): return any(signed(f, v, depth + 1) for v in n.a if v != o)
    if n.o == "select": return any(signed(f, v, depth + 1) for v in n.a[1:])
    if n.o in ("add", "sub", "freeze", "trunc"): return any(signed(f, v, depth + 1) for v in n.a)
    return False
