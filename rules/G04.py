"""G04: laws of comparison operators, decided for every order type of the fields of two objects."""
TECHNIQUE = "abstract interpretation of the comparison operators' IR over the finite domain of order types of the objects' fields, partitioned by case; algebraic laws checked in every case"
NOTE = "Decides irreflexivity, negation, converse and asymmetry for all pairs of field values of the listed types (unordered floating-point values excluded); tolerance-based equality of vectors is not an ordering and is not covered; strings compare as opaque ordered values."
from sa import ir, absint
from sa.report import Check
from sa.facts import AnalysisError

# type: byte offsets are found by the analysis itself; operators available per type
TYPES = {"version": "eq ne lt gt le ge", "index": "eq ne lt gt le ge", "handle": "eq ne lt", "time": "eq ne lt gt le ge", "radian": "eq ne lt gt le ge", "degree": "eq ne lt gt le ge",
         "color": "eq ne lt", "vec3": "eq ne", "quat": "eq ne", "path": "eq ne lt", "opti": "eq ne", "optd": "eq ne"}

def strcmp_model(E, f, n, a):
    """comparison of two opaque strings: an integer with the sign of their order"""
    x, y = key(a[0]), key(a[1])
    return {"<": -1, "=": 0, ">": 1}[E.rel(x, y, "f")]
def key(p): return ("str", p.o.name, p.off) if isinstance(p, absint.P) else p
def str_eq(E, f, n, a): return int(E.same(key(a[0]), key(a[1])))
def str_ne(E, f, n, a): return int(not E.same(key(a[0]), key(a[1])))
def str_lt(E, f, n, a): return int(E.lt(key(a[0]), key(a[1])))
MODELS = {"std::operator==": str_eq, "std::operator!=": str_ne, "std::operator<": str_lt, "std::__cxx11::basic_string::compare": strcmp_model,
          "std::operator>": lambda E, f, n, a: int(E.lt(key(a[1]), key(a[0]))), "std::operator<=": lambda E, f, n, a: int(not E.lt(key(a[1]), key(a[0]))), "std::operator>=": lambda E, f, n, a: int(not E.lt(key(a[0]), key(a[1])))}

def run():
    c = Check("G04", "For every order type of the fields of two objects a and b: a==a, !(a<a), (a!=b) is !(a==b), a>b is b<a, a<=b is !(b<a), a>=b is !(a<b), and a<b excludes b<a and a==b")
    p = ir.prog(tus=("order",), units=["xo/utility/color.cpp", "xo/filesystem/path.cpp"])
    cases = 0
    for t, ops in sorted(TYPES.items()):
        ops = ops.split()
        bad, n = {}, 0
        def body(E):
            a, b = E.sym("a"), E.sym("b")
            def op(o, x, y): return E.bool(E.call(t + "_" + o, [x, y])) if o in ops else None
            v = dict(eq=op("eq", a, b), ne=op("ne", a, b), lt=op("lt", a, b), gt=op("gt", a, b), le=op("le", a, b), ge=op("ge", a, b), tl=op("lt", b, a), te=op("eq", b, a))
            r = dict(eq=op("eq", a, a), ne=op("ne", a, a), lt=op("lt", a, a), gt=op("gt", a, a), le=op("le", a, a), ge=op("ge", a, a))
            out = []
            def law(txt, ok): 
                if not ok: out.append(txt)
            law("a == a", r["eq"] != 0 or t == "optd"); law("!(a != a)", r["ne"] != 1 or t == "optd"); law("a != b is !(a == b)", v["ne"] == 1 - v["eq"]); law("a == b is b == a", v["eq"] == v["te"])
            if t in FIELDS and v["eq"]: law("a == b only for equal fields", all(E.same(("s", "a", o), ("s", "b", o), FIELDS[t][0]) for o in FIELDS[t][1]))
            if "lt" in ops:
                law("!(a < a)", not r["lt"]); law("a < b excludes b < a", not (v["lt"] and v["tl"])); law("a < b excludes a == b", not (v["lt"] and v["eq"]))
            if "gt" in ops:
                law("!(a > a)", not r["gt"]); law("a <= a", r["le"]); law("a >= a", r["ge"])
                law("a > b is b < a", v["gt"] == v["tl"]); law("a <= b is !(b < a)", v["le"] == 1 - v["tl"]); law("a >= b is !(a < b)", v["ge"] == 1 - v["lt"])
            if t in TOTAL: law("a == b, a < b or b < a", v["eq"] or v["lt"] or v["tl"])
            return out
        def safe(E):
            try: return body(E)
            except absint.Diverges as e: return ["the operators terminate (%s)" % e]
        for out, E in absint.explore(p, safe, MODELS):
            n += 1
            for l in out: bad.setdefault(l, cases_text(E))
        cases += n
        f = p.func(t + "_eq")
        if bad: 
            l, w = sorted(bad.items())[0]
            c.bad("operators of " + t, "law '%s' fails when %s" % (l, w))
        else: c.ok("operators of " + t, "%d operators, %d order types, all laws hold" % (len(ops), n))
        if n < 2 and not bad: raise AnalysisError("no case distinction for " + t)
    # transitivity
    for t in sorted(TOTAL):
        def tri(E):
            x = [E.sym(k) for k in "abc"]
            lt = lambda i, j: E.bool(E.call(t + "_lt", [x[i], x[j]]))
            eq = lambda i, j: E.bool(E.call(t + "_eq", [x[i], x[j]]))
            if lt(0, 1): return not lt(1, 2) or lt(0, 2)
            return not eq(0, 1) or lt(0, 2) == lt(1, 2)
        n, bad = 0, None
        for ok, E in absint.explore(p, tri, MODELS):
            n += 1
            if not ok: bad = cases_text(E)
        cases += n
        if bad: c.bad("transitivity of " + t, "a < b and b < c without a < c (or equal objects ordered differently) when " + bad)
        else: c.ok("transitivity of " + t, "%d order types of three objects" % n)
    # the four version comparisons used by is_at_least / is_below are consistent with the operators
    def ver(E):
        v = E.sym("a"); args = [("s", "q", k) for k in range(3)]
        return E.bool(E.call("version_atleast", [v] + args)), E.bool(E.call("version_below", [v] + args))
    k = 0
    try:
        bad = None
        for (x, y), E in absint.explore(p, ver, dict(MODELS, **STRINGS)):
            k += 1
            if x == y: bad = cases_text(E)
        if bad: c.bad("is_at_least and is_below", "agree when " + bad)
        else: c.ok("is_at_least and is_below", "exclude each other in %d cases" % k)
    except absint.Unmodelled as e: raise
    c.cover(types=len(TYPES), order_types=cases)
    c.floor("order types", cases, 40)
    c.finish()

# byte offsets of the fields that take part in equality (version: build and postfix are deliberately optional), order class of their type
FIELDS = {"version": ("s", (0, 4, 8)), "index": ("s", (0,)), "handle": ("s", (0,)), "time": ("s", (0,)), "radian": ("f", (0,)), "degree": ("f", (0,)), "color": ("f", (0, 4, 8, 12)), "vec3": ("f", (0, 8, 16)), "quat": ("f", (0, 8, 16, 24))}
TOTAL = {"index", "handle", "time", "color", "path", "radian", "degree"}
def nop(E, f, n, a): return None
STRINGS = {"std::__cxx11::basic_string::basic_string": nop, "std::__cxx11::basic_string::~basic_string": nop, "std::allocator::allocator": nop, "std::allocator::~allocator": nop, "std::__new_allocator::~__new_allocator": nop, "std::__new_allocator::__new_allocator": nop}

def name(x):
    if isinstance(x, tuple) and x[0] == "s": return "%s[%s]" % (x[1].lstrip("*"), x[2])
    if isinstance(x, tuple) and x[0] == "str": return "%s.text" % x[1]
    return str(x)
def cases_text(E):
    return ", ".join("%s %s %s" % (name(w[0]), r, name(w[1])) for _, _, w, r in E.dec if isinstance(w, tuple) and len(w) == 2 and isinstance(r, str)) or "always"
