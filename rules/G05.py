"""G05: every dispatch over an enumeration is analysed once per enumerator: no enumerator is rejected, falls out of a non-void function, or indexes outside a table; the results distinguish the enumerators and agree with their inverse operations; name tables have one correct name per enumerator."""
TECHNIQUE = "abstract interpretation of each dispatching function for every enumerator (finite, complete domain), with syntax-tree checks of switches, enum-indexed tables and name lists"
NOTE = "Complete for the enumerations of the library. Windows-only dispatches (thread priority, console colours) are not compiled here and not covered."
import re
from sa import ir, absint, tree, facts
from sa.facts import rel, AnalysisError
from sa.report import Check

def cstr(E, p):
    if not isinstance(p, absint.P): return None
    s = b""
    for k in range(200):
        v = E.load(absint.P(p.o, p.off + k), "i8")
        if v is absint.UNDEF: raise OutOfTable("a text without an end")
        if not isinstance(v, int): return None
        if v == 0: return s.decode("latin1")
        s += bytes([v & 255])
class OutOfTable(Exception): pass

class Eng(absint.Engine):
    def cell(self, o, off, sz, t, upto):
        if o.kind == "const" and o.init and isinstance(off, int):
            n = self.T.get(o.init[1])[0]
            if off < 0 or off + sz > n: raise OutOfTable("reads entry %d bytes outside the %d-byte table %s" % (off, n, o.name))
        return super().cell(o, off, sz, t, upto)
    def undef_ret(self, v): return v is absint.UNDEF

def string_ctor(E, f, n, a):
    if len(a) > 2 and isinstance(a[2], int) and isinstance(a[1], absint.P): a[0].o.ext[("S", a[0].off)] = (cstr(E, a[1]) or "")[:a[2]]; return None
    if len(a) > 1 and isinstance(a[1], absint.P):
        if a[1].o.ext.get(("S", a[1].off)) is not None: a[0].o.ext[("S", a[0].off)] = a[1].o.ext[("S", a[1].off)]
        else: a[0].o.ext[("S", a[0].off)] = cstr(E, a[1])
    return None
def ends(E, f, n, a):
    t = a[1].o.ext.get(("S", a[1].off)) if isinstance(a[1], absint.P) else chr(a[1]) if isinstance(a[1], int) else None
    if t is None: raise absint.Unmodelled("suffix that is not a literal")
    if not hasattr(E, "suffix"): E.suffix = E.pick(SUFFIXES)
    return int(E.suffix.endswith(t))
def text_of(E, a):
    t = a.o.ext.get(("S", a.off))
    if t is None: raise absint.Unmodelled("unknown text")
    return t
def c_str(E, f, n, a):
    o = absint.Obj("text", "sym")
    for k, ch in enumerate(text_of(E, a[0]) + "\0"): o.log.append((k, 1, ord(ch), "i8"))
    return absint.P(o)
def strspn(neg):
    def m(E, f, n, a):
        s, set_ = cstr(E, a[0]), cstr(E, a[1]); k = 0
        while k < len(s) and (s[k] in set_) != neg: k += 1
        return k
    return m
def strncmp(E, f, n, a):
    x, y = cstr(E, a[0])[:a[2]], cstr(E, a[1])[:a[2]]
    return 0 if x == y else -1 if x < y else 1
nop = lambda E, f, n, a: None
MODELS = {"xo::str_ends_with": ends, "std::__cxx11::basic_string::basic_string": string_ctor, "std::__cxx11::basic_string::~basic_string": nop, "std::allocator::allocator": nop, "std::allocator::~allocator": nop,
          "std::__new_allocator::~__new_allocator": nop, "std::__new_allocator::__new_allocator": nop, "std::operator+": nop, "xo::to_str": nop, "std::runtime_error::runtime_error": nop,
          "strcspn": strspn(True), "strspn": strspn(False), "strncmp": strncmp, "std::__cxx11::basic_string::c_str": c_str, "std::__cxx11::basic_string::data": c_str, "std::__cxx11::basic_string::size": lambda E, f, n, a: len(text_of(E, a[0])), "std::__cxx11::basic_string::length": lambda E, f, n, a: len(text_of(E, a[0]))}
del MODELS["xo::to_str"]
SUFFIXES = []

def run():
    c = Check("G05", "For every enumerator, every dispatch over its enumeration returns a defined result (the one that belongs to it) and every table indexed by it has an entry for it")
    p = ir.prog(tus=("enums",), units=[])
    T = tree.tree(tus=("containers", "geometry", "system", "strings", "enums"))
    enums = {e["t"]: e for e in T.enums.values() if e["file"].startswith(facts.REPO + "/xo/")}
    def val(t): return dict(enums[t]["vals"])
    def one(fn):
        """result of one call without case distinctions left"""
        out = []
        try:
            for r, E in absint.explore(p, lambda E: guard(E, fn), MODELS, engine=Eng): out.append(r)
        except absint.Unmodelled as e: raise
        return out
    def guard(E, fn):
        try: return ("ok", fn(E))
        except absint.Thrown as e: return ("thrown", e.ty)
        except OutOfTable as e: return ("out", str(e))
        except absint.Diverges as e: return ("unreachable", str(e))
    n_run = 0
    # ---- sides
    S = val("xo::side"); inv = {v: k for k, v in S.items()}
    text = {}
    for nme, v in sorted(S.items()):
        key = "side_postfix( side::%s )" % nme
        r = one(lambda E: cstr(E, E.call("side_text", [v]))); n_run += 1
        if len(r) != 1 or r[0][0] != "ok" or r[0][1] is None: c.bad(key, "has no text: %s" % (r[0][1],))
        else: c.ok(key, repr(r[0][1])); text[v] = r[0][1]
    if len(set(text.values())) < len(text): c.bad("side_postfix distinguishes the sides", "two sides have the same postfix: %s" % {inv[k]: t for k, t in text.items()})
    else: c.ok("side_postfix distinguishes the sides")
    mir = {}
    for nme, v in sorted(S.items()):
        key = "mirrored( side::%s )" % nme
        r = one(lambda E: E.call("side_mirrored", [v])); n_run += 1
        if len(r) != 1 or r[0][0] != "ok" or r[0][1] not in inv: c.bad(key, "does not yield a side: %s" % (r,))
        else: mir[v] = r[0][1]
    for v, m in sorted(mir.items()):
        key = "mirrored( side::%s )" % inv[v]
        if mir.get(m) != v: c.bad(key, "is side::%s, but mirroring that gives side::%s" % (inv[m], inv.get(mir.get(m))))
        elif inv[v] in ("left", "right") and m == v: c.bad(key, "is the same side")
        else: c.ok(key, inv[m])
    SUFFIXES[:] = sorted(set(text.values())) + ["x"]
    try: sides = list(absint.explore(p, lambda E: guard(E, lambda E: E.call("side_of", [E.sym("text")])), MODELS, engine=Eng))
    except absint.Unmodelled as e: sides = []; c.cover(str_get_side="not decided: " + str(e))
    for (st, r), E in sides:
        n_run += 1
        sx = getattr(E, "suffix", "x")
        want = [v for v, t in text.items() if t == sx] if sx != "x" else [S["none"]]
        key = "str_get_side( text ending with '%s' )" % sx
        if st != "ok" or r not in want: c.bad(key, "is %s instead of side::%s" % (inv.get(r, r), inv[want[0]] if want else "?"))
        else: c.ok(key, inv[r])
    # ---- Euler orders
    O = val("xo::euler_order")
    for d, args in (("euler_to", lambda E, v: [E.sym("a"), v, E.sym("r")]), ("euler_from", lambda E, v: [E.sym("a"), v, E.sym("r")]), ("euler_to_3", lambda E, v: [absint.P(E.sym("a").o, 8 * k) for k in range(3)] + [v, E.sym("r")])):
        nm = {"euler_to": "quat_from_euler", "euler_from": "euler_from_quat", "euler_to_3": "quat_from_euler( x, y, z )"}[d]
        comps = 3 if d == "euler_from" else 4
        def result(E, fn, a): 
            E.call(fn, a); r = E.sym("r")
            return tuple(repr(E.load(absint.P(r.o, 8 * k), "double")) for k in range(comps))
        for o, v in sorted(O.items()):
            key = "%s( euler_order::%s )" % (nm, o)
            got = one(lambda E: result(E, d, args(E, v))); n_run += 1
            want = one(lambda E: result(E, d.replace("_3", "") + "_" + o, [E.sym("a"), E.sym("r")]))
            if any(g[0] == "thrown" for g in got): c.bad(key, "this order is rejected as unsupported")
            elif any(g[0] != "ok" for g in got): c.bad(key, "has no defined result: %s" % got[0][1])
            elif sorted(got) != sorted(want): c.bad(key, "does not give the result of the dedicated conversion for %s" % o)
            else: c.ok(key, "%d cases" % len(got))
        got = one(lambda E: result(E, d, args(E, max(O.values()) + 1)))
        key = "%s( no enumerator )" % nm
        if any(g[0] not in ("thrown",) for g in got): c.bad(key, "a value that is no enumerator is not reported as an error")
        else: c.ok(key, "reported as an error")
    # ---- conversion of enumerators to text and back
    def to_text(E, v):
        r = E.sym("out"); E.call("euler_name", [r, v]); return text_of(E, r)
    def from_text(E, t):
        s, r = E.sym("in"), E.sym("val"); s.o.ext[("S", 0)] = t
        ok = E.bool(E.call("euler_parse", [s, r]))
        return E.load(r, "i32") if ok else None
    try:
        for o, v in sorted(O.items()):
            for key, got, want in (("to_str( euler_order::%s )" % o, one(lambda E: to_text(E, v)), o), ("from_str( \"%s\" )" % o, one(lambda E: from_text(E, o)), v)):
                n_run += 1
                if got != [("ok", want)]: c.bad(key, "gives %s instead of %s" % (got[0][1] if got else "nothing", want))
                else: c.ok(key, str(want))
        for t in ["", "x", "xy", "xyzx", "XYZ", "zyx ", ","] :
            got = one(lambda E: from_text(E, t)); key = "from_str( '%s' )" % t
            if got != [("ok", None)]: c.bad(key, "a text that names no enumerator is accepted as %s" % (got[0][1],))
            else: c.ok(key, "rejected")
    except absint.Unmodelled as e: c.cover(enum_text="not decided: " + str(e))
    # ---- switches over enumerations and tables indexed by enumerations, wherever they are
    n_sw = n_tab = 0
    for f in T.repo():
        inits = tree.local_inits(f)
        for n in tree.nodes(f):
            if n.get("k") == "SwitchStmt":
                t = switch_type(n)
                if t not in enums: continue
                n_sw += 1
                have, default = cases(n)
                key = "switch over %s in %s" % (t, f["q"])
                miss = [e for e, v in enums[t]["vals"] if v not in have]
                if miss and default is None: c.bad(key, "%s: no case for %s and no default" % (T.where(f, n), ", ".join(miss)))
                elif miss and rejects(default): c.bad(key, "%s: %s ends in the branch that reports an error" % (T.where(f, n), ", ".join(miss)))
                else: c.ok(key, "%d cases%s" % (len(have), ", default" if default is not None else ""))
            idx = subscript(n)
            if idx:
                arr, ix = idx
                r = enum_index(ix, enums, f, inits)
                if r is None: continue
                t, shift = r
                m = re.search(r"\[(\d+)\]", arr.get("t", ""))
                size = int(m[1]) if m else None
                n_tab += 1
                key = "table %s indexed by %s in %s" % (tabname(arr), t, f["q"])
                vs = [v + shift for e, v in enums[t]["vals"]]
                if size is None: c.bad(key, "%s: the size of the table is not known" % T.where(f, n))
                elif min(vs) < 0 or max(vs) >= size: c.bad(key, "%s: %s has entry %d..%d but the table has %d entries" % (T.where(f, n), t, min(vs), max(vs), size))
                else: c.ok(key, "%d entries for %d enumerators" % (size, len(vs)))
    # ---- level names
    L = dict(enums["xo::log::level"]["vals"])
    for g in T.globals.values():
        if not g["q"].startswith("xo::log::level_names"): continue
        lits = [x.get("v", x.get("s")) for x in tree.walk(g["init"]) if x.get("k") == "StringLiteral"]
        key = "%s has a name for every level" % g["q"]
        if len(lits) != len(L): c.bad(key, "%d names for %d levels" % (len(lits), len(L))); continue
        real = {k: lits[v] for k, v in L.items() if k not in ("always", "never")}
        wrong = [k for k, s in real.items() if not s or ("full" in g["q"] and s != k) or (s and s[0].lower() != k[0])]
        if wrong or len(set(real.values())) < len(real): c.bad(key, "wrong or ambiguous name for %s" % (wrong or real,))
        else: c.ok(key, ", ".join(real.values())); n_tab += 1
    # ---- enumerations with textual names
    n_name = 0
    for f in T.repo():
        if f["q"] not in ("xo::to_str", "xo::from_str"): continue
        et = next((tree.unref(q["t"]) for q in f["params"] if tree.unref(q["t"]) in enums), None)
        if et is None: continue
        lits = [x.get("v", x.get("s")) for x in tree.nodes(f) if x.get("k") == "StringLiteral"]
        lits = [l for l in lits if l and ("," in l or len(lits) == 1)]
        if not lits: continue
        n_name += 1
        names = [x for x in re.split(r"[ ,\t\n\r]+", lits[0]) if x]
        want = [e for e, v in sorted(enums[et]["vals"], key=lambda x: x[1])]
        key = "names of %s in %s" % (et, f["q"])
        if names != want or [v for e, v in enums[et]["vals"]] != list(range(len(names))): c.bad(key, "%s: the names %s do not belong to the enumerators %s" % (T.where(f), names, want))
        else: c.ok(key, lits[0])
    c.cover(enumerations=len(enums), dispatches_interpreted=n_run, switches=n_sw, tables=n_tab, name_lists=n_name)
    c.floor("dispatches interpreted", n_run, 25)
    c.floor("enum-indexed tables", n_tab, 2)
    c.floor("textual name lists", n_name, 2)
    c.finish()

def switch_type(n):
    x = n.get("cond") or (n.get("c") or [None])[0]
    while isinstance(x, dict) and x.get("k") == "ImplicitCastExpr" and x.get("c"): x = x["c"][0]
    return ctype_bare(x.get("t", "")) if isinstance(x, dict) else ""
def ctype_bare(t): return tree.unref(t).replace("const ", "")
def cases(n):
    have, default = set(), None
    for x in tree.walk(n["body"] if isinstance(n.get("body"), dict) else n):
        if x.get("k") == "CaseStmt":
            v = next((y["cv"] for y in tree.walk(x["c"][0]) if "cv" in y or y.get("k") == "DeclRefExpr"), None) if x.get("c") else None
            if v is None: v = next((y["d"]["v"] for y in tree.walk(x) if y.get("k") == "DeclRefExpr" and "v" in y.get("d", {})), None)
            have.add(int(v) if v is not None else None)
        if x.get("k") == "DefaultStmt": default = x
    return have, default
def rejects(d):
    return any(x.get("k") == "CXXThrowExpr" or x.get("k") == "CallExpr" and "xo_error" in (x.get("f") or {}).get("q", "") for x in tree.walk(d)) and not any(x.get("k") == "ReturnStmt" for x in tree.walk(d))
def subscript(n):
    if n.get("k") == "ArraySubscriptExpr" and len(n.get("c", ())) == 2: return tree.strip(n["c"][0]), n["c"][1]
    return None
def tabname(a):
    return (a.get("d") or {}).get("q") or (a.get("d") or {}).get("n") or "?"
def enum_index(e, enums, f, inits, shift=0):
    x = tree.strip(e)
    t = ctype_bare(x.get("t", ""))
    if t in enums: return t, shift
    if x.get("k") == "BinaryOperator" and x.get("op") in ("+", "-"):
        a, b = x["c"]
        k = next((int(y.get("v", y.get("cv", 0))) for y in [tree.strip(b)] if y.get("k") == "IntegerLiteral"), None)
        if k is not None: return enum_index(a, enums, f, inits, shift + (k if x["op"] == "+" else -k))
    if x.get("k") == "DeclRefExpr" and x["d"]["id"] in inits: return enum_index(inits[x["d"]["id"]], enums, f, inits, shift)
    return None
