"""L07: for every name of a schema that covers all declared types with and without allowed lists and ranges, every value of an enumerated domain (valid, at, beyond and between limits, of other types, empty, unknown), every way of setting it (typed, as text, from a settings file with groups, dotted and positional names) and every pair of them: the data changes only for names in the schema, only to values that convert to the declared type, that are in the allowed list, and that read back within the declared range, as the number given or the nearest limit; everything else leaves the data as it was."""
TECHNIQUE = "abstract interpretation of settings, property nodes and text conversions over enumerated schemas, values and histories, compared with a table of settings"
NOTE = "Values are converted by the library's own conversion for the declared type; number conversions of the C library are modelled by the C standard. Direct changes through the mutable access to the data are not part of the statement. A value inside a group that has the name of a setting is a value of that setting."
import itertools
from sa import ir, absint, strdom, par, libc
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.report import Check

UNITS = ["xo/system/settings.cpp", "xo/container/prop_node.cpp", "xo/string/string_cast.cpp", "xo/string/string_tools.cpp", "xo/filesystem/path.cpp"]
# name: (type, default, allowed, range)
SCHEMA = {"port": ("int", "80", None, "1..100000000"), "share": ("float", "1", None, "0.5..10"), "mode": ("string", "x", ("x", "y", "long text"), None), "sub.n": ("int", "3", None, None),
          "sub.flag": ("bool", "0", None, None), "sub.deep.level": ("int", "2", ("1", "2", "7"), "1..5"), "ratio": (None, "0.5", None, "0..1"), "free": (None, "a", None, None), "pos": ("vec3", "0 0 0", None, None), "tint": ("color", "#c0", None, None), "f": ("float", "2", None, None), "neg": ("int", "-5", None, "-10..-1")}
VALUES = ("", "80", "1", "0", "2", "3", "7", "5", "6", "100000000", "100000001", "1234567", "-7", "-11", "0.5", "0.49", "10", "10.1", "x", "y", "z", "long text", "true", "no", "maybe", "0.75", "1e3", "1e300", "nan", "inf", "1 2 3", "1 2", "#c1", "a b", "12345678901234567890")
OTHER = ("", "sub", "sub.deep", "unknown", "sub.unknown", "port.x", "#1", "sub.#1", ".", "port.", ".port", "port..x", "default", "port.default", "port.type")

def nop(E, f, n, a): return None
def cls(E, f, n, a):
    if "xo::color&" not in E.p.dem(n.f): return NotImplemented
    t = strdom.items(E, E.call("node_value", [a[0]])); return int(t[:2] == [35, 99])
MODELS = dict(strdom.MODELS); MODELS.update(libc.MODELS)
MODELS.update({"xo::from_prop_node": cls, "xo::file_exists": lambda E, f, n, a: E.exists, "xo::create_directories": lambda E, f, n, a: 1, "xo::load_file": lambda E, f, n, a: E.call("node_copy", [a[0], E.file]),
               "xo::save_file": lambda E, f, n, a: E.saved.append(a[0]) or 1, "xo::log::error": nop, "xo::log::warning": nop, "xo::log::info": nop, "xo::log::debug": nop, "xo::log::trace": nop, "xo::log::message": nop,
               "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop})

def run():
    c = Check("L07", "Settings store only values that passed the schema: known name, declared type, allowed list, range")
    p = ir.prog(tus=("settings",), units=UNITS, helpers=True)
    class World:
        def __init__(s, E):
            s.E = E; E.saved, E.exists = [], 1
            s.schema = P(E.obj("schema")); E.call("node_new", [s.schema])
            for k, (t, d, al, r) in SCHEMA.items():
                n = s.schema
                for x in k.split("."): n = s.child(n, x) or s.add(n, x)
                if t: s.add(n, "type", t)
                s.add(n, "default", d)
                if al:
                    m = s.add(n, "allowed")
                    for x in al: s.add(m, "", x)
                if r: s.add(n, "range", r)
            E.file = P(E.obj("file")); E.call("node_new", [E.file])
            s.set = P(E.obj("settings")); E.call("set_new", [s.set, s.schema, s.text("f.zml")])
            s.model = {}
        def text(s, x): return strdom.put(s.E, P(s.E.obj("text")), list(x.encode()))
        def add(s, n, k, v=""): return s.E.call("node_add", [n, s.text(k), s.text(v)])
        def child(s, n, k):
            for i in range(s.E.call("node_size", [n])):
                if s.str(s.E.call("node_key", [n, i])) == k: return s.E.call("node_child", [n, i])
        def str(s, x): return bytes(y & 255 for y in strdom.items(s.E, x)).decode()
        def tree(s, t):
            n = P(s.E.obj("tree")); s.E.call("node_new", [n]); s.fill(n, t); return n
        def fill(s, n, t):
            for k, v in t.items() if isinstance(t, dict) else t:
                if isinstance(v, (dict, list)): s.fill(s.add(n, k), v)
                else: s.add(n, k, v)
        def leaves(s, n, at=""):
            r = []
            for i in range(s.E.call("node_size", [n])):
                k = at + s.str(s.E.call("node_key", [n, i])); ch = s.E.call("node_child", [n, i])
                v = s.str(s.E.call("node_value", [ch]))
                if v or not s.E.call("node_size", [ch]): r.append((k, v))
                r += s.leaves(ch, k + ".")
            return r
        def number(s, t):
            m = libc.FLT.match(t.encode()); return float(m[1]) if m else None
        def conv(s, ty, v):
            if not ty: return True
            n = P(s.E.obj("value")); s.E.call("node_new", [n]); m = s.add(n, "v", v)
            return bool(s.E.call("conv_" + ty, [m]) & 1)
        def expect(s, id, v):
            """None: refused; (value,): stored as given; (value, number): stored with this number"""
            if id not in SCHEMA: return None
            ty, d, al, r = SCHEMA[id]
            if v == d or v == "": return ()
            if not s.conv(ty, v): return None
            if al and v not in al: return None
            if r:
                lo, hi = map(float, r.split("..")); x = s.number(v)
                if x is None or x != x: return None
                if not lo <= x <= hi: return v, min(max(x, lo), hi)
                return v, x
            return v,
        def apply(s, id, v):
            e = s.expect(id, v)
            if e is None: return False
            if e == (): s.model.pop(id, None)
            else: s.model[id] = e
            return True
        def check(s, at):
            got = [x for x in s.leaves(s.E.call("set_data", [s.set])) if x[1] or x[0] in SCHEMA]
            ks = [k for k, _ in got]
            for k in ks:
                if ks.count(k) > 1: return "%s: the data has '%s' twice" % (at, k)
                if k not in SCHEMA and k != "version": return "%s: the data has '%s', which is not in the schema" % (at, k)
                if k not in s.model: return "%s: the data has a value for '%s' that must not be stored ('%s')" % (at, k, dict(got)[k])
            for k, e in s.model.items():
                if k not in ks: return "%s: the value for '%s' is not stored" % (at, k)
                v = dict(got)[k]
                if len(e) == 1:
                    if v != e[0]: return "%s: '%s' is stored as '%s' instead of '%s'" % (at, k, v, e[0])
                    continue
                lo, hi = map(float, SCHEMA[k][3].split(".."))
                x = s.E.call("get_double", [s.set, s.text(k)])
                if not isinstance(x, (int, float)): return "%s: '%s' cannot be read back" % (at, k)
                if not lo <= x <= hi: return "%s: '%s' reads back as %s, outside its range" % (at, k, x)
                if SCHEMA[k][0] != "int" and abs(x - e[1]) > 1e-5 * abs(e[1]): return "%s: '%s' reads back as %s instead of %s" % (at, k, x, e[1])
                if SCHEMA[k][0] == "int":
                    i = s.E.call("get_int", [s.set, s.text(k)])
                    if not lo <= i <= hi: return "%s: '%s' reads back as the number %s, outside its range" % (at, k, i)
                    if i != int(e[1]): return "%s: '%s' reads back as the number %s instead of %d" % (at, k, i, int(e[1]))
            for k in SCHEMA:
                r = P(s.E.obj("r")); s.E.call("get_text", [r, s.set, s.text(k)]); v = s.str(r)
                if k not in s.model and v != SCHEMA[k][1]: return "%s: '%s' is not set but reads as '%s' instead of its default" % (at, k, v)
        def op(s, o, at):
            if o[0] == "set":
                ok = s.apply(o[1], o[2])
                try: r = s.E.call("set_text", [s.set, s.text(o[1]), s.text(o[2])]) & 1
                except Thrown: r = 0
                if r != ok: return "%s: set() %s" % (at, "reports success for a value that must be refused" if r else "refuses a valid value")
            elif o[0] in ("int", "double", "bool"):
                t = o[2] if o[0] != "double" else float(o[2])
                v = {"int": str, "double": lambda x: "%g" % x, "bool": lambda x: "01"[x]}[o[0]](t)
                ok = s.apply(o[1], v); r = s.E.call("set_" + o[0], [s.set, s.text(o[1]), t]) & 1
                if r != ok: return "%s: set() %s" % (at, "reports success for a value that must be refused" if r else "refuses a valid value")
            elif o[0] == "load":
                s.E.file = s.tree(o[1])
                def walk(t, at):
                    for k, v in t.items() if isinstance(t, dict) else t:
                        if isinstance(v, (dict, list)): walk(v, at + k + ".")
                        else: s.apply(at + k, v)
                walk(o[1], "")
                s.E.call("set_load", [s.set])
            elif o[0] == "reset": s.E.call("set_reset", [s.set]); s.model = {}
            elif o[0] == "save":
                s.E.saved = []; s.E.call("set_save", [s.set])
                if s.E.saved != [s.E.call("set_data", [s.set])]: return "%s: save() does not write the data" % at
            return s.check(at)
    def body(E, h):
        w = World(E)
        for i, o in enumerate(h):
            r = w.op(o, "operation %d" % (i + 1))
            if r: return r
    def decide(h):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: body(E, h), E), MODELS, engine=strdom.StrEngine, maxsteps=8000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    def show(h): return "; ".join("%s %s" % (o[0], " = ".join("'%s'" % x for x in map(str, o[1:]))) for o in h)
    hs = list(histories())
    loc = next((f.loc() for f in p.funcs.values() if f.q == "xo::settings::try_set"), "xo/system/settings.cpp")
    n = 0
    for h, (bad, k) in zip(hs, par.run([(decide, (h,)) for h in hs])):
        n += k
        if bad: c.bad(show(h), "%s: %s" % (loc, bad))
        else: c.ok(show(h))
    c.cover(histories=len(hs), cases=n)
    c.floor("histories", len(hs), 500)
    c.finish()

def histories():
    for k in list(SCHEMA) + list(OTHER):
        for v in VALUES if k in SCHEMA else VALUES[1:4]: yield [("set", k, v)]
    for k in SCHEMA:
        for v in (0, 1, 2, 80, 1234567, -7, 2147483647): yield [("int", k, v)]
        for v in (0.75, 1e300, 3.0): yield [("double", k, v)]
        yield [("bool", k, 1)]
    for k, vs in (("port", ("1234567", "0", "80", "x")), ("mode", ("y", "x", "z")), ("sub.deep.level", ("1", "7", "2", "9")), ("pos", ("1 2 3", "1 2", "0 0 0"))):
        for a, b in itertools.product(vs, repeat=2): yield [("set", k, a), ("set", k, b)]
    for o in OTHER:
        yield [("set", "mode", "y"), ("set", o, "1")]; yield [("set", "mode", "y"), ("load", {o: "80"})]; yield [("set", "sub.n", "9"), ("set", "sub.flag", "1"), ("set", o, "2"), ("reset",), ("set", o, "7")]
    for k in SCHEMA:
        for v in ("1", "7", "x", "y", "2000000000", "0.75", "1 2 3"):
            t = v
            for x in reversed(k.split(".")): t = {x: t}
            yield [("load", t)]
            yield [("load", {k: v})] if "." in k else [("load", [(k, v), (k, "5")])]
    yield [("load", {"sub": "4"})]; yield [("load", {"sub": {"n": "4", "unknown": "5", "deep": {"level": "9", "x": "1"}, "flag": "yes"}, "unknown": {"n": "4"}, "port": "0"})]
    yield [("load", {"port": {"default": "5", "x": "1"}})]; yield [("set", "port", "0"), ("save",), ("reset",), ("load", {"port": "7"}), ("set", "sub.flag", "1"), ("set", "mode", "z"), ("load", {"port": "0", "mode": "y"})]

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
