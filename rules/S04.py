"""S04: for every format name the library registers: a serializer can be made for a node and for a constant node, with and without an error object, bound to exactly that node and error object; a small document that is saved by it, by extension or by name, is loaded as an equal document; without a target or source it refuses to read or write instead of using a null node; and a file that cannot be opened is an error. For every other name (near misses, other case, empty): making a serializer, loading and saving report an error, by the error object or else by an exception, and open no file."""
TECHNIQUE = "abstract interpretation of factory, serializers (including the XML parser) and file functions over every registered format, other names, and a modelled file system"
NOTE = "Formats are those registered by get_serializer_factory and one registered by register_file_extension. The documents are small; round trips of all documents are S01 for ZML and not claimed for the other formats."
from sa import ir, absint, strdom, par, exc, logsim, files, libc, stdmap
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.report import Check

UNITS = ["xo/string/string_tools.cpp", "xo/string/string_cast.cpp", "xo/serialization/char_stream.cpp", "xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/prop_node_serializer_ini.cpp", "xo/serialization/prop_node_serializer_xml.cpp", "xo/serialization/prop_node_serializer.cpp", "xo/serialization/serialize.cpp", "xo/container/prop_node.cpp", "xo/container/prop_node_tools.cpp", "xo/system/error_code.cpp", "xo/filesystem/path.cpp", "xo/filesystem/filesystem.cpp"]
OTHER = ["", "txt", "ZML", "Xml", "zm", "zmlx", "xm", "in", "ini2", "json", "zml.", ".zml", "zml "]
class Eng(exc.ExcEngine, logsim.Eng):
    maxdepth = 900
    def binop(self, op, t, x, y):
        # objects are aligned
        if op == "and" and isinstance(x, P) and isinstance(x.off, int) and isinstance(y, int) and 0 <= y < 16: return x.off & y
        return super().binop(op, t, x, y)

MODELS = dict(strdom.MODELS); MODELS.update(libc.MODELS); MODELS.update(stdmap.MODELS); MODELS.update(files.MODELS)
MODELS.update({"xo::log::" + x: strdom.nop for x in ("trace", "debug", "info", "warning", "error", "critical", "message", "log_string", "flush")})
MODELS.update({"xo::log::test_log_level": lambda E, f, n, a: 0, "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop})
DOCS = {"xml": [("root", "", [("a", "1", []), ("b", "text", [])])], None: [("a", "1", []), ("b", "text", []), ("g", "", [("c", "2", [])])]}

def run():
    c = Check("S04", "Every file format both reads and writes, and unknown formats are errors")
    p = ir.prog(tus=("files",), units=UNITS, helpers=True)
    f = next(x for x in p.funcs.values() if x.q == "xo::get_serializer_factory")
    loc = f.loc()
    cands = sorted({s for g in p.globals for s in [p.cstr(["g", g])] if s and s.isalnum() and len(s) < 8} | {"xml", "ini", "zml"})
    class World:
        def __init__(s, E): s.E = E; E.opened, E.readonly, E.fs = [], ("readonly",), {}
        def text(s, x): return strdom.put(s.E, P(s.E.obj("text")), list(x.encode()))
        def node(s, d):
            n = P(s.E.obj("node")); s.E.call("node_new", [n]); s.fill(n, d); return n
        def fill(s, n, d):
            for k, v, ch in d: s.fill(s.E.call("node_add", [n, s.text(k), s.text(v)]), ch)
        def tree(s, n):
            r = []
            for i in range(s.E.call("node_size", [n])):
                ch = s.E.call("node_child", [n, i])
                r.append((files.key(strdom.items(s.E, s.E.call("node_key", [n, i]))), files.key(strdom.items(s.E, s.E.call("node_value", [ch]))), s.tree(ch)))
            return r
        def ec(s, on):
            if not on: return 0
            e = P(s.E.obj("error")); s.E.call("ec_new", [e]); return e
        def bad(s, e): return bool(s.E.call("ec_bad", [e]) & 1) if e else False
        def attempt(s, e, name, args):
            """(reported an error, result)"""
            try: r = s.E.call(name, args)
            except Thrown as x:
                if e: raise
                return True, None
            return s.bad(e), r
    def names(E): return [k for k in cands if isinstance(E.call("ser_create", [World(E).text(k)]), P)]
    def made(E, name, on, const):
        w = World(E); e = w.ec(on); n = w.node([])
        r, s = w.attempt(e, "ser_make_const" if const else "ser_make", [w.text(name), n, e])
        if r: return "making a serializer is an error"
        if not isinstance(s, P): return "no serializer is made"
        if E.call("ser_write_source", [s]) != n: return "the serializer does not write the given node"
        if E.call("ser_error", [s]) != e: return "the serializer does not report to the given error object"
        t = E.call("ser_read_target", [s])
        if not const and t != n: return "the serializer does not read into the given node"
        if const and t != 0: return "the serializer of a constant node has a node to read into"
    def unbound(E, name, on, read):
        w = World(E); e = w.ec(on); n = w.node([])
        s = E.call("ser_make", [w.text(name), n, e]); st = P(E.obj("stream"))
        if read: files.reader(E, st, [ord(x) for x in "a=1\n"]); E.call("ser_set", [s, 0, n, e])
        else: files.writer(E, st); E.call("ser_set", [s, n, 0, e])
        try: E.call("ser_read" if read else "ser_write", [s, st])
        except Thrown: return None
        if w.bad(e): return None
        return "%s without a node is not an error" % ("reading" if read else "writing")
    def trip(E, name, on, typed):
        w = World(E); e = w.ec(on); d = DOCS.get(name, DOCS[None]); n = w.node(d); f = w.text("dir/file." + (name if not typed else "dat")); ty = [w.text(name)] if typed else []
        r, x = w.attempt(e, "typed_save" if typed else "any_save", [n, f] + ty + [e])
        if r: return "saving a document is an error"
        if not x & 1: return "saving a document returns false"
        if len(E.opened) != 1 or not E.fs.get("dir/file." + (name if not typed else "dat")): return "nothing is written to the file"
        m = P(E.obj("loaded"))
        r, x = w.attempt(e, "typed_load" if typed else "any_load", [m, f] + ty + [e])
        if r: return "loading what was saved is an error"
        t = w.tree(m)
        if t != d: return "a document is loaded as %s after it was saved as %s" % (t, d)
    def closed(E, name, on, save, typed):
        w = World(E); e = w.ec(on); n = w.node(DOCS.get(name, DOCS[None])); f = "dir/none." + (name if not typed else "dat"); ty = [w.text(name)] if typed else []
        E.readonly = (f,)
        if save: r, x = w.attempt(e, "typed_save" if typed else "any_save", [n, w.text(f)] + ty + [e])
        else: r, x = w.attempt(e, "typed_load" if typed else "any_load", [P(E.obj("loaded")), w.text(f)] + ty + [e])
        if not r: return "a file that cannot be opened is not an error"
        if save and isinstance(x, int) and x & 1: return "saving to a file that cannot be created returns true"
    def unknown(E, name, on, how):
        w = World(E); e = w.ec(on); n = w.node(DOCS[None]); f = w.text("dir/file" + ("." + name if name else "")); ty = w.text(name)
        E.fs = {"dir/file" + ("." + x if x else ""): [ord(y) for y in "a = 1\n"] for x in (name, "dat")}
        a = {"make": ("ser_make", [ty, n, e]), "make const": ("ser_make_const", [ty, n, e]), "load": ("any_load", [P(E.obj("r")), f, e]), "load by name": ("typed_load", [P(E.obj("r")), w.text("dir/file.dat"), ty, e]),
             "save": ("any_save", [n, f, e]), "save by name": ("typed_save", [n, w.text("dir/file.dat"), ty, e])}[how]
        r, x = w.attempt(e, *a)
        if not r: return "an unknown format is not an error"
        if how.startswith("make") and x not in (None, 0): return "a serializer is made for an unknown format"
        if how.startswith("save") and isinstance(x, int) and x & 1: return "saving in an unknown format returns true"
        if E.opened: return "a file is opened for an unknown format"
    def decide(fn, *a):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: fn(E, *a), E), MODELS, engine=Eng, maxsteps=4000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    try: got = [r for r, E in absint.explore(p, lambda E: guard(names, E), MODELS, engine=Eng, maxsteps=4000000)]
    except Unmodelled: got = []
    if len(got) != 1 or not isinstance(got[0], list): got = [["ini", "xml", "zml"]]  # decided one by one below
    jobs = []
    EC = {1: "with an error object", 0: "without an error object"}
    for k in got[0]:
        for on in (0, 1):
            for const in (0, 1): jobs.append(("%s: serializer for a %snode, %s" % (k, "constant " * const, EC[on]), (decide, (made, k, on, const))))
            for read in (0, 1): jobs.append(("%s: %s, %s" % (k, "no node to read into" if read else "no node to write", EC[on]), (decide, (unbound, k, on, read))))
            for typed in (0, 1):
                jobs.append(("%s: save and load %s, %s" % (k, "by name" if typed else "by extension", EC[on]), (decide, (trip, k, on, typed))))
                for save in (0, 1): jobs.append(("%s: %s a file that cannot be opened %s, %s" % (k, "save to" if save else "load from", "by name" if typed else "by extension", EC[on]), (decide, (closed, k, on, save, typed))))
    for k in OTHER:
        if k in got[0]: continue
        for on in (0, 1):
            for how in ("make", "make const", "load", "load by name", "save", "save by name"):
                if how in ("load", "save") and k.strip(".") != k: continue
                jobs.append(("other name '%s': %s, %s" % (k, how, EC[on]), (decide, (unknown, k, on, how))))
    n = 0
    for (k, _), (bad, m) in zip(jobs, par.run([j for _, j in jobs])):
        n += m
        if bad: c.bad(k, "%s: %s" % (loc, bad))
        else: c.ok(k)
    c.cover(formats=len(got[0]), obligations=len(jobs), cases=n)
    c.floor("formats", len(got[0]), 3)
    c.finish()

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
