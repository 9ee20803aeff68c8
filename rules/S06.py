"""S06: for include graphs over one, two and three files and longer cycles and chains, with includes at the top and inside groups, with and without an error object, and for both ways of including (`<< file >>` in ZML, and include nodes in any format): loading ends after a bounded number of opened files, reports an error when a file includes itself directly or through others, and otherwise expands every include and reports none."""
TECHNIQUE = "abstract interpretation of parser and include resolution over an enumerated domain of include graphs and a modelled file system, with a bound on opened files"
NOTE = "The bound is 200 opened files, the length of the longest legal chain is not part of the statement. Graphs without cycles can expand to exponentially many files; loading them ends, but is not bounded by a constant."
import itertools, sys
from sa import ir, absint, strdom, par, exc, logsim, files, libc
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.report import Check

UNITS = ["xo/string/string_tools.cpp", "xo/string/string_cast.cpp", "xo/serialization/char_stream.cpp", "xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/prop_node_serializer.cpp", "xo/serialization/serialize.cpp", "xo/container/prop_node.cpp", "xo/container/prop_node_tools.cpp", "xo/system/error_code.cpp", "xo/filesystem/path.cpp", "xo/filesystem/filesystem.cpp"]
LIMIT = 200
class Eng(exc.ExcEngine, logsim.Eng): maxdepth = 900
class Endless(Exception): pass

def zero(E, f, n, a): return 0
MODELS = dict(strdom.MODELS); MODELS.update(libc.MODELS); MODELS.update(files.MODELS)
MODELS.update({"xo::log::" + x: strdom.nop for x in ("trace", "debug", "info", "warning", "error", "critical", "message", "log_string", "flush")})
MODELS.update({"xo::log::test_log_level": zero, "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop})
def opened(E, f, n, a):
    r = files.iopen(E, f, n, a)
    if len(E.opened) > LIMIT: raise Endless()
    return r
MODELS["std::basic_ifstream::basic_ifstream"] = opened
def loaded(E, f, n, a):
    """load_file for include nodes: the tree of the file"""
    k = files.key(strdom.items(E, a[1])); E.opened.append(k)
    if len(E.opened) > LIMIT: raise Endless()
    if k not in E.trees: raise Thrown("_ZTISt13runtime_error", P(E.obj("error")))
    E.call("node_copy", [a[0], E.trees[k]])

def graphs():
    """(includes of every file, place of the includes)"""
    two = [()] + [(a,) for a in range(2)] + list(itertools.product(range(2), repeat=2))
    three = [()] + [(a,) for a in range(3)]
    long = [x for k in (4, 7) for x in (tuple((i + 1,) for i in range(k - 1)) + ((),), tuple(((i + 1) % k,) for i in range(k)), tuple(((i + 1) % k, (i + 1) % k) for i in range(k)))]
    few = [((0,),), ((1,), (0,)), ((0, 0),), ((1, 1), (0, 0)), ((1, 0), ()), ((1,), (2,), (1,)), ((1, 1), (2,), ())]
    for place in ("top", "group"):
        for g in list(itertools.product(two, repeat=2)) + long + (list(itertools.product(three, repeat=3))[::3] if place == "top" else []): yield "nodes", g, place
        for g in few: yield ("any_load" if place == "top" else "zml_load"), g, place
    for g in list(itertools.product([x for x in two if x not in ((0, 0), (1, 0), (0,))], repeat=2)) + long: yield "zml_load ec", g, "top"
    for g in few: yield "zml_load ec", g, "group"
def cyclic(g):
    def walk(i, on): return i in on or any(walk(j, on | {i}) for j in g[i])
    return walk(0, frozenset())
def expanded(g, i): return [i] + [x for j in g[i] for x in expanded(g, j)]
def show(g, place): return "; ".join("f%d includes %s" % (i, " ".join("f%d" % j for j in l) or "nothing") for i, l in enumerate(g)) + " (%s)" % place

def run():
    sys.setrecursionlimit(100000)
    c = Check("S06", "File inclusion is always bounded")
    p = ir.prog(tus=("files",), units=UNITS, helpers=True)
    def keys(E, n):
        r = []
        for i in range(E.call("node_size", [n])):
            k = files.key(strdom.items(E, E.call("node_key", [n, i]))); ch = E.call("node_child", [n, i])
            r += [k] * (k != "g") + keys(E, ch)
        return r
    def text(E, s): return strdom.put(E, P(E.obj("text")), list(s.encode()))
    def zml(E, g, place, how, ec):
        E.opened, E.readonly = [], ()
        E.fs = {}
        for i, l in enumerate(g):
            inc = " ".join("<< f%d.zml >>" % j for j in l)
            E.fs["dir/f%d.zml" % i] = list(("n%d = 1\n%s\n" % (i, inc if place == "top" or not inc else "g { %s }" % inc)).encode())
        r = P(E.obj("result")); e = 0
        if ec: e = P(E.obj("error")); E.call("ec_new", [e])
        try: E.call(how, [r, text(E, "dir/f0.zml"), e])
        except Thrown as x: return True, None
        return (bool(E.call("ec_bad", [e]) & 1) if ec else False), keys(E, r)
    def nodes(E, g, place, merge):
        E.opened, E.trees = [], {}
        for i, l in enumerate(g):
            t = P(E.obj("tree %d" % i)); E.call("node_new", [t]); root = E.call("node_add", [t, text(E, "g"), text(E, "")])
            E.call("node_add", [root, text(E, "n%d" % i), text(E, "1")])
            for j in l:
                at = root if place == "top" else E.call("node_add", [root, text(E, "g"), text(E, "")])
                x = E.call("node_add", [at, text(E, "INCLUDE"), text(E, "")]); E.call("node_add", [x, text(E, "file"), text(E, "f%d.xml" % j)])
                if merge: E.call("node_add", [x, text(E, "merge_children"), text(E, "1")])
            E.trees["dir/f%d.xml" % i] = t
        r = P(E.obj("result"))
        try: E.call("include_load", [r, text(E, "dir/f0.xml")])
        except Thrown: return True, None
        return False, keys(E, r)
    def body(E, g, place, how, x):
        try: failed, ks = zml(E, g, place, how, x) if how != "nodes" else nodes(E, g, place, x)
        except Endless: return "more than %d files are opened" % LIMIT
        except Diverges: return "loading does not end (%d files are opened)" % len(E.opened)
        cyc = cyclic(g)
        if cyc and not failed: return "files that include each other in a circle are not an error"
        if failed and not cyc: return "an include that is not circular is an error"
        if not failed:
            want = sorted("n%d" % i for i in expanded(g, 0))
            if how == "nodes" and x: want, ks = sorted(set(want)), sorted(set(ks))
            if sorted(ks) != want: return "the result has %s instead of %s" % (" ".join(sorted(ks)), " ".join(want))
    def decide(*a):
        bad, n = None, 0
        m = dict(MODELS)
        if a[2] == "nodes": m["xo::load_file"] = loaded
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: body(E, *a), E), m, engine=Eng, maxsteps=6000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    jobs = []
    for kind, g, place in graphs():
        for how, x, t in {"zml_load": [("zml_load", 0, "load_zml")], "zml_load ec": [("zml_load", 1, "load_zml with an error object")], "any_load": [("any_load", 1, "load_file with an error object")], "nodes": [("nodes", 0, "load_file_with_include"), ("nodes", 1, "load_file_with_include and merge")]}[kind]:
            jobs.append(("%s: %s" % (t, show(g, place)), (decide, (g, place, how, x))))
    def at(q): return next((f.loc() for f in p.funcs.values() if f.q == q), "?")
    loc = {True: at("xo::resolve_include_files"), False: at("xo::read_zml_layer")}
    n = cyc = 0
    for (k, j), (bad, m) in zip(jobs, par.run([j for _, j in jobs])):
        n += m; cyc += cyclic(j[1][0])
        if bad: c.bad(k, "%s: %s" % (loc[j[1][2] == "nodes"], bad))
        else: c.ok(k)
    c.cover(loads=len(jobs), cyclic=cyc, cases=n)
    c.floor("cyclic graphs", cyc, 200)
    c.finish()

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
