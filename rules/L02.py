"""L02: for every program of up to four profiled scopes over two names (nested, in sequence, recursive), left normally or by an exception, with the profiler started, stopped and reported at every point of it: the report has one entry for each distinct path of scope names entered while profiling, with the exact number of entries and the exact time spent; a scope that was entered while profiling was off counts nothing when it is left; starting twice and stopping inside a scope are errors that lose nothing; a scope object cannot be copied."""
TECHNIQUE = "abstract interpretation of profiler, timer and scope objects (including their unwinding) over enumerated programs with a symbolic clock, compared with a table of paths; type-level check that scopes cannot be copied"
NOTE = "One thread, as documented by the profiler. The clock is modelled: every step of the program advances it by a different amount, so that every wrong attribution shows. The estimation of the profiler's own overhead is left out; times are compared without it."
import itertools, re
from sa import ir, absint, strdom, par, facts
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.facts import AnalysisError
from sa.report import Check
MS = 1000000

def clock(E, f, n, a): return E.now * MS
def fmt(E, f, n, a):
    """text of a report entry: its count and its first time"""
    t = bytes(x & 255 for x in strdom.cstr(E, a[1])).decode("latin1")
    conv = re.findall(r"%[^a-zA-Z%]*((?:z|l|ll)?[a-zA-Z])([a-z]*)|%%", t)
    args = list(a[2:]); count = total = None
    for c, unit in conv:
        if not c: continue
        if not args: raise Unmodelled("format with too few arguments")
        x = args.pop(0)
        if c[-1] in "du" and count is None: count = x
        if c[-1] in "fg" and unit.startswith("ms") and total is None: total = x
    strdom.put(E, a[0], [("opq", ("entry", count, total))])
def body_(E, f, n, a): E.follow(a[0])
MODELS = dict(strdom.MODELS)
MODELS.update({"scope_body": body_, "xo::stringf": fmt, "pthread_self": lambda E, f, n, a: 1, "xo::profiler::init_overhead_estimate": strdom.nop,
               "std::chrono::_V2::system_clock::now": clock, "std::chrono::_V2::steady_clock::now": clock, "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop})

# a program is a list of steps: ("scope", name, program, leaves by exception), "start", "stop", "report"
def nests(n):
    """forests of n scopes"""
    if n == 0: yield []; return
    for k in range(n):
        for c in nests(k):
            for r in nests(n - 1 - k): yield [c] + r
def name(f, it): return [("scope", next(it), name(c, it), False) for c in f]
def variants(prog, at=()):
    """the program with one scope left by an exception"""
    for i, s in enumerate(prog):
        if s[0] == "scope":
            yield prog[:i] + [("scope", s[1], s[2], True)] + prog[i + 1:]
            for x in variants(s[2]): yield prog[:i] + [("scope", s[1], x, s[3])] + prog[i + 1:]
def insert(prog, step):
    for i in range(len(prog) + 1): yield prog[:i] + [step] + prog[i:]
    for i, s in enumerate(prog):
        if s[0] == "scope":
            for x in insert(s[2], step): yield prog[:i] + [("scope", s[1], x, s[3])] + prog[i + 1:]
def programs():
    for n in range(0, 5):
        for f in nests(n):
            for names in itertools.product("ab", repeat=n):
                if n and names[0] == "b": continue
                p = name(f, iter(names))
                yield ["start"] + p
                if n < 4:
                    for v in variants(p): yield ["start"] + v
                if n < 4:
                    for v in insert(p, "start"): yield v
                    for v in insert(p, "stop"): yield ["start"] + v
                if n < 3:
                    for v in insert(p, "report"): yield ["start"] + v; yield v
                    for v in insert(p, "start"):
                        for w in insert(v, "stop"): yield w; yield ["start"] + w
                        for w in variants(v): yield w
def show(p): return "; ".join(s if isinstance(s, str) else "%s{ %s%s}" % (s[1], show(s[2]) + " " if s[2] else "", "throw " if s[3] else "") for s in p)

class Model:
    """what the report must say"""
    def __init__(s): s.on, s.path, s.count, s.total, s.open = False, None, {}, {}, []
    def enter(s, n, t):
        if not s.on: return None
        s.path = s.path + (n,); s.count[s.path] = s.count.get(s.path, 0) + 1; s.total.setdefault(s.path, 0); return s.path, t
    def leave(s, h, t):
        if h is None: return
        s.total[h[0]] += t - h[1]; s.path = h[0][:-1]
    def start(s, t):
        if s.on: return False
        s.on, s.path, s.count, s.total, s.t0 = True, ("TOTAL",), {("TOTAL",): 1}, {("TOTAL",): 0}, t; return True
    def stop(s, t):
        if not s.on or s.path != ("TOTAL",): return False
        s.on = False; s.total[("TOTAL",)] = t - s.t0; return True

def run():
    c = Check("L02", "The profiler's report accounts for every profiled scope exactly once, on every path and in every order of starting and stopping")
    p = ir.prog(tus=("profiler",), units=["xo/system/profiler.cpp", "xo/time/timer.cpp", "xo/container/prop_node.cpp"], helpers=True)
    def body(E, prog):
        E.now = 1; m = Model(); pr = P(E.obj("profiler")); E.call("prof_new", [pr]); steps, bad = [0], []
        text = {s: P(strdom.Text(list(s.encode()), s).buf) for s in ("a", "b", "TOTAL")}
        progs = []
        def tick(): steps[0] += 1; E.now += 1 << steps[0]
        def attempt(what, fn, want):
            try: fn(); done = True
            except Thrown: done = False
            if done != want: bad.append("%s %s" % (what, "is not an error" if done else "is an error"))
        def compare():
            r = P(E.obj("report")); tick()
            ok = not m.on or m.stop(E.now)
            try: E.call("prof_report", [r, pr])
            except Thrown:
                if ok: bad.append("the report is an error")
                return
            if not ok: bad.append("a report inside a scope is not an error"); return
            got = {}
            def walk(n, path):
                seen = []
                for i in range(E.call("node_size", [n])):
                    k = path + (bytes(x & 255 for x in strdom.items(E, E.call("node_key", [n, i]))).decode(),); ch = E.call("node_child", [n, i])
                    if k in got: bad.append("the report lists %s twice" % "/".join(k))
                    v = strdom.items(E, E.call("node_value", [ch]))
                    if len(v) != 1 or v[0][0] != "opq": raise Unmodelled("report text")
                    got[k] = v[0][1][1:]; walk(ch, k)
            walk(r, ())
            want = {k: (m.count[k], float(m.total[k])) for k in m.count}
            for k in sorted(set(want) | set(got)):
                w, g = want.get(k), got.get(k)
                if w is None: bad.append("the report has an entry %s that was not profiled" % "/".join(k))
                elif g is None: bad.append("%s is missing from the report" % "/".join(k))
                elif g[0] != w[0]: bad.append("%s is counted %s times instead of %d" % ("/".join(k), g[0], w[0]))
                elif not isinstance(g[1], (int, float)) or abs(g[1] - w[1]) > 1e-6: bad.append("%s gets a time of %s instead of %s" % ("/".join(k), g[1], w[1]))
        def execute(pg):
            for s in pg:
                tick()
                if s == "start": ok = m.start(E.now); attempt("start()", lambda: E.call("prof_start", [pr, text["TOTAL"]]), ok)
                elif s == "stop": ok = m.stop(E.now); attempt("stop()", lambda: E.call("prof_stop", [pr]), ok)
                elif s == "report": compare()
                else:
                    h = m.enter(s[1], E.now); progs.append((s, h)); 
                    try: E.call("prof_macro" if len(progs) % 2 else "prof_scope", [pr, text[s[1]], len(progs) - 1])
                    except Thrown:
                        if not s[3]: raise
                    else:
                        if s[3]: bad.append("an exception does not leave the scope")
                if (E.call("prof_enabled", [pr]) & 1) != m.on: bad.append("enabled() is wrong")
                if bad: return
        def follow(k):
            s, h = progs[k]; execute(s[2]); tick(); m.leave(h, E.now)
            if s[3]: raise Thrown("thrown inside the scope")
        E.follow = follow
        execute(prog)
        if not bad: compare()
        if not bad: E.call("prof_delete", [pr])
        return bad[0] if bad else None
    def decide(pg):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: body(E, pg), E), MODELS, engine=strdom.StrEngine, maxsteps=2000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    ps = {show(x): x for x in programs()}
    loc = next((f.loc() for f in p.funcs.values() if f.q == "xo::profiler::report"), "xo/system/profiler.cpp")
    n = 0
    for key, (bad, k) in zip(ps, par.run([(decide, (x,)) for x in ps.values()])):
        n += k
        if bad: c.bad("program: " + key, "%s: %s" % (loc, bad))
        else: c.ok("program: " + key)
    # a copied scope would be left twice
    src = '#include "xo/system/profiler.h"\n#include <type_traits>\nusing r = xo::scoped_profiler_section;\n'
    if not facts.compiles(src + "static_assert( sizeof( r ) > 0 );\n")[0]: raise AnalysisError("scoped_profiler_section does not compile")
    for what, trait in (("copied", "std::is_copy_constructible_v<r>"), ("assigned", "std::is_copy_assignable_v<r>")):
        key = "a profiled scope cannot be " + what
        if facts.compiles(src + "static_assert( !%s );\n" % trait)[0]: c.ok(key)
        else: c.bad(key, "xo/system/profiler.h: a profiled scope can be %s, so that its section is left twice" % what)
    c.cover(programs=len(ps), cases=n)
    c.floor("programs", len(ps), 500)
    c.finish()

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
