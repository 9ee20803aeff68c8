"""L08: for every history of up to five operations on a timer (pause, resume, restart, set, scoped start, left normally or by an exception) in every order, started or not: the reading is the time during which it was running since the last restart, plus what was set; pausing a paused and resuming a running timer changes nothing; a scoped start leaves a paused timer paused again and a running one running. Splits of a stopwatch accumulate over restarts. Every function of the library that changes the text precision or the search folder restores it on every exit, whichever of its calls fails."""
TECHNIQUE = "abstract interpretation of timer, stopwatch and scoped helpers over enumerated histories with a modelled clock; of every caller of a configuration setter with a failure injected at each of its calls"
NOTE = "Thread priorities are not implemented on this platform and are not part of the check."
import itertools
from sa import ir, absint, strdom, par, logsim
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.facts import AnalysisError
from sa.report import Check
START = 1000000

def clock(E, f, n, a): return E.now
def body_(E, f, n, a): E.follow(a[0])
MODELS = dict(strdom.MODELS)
MODELS.update({"scope_body": body_, "std::chrono::_V2::system_clock::now": clock, "std::chrono::_V2::steady_clock::now": clock, "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop})
OPS = ("pause", "resume", "restart", "set", "scope", "throw")
def histories():
    for s in (1, 0):
        for k in range(0, 5):
            for h in itertools.product(OPS, repeat=k): yield s, list(h)
        for h in itertools.product(("pause", "resume", "restart", "scope"), repeat=5): yield s, list(h)
def splits():
    for k in range(0, 7):
        for h in itertools.product(("split", "restart", "clear") if k < 6 else ("split", "restart"), repeat=k): yield list(h)

# functions that change the configuration on purpose
SETTERS = {"xo::set_to_str_precision": "text precision", "xo::current_find_file_path": "search folder"}

def run():
    c = Check("L08", "A timer shows exactly the time during which it was running; scoped helpers restore what they changed on every exit")
    p = ir.prog(tus=("timers",), units=["xo/time/timer.cpp", "xo/time/stopwatch.cpp", "xo/container/prop_node.cpp"], helpers=True)
    def timer(E, arg):
        start, h = arg
        E.now = START; t = P(E.obj("timer")); E.call("tim_new", [t, start])
        run, acc, since = start, 0, E.now
        k = [0]
        def tick(): E.now += 10 << k[0]; k[0] += 1
        def now(): return acc + (E.now - since if run else 0)
        def check(at):
            if E.call("tim_get", [t]) != now(): return "%s: the timer shows %s instead of %d" % (at, E.call("tim_get", [t]), now())
            if acc or run:
                if bool(E.call("tim_running", [t]) & 1) != bool(run): return "%s: is_running() is wrong" % at
                if bool(E.call("tim_paused", [t]) & 1) == bool(run): return "%s: is_paused() is wrong" % at
        for i, o in enumerate(h):
            tick(); at = "operation %d" % (i + 1)
            if o == "pause":
                v = now(); r = E.call("tim_pause", [t])
                if r != v: return "%s: pause() returns %s instead of %d" % (at, r, v)
                acc, run = v, 0
            elif o == "resume":
                E.call("tim_resume", [t])
                if not run: run, since = 1, E.now
            elif o == "restart":
                v = now(); r = E.call("tim_restart", [t])
                if r != v: return "%s: restart() returns %s instead of %d" % (at, r, v)
                acc, run, since = 0, 1, E.now
            elif o == "set": E.call("tim_set", [t, 7]); acc, since = 7, E.now
            else:
                was = run; inner = []
                def follow(_):
                    nonlocal run, since
                    if not run: run, since = 1, E.now
                    tick(); inner.append(check(at + ", inside the scope"))
                    if o == "throw": raise Thrown("thrown inside the scope")
                E.follow = follow
                try:
                    E.call("tim_scope", [t, 0])
                    if o == "throw": return "%s: the exception does not leave the scope" % at
                except Thrown:
                    if o != "throw": raise
                if inner and inner[0]: return inner[0]
                if not was: acc, run = now(), 0
            e = check(at)
            if e: return e
            tick(); e = check("after " + at)
            if e: return e
        return None
    def watch(E, h):
        E.now = START; w = P(E.obj("stopwatch")); E.call("sw_new", [w]); last = E.now; ts, cur = [], 0
        for i, o in enumerate(h):
            E.now += 10 << i
            if o == "split":
                E.call("sw_split", [w, P(strdom.Text(list(b"s%d" % cur)).buf)])
                if cur == len(ts): ts.append(0)
                ts[cur] += E.now - last; cur += 1
            elif o == "restart": E.call("sw_restart", [w]); cur = 0
            else: E.call("sw_clear", [w]); cur = 0; ts = []
            last = E.now
            if E.call("sw_size", [w]) != len(ts): return "operation %d: %s splits instead of %d" % (i + 1, E.call("sw_size", [w]), len(ts))
            for j, x in enumerate(ts):
                if E.call("sw_time", [w, j]) != x: return "operation %d: split %d has %s instead of %d" % (i + 1, j, E.call("sw_time", [w, j]), x)
                if bytes(y & 255 for y in strdom.items(E, E.call("sw_name", [w, j]))) != b"s%d" % j: return "operation %d: split %d has another name" % (i + 1, j)
        return None
    def decide(fn, arg):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: fn(E, arg), E), MODELS, engine=strdom.StrEngine, maxsteps=2000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    loc = lambda q: next((f.loc() for f in p.funcs.values() if f.q == q), "?")
    word = dict(scope="scoped start", throw="scoped start left by an exception")
    tasks = [(timer, h, "timer %s: %s" % ("running" if h[0] else "paused", ", ".join(word.get(o, o) for o in h[1])), loc("xo::timer::timer")) for h in histories()]
    tasks += [(watch, h, "stopwatch: " + ", ".join(h), loc("xo::stopwatch::get_report")) for h in splits()]
    n = 0
    for t, (bad, k) in zip(tasks, par.run([(decide, t[:2]) for t in tasks])):
        n += k
        if bad: c.bad(t[2], "%s: %s" % (t[3], bad))
        else: c.ok(t[2])
    # ---- the setter itself returns what it replaces
    ps = ir.prog(units=["xo/string/string_tools.cpp"], helpers=True)
    put, get = (next((f for f in ps.funcs.values() if f.q == q and f.blocks), None) for q in ("xo::set_to_str_precision", "xo::to_str_precision"))
    if put is None or get is None: raise AnalysisError("text precision setter not found")
    def precision(E):
        first = E.call(get.name, [])
        if E.call(put.name, [("s", "x", 0)]) != first: return "does not return the previous precision"
        if E.call(get.name, []) != ("s", "x", 0): return "does not store the precision"
        if E.call(put.name, [("s", "y", 0)]) != ("s", "x", 0): return "does not return the previous precision"
        if E.call(get.name, []) != ("s", "y", 0): return "does not store the precision"
    key = "text precision: setting returns the previous value"; bad = None
    try:
        for r, E in absint.explore(ps, lambda E: guard(precision, E), MODELS, engine=logsim.Eng): bad = bad or r
    except Unmodelled as e: bad = "not decided: %s" % e
    if bad: c.bad(key, "%s: %s" % (put.loc(), bad))
    else: c.ok(key)
    # ---- callers of configuration setters
    full = ir.prog(units=None, helpers=True)
    callers = {}
    for f in full.funcs.values():
        for i in f.insts():
            g = full.func(full.alias.get(i.f, i.f)) if i.o in ("call", "invoke") and i.f else None
            if g is not None and g.q in SETTERS and strdom.params(g.dem) and f.q not in SETTERS: callers.setdefault(f.name, set()).add(g.q)
    # the setters are called from helpers of the same function: interpret the outermost library functions
    def outer(nm, seen):
        ups = [x for x in {i.fn.name for i in full.callers().get(nm, ())} if x not in seen]
        f = full.func(nm)
        internal = f.q in ("",) or "::{lambda" in f.q or "(anonymous" in f.q or f.q.count("::") > 1 and (f.q.split("::")[-1].lstrip("~") == f.q.split("::")[-2])
        if not internal or not ups: return {nm}
        r = set()
        for u in ups: r |= outer(u, seen | {nm})
        return r
    roots = {}
    for nm, qs in callers.items():
        for r in outer(nm, {nm}): roots.setdefault(r, set()).update(qs)
    exits = 0
    for nm in sorted(roots):
        f = full.func(nm); key = "configuration after " + f.q
        d = DRIVERS.get(f.q)
        if d is None: c.bad(key, "%s: not decided: changes the %s; the analysis has no driver for it" % (f.loc(), ", ".join(SETTERS[q] for q in sorted(roots[nm])))); continue
        k, bad = 0, None
        while not bad:
            try: r = [x for x, E in absint.explore(p, lambda E: injected(lambda E: d(E, p), E, k), IM, engine=Inject, maxsteps=2000000)]
            except Unmodelled as e: bad = "not decided: %s" % e; break
            bad = next((x for x, _ in r if x), None); k += 1
            if not any(y for _, y in r): break
        exits += k
        if bad: c.bad(key, "%s: %s" % (f.loc(), bad))
        else: c.ok(key, "%d exits" % k)
    if "xo::stopwatch::get_report" in {full.func(r).q for r in roots}: c.floor("exits of get_report", exits, 4)
    c.cover(histories=len(tasks), cases=n, functions_changing_configuration=len(roots), exits=exits)
    c.floor("histories", len(tasks), 3000)
    c.finish()

def report(E, p):
    w = P(E.obj("stopwatch")); E.call("sw_new", [w])
    for x in "ab": E.now += 1; E.call("sw_split", [w, P(strdom.Text(list(x.encode())).buf)])
    r = P(E.obj("report")); E.armed = next(f.loc().rsplit(":", 1)[0] for f in p.funcs.values() if f.q == "xo::stopwatch::get_report"); E.cfg = ("initial",)
    E.call("sw_report", [r, w, 3])
DRIVERS = {"xo::stopwatch::get_report": report}
def setter(E, f, n, a): old = E.cfg; E.cfg = a[0]; return old
IM = dict(MODELS); IM.update({"xo::set_to_str_precision": setter, "xo::to_str_precision": lambda E, f, n, a: E.cfg, "xo::to_str": lambda E, f, n, a: strdom.put(E, a[0], [("opq", "text")]) and None})
class Inject(strdom.StrEngine):
    """lets one of the calls that may fail in the analysed file fail"""
    armed = None
    def docall(s, fn, n, env):
        if s.armed and not n.g("nt") and fn.loc().rsplit(":", 1)[0] == s.armed and n.f and not n.f.startswith(("llvm.", "__c")):
            g = s.p.func(s.p.alias.get(n.f, n.f)); q = g.q if g is not None else s.p.q(n.f) if n.f.startswith("_Z") else n.f
            if q not in IM or q == "xo::to_str":
                s.seen += 1
                if s.seen - 1 == s.fail: s.failed = True; raise Thrown("failure of the call of " + q)
        return super().docall(fn, n, env)
def injected(body, E, k):
    E.seen, E.fail, E.failed, E.now = 0, k, False, START
    try: body(E); how = "a normal exit"
    except Thrown as e:
        how = "an exit by an exception (%s)" % e.ty
        if not E.failed: return "ends in an exception (%s)" % e.ty, False
    except Diverges as e: return "does not end (%s)" % e, E.failed
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e), E.failed
    return (None if E.cfg == ("initial",) else "the changed configuration is kept after " + how), E.failed

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
