"""E05: for every test function of up to three steps (passing and failing checks in every form, checks that throw, exceptions that leave the test), every suite of up to three such tests, and both runners (the parallel one with tests that run at once, late, or in reverse), also when run repeatedly: each result counts exactly the checks made, a test with a failed check or an escaping exception is not successful, and the runner returns the number of tests that are not successful."""
TECHNIQUE = "abstract interpretation of the test runner and the check macros over enumerated test functions, suites and schedules, with exceptions matched to handlers by type, compared with a count"
NOTE = "Tests of the parallel runner are interleaved as wholes: each has a result of its own, and what they share is the log. The start of a thread is modelled; it is assumed to succeed."
import itertools
from sa import ir, absint, strdom, par, exc, logsim
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.report import Check

STEPS = {1: "check passes", 2: "check fails", 3: "XO_CHECK passes", 4: "XO_CHECK fails", 5: "XO_CHECK throws", 6: "XO_CHECK_MESSAGE passes", 7: "XO_CHECK_MESSAGE fails", 8: "XO_CHECK_MESSAGE throws", 9: "throws", 10: "throws a derived exception",
         11: "throws an exception with an empty text", 12: "throws an exception that is not a std::exception"}
FAIL, ENDS = {2, 4, 5, 7, 8}, {9, 10, 11, 12}
SUITE = [(1,), (2,), (9,), (1, 9), (4, 3), ()]
def nop(E, f, n, a): return None
def zero(E, f, n, a): return 0
def text(E, f, n, a): strdom.put(E, a[0], [("opq", "text")])
def step(E, f, n, a): return E.step(a[0])
def async_(E, f, n, a):
    """starts a task: its test, and its result when it has run"""
    if isinstance(a[1], int): a = [a[0]] + a[2:]  # launch policy
    E.tasks.append([E.load(a[2], "ptr"), None])
    E.store(a[0], P(E.obj("task %d" % (len(E.tasks) - 1)), len(E.tasks) - 1), "ptr"); E.store(P(a[0].o, a[0].off + 8), 0, "ptr")
    if E.schedule == "at once": E.finish(len(E.tasks) - 1)
def get(E, f, n, a):
    t = E.load(a[0], "ptr")
    if not isinstance(t, P) or not t.o.name.startswith("task"): raise Unmodelled("future without a task")
    todo = [t.off] if E.schedule != "reverse" else [i for i in reversed(range(len(E.tasks)))]
    for i in todo: E.finish(i)
    r = E.tasks[t.off][1]
    if isinstance(r, Thrown): raise r
    E.store(a[0], 0, "ptr")
    return r
MODELS = dict(strdom.MODELS)
MODELS.update({"next_step": step, "std::async": async_, "std::future::get": get, "xo::stringf": text, "xo::to_str": text, "strlen": strdom.strlen, "std::chrono::_V2::system_clock::now": zero, "std::chrono::_V2::steady_clock::now": zero,
               **{"xo::log::" + x: nop for x in ("trace", "debug", "info", "warning", "error", "critical", "message")}, **{"pthread_mutex_" + x: zero for x in ("lock", "unlock")},
               "std::exception::~exception": strdom.nop, "std::exception::exception": strdom.nop})

class Eng(exc.ExcEngine, logsim.Eng): pass

def count(steps):
    """(checks, failed, whether it succeeds)"""
    n = b = 0
    for s in steps:
        if s in ENDS: return n, b, False
        n += 1; b += s in FAIL
    return n, b, not b

def run():
    c = Check("E05", "The test runner counts every failed check and every exception as a failure")
    p = ir.prog(tus=("testing",), units=["xo/system/test_case.cpp", "xo/time/timer.cpp"], helpers=True)
    def body(E, runs, runner, schedule):
        E.tasks, E.schedule, E.pos = [], schedule, {}
        def name(s): return strdom.put(E, P(E.obj("name")), list(s.encode()))
        for i in range(len(runs[0])): E.call("test_add", [name("test%d" % i)])
        if E.call("test_count", []) != len(runs[0]): return "not every test is registered"
        ids = {}
        for i in range(len(runs[0])): ids[E.call("test_get", [i])] = i
        def step(tc):
            k = E.pos[ids[tc]]; E.pos[ids[tc]] = k + 1; s = E.suite[ids[tc]]
            return s[k] if k < len(s) else 0
        E.step = step
        def finish(i):
            t = E.tasks[i]
            if t[1] is None:
                try: t[1] = E.call("test_single", [ids[t[0]]])
                except Thrown as e: t[1] = e
        E.finish = finish
        had = [[0, 0, False] for _ in runs[0]]
        for suite in runs:
            E.suite, E.pos, E.tasks = suite, {i: 0 for i in range(len(suite))}, []
            want = 0
            for i, s in enumerate(suite):
                n, b, ok = count(s); had[i][0] += n; had[i][1] += b; had[i][2] |= not ok; want += had[i][2]
            if runner == "run": 
                r = 0
                for i in range(len(suite)): r += 1 - (E.call("res_success", [E.call("test_single", [i])]) & 1)
            else: r = E.call(runner, [])
            if not isinstance(r, int): return "the number of failed tests depends on something else (%s)" % (r,)
            if r != want: return "%d of %d tests fail, but the runner reports %d" % (want, len(suite), r)
            for i in range(len(suite)):
                if E.pos[i] < min(len(suite[i]), next((k + 1 for k, x in enumerate(suite[i]) if x in ENDS), 99)): return "test %d does not run to its end" % (i + 1)
                E.suite = [()] * len(suite)
        E.suite = [()] * len(suite)
        for i in range(len(suite)):
            res = E.call("test_single", [i])
            got = [E.call("res_" + k, [res]) for k in ("checks", "failed", "passed")]
            if got != [had[i][0], had[i][1], had[i][0] - had[i][1]]: return "the result of test %d counts %s checks, %s failed, %s passed, but %d were made, %d of which failed" % (i + 1, got[0], got[1], got[2], had[i][0], had[i][1])
            if (E.call("res_success", [res]) & 1) == had[i][2]: return "the result of test %d is %s" % (i + 1, "successful although it failed" if had[i][2] else "not successful although it passed")
    def decide(*a):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: body(E, *a), E), MODELS, engine=Eng, maxsteps=2000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    def total(a, b):
        def f(E):
            def new(x):
                r = P(E.obj("result")); E.call("res_new", [r])
                if x: E.call("res_set", [r, *x[:3], strdom.put(E, P(E.obj("error")), list(x[3].encode()))])
                return r
            x, y = new(a), new(b); E.call("res_add", [x, y]); a_ = a or (0, 0, 0, ""); b_ = b or (0, 0, 0, "")
            got = tuple(E.call("res_" + k, [x]) for k in ("checks", "passed", "failed"))
            if got != tuple(i + j for i, j in zip(a_[:3], b_[:3])): return "the sum has %s checks, %s passed, %s failed" % got
            if (E.call("res_success", [x]) & 1) and (a_[2] or b_[2] or a_[3] or b_[3]): return "the sum of results that are not both successful is successful"
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(f, E), MODELS, engine=Eng): bad = bad or r; n += 1
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    jobs = []
    def show(suite): return " | ".join(", ".join(STEPS[x] for x in s) or "no checks" for s in suite)
    RUN = [("run", "at once", "test_case::run"), ("test_run", "at once", "run_tests"), ("test_run_async", "at once", "run_tests_async"), ("test_run_async", "late", "run_tests_async, tests run when they are waited for"), ("test_run_async", "reverse", "run_tests_async, tests run in reverse")]
    for k in range(4):
        for s in itertools.product([x for x in STEPS if x <= 10], repeat=k):
            if any(x in ENDS for x in s[:-1]): continue
            if k == 3 and (s[0] not in (1, 2, 5) or s[1] not in (3, 4, 8)): continue
            for r in RUN[:3]: jobs.append(("%s: %s" % (r[2], show([s])), (decide, ([[s]], r[0], r[1]))))
    for k in (0, 2, 3):
        for s in itertools.product(SUITE, repeat=k):
            for r in RUN: jobs.append(("%s: %s" % (r[2], show(s)), (decide, ([list(s)], r[0], r[1]))))
    for s in itertools.product(SUITE, repeat=2):
        for t in itertools.product(SUITE[:3], repeat=2):
            for r in RUN[:3]: jobs.append(("%s twice: %s, then %s" % (r[2], show(s), show(t)), (decide, ([list(s), list(t)], r[0], r[1]))))
    for a, b in itertools.product((None, (3, 2, 1, ""), (2, 2, 0, ""), (1, 1, 0, "error")), repeat=2): jobs.append(("sum of results %s and %s" % (a, b), (total, (a, b))))
    loc = next((f.loc() for f in p.funcs.values() if f.q == "xo::test::run_tests"), "xo/system/test_case.cpp")
    n = 0
    for (k, _), (bad, m) in zip(jobs, par.run([j for _, j in jobs])):
        n += m
        if bad: c.bad(k, "%s: %s" % (loc, bad))
        else: c.ok(k)
    # exceptions that carry no text and exceptions of other types: one obligation each
    for s in (11, 12):
        js = [(decide, ([suite], r[0], r[1])) for r in RUN for suite in ([(s,)], [(1, s)], [(1,), (1, s)], [(s,), (1,)])]
        res = par.run(js); n += sum(m for _, m in res)
        bad = [b for b, _ in res if b]
        if bad: c.bad("a test that " + STEPS[s], "%s: %s" % (loc, bad[0]))
        else: c.ok("a test that " + STEPS[s])
    c.cover(suites=len(jobs), cases=n)
    c.floor("suites", len(jobs), 1000)
    c.finish()

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
