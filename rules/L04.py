"""L04: for every history of up to four requests to the resource cache (per request: too early to look at the file again or not, file changed or not, file changed again while it is read; the creation succeeds, yields nothing, or throws; two files) and of up to five calls of a memoized function: a request whose creation fails is an error and the next request tries again; a request never yields anything but the latest resource that was created, and yields one made after the last change of the file once it looks at the file; a memoized value is computed once per argument list and is the value of that argument list."""
TECHNIQUE = "abstract interpretation of cache, std::map and std::function over enumerated histories with a modelled clock and file, compared with a table of files"
NOTE = "The clock and the modification time of the files are modelled. Requests do not overlap in time; K-type properties cover the locks."
import itertools
from sa import ir, absint, strdom, par, stdmap, logsim
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.report import Check

def make(E, f, n, a): return E.make(a[0])
def make2(E, f, n, a): return E.make2(a[0], a[1])
def name(E, a): return bytes(x & 255 for x in strdom.items(E, a)).decode()
def ftime(E, f, n, a):
    k = len(name(E, a[0]))
    if E.files[k] is None: raise Thrown("no such file")
    return E.files[k]
def exists(E, f, n, a): return int(E.files[len(name(E, a[0]))] is not None)
def diff(E, f, n, a): return float(a[0] - a[1])
MODELS = dict(strdom.MODELS)
MODELS.update({k: v for k, v in logsim.MODELS.items() if k.startswith("pthread")})
MODELS.update(stdmap.MODELS)
MODELS.update({"make": make, "make2": make2, "xo::last_write_time": ftime, "xo::file_exists": exists, "time": lambda E, f, n, a: E.now, "difftime": diff, "xo::to_str": logsim.txt,
               "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop})
def what(E, f, n, a): return P(strdom.Text(list(b"why")).buf)
MODELS["std::exception::what"] = what; MODELS["std::runtime_error::what"] = what
def virtual(E, f, n, a): return P(strdom.Text(list(b"why")).buf)
MODELS["*"] = virtual

FAIL = ("null", "throw")
def histories():
    """steps: (file, time passes, file changes before, how the creation ends)"""
    ways = ("ok", "null", "throw", "touch")
    def steps(files):
        for f in files:
            for late in (0, 1):
                for ch in (0, 1):
                    for w in ways: yield (f, late, ch, w)
    for a in steps((1,)):
        yield [a]
        for b in steps((1,)):
            yield [a, b]
            if not (a[1] or a[2]):
                for c in steps((1,)): yield [a, b, c]
    for h in itertools.product([(f, 1, ch, w) for f in (1, 2) for ch in (0, 1) for w in ("ok", "throw")], repeat=3): yield list(h)
    for h in itertools.product([(1, late, 1, w) for late in (0, 1) for w in ways], repeat=4): yield list(h)
    # the file is replaced by an older one
    for h in itertools.product([(1, late, ch, w) for late in (0, 1) for ch in (0, 2) for w in ("ok", "throw")], repeat=2): yield [(1, 0, 0, "ok")] + list(h)
    for f in ("gone", "lost"):
        yield [(f, 0, 0, "ok")]
    for w in ways: yield [(1, 0, 0, "ok"), ("lost", 1, 0, w), (1, 1, 1, "ok")]
def memos():
    for h in itertools.product([(a, b, w) for a, b in ((1, 2), (2, 1), (1, 1)) for w in ("ok", "throw")], repeat=3): yield list(h)
    for h in itertools.product([(a, b, "ok") for a, b in ((1, 2), (2, 1), (0, 5))], repeat=5): yield list(h)

def show(h): return "; ".join("%s%s%s: %s" % ("file %s" % f, " later" if l else "", ("", " changed", " replaced by an older one")[ch], {"ok": "is read", "null": "yields nothing", "throw": "throws", "touch": "is read while it changes"}[w]) for f, l, ch, w in h)

def run():
    c = Check("L04", "After a failed creation the next request tries again; a request never yields a resource older than the file it looked at")
    p = ir.prog(tus=("cache",), units=["xo/filesystem/path.cpp"], helpers=True)
    def cached(E, new, h):
        E.now, E.files = 1000, {1: 10, 2: 20}; bad = []
        cc = P(E.obj("cache")); E.call(new, [cc]); st = {1: None, 2: None}; clock, ver = [100], [0]
        def touch(k): clock[0] += 1; E.files[k] = clock[0]
        def make(k):
            E.made.append(k); w = E.way
            at = E.files[k]
            if w == "touch": touch(k)
            if w == "throw" or w == "null" and new == "cache_default": raise Thrown("std::runtime_error")
            if w == "null": return 0
            ver[0] += 1; E.done = (ver[0], at); return ver[0]
        E.make = make
        for k, (f, late, ch, w) in enumerate(h):
            E.now += 100 if late else 0
            if f == "gone": key, E.files[1] = 1, None
            elif f == "lost": key, E.files[1] = 1, None
            else: key = f
            if E.files[key] is None and f == 1: touch(1)
            if ch and E.files[key] is not None: touch(key)
            if ch == 2: E.files[key] = 5000 - clock[0]; E.files[key] -= 4990
            E.made, E.way, E.done = [], w, None
            path = E.sym("path"); E.call("make_path", [path, strdom.put(E, E.sym("name"), list(b"x" * key))])
            before = st[key]
            try: r = E.call("cache_get", [cc, path]); err = False
            except Thrown: r, err = None, True
            at = "request %d" % (k + 1)
            failed = bool(E.made) and E.done is None
            if E.files[key] is None and (before is None or late):
                if not err and not (before and r == before[0]): return "%s: the file is gone but the request succeeds" % at
                if not err and before is None: return "%s: a missing file is not an error" % at
                continue
            if failed and not err: return "%s: the creation fails but the request succeeds" % at
            if not failed and err: return "%s: ends in an error although nothing failed" % at
            if len(E.made) > 1: return "%s: the resource is created %d times" % (at, len(E.made))
            if E.done: st[key] = dict(version=E.done[0], time=E.done[1])
            if before is None and not E.made: return "%s: yields a resource that was never created" % at
            if failed and before: before["again"] = True
            if before and before.get("again") and not E.made and w in ("ok", "touch"): return "%s: the attempt before failed, but it is not tried again" % at
            if before and late and E.files_at(key) != before["time"] and not E.made: return "%s: the file changed but it is not read again" % at
            if not err and r != st[key]["version"]: return "%s: yields version %s of the resource instead of %s" % (at, r, st[key]["version"])
        return None
    def memo(E, kind, h):
        m = P(E.obj("memo")); E.call(kind + "_new", [m]); known = {}; E.cnt = 0
        def make2(a, b):
            E.made.append((a, b))
            if E.way == "throw": raise Thrown("std::runtime_error")
            E.cnt += 1; return 100 * a + b + 1000 * E.cnt
        E.make2 = make2
        for k, (a, b, w) in enumerate(h):
            E.made, E.way = [], w; at = "call %d" % (k + 1)
            try: r = E.call(kind + "_get", [m, a, b]); err = False
            except Thrown: r, err = None, True
            if (a, b) in known:
                if E.made: return "%s: the value is computed again" % at
                if err: return "%s: a known value is an error" % at
            else:
                if E.made != [(a, b)]: return "%s: %s" % (at, "the function is not called" if not E.made else "the function is called with other arguments or more than once")
                if err != (w == "throw"): return "%s: %s" % (at, "the function fails but the call succeeds" if not err else "ends in an error although nothing failed")
                if not err: known[(a, b)] = 100 * a + b + 1000 * E.cnt
            if not err and r != known[(a, b)]: return "%s: yields another value" % at
            if E.call(kind + "_size", [m]) != len(known): return "%s: stores %s values instead of %d" % (at, E.call(kind + "_size", [m]), len(known))
        return None
    def decide(fn, kind, h):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: fn(E, kind, h), E), MODELS, engine=Eng, maxsteps=2000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    loc = lambda q: next((f.loc() for f in p.funcs.values() if f.q == q), "?")
    tasks = [(cached, "cache_new", h, "cache: " + show(h), loc("xo::file_resource_cache::operator()")) for h in histories()]
    tasks += [(cached, "cache_default", h, "cache with default functions: " + show(h), loc("xo::file_resource_cache::operator()")) for h in histories() if len(h) < 3]
    for kind, q in (("memo", "xo::memoize"), ("safe", "xo::memoize_thread_safe")):
        tasks += [(memo, kind, h, q[4:] + ": " + "; ".join("f( %d, %d )%s" % (a, b, " throws" if w == "throw" else "") for a, b, w in h), loc(q + "::operator()")) for h in memos()]
    n = 0
    for t, (bad, k) in zip(tasks, par.run([(decide, t[:3]) for t in tasks])):
        n += k
        if bad: c.bad(t[3], "%s: %s" % (t[4], bad))
        else: c.ok(t[3])
    c.cover(histories=len(tasks), cases=n)
    c.floor("histories", len(tasks), 1000)
    c.finish()

class Eng(strdom.StrEngine):
    def files_at(s, k): return s.files[k]
    def rel(s, x, y, cls="f"):
        # a standard error is caught by handlers for std::exception
        for a, b in ((x, y), (y, x)):
            if isinstance(a, tuple) and a[:1] == ("sel",) and "runtime_error" in a[1] and isinstance(b, tuple) and b[:1] == ("tid",): return "=" if "_ZTISt9exception" in b[1] or "_ZTISt13runtime_error" in b[1] else "<"
        return super().rel(x, y, cls)

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
