"""L06: for every history of up to three operations on up to three outputs (create, destroy, change level, change thread mode) with all orders of levels, and every logging operation with every level: the message is handed, once and with its level, to exactly the live outputs whose threshold it reaches (and whose thread restriction it meets); test_log_level says whether there is one."""
TECHNIQUE = "abstract interpretation of the logging code over histories with symbolic levels; the case distinctions cover every order of message level, thresholds and the global threshold"
NOTE = "Outputs are objects of a class derived from sink whose handlers record the call; levels below the static level (XO_STATIC_LOG_LEVEL) of the analysed configuration (trace) do not exist. Concurrency of these operations is the subject of T rules."
import itertools, re
from sa import logsim, absint, strdom, par
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.report import Check
LEVELS = dict(trace=1, debug=2, info=3, warning=4, error=5, critical=6)

def entries(p):
    out = []
    for f in sorted(p.funcs):
        m = re.match(r"send_([a-z]+?)(2|f)?_([a-z]+)$", f)
        if m: out.append((f, "log::" + m[1] + ("f" if m[2] == "f" else "") + ("( several values )" if m[2] == "2" else ""), m[3]))
    return out
def histories():
    """sequences of operations; every prefix matters, so all of the longest length and those that end early by construction"""
    def ops(n):
        yield ("new", 0); yield ("new", 1)
        for k in range(n): yield ("del", k); yield ("level", k); yield ("mode", k)
    def rec(h, n, d):
        yield h
        if d == 0: return
        for o in ops(n):
            m = n + 1 if o[0] == "new" else n - 1 if o[0] == "del" else n
            if m <= 2: yield from rec(h + [o], m, d - 1)
    yield from rec([], 0, 3)
    for a in itertools.product((0, 1), repeat=3): yield [("new", m) for m in a]
    yield [("new", 0), ("new", 0), ("new", 0), ("del", 1)]
    yield [("new", 0), ("new", 0), ("level", 0), ("del", 1)]
    yield [("new", 0), ("new", 0), ("del", 0), ("new", 0)]

def play(W, h):
    for o, k in h:
        if o == "new": W.new(k)
        elif o == "del": W.delete(k)
        elif o == "level": W.level(k)
        else: W.mode(k, 1 - W.live[k]["mode"])

def run():
    c = Check("L06", "Every message reaches exactly the live outputs that admit its level, whatever happened to the outputs before")
    p = logsim.prog()
    npaths = [0]
    todo = []
    def go(key, where, body): todo.append((key, where, body))
    def decide(body):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(body, E), logsim.MODELS, engine=logsim.Eng, maxsteps=200000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    def loc(q):
        l = [f for f in p.funcs.values() if f.q == q and f.blocks]
        return l[0].loc() if l else "xo/system/log.h"
    def judge(W, entry, lev, fixed):
        ev, err = W.send(entry, lev, not fixed)
        if err: return err
        got = [e for e in ev if e[0] == "message"]
        for x in W.live:
            k = [e for e in got if e[1] == x["name"]]
            want = W.accepts(x, lev)
            if want and not k: return "a message at or above the threshold of an output does not reach it"
            if not want and k: return "a message reaches an output that does not admit it"
            if len(k) > 1: return "a message reaches an output %d times" % len(k)
            if k and W.E.rel(k[0][2], lev, "s") != "=": return "the message arrives with another level (%s)" % (k[0][2],)
        if any(e[1] not in [x["name"] for x in W.live] for e in ev): return "an output that no longer exists is called"
        return None
    def text(h): return ", ".join("%s %s" % ({"new": "create", "del": "destroy", "level": "change level of", "mode": "change thread mode of"}[o], ("output" if k == 0 else "output of one thread") if o == "new" else k) for o, k in h) or "no output"
    hs = [list(x) for x in dict.fromkeys(tuple(h) for h in histories())]
    for h in hs:
        def body(E, h=h):
            W = logsim.World(E); play(W, h)
            if any(x["mode"] for x in W.live): E.thread = E.pick([1, 2])
            return judge(W, "send_string_given", ("s", "message level", 0), False)
        go("log_string after: " + text(h), loc("xo::log::log_string"), body)
    short = [[], [("new", 0)], [("new", 1)], [("new", 0), ("new", 0)], [("new", 0), ("level", 0)], [("new", 0), ("new", 0), ("level", 0)], [("new", 0), ("new", 0), ("del", 0)], [("new", 0), ("del", 0)]]
    for entry, name, lv in entries(p):
        for h in short if entry != "send_string_given" else []:
            def body(E, h=h, entry=entry, lv=lv):
                W = logsim.World(E); play(W, h)
                if any(x["mode"] for x in W.live): E.thread = E.pick([1, 2])
                return judge(W, entry, ("s", "message level", 0) if lv == "given" else LEVELS[lv], lv != "given")
            go("%s after: %s" % (name, text(h)), loc("xo::log::" + name.split("::")[1].split("(")[0]), body)
    for h in [x for x in hs if len(x) <= 2] + short:
        def body(E, h=h):
            W = logsim.World(E); play(W, h)
            if any(x["mode"] for x in W.live): E.thread = E.pick([1, 2])
            l = ("s", "message level", 0)
            r = E.call("log_test", [l]); r = E.truth(r) if not isinstance(r, int) else r
            want = any(W.accepts(x, l) for x in W.live)
            if bool(r & 1) != want: return "says %s although %s" % (("that some output accepts a level", "none does") if r & 1 else ("that no output accepts a level", "one does"))
        go("test_log_level after: " + text(h), loc("xo::log::test_log_level"), body)
    for (key, where, _), (bad, n) in zip(todo, par.run([(decide, (b,)) for _, _, b in todo])):
        npaths[0] += n
        if bad: c.bad(key, "%s: %s" % (where, bad))
        else: c.ok(key)
    c.cover(histories=len(hs), cases=npaths[0], ways_to_log=len(entries(p)))
    c.floor("histories", len(hs), 60); c.floor("ways to log", len(entries(p)), 15); c.floor("cases", npaths[0], 500)
    c.finish()

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
