"""L05: for every logging operation that delivers a message at error or critical level, whatever outputs exist and whatever their thresholds: every output that received the message is flushed after the delivery and before the operation returns; and the flush of every output class of the library passes on to its stream on every path."""
TECHNIQUE = "abstract interpretation of every way to log with symbolic levels, recording the order of deliveries and flushes; the flush of each output class is found through its virtual table and interpreted"
NOTE = "That std::ostream::flush makes the characters survive a crash is the C++ library's and the operating system's part."
import re
from sa import logsim, absint, strdom, par
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.facts import AnalysisError
from sa.report import Check
LEVELS = dict(trace=1, debug=2, info=3, warning=4, error=5, critical=6)

def entries(p):
    out = []
    for f in sorted(p.funcs):
        m = re.match(r"send_([a-z]+?)(2|f)?_([a-z]+)$", f)
        if m: out.append((f, "log::" + m[1].replace("string", "log_string") + ("f" if m[2] == "f" else "") + ("( several values )" if m[2] == "2" else ""), m[3]))
    return out

def run():
    c = Check("L05", "Every way of logging at error or critical level flushes the outputs that received the message before it returns")
    p = logsim.prog()
    worlds = [("one output", [0]), ("one output of one thread", [1]), ("two outputs", [0, 0]), ("two outputs, one of one thread", [0, 1]), ("two outputs, the second of them destroyed", [0, 0, -1])]
    todo = []
    def body(E, entry, lv, ws):
        W = logsim.World(E)
        for m in ws:
            if m < 0: W.delete(1)
            else: W.new(m)
        if any(x["mode"] for x in W.live): E.thread = E.pick([1, 2])
        if lv == "given":
            l = ("s", "message level", 0)
            if not E.le(5, l, "s"): return None
        else: l = LEVELS[lv]
        ev, err = W.send(entry, l, lv == "given")
        if err: return err
        for x in W.live:
            k = [i for i, e in enumerate(ev) if e[0] == "message" and e[1] == x["name"]]
            if k and not any(e[0] == "flush" and e[1] == x["name"] for e in ev[k[-1]:]): return "a message at error level or above reaches an output that is not flushed before the call returns"
            E.got = getattr(E, "got", 0) + len(k)
    def decide(entry, lv, ws):
        bad, n, got = None, 0, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: body(E, entry, lv, ws), E), logsim.MODELS, engine=logsim.Eng, maxsteps=200000):
                n += 1; got += getattr(E, "got", 0)
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n, got
    es = [e for e in entries(p) if e[2] in ("error", "critical", "given")]
    jobs = [(e, w) for e in es for w in worlds]
    n = got = 0
    for ((entry, name, lv), (wn, ws)), (bad, k, g) in zip(jobs, par.run([(decide, (e[0], e[2], w[1])) for e, w in jobs])):
        n += k; got += g
        key = "%s with %s" % (name, wn)
        f = [f for f in p.funcs.values() if f.q == "xo::" + name.split("(")[0] and f.blocks]
        where = f[0].loc() if f else "xo/system/log.h"
        if bad: c.bad(key, "%s: %s" % (where, bad))
        elif not g: c.bad(key, "%s: no message at error level reaches an output" % where)
        else: c.ok(key, "%d cases" % k)
    # ---- the outputs of the library
    nf = 0
    for v, g in sorted(p.globals.items()):
        if not v.startswith("_ZTVN2xo3log") or "init" not in g: continue
        cls = g["dem"].split("vtable for ")[1]
        fl = [x for x in refs(g["init"]) if p.q(x).split("::")[-1] == "flush"]
        if cls == "xo::log::sink": continue        # has no stream
        if len(fl) != 1: raise AnalysisError("no flush in the virtual table of " + cls)
        f = p.func(fl[0]); key = "flush of " + cls; nf += 1
        if f is None or not f.blocks: raise AnalysisError("no body for " + fl[0])
        if f.q == "xo::log::sink::flush": c.bad(key, "%s: the class does not flush its stream" % f.loc()); continue
        bad = None
        def sflush(E, f, n, a): E.flushed.append(a[0]); return a[0]
        M = dict(logsim.MODELS); M.update({"std::ostream::flush": sflush, "std::basic_ostream::flush": sflush})
        off = p.member_at
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: call(E, fl[0]), E), M, engine=logsim.Eng):
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        if bad: c.bad(key, "%s: %s" % (f.loc(), bad))
        else: c.ok(key, f.loc())
    c.cover(ways_to_log=len(es), cases=n, deliveries=got, output_classes=nf)
    c.floor("ways to log at error level", len(es), 9); c.floor("deliveries", got, 50); c.floor("output classes", nf, 3)
    c.finish()

def refs(i):
    if isinstance(i, list):
        if i and i[0] == "g": yield i[1]
        else:
            for x in i: yield from refs(x)
def call(E, name):
    E.flushed, E.thread, E.events = [], 1, []
    this = E.sym("output"); E.call(name, [this])
    if not E.flushed: return "returns on some path without flushing its stream"
    for s in E.flushed:
        if isinstance(s, P) and s.o.name.startswith("*output."): return None
    return "flushes something else than its stream"
def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
