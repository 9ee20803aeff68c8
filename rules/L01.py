"""L01: for every history of up to three operations on outputs (create, destroy, change level or thread mode, register or unregister by hand): the outputs the logging system calls are exactly the registered live ones, each once, in every logging operation and in flush. Outputs are unregistered only by destructors and by hand, never while their level changes; every output class of the library unregisters itself before any of its own parts is destroyed, and registers itself only after all its parts exist."""
TECHNIQUE = "abstract interpretation of histories on the real registration code; typestate rule over the constructors and destructors of every class derived from the output base class; caller analysis for registration and unregistration"
NOTE = "The order of destruction is checked for the classes of the library; a class derived by a user must unregister in its own destructor."
import itertools
from sa import logsim, absint, strdom, par, flow
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.facts import AnalysisError
from sa.report import Check

def run():
    c = Check("L01", "The logging system calls exactly the registered live outputs; outputs unregister before and register after their parts exist")
    p = logsim.prog()
    # ---- histories
    def ops(live, by):
        yield "new"
        for k in live: yield "del", k; yield "level", k; yield "mode", k; yield "add", k; yield "remove", k
    def hist(h, live, d):
        yield h
        if d == 0: return
        n = sum(1 for o in h if o == "new")
        for o in ops(live, None):
            if o == "new":
                if n < 2: yield from hist(h + [o], live + [n], d - 1)
            else: yield from hist(h + [o], [x for x in live if o[0] != "del" or x != o[1]], d - 1)
    hs = [h for h in hist([], [], 4) if h and h[0] == "new"]
    hs = [h for h in hs if len(h) <= 3 or h[:2] == ["new", "new"]]
    def body(E, h):
        W = logsim.World(E); W.E.events = []; live, reg = {}, []
        for o in h:
            if o == "new": x = W.new(0); live[len(W.all) - 1] = x; reg.append(x["name"])
            else:
                k, x = o[1], live[o[1]]
                if o[0] == "del": W.delete(W.live.index(x)); live.pop(k); reg = [r for r in reg if r != x["name"]]
                elif o[0] == "level": W.level(W.live.index(x))
                elif o[0] == "mode": W.mode(W.live.index(x), 0)
                elif o[0] == "add":
                    E.call("log_add", [x["o"]])
                    if x["name"] not in reg: reg.append(x["name"])
                else: E.call("log_remove", [x["o"]]); reg = [r for r in reg if r != x["name"]]
        E.events = []
        E.call("_ZN2xo3log5flushEv", [])
        got = [e[1] for e in E.events if e[0] == "flush"]
        for g in got:
            if g not in reg: return "an output that is %s is still called" % ("unregistered" if g in [x["name"] for x in W.live] else "destroyed")
            if got.count(g) > 1: return "an output is registered %d times" % got.count(g)
        for r in reg:
            if r not in got: return "a live registered output is not called any more"
    def decide(h):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: body(E, h), E), logsim.MODELS, engine=logsim.Eng, maxsteps=200000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    def text(h): return ", ".join("create" if o == "new" else "%s %d" % ({"del": "destroy", "level": "change level of", "mode": "change thread mode of", "add": "register", "remove": "unregister"}[o[0]], o[1]) for o in h)
    loc = next(f.loc() for f in p.funcs.values() if f.q == "xo::log::add_sink")
    cases = 0
    for h, (bad, n) in zip(hs, par.run([(decide, (h,)) for h in hs])):
        cases += n
        if bad: c.bad("outputs called after: " + text(h), "%s: %s" % (loc, bad))
        else: c.ok("outputs called after: " + text(h))
    # ---- who registers and unregisters
    def fn(q):
        l = [f for f in p.funcs.values() if f.q == q and f.blocks]
        if not l: raise AnalysisError("no body for " + q)
        return l[0]
    add, rem = fn("xo::log::add_sink"), fn("xo::log::remove_sink")
    classes = [g["dem"].split("vtable for ")[1] for v, g in sorted(p.globals.items()) if v.startswith("_ZTVN2xo3log") and "init" in g]
    own = lambda q: q.startswith("xo::")
    kind = lambda f: "other" if "::" not in f.q else "ctor" if f.q.split("::")[-1] == f.q.split("::")[-2].split("<")[0] else "dtor" if f.q.split("::")[-1].startswith("~") else "other"
    def only(f, allowed, seen=()):
        if kind(f) == allowed: return True
        cs = [x.fn for x in p.callers().get(f.name, [])] if f.name not in seen else []
        return bool(cs) and all(g is not None and only(g, allowed, seen + (f.name,)) for g in cs)
    for what, g, allowed in (("registered", add, "ctor"), ("unregistered", rem, "dtor")):
        for f in sorted(p.funcs.values(), key=lambda f: f.name):
            if not own(f.q): continue
            for n in f.calls():
                if n.f != g.name: continue
                key = "outputs are %s by %s" % (what, f.q)
                if only(f, allowed): c.ok(key)
                else: c.bad(key, "%s: an output is %s outside of a %s" % (n.where(), what, {"ctor": "constructor", "dtor": "destructor"}[allowed]))
    # ---- order in destructors and constructors
    nd = nc = 0
    for cls in classes:
        base = cls.split("::")[-1]
        ds = [f for f in p.funcs.values() if f.q == cls + "::~" + base and f.blocks and any(True for _ in f.calls()) and not deleting(p, f)]
        if not ds: raise AnalysisError("no destructor for " + cls)
        for f in ds[:1]:
            key = "%s unregisters before its parts are destroyed" % cls; nd += 1
            bad = None
            first = [n for n in f.blocks[0] if n.iscall() and n.f and not n.f.startswith("llvm.")]
            if not first or not unreg(p, f, first[0], rem): bad = "%s: the destructor %s before the output is unregistered" % (first[0].where() if first else f.loc(), "calls " + p.dem(first[0].f).split("(")[0] if first else "runs")
            if bad: c.bad(key, bad)
            else: c.ok(key, f.loc())
        cs = [f for f in p.funcs.values() if f.q == cls + "::" + base and f.blocks]
        for f in cs[:1]:
            nc += 1
            key = "%s registers after its parts exist" % cls
            seen, bad = False, None
            if cls != "xo::log::sink":
                for b in f.blocks:
                    for n in b:
                        if n.iscall() and n.f and registers(p, n.f, add) and n.f != add.name: bad = "%s: the constructor of its base class registers the output before the parts of %s exist; a message from another thread is handed to an unfinished object" % (n.where(), base)
            else:
                regs = [n for n in f.calls() if n.f == add.name]
                after = [n for n in f.calls() for r in regs if n is not r and n.f and not n.f.startswith("llvm.") and n.b == r.b and n.i > r.i]
                if not regs: bad = "%s: the output is not registered" % f.loc()
                elif after: bad = "%s: %s is called after the output was registered" % (after[0].where(), p.dem(after[0].f).split("(")[0])
            if bad: c.bad(key, bad)
            else: c.ok(key, f.loc())
    c.cover(histories=len(hs), cases=cases, output_classes=len(classes))
    c.floor("histories", len(hs), 80); c.floor("output classes", len(classes), 4); c.floor("destructors", nd, 4); c.floor("constructors", nc, 4)
    c.finish()

def deleting(p, f): return "D0Ev" in f.name
def unreg(p, f, n, rem, d=0):
    """does this call unregister this object, first of all"""
    if n.f == rem.name: return isinstance(n.a[0], int) and flow_arg(f, n.a[0]) == 0
    g = p.func(n.f)
    if g is None or not g.blocks or d > 2 or not n.a or flow_arg(f, n.a[0]) != 0: return False
    if g.q.split("::")[-1].startswith("~"): return False          # the destructor of a part or a base class
    first = [m for m in g.blocks[0] if m.iscall() and m.f and not m.f.startswith("llvm.")]
    return bool(first) and unreg(p, g, first[0], rem, d + 1)
def flow_arg(f, o):
    while isinstance(o, int) and not f.isarg(o):
        n = f.inst(o)
        if n is None or n.o not in ("getelementptr", "bitcast", "phi") or len(n.a) < 1: return None
        o = n.a[0]
    return o if isinstance(o, int) else None
def registers(p, name, add, seen=None):
    seen = set() if seen is None else seen
    if name == add.name: return True
    g = p.func(name)
    if g is None or name in seen or not g.q.startswith("xo::log::"): return False
    seen.add(name)
    return any(n.f and registers(p, n.f, add, seen) for n in g.calls())
def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
