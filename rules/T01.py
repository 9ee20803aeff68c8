"""T01: the sink list and the derived global threshold have one lock held at every access (exclusively at changes) or are atomic; the state of a sink that may change while others log is atomic; each stream sink writes and flushes its stream under one lock of its own."""
TECHNIQUE = "static lockset analysis (must-hold lock dataflow on LLVM IR) over the logging globals, the members of all sink classes and the streams they refer to"
NOTE = "Decides every access in the logging code, including uses of the sinks taken from the list; sink::format() hands out formatting flags that are meant to be set before logging starts and is exempt; user-defined sinks are out of scope."
from sa import ir, locks, sharing
from sa.ir import base_off
from sa.report import Check
from rules import T02

SETUP = {"format_"}          # configuration handed out by reference by design

def run():
    c = Check("T01", "Every logging global and every member of a sink that changes after construction is atomic or has one lock held at each access (exclusively at changes); sinks taken from the list are used while that lock is held; a stream is written and flushed under one exclusive lock")
    p = ir.prog(tus=("system",), inline=ir.INL_LAMBDA, passes="always-inline,function(sroa)", helpers=True, also=locks.hidden)
    S = sharing.Sharing(p)
    # 1. globals of the logging system
    names, atom = {}, 0
    for g, d, t in S.global_vars():
        if "/system/log" not in d["file"]: continue
        key = sharing.fname(p, g)
        if sharing.SYNC.search(t): c.ok(key, t); atom += 1; continue
        names[g] = key
    ev, esc = S.global_events(names)
    nacc = 0
    for g, key in names.items():
        e = [x for x in ev[g] if x[0].name not in p.helpers]
        nacc += len(e)
        if esc[g]: c.bad(key, "%s hands out a reference to it" % esc[g][0][0].q); continue
        if not any(x[2] == "w" for x in e): c.ok(key, "only read"); continue
        ks, bad = S.common(e)
        if ks: c.ok(key, "protected by %s at all %d accesses" % (", ".join(p.dem(str(k[1])) for k in ks), len(e)))
        else: c.bad(key, "%s: %s in %s without the lock that protects the other accesses" % (bad[1].where(), bad[3], bad[0].q))
    # a sink may be removed and destroyed as soon as the lock of the list is released: all uses of listed sinks are inside it
    guard = set()
    for g, key in names.items():
        e = [x for x in ev[g] if x[0].name not in p.helpers]
        if any(x[2] == "w" for x in e): guard |= S.common(e)[0]
    nuse = 0
    for f in p.repo_funcs():
        if f.this is not None or "/system/log.cpp" not in f.file or f.name in p.helpers: continue
        for n in f.calls():
            vf = [p.q(x) for x in n.g("vf", ())]
            if not any(x.startswith("xo::log::") for x in vf): continue
            r = base_off(f, n.a[1] if n.g("sret") else n.a[0])[0]
            if isinstance(r, int) and f.isarg(r): continue
            nuse += 1
            key = "%s uses listed sinks (%s)" % (f.q, sorted(x.split("::")[-1] for x in vf)[0])
            if {k for k, m, _ in S.held(f, n)} & guard: c.ok(key, n.where())
            else: c.bad(key, "%s: a sink is used without the lock of the sink list; it may have been removed and destroyed" % n.where())
    c.floor("uses of listed sinks", nuse, 3)
    # 2. members of the sinks
    sinks = {}
    for f in p.repo_funcs():
        if f.this is None or not f.q.startswith("xo::log::"): continue
        t = p.pointee(f.args[f.this]["dv"][0][1])
        if t is not None and any(nm == "log_level_" or nm == "stream_" for nm, o, tn in S.fields(t)) or (t is not None and derives(p, t, "xo::log::sink")): sinks.setdefault(p.typename(t), t)
    mem, alias = {}, {}
    for cls, t in sinks.items():
        for f, _ in S.methods(cls):
            if S.ctor(f, cls):
                # a base constructor that is given a member of this object refers to it afterwards
                if not f.q.split("::")[-1].startswith("~"):
                    for n in f.calls():
                        g = p.func(n.f) if n.f else None
                        if g is None or g.this is None or not n.a or base_off(f, n.a[0])[0] != f.this: continue
                        for k, a in enumerate(n.a[1:], 1):
                            r, off = base_off(f, a)
                            if r == f.this and off is not None and S.member(t, off): alias[S.member(t, off)] = {"*" + nm for nm, o, tn in S.fields(p.pointee(g.args[g.this]["dv"][0][1])) if tn.endswith("&")}
                continue
            if f.name in p.helpers: continue
            for v, e in S.member_events(f, t): mem.setdefault((cls, f.q.split("::")[-1]), []).append((v, e))
    byvar = {}
    for (cls, m), l in mem.items():
        for v, e in l:
            if v in SETUP: continue
            if not v.startswith("*"): byvar.setdefault(v, []).append(e)
    for v, e in sorted(byvar.items()):
        if v in alias: continue
        if not any(x[2] == "w" for x in e): c.ok("sink member " + v, "never changed after construction (%d reads)" % len(e)); continue
        ks, bad = S.common(e)
        if ks: c.ok("sink member " + v, "protected at all %d accesses" % len(e))
        else: c.bad("sink member " + v, "%s: %s in %s although other threads may use it" % (bad[1].where(), bad[3], bad[0].q))
    # 3. streams: per concrete class, the final overriders
    ns = 0
    for cls, t in sorted(sinks.items()):
        fl = {nm: tn for nm, o, tn in S.fields(t)}
        if not any(tn.endswith("&") for tn in fl.values()): continue
        use = {}
        for k in lineage(p, t):
            for (c2, m), l in mem.items():
                if c2 == k and m not in use: use[m] = l
        al = {a for a, rs in alias.items() if a in fl}
        e = [x for m, l in use.items() for v, x in l if v.startswith("*") or v in al]
        # calls to a base class version of an overridden method count as well
        ns += len(e)
        key = "stream of %s" % cls
        if not e: continue
        ks, bad = S.common(e)
        if ks: c.ok(key, "%d uses under one lock" % len(e))
        else: c.bad(key, "%s: the stream %s in %s outside the lock that serialises its other uses" % (bad[1].where(), bad[3], bad[0].q))
    c.cover(globals=len(names) + atom, sink_classes=len(sinks), accesses=nacc, stream_uses=ns)
    c.floor("logging globals", len(names) + atom, 2); c.floor("accesses to the sink list", nacc, 5); c.floor("sink classes", len(sinks), 3); c.floor("stream uses", ns, 3)
    c.finish()

def derives(p, t, base): return base in lineage(p, t)
def lineage(p, t):
    out = [p.typename(t)]
    for nm, o, mt, kind in p.types[p.strip(t)].get("members", []):
        if kind == "b": out += lineage(p, mt)
    return out
