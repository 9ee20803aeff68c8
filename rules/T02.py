"""T02: in every class that owns a mutex, members that change after construction are accessed under one common lock (exclusively when changed), including accesses through iterators and pointers obtained from them; a table is changed under the exclusive lock only after it was searched under that same lock."""
TECHNIQUE = "static lockset analysis (must-hold lock dataflow on LLVM IR) over the members of every mutex-owning class, plus a re-check typestate for check-then-insert"
NOTE = "Decides every method of every mutex-owning class of the library (templates in the instantiations of tu/*.cpp); data reachable only through a pointer after its guard is released is tracked within one method; user-supplied functions are opaque."
from sa import ir, locks, sharing
from sa.ir import base_off
from sa.report import Check

def classes(p, S):
    """record names (without template arguments) that have a mutex among their members, with one debug type each"""
    out = {}
    for f in p.repo_funcs():
        if f.this is None: continue
        t = p.pointee(f.args[f.this]["dv"][0][1])
        if t is None: continue
        fl = list(S.fields(t))
        if any("mutex" in x[2] for x in fl): out.setdefault(p.typename(t), t)
    return out

def sameclass(p):
    """non-virtual methods of mutex-owning classes are looked through where another method of the class calls them"""
    S = sharing.Sharing(p); out = set(locks.hidden(p))
    for cls, t in classes(p, S).items():
        ms = {f.name: f for f, _ in S.methods(cls)}
        for f in ms.values():
            nm = f.q.split("::")[-1]
            if S.ctor(f, cls) or "vf" in f.r: continue
            if any(n.fn.name in ms and n.f == f.name and n.fn is not f and base_off(n.fn, n.a[1] if n.g("sret") else n.a[0])[0] == n.fn.this for n in p.callers().get(f.name, ())) and not any(n.f == f.name for n in f.calls()): out.add(f.name)
    return tuple(sorted(out))

def model():
    return ir.prog(tus=("system",), inline=ir.INL_LAMBDA, passes="always-inline,function(sroa)", helpers=True, also=sameclass)

def run():
    c = Check("T02", "Every member of a mutex-owning class that changes after construction has one lock held at each access (exclusively at changes); an insertion into a table follows a search of that table made since the exclusive lock was taken")
    p = model()
    S = sharing.Sharing(p)
    cl = {k: t for k, t in classes(p, S).items() if "::log::" not in k}
    nm = nacc = 0
    for cls in sorted(cl):
        ev = {}
        for f, t in S.methods(cls):
            if S.ctor(f, cls) or f.name in p.helpers: continue
            nm += 1
            for v, e in S.member_events(f, t): ev.setdefault(v, []).append(e)
            recheck(c, S, f, t, cls)
        for v, e in sorted(ev.items()):
            nacc += len(e); key = "%s::%s" % (cls.split("<")[0], v)
            if not any(x[2] == "w" for x in e): c.ok(key, "never changed after construction (%d reads)" % len(e)); continue
            ks, bad = S.common(e)
            if ks: c.ok(key, "protected at all %d accesses" % len(e))
            else: c.bad(key, "%s: %s in %s without the lock that protects the other accesses" % (bad[1].where(), bad[3], bad[0].q))
    c.cover(classes=len(cl), methods=nm, accesses=nacc)
    c.floor("mutex-owning classes", len(cl), 2); c.floor("member accesses", nacc, 10)
    c.finish()

INSERT = {"insert", "emplace", "operator[]", "try_emplace", "insert_or_assign"}
SEARCH = {"find", "count", "contains", "lower_bound"}
def recheck(c, S, f, t, cls):
    """each insertion needs, on every path, a search of the same table since the last time the lock was taken"""
    p, L = S.p, S.L
    b = L.bind(f)
    def table(n):
        r, off = base_off(f, n.a[1] if n.g("sret") else n.a[0]) if n.a else (None, None)
        return S.member(t, off) if r is not None and r == f.this and off is not None else None
    ins = [n for n in f.calls() if n.f and p.q(n.f).split("::")[-1] in INSERT and p.q(n.f).startswith(("std::map", "std::unordered_map", "xo::flat_map", "std::set")) and table(n)]
    if not ins: return
    # forward must-analysis: tables searched since the lock was taken
    inn, work, at = {0: frozenset()}, [0], {}
    def step(n, st):
        if not n.iscall(): return st
        o = L.op(n)
        if o and o[0] in ("acquire", "lock", "rawlock", "release", "unlock", "rawunlock"): return frozenset()
        q = p.q(n.f).split("::")[-1] if n.f else ""
        if q in SEARCH and table(n): return st | {table(n)}
        return st
    while work:
        x = work.pop(); st = inn[x]
        for n in f.blocks[x]:
            at[n.i] = st; st = step(n, st)
        for s in f.succs(x):
            new = st if s not in inn else inn[s] & st
            if s not in inn or new != inn[s]: inn[s] = new; work.append(s)
    for n in ins:
        if n.i not in at: continue
        h = L.states(f).get(n.i, frozenset())
        if not any(k[0] == "this" for k, _, _ in h): continue
        key = "%s inserts into %s" % (f.q, table(n))
        if table(n) in at[n.i]: c.ok(key, n.where())
        else: c.bad(key, "%s: the table is changed although it was not searched again after the exclusive lock was taken (another thread may have inserted the entry)" % n.where())
