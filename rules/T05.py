"""T05: locks are taken by scoped objects on the stack (or released on every exit, exceptional ones included); no call made while a lock is held can acquire the same lock again; the order in which locks are nested has no cycle."""
TECHNIQUE = "lock-order and lock-release analysis: may-hold dataflow with exceptional edges and interprocedural acquisition summaries over the call graph (virtual calls resolved by class hierarchy)"
NOTE = "Decides every lock acquisition of the library against all call paths inside the library; callbacks supplied by the user (create, clone, memoized functions, user-defined sinks and shared objects of the same class) are assumed not to call back into the locked object."
from sa import ir, locks
from sa.ir import base_off
from sa.report import Check

def run():
    c = Check("T05", "Each lock is owned by a scope object or released on every normal and exceptional exit; while a lock is held no reachable callee acquires it again; the graph of nested acquisitions is acyclic")
    p = ir.prog(tus=("system", "strings", "containers"), passes="always-inline,function(sroa)", inline=ir.INL_LAMBDA)
    L = locks.Locks(p)
    A = L.acquires()
    may_throw = thrower(p)
    edges, n_acq, n_calls = {}, 0, 0
    for f in p.repo_funcs():
        ops = [(n, L.op(n)) for n in f.calls()]
        ops = [(n, o) for n, o in ops if o]
        if not ops: continue
        may = L.states(f, must=False)
        for n, o in ops:
            if o[0] in ("acquire", "rawlock", "lock"):
                n_acq += 1
                ks = o[2] if o[0] != "lock" else L.bind(f).get(o[1], ([],))[0]
                key = "%s locks %s" % (f.q, ",".join(name(p, f, k, L) for k in ks))
                h = may.get(n.i, frozenset())
                held = {k for k, m, hd in h}
                again = [k for k in ks if k in held]
                if again: c.bad(key, "%s: the lock may already be held here" % n.where())
                elif o[0] == "acquire" and (not isinstance(o[1], int) or f.inst(o[1]) is None or f.inst(o[1]).o != "alloca"):
                    c.bad(key, "%s: the lock object does not live on the stack: it is not released when the scope is left" % n.where())
                else: c.ok(key, n.where())
                for k2 in held:
                    for k in ks: edges.setdefault((L.clskey(f, k2), L.clskey(f, k)), n)
        # manual locks must be released on every way out
        raws = [n for n, o in ops if o[0] == "rawlock"] + [n for n, o in ops if o[0] == "lock" and False]
        if raws:
            key = "%s releases its manual lock" % f.q
            bad = None
            for n in f.insts():
                h = may.get(n.i, frozenset())
                if not any(x[2] == "raw" for x in h): continue
                if n.o in ("ret", "resume"): bad = bad or (n, "the lock may still be held when the function is left")
                if n.o == "call" and not L.op(n) and may_throw(n): bad = bad or (n, "an exception thrown here leaves the function with the lock held")
            if bad: c.bad(key, "%s: %s" % (bad[0].where(), bad[1]))
            else: c.ok(key)
        for n in f.calls():
            q = p.q(n.f) if n.f else ""
            if q in ("std::unique_lock::release", "std::shared_lock::release"):
                c.bad("%s gives up ownership of a lock" % f.q, "%s: release() leaves the mutex locked without an owner" % n.where())
            h = may.get(n.i, frozenset())
            if not h or L.op(n): continue
            n_calls += 1
            held = {k for k, m, hd in h}
            for t in p.callees(n) or ():
                if t not in A: continue
                got = L.atcall(f, n, A[t])
                again = got & held
                key = "%s calls %s while holding %s" % (f.q, p.q(t), ",".join(sorted(name(p, f, k, L) for k in held)))
                if again: c.bad(key, "%s: this call may lock %s again (self-deadlock)" % (n.where(), name(p, f, next(iter(again)), L)))
                elif L.acqcls[t]: c.ok(key, n.where())
                for k2 in held:
                    for k in L.acqcls[t]:
                        if L.clskey(f, k2) != k or k[0] == "g": edges.setdefault((L.clskey(f, k2), k), n)
    # cycles
    g = {}
    for (a, b), n in edges.items(): g.setdefault(a, {})[b] = n
    for a in g:
        for b, n in g[a].items():
            if a != b and reaches(g, b, a): c.bad("lock order %s -> %s" % (label(p, a), label(p, b)), "%s: the opposite nesting exists as well (deadlock)" % n.where())
            elif a != b: c.ok("lock order %s -> %s" % (label(p, a), label(p, b)), n.where())
    c.cover(functions=len(p.repo_funcs()), acquisitions=n_acq, calls_under_lock=n_calls, order_edges=len(edges))
    c.floor("lock acquisitions", n_acq, 6); c.floor("calls made under a lock", n_calls, 10)
    c.finish()

def reaches(g, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += list(g.get(x, ()))
    return False

def label(p, k): return p.dem(str(k[1])) if k[0] == "g" and False else (k[1] if k[0] == "g" else "%s+%s" % (k[1], k[2]))
def name(p, f, k, L):
    k = L.clskey(f, k)
    return p.globals[k[1]]["dem"] if k[0] == "g" and k[1] in p.globals else "%s" % (k[1],)

def thrower(p):
    """calls that may let an exception pass: not declared nothrow"""
    def t(n):
        if n.g("nt"): return False
        if (n.f or "").startswith("llvm."): return False
        d = p.decls.get(n.f) if n.f else None
        if d and d.get("nt"): return False
        return True
    return t
