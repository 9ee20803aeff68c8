"""E01: with an error object no exception leaves an operation, and every failure reaches the object; without one every failure is thrown."""
TECHNIQUE = "context-sensitive interprocedural exception analysis on LLVM IR (contexts: error object present or absent, followed through arguments, members and virtual calls) with must-pass analysis of reporting functions"
NOTE = "Decides every function taking an error object and every serializer; assertions of preconditions (xo_assert) and exceptions of the C++ library such as out-of-memory are not failures of the operation; whether a malformed document is detected at all is decided only at the exits of the parsing loops."
from sa import ir, flow, throws
from sa.ir import const, base_off
from sa.report import Check

EC = "xo::error_code"
PASSES = "always-inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,jump-threading,gvn,correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg)"
OVER = ("read_stream", "write_stream")

def run():
    c = Check("E01", "No exception leaves an operation that was given an error object; without one, every reporting call throws; errors are stored with a non-zero code, never cleared, and a private error object is consulted after every call it was passed to; parsing loops end only at the end of the input, at their closing token or after a report")
    p = ir.prog(tus=("strings", "system", "containers", "geometry", "errors"), helpers=True, passes=PASSES, inline=(r"xo::char_stream::", r"(^|[ *&])xo::decode_char\(", r"xo::flag_set<"))
    tn = {}
    def ec_type(ti):
        if ti not in tn:
            t = p.strip(ti)
            tn[ti] = t is not None and t >= 0 and p.types[t]["tag"] == "DW_TAG_pointer_type" and p.typename(p.pointee(ti)) == EC
        return tn[ti]
    def isec(f, k):
        dv = f.args[k].get("dv") if k < len(f.args) else None
        return bool(dv) and dv[0][0] != "this" and ec_type(dv[0][1])
    T = throws.Throws(p, isec)
    funcs = p.repo_funcs()
    def members(f):      # error objects kept in the object: [(arg, offset)]
        k = f.this
        if k is None: return []
        ti = p.pointee(f.args[k]["dv"][0][1])
        return [(k, o) for o in ec_members(p, ti)] if ti is not None else []
    def ec_members(p, ti, base=0):
        out = []
        for nm, o, mt, kind in p.types[p.strip(ti)].get("members", []):
            if kind == "b": out += ec_members(p, mt, base + o)
            elif kind != "e" and ec_type(mt): out.append(base + o)
        return out
    nop, nrep, npass = 0, 0, 0
    for f in funcs:
        ks = [k for k in range(len(f.args)) if isec(f, k)]
        ms = [] if ks else members(f) if f.q.split("::")[-1] in OVER else []
        if not ks and not ms: continue
        nop += 1
        sig = f.q + ("" if len(p.byq[f.q]) < 2 else "(%s)" % ",".join(short(p, a) for a in f.args if a.get("dv")))
        ctxN = {**{(k, None): "N" for k in ks}, **{m: "N" for m in ms}}
        ctx0 = {**{(k, None): "0" for k in ks}, **{m: "0" for m in ms}}
        ex = sorted(T.exits(f, ctxN))
        key = "%s with an error object" % sig
        c.bad(key, "an exception leaves the operation although an error object was passed: " + ex[0][1]) if ex else c.ok(key, f.loc())
        # a direct report must have an alternative that throws when there is no object
        sets = [n for n in f.calls() if n.f and p.q(n.f) == "xo::error_code::set"]
        own = [n for n in sets if T.null(f, n.a[0], ctxN, n) == "N" and f.inst(base_off(f, n.a[0])[0] if not isinstance(base_off(f, n.a[0])[0], list) else None) is None]
        if own:
            nrep += 1
            key = "%s without an error object" % sig
            isbool = [f.blocks[b][-1] for b in T.live(f, ctx0) if f.blocks[b][-1].o == "ret"]
            tells = f.q == "xo::try_set_error"
            if tells:
                v0 = {T.retval(f, r.a[0], ctx0, T.live(f, ctx0), r) for r in isbool if r.a}
                vN = {T.retval(f, f.blocks[b][-1].a[0], ctxN, T.live(f, ctxN), f.blocks[b][-1]) for b in T.live(f, ctxN) if f.blocks[b][-1].o == "ret"}
                ok = v0 == {False} and vN == {True}
                c.ok(key, "its result tells whether the error was stored") if ok else c.bad(key, "%s: the result does not tell whether the error was stored" % f.loc())
            else:
                ok = bool(T.exits(f, ctx0))
                c.ok(key, "throws") if ok else c.bad(key, "%s: the failure is stored when there is an error object and silently dropped when there is none" % f.loc())
        if f.q in ("xo::set_error_or_throw", "xo::zml_error"):
            live0 = T.live(f, ctx0)
            rets = [f.blocks[b][-1] for b in live0 if f.blocks[b][-1].o == "ret"]
            key = "%s throws without an error object" % sig
            c.bad(key, "%s: returns to the caller without having reported anything" % rets[0].where()) if rets or not T.exits(f, ctx0) else c.ok(key, f.loc())
        if f.q in ("xo::set_error_or_throw", "xo::try_set_error"):
            good = {n.b for n in sets if len(n.a) > 1 and const(n.a[1]) not in (None, 0) and T.null(f, n.a[0], ctxN, n) == "N"}
            live, seen, st = T.live(f, ctxN), set(), [0]
            while st:
                b = st.pop()
                if b in seen or b in good or b not in live: continue
                seen.add(b); st += succs(T, f, b, ctxN)
            r = [f.blocks[b][-1] for b in seen if f.blocks[b][-1].o == "ret"]
            key = "%s stores the error" % sig
            c.bad(key, "%s: returns without having stored an error code" % r[0].where()) if r else c.ok(key, f.loc())
        # the error object is passed on: never replaced by another one that nobody looks at
        for n in f.calls():
            if n.f == f.name: pass
            for t in p.callees(n) or ():
                g = p.func(t)
                if g is None: continue
                tail = g.q.split("::")[-1]
                want = [(j, None) for j in range(len(g.args)) if isec(g, j)] or (members(g) if "vf" in n.r and tail in OVER else [])
                if not want: continue
                npass += 1
                for ctx, v in ((ctxN, "N"), (ctx0, "0")):
                    if n.b not in T.live(f, ctx): continue
                    got = T.callee_ctx(f, n, g, ctx)
                    for w in want:
                        key = "%s -> %s, error object %s" % (sig, g.q, "present" if v == "N" else "absent")
                        x = got.get(w, "?")
                        if x == v: c.ok(key, n.where())
                        elif w[1] is None and local_object(f, n.a[w[0]]) is not None:
                            al = local_object(f, n.a[w[0]])
                            c.ok(key, "private error object, consulted afterwards") if consulted(p, f, al, n) else c.bad(key, "%s: errors go to a private error object that is never consulted" % n.where())
                        else: c.bad(key, "%s: the caller's error object is not handed on (the callee may see %s)" % (n.where(), {"N": "another object", "0": "none", "?": "another one or a stale one"}[x]))
    # no error is cleared
    for f in funcs:
        for n in f.calls():
            if not n.f: continue
            q = p.q(n.f)
            if q == "xo::error_code::set" and len(n.a) > 1 and const(n.a[1]) == 0: c.bad("%s clears an error" % f.q, "%s: stores code 0, which reads as success" % n.where())
            if q == "xo::error_code::operator=" and f.isarg(base_off(f, n.a[0])[0]) and isec(f, base_off(f, n.a[0])[0]): c.bad("%s replaces the error object" % f.q, n.where())
    # functions without an error object of their own that make a private one
    for f in funcs:
        if any(isec(f, k) for k in range(len(f.args))): continue
        for n in f.calls():
            g = p.func(n.f) if n.f else None
            if g is None: continue
            for j in range(len(g.args)):
                if isec(g, j) and local_object(f, n.a[j]) is not None:
                    key = "%s keeps the error of %s" % (f.q, g.q)
                    c.ok(key) if consulted(p, f, local_object(f, n.a[j]), n) else c.bad(key, "%s: errors go to a private error object that is never consulted" % n.where())
    # what the standard library reports is looked at, and stored only when the call failed
    for f in funcs:
        for n in f.calls():
            if not n.f or p.func(n.f) is not None or not p.q(n.f).startswith("std::filesystem::") or "error_code&" not in p.dem(n.f): continue
            al = local_object(f, n.a[-1])
            key = "%s looks at the error of %s" % (f.q, p.q(n.f))
            if al is None: c.ok(key, "handed to the caller")
            elif not any(u.iscall() and u is not n and f.dominates(n, u) and u.f and p.q(u.f).startswith("std::error_code::") and p.q(u.f).split("::")[-1] not in ("error_code",) for u in f.uses.get(al.i, ())) and not any(u.o == "load" and f.dominates(n, u) for u in f.uses.get(al.i, ())):
                c.bad(key, "%s: the error is dropped" % n.where())
            else:
                wrong = [u for u in f.calls() if u.f and p.q(u.f) in ("xo::error_code::set", "xo::set_error_or_throw") and n.t == "i1" and any(x[0] == "true" and x[1] == n.i for x in flow.block_facts(f, u.b))]
                c.bad(key, "%s: the error is stored when the operation succeeded" % wrong[0].where()) if wrong else c.ok(key, n.where())
    error_object(c, p)
    nloop = loops(c, p, funcs, T, isec, members)
    # exceptions caught inside an operation end in a report
    for f in funcs:
        ks = [k for k in range(len(f.args)) if isec(f, k)]; ms = members(f) if f.q.split("::")[-1] in OVER else []
        if not ks and not ms: continue
        rep = reporters(p, f, T, isec, members)
        for n in f.calls():
            if n.f != "__cxa_begin_catch": continue
            if any(x.iscall() and x.f and p.q(x.f) in ("std::terminate", "__clang_call_terminate") or x.f == "__clang_call_terminate" for x in f.blocks[n.b]): continue
            seen, st, r = set(), [n.b], None
            while st:
                b = st.pop()
                if b in seen or b in rep: continue
                seen.add(b); st += f.succs(b)
                if f.blocks[b][-1].o == "ret": r = f.blocks[b][-1]
            key = "%s reports what it catches" % f.q
            c.bad(key, "%s: an exception caught here is neither reported nor thrown on" % n.where()) if r is not None else c.ok(key, n.where())
    c.floor("operations with an error object", nop, 15); c.floor("direct reporters", nrep, 2); c.floor("calls that pass the error object on", npass, 20); c.floor("parsing loops", nloop, 1)
    c.cover(functions=len(T.visited), operations=nop, pass_sites=npass)
    c.assume_("a virtual read_stream/write_stream call may reach every override in the library", "calls through std::function objects are callbacks of the user")
    c.finish()

def succs(T, f, b, ctx):
    t = f.blocks[b][-1]
    if t.o == "br" and len(t.s) == 2:
        d = T.decide(f, t.a[0], ctx, t)
        if d is not None: return [t.s[0] if d else t.s[1]]
    return t.s

def short(p, a):
    return p.typename(a["dv"][0][1]).split("::")[-1] if a["dv"][0][0] != "this" else "this"

def local_object(f, o):
    r, _ = base_off(f, o)
    n = f.inst(r) if not isinstance(r, list) else None
    return n if n is not None and n.o == "alloca" else None

def consulted(p, f, al, n):
    """is the local error object looked at, or handed on, after the call?"""
    after = set()
    for s in f.succs(n.b): after |= f.reach(s)
    st, seen = [al.i], set()
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        for u in f.uses.get(v, ()):
            late = u.b in after or u.b == n.b and u.k > n.k
            if u.o in ("getelementptr", "bitcast"): st.append(u.i); continue
            if not late: continue
            if u.o == "load": return True
            if u.iscall() and u.f and p.q(u.f).split("::")[-1] in ("bad", "good", "code", "message", "error_code", "operator="): return True
    return False

def reporters(p, f, T, isec, members):
    """blocks that report: they call set_error_or_throw, or hand the error object to a function that always reports"""
    out = set()
    for n in f.calls():
        if n.f and (p.q(n.f) in ("xo::set_error_or_throw", "xo::try_set_error", "xo::zml_error", "xo::error_code::set") or n.f in ("__cxa_throw", "__cxa_rethrow")): out.add(n.b)
        elif n.f and p.func(n.f) is not None and always_reports(p, p.func(n.f), ()): out.add(n.b)
    return out

def always_reports(p, g, seen):
    if g.name in seen or len(g.blocks) > 30: return False
    c = g.__dict__.get("_rep")
    if c is not None: return c
    good = {n.b for n in g.calls() if n.f and (p.q(n.f) in ("xo::set_error_or_throw", "xo::zml_error"))}
    for n in g.calls():
        if n.f and p.func(n.f) is not None and p.inrepo(p.func(n.f)) and always_reports(p, p.func(n.f), seen + (g.name,)): good.add(n.b)
    r = bool(good) and not any(g.blocks[b][-1].o == "ret" for b in g.reach(0, good) if 0 not in good)
    g._rep = r
    return r

END = {"good", "eof", "fail", "bad", "operator_bool", "operator!", "operator bool"}

def loops(c, p, funcs, T, isec, members):
    """parsing loops: loops of a function with an error object that read from a stream it was given"""
    cnt = 0
    for f in funcs:
        ks = [k for k in range(len(f.args)) if isec(f, k)]; ms = members(f) if f.q.split("::")[-1] == "read_stream" else []
        if not ks and not ms: continue
        src = [k for k, a in enumerate(f.args) if a.get("dv") and any(x in p.typename(p.pointee(a["dv"][0][1]) if p.pointee(a["dv"][0][1]) is not None else -1) for x in ("char_stream", "basic_istream", "basic_ifstream"))]
        rets = [n for n in f.insts() if n.o == "ret"]
        if not src or not rets or any(a.get("sret") for a in f.args) or any(r.a and not origins(f, r.a[0]) <= set(range(len(f.args))) for r in rets): continue
        rep = reporters(p, f, T, isec, members)
        reads = {n.b for n in f.calls() if any(not isinstance(base_off(f, a)[0], list) and reaches(f, a, src) for a in n.a) and not (n.f and p.q(n.f).split("::")[-1] in END)}
        # nodes: (block, constants of the phis that steer switches)
        G, start = product(f)
        nodes = [x for x in G if x[0] not in rep]
        ok = set(nodes)
        for comp in sccs({x: [y for y in G[x] if y in ok] for x in nodes}):
            if len(comp) < 2 or not any(x[0] in reads for x in comp): continue
            cnt += 1
            cs = set(comp)
            canret = backward({x: [y for y in G[x] if y in ok] for x in nodes}, [x for x in nodes if f.blocks[x[0]][-1].o == "ret"])
            key = "%s ends its parsing loop" % f.q
            for x in comp:
                for y in G[x]:
                    if y in cs or y not in canret: continue
                    t = f.blocks[x[0]][-1]
                    if t.iscall() and y[0] == t.s[-1] and t.o == "invoke": continue
                    why = exitcond(p, f, t, y[0], src, isec)
                    if why is not None: c.bad(key, "%s: the loop over the input can be left here (%s) without reporting an error" % (t.where(), why))
            c.ok(key, f.loc())
    return cnt

def reaches(f, o, src, d=0):
    r, _ = base_off(f, o)
    if r in src: return True
    n = f.inst(r) if not isinstance(r, list) else None
    if n is not None and d < 4 and n.o == "load": return False
    # a stream's base class part: address computed from the stream with a run-time offset
    return n is not None and n.o == "getelementptr" and reaches(f, n.a[0], src, d + 1)

def origins(f, o, seen=None):
    seen = set() if seen is None else seen
    n = f.inst(o) if isinstance(o, int) else None
    if n is not None and n.o in ("phi", "select"):
        if o in seen: return set()
        seen.add(o)
        return set().union(*(origins(f, a, seen) for a in (n.a if n.o == "phi" else n.a[1:])))
    return {o if isinstance(o, int) else repr(o)} - {"['undef']", "['poison']"}

ENDVAL = {"good": "false", "operator_bool": "false", "operator bool": "false", "eof": "true", "fail": "true", "bad": "true", "operator!": "true"}

def exitcond(p, f, t, s, src, isec):
    if t.o not in ("br", "switch") or not t.a: return "unconditionally"
    if t.o == "br" and len(t.s) == 2:
        for pr, x, y, n in flow.edge_facts(f, t.b, s):
            i = f.inst(x) if isinstance(x, int) else None
            if pr in ("true", "false") and i is not None and i.iscall() and i.f:
                tail = p.q(i.f).split("::")[-1]
                if tail in ENDVAL and not p.q(i.f).startswith("xo::error_code") and ENDVAL[tail] != pr: return "while the stream's %s() is %s" % (tail, pr)
    l = conds(p, f, t.a[0])
    for n in l:
        if n.iscall() and n.f:
            q = p.q(n.f); tail = q.split("::")[-1]
            if tail in END or tail.startswith("operator_bool"): continue
            if ("operator==" in q or "operator!=" in q or tail in ("compare", "operator==", "operator!=")) and any(f.isarg(base_off(f, a)[0]) for a in n.a): continue
            if helper(p, n) and any(given(p, f, a) for a in n.a): continue
            return "depending on " + q
        if n.o == "load" and n.f is None:
            r, off = base_off(f, n.a[0])
            if not isinstance(r, list) and (r in src or reaches(f, n.a[0], src)): continue
            if f.isarg(r) and isec(f, r): continue
            return "depending on a stored value"
        return "depending on " + n.o
    return None if l else "depending on a value the analysis cannot follow"

def given(p, f, o, d=0):
    """is this value what the caller passed, or obtained from it by an accessor"""
    r, _ = base_off(f, o)
    if f.isarg(r): return True
    n = f.inst(r) if isinstance(r, int) else None
    return n is not None and n.iscall() and bool(n.f) and d < 3 and p.q(n.f).split("::")[-1] in ("c_str", "data", "str", "begin") and given(p, f, n.a[0], d + 1)

def helper(p, n, d=0):
    """a call whose result is a comparison of texts, possibly combined with a question about the stream"""
    g = p.func(n.f)
    if g is None or not g.blocks or d > 3: return False
    cmp_ = [0]
    def ask(h, x):
        q = p.q(x.f); tail = q.split("::")[-1]
        if tail in ("operator==", "operator!=", "compare", "strcmp") or "operator==" in q or "operator!=" in q: cmp_[0] = 1; return True
        if tail in END: return True
        if helper(p, x, d + 1): cmp_[0] = 1; return True
        k = p.func(x.f)    # a plain accessor of the stream
        return k is not None and all(i.o in ("load", "getelementptr", "ret", "trunc", "and", "icmp", "alloca", "store", "br", "zext", "freeze") for i in k.insts())
    ok = True
    for b in g.blocks:
        t = b[-1]
        if t.o == "br" and t.a or t.o == "switch" or t.o == "ret" and t.a:
            for x in conds(p, g, t.a[0]): ok = ok and (x.iscall() and bool(x.f) and ask(g, x) or x.o == "load")
    return ok and bool(cmp_[0])

def conds(p, f, o, d=0):
    n = f.inst(o)
    if n is None or d > 8: return []
    if n.iscall(): return [n]
    if n.o in ("icmp", "xor", "and", "or", "zext", "trunc", "freeze", "select"):
        if n.o == "and" and any(const(a) is not None for a in n.a): return conds(p, f, n.a[0], d + 1)
        out = []
        for a in n.a:
            if isinstance(a, int) and not f.isarg(a): out += conds(p, f, a, d + 1)
        return out
    if n.o == "phi": return sum((conds(p, f, a, d + 1) for a in n.a if isinstance(a, int)), [])
    return [n]

def product(f):
    phis = {}
    for b in f.blocks:
        t = b[-1]
        if t.o in ("switch", "br") and t.a and isinstance(t.a[0], int):
            n = f.inst(t.a[0])
            k = n
            if n is not None and n.o == "icmp" and const(n.a[1]) is not None: k = f.inst(n.a[0])
            st, seen = [k], set()
            while st:
                k = st.pop()
                if k is None or k.i in seen or k.o != "phi" or not any(const(a) is not None for a in k.a): continue
                seen.add(k.i); phis[k.i] = k; st += [f.inst(a) for a in k.a if isinstance(a, int)]
    live = {}
    for k, ph in phis.items():      # blocks at whose end the value of the phi may still be needed
        need = set()
        for b in range(len(f.blocks)):
            t = f.blocks[b][-1]
            if t.o in ("switch", "br") and t.a and (t.a[0] == k or f.inst(t.a[0]) is not None and f.inst(t.a[0]).o == "icmp" and f.inst(t.a[0]).a[0] == k): need.add(b)
            for n in f.blocks[b]:
                if n.o == "phi" and n.i in phis:
                    need |= {pb for a, pb in zip(n.a, n.g("pb")) if a == k}
        seen, st = set(), list(need)
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b != ph.b: st += f.preds[b]
        live[k] = seen
    def step(node):
        b, env = node; env = dict(env); t = f.blocks[b][-1]
        ss = list(t.s)
        if t.o in ("switch", "br") and t.a and isinstance(t.a[0], int):
            n = f.inst(t.a[0]); v = None
            if t.a[0] in env: v = env[t.a[0]]
            elif n is not None and n.o == "icmp" and n.a[0] in env and const(n.a[1]) is not None:
                x, y = env[n.a[0]], const(n.a[1])
                v = {"eq": x == y, "ne": x != y, "ult": x < y, "ugt": x > y, "slt": x < y, "sgt": x > y}.get(n.g("p"))
            if v is not None:
                if t.o == "br" and len(t.s) == 2: ss = [t.s[0] if v else t.s[1]]
                elif t.o == "switch": ss = [s for cv, s in zip(t.g("cases"), t.s[1:]) if cv == v][:1] or [t.s[0]]
        out = []
        for s in dict.fromkeys(ss):
            e = dict(env)
            new = {}
            for n in f.blocks[s]:
                if n.o != "phi": break
                if n.i in phis:
                    for a, pb in zip(n.a, n.g("pb")):
                        if pb == b:
                            v = const(a)
                            if v is None and isinstance(a, int): v = env.get(a)
                            new[n.i] = v
            e.update(new)
            out.append((s, tuple(sorted((k, v) for k, v in e.items() if v is not None and s in live[k]))))
        return out
    G, st = {}, [(0, ())]
    while st:
        x = st.pop()
        if x in G or len(G) > 20000: continue
        G[x] = step(x); st += G[x]
    return G, (0, ())

def sccs(G):
    idx, low, on, stack, out, n = {}, {}, set(), [], [], [0]
    for v0 in G:
        if v0 in idx: continue
        work = [(v0, iter(G[v0]))]; idx[v0] = low[v0] = n[0]; n[0] += 1; stack.append(v0); on.add(v0)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; stack.append(w); on.add(w); work.append((w, iter(G[w]))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = stack.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    out.append(comp)
    return out

def backward(G, tgt):
    R = {}
    for x in G:
        for y in G[x]: R.setdefault(y, []).append(x)
    seen, st = set(), list(tgt)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += R.get(x, [])
    return seen

def error_object(c, p):
    """set stores its code; bad, good and code report it"""
    off = set()
    for f in p.byq.get("xo::error_code::set", []):
        key = "error_code::set stores the code"
        st = [n for n in f.insts() if n.o == "store" and n.a[0] == 1 and base_off(f, n.a[1])[0] == 0]
        rets = [n for n in f.insts() if n.o == "ret"]
        if st and all(f.dominates(st[0], r) for r in rets) and not any(n.o == "store" and n not in st and base_off(f, n.a[1]) == base_off(f, st[0].a[1]) for n in f.insts()):
            off.add(base_off(f, st[0].a[1])[1]); c.ok(key, f.loc())
        else: c.bad(key, "%s: the error code is not stored on every path" % f.loc())
    m = 0
    for nm, want in (("bad", "ne"), ("good", "eq"), ("code", None)):
        for f in p.byq.get("xo::error_code::" + nm, []):
            m += 1
            key = "error_code::%s reports the stored code" % nm
            ok = True
            for r in (n for n in f.insts() if n.o == "ret"):
                n = f.inst(r.a[0]); neg = False
                while n is not None and n.o in ("zext", "xor", "freeze"):
                    if n.o == "xor": neg = not neg
                    n = f.inst(n.a[0])
                if want and n is not None and n.o == "icmp" and const(n.a[1]) == 0:
                    pr = n.g("p"); pr = flow.NEG[pr] if neg else pr
                    ok &= pr == want; n = f.inst(n.a[0])
                elif want: ok = False
                ok &= n is not None and n.o == "load" and base_off(f, n.a[0])[0] == 0 and base_off(f, n.a[0])[1] in off
            c.ok(key, f.loc()) if ok else c.bad(key, "%s: does not tell whether the stored code is an error" % f.loc())
    c.floor("error object queries", m, 2)
