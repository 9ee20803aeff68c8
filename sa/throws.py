"""Which exceptions can leave a function, given what is known about the error objects passed to it.

A context maps (argument, None) to the nullness of an error-object pointer argument and (argument, offset) to the
nullness of an error-object pointer stored in the object the argument points to: 'N' not null, '0' null.  Branches
decided by the context are followed one way only; the result is the set of throws that can leave the function."""
from . import flow
from .ir import const, base_off

EXC = "_ZTISt9exception"
STDBASE = {"_ZTISt13runtime_error": [EXC], "_ZTISt11logic_error": [EXC], "_ZTISt12system_error": ["_ZTISt13runtime_error", EXC], "_ZTINSt10filesystem7__cxx1116filesystem_errorE": ["_ZTISt12system_error", "_ZTISt13runtime_error", EXC],
           "_ZTISt12out_of_range": ["_ZTISt11logic_error", EXC], "_ZTISt16invalid_argument": ["_ZTISt11logic_error", EXC], "_ZTISt12length_error": ["_ZTISt11logic_error", EXC], "_ZTISt9bad_alloc": [EXC]}
FSERR = "_ZTINSt10filesystem7__cxx1116filesystem_errorE"
FS_NOTHROW = {"path", "begin", "end", "status_known"}


class Throws:
    def __init__(self, p, is_error_ptr):
        """is_error_ptr(f, k): argument k of f is a pointer to an error object"""
        self.p, self.isec, self.memo, self.onstack, self.rec = p, is_error_ptr, {}, set(), set()
        self.visited = set()

    def bases(self, t):
        if t in STDBASE: return STDBASE[t]
        g = self.p.globals.get(t)
        out, st, seen = [], [g], set()
        def names(x):
            if isinstance(x, list):
                if x and x[0] == "g" and isinstance(x[1], str) and x[1].startswith("_ZTI"): yield x[1]
                else:
                    for y in x: yield from names(y)
        if g:
            for b in names(g.get("init")):
                if b != t: out.append(b); out += self.bases(b)
        return out

    def caught(self, t, pad):
        for cl in pad.g("cl", []):
            if not isinstance(cl, list): continue
            if cl[0] in ("null", "c", "zero"): return True
            if cl[0] == "g" and (cl[1] == t or cl[1] in self.bases(t)): return True
        return False

    # ---- nullness of a pointer operand
    def null(self, f, o, ctx, at, depth=0):
        if isinstance(o, list):
            return "0" if const(o) == 0 else "N" if o and o[0] in ("g", "cgep") else "?"
        if depth > 8: return "?"
        if f.isarg(o): return ctx.get((o, None), "?")
        n = f.inst(o)
        if n is None: return "?"
        if n.o in ("alloca", "getelementptr"): return "N"
        if n.o in ("bitcast", "freeze"): return self.null(f, n.a[0], ctx, at, depth + 1)
        if n.o == "select":
            d = self.decide(f, n.a[0], ctx, n)
            if d is not None: return self.null(f, n.a[1] if d else n.a[2], ctx, at, depth + 1)
            v = {self.null(f, x, ctx, at, depth + 1) for x in n.a[1:3]}
            return v.pop() if len(v) == 1 else "?"
        if n.o == "phi":
            v = {self.null(f, x, ctx, at, depth + 1) for x in n.a}
            return v.pop() if len(v) == 1 else "?"
        if n.o == "load":
            r, off = base_off(f, n.a[0])
            if off is None: return "?"
            return self.member(f, r, off, ctx, n, depth)
        return "?"

    def member(self, f, r, off, ctx, at, depth=0):
        """nullness of the error pointer stored at offset off of the object r, when execution is at instruction at"""
        st = [u for u in self.stores(f) if u[0] == r and u[1] == off]
        if st:
            dom = [u for u in st if f.dominates(u[2], at)]
            if len(st) == 1 and dom: return self.null(f, st[0][2].a[0], ctx, at, depth + 1)
            v = {self.null(f, u[2].a[0], ctx, at, depth + 1) for u in st}
            if dom and len(v) == 1: return v.pop()
            v.add(ctx.get((r, off), "?") if isinstance(r, int) else "?")
            return v.pop() if len(v) == 1 else "?"
        return ctx.get((r, off), "?") if f.isarg(r) else "?"

    def stores(self, f):
        c = f.__dict__.setdefault("_thr_st", None)
        if c is None:
            c = []
            for n in f.insts():
                if n.o == "store" and n.g("vt", "ptr") == "ptr":
                    r, off = base_off(f, n.a[1])
                    if off is not None: c.append((r if not isinstance(r, list) else repr(r), off, n))
            f._thr_st = c
        return c

    def decide(self, f, o, ctx, at):
        """truth value of a condition under the context, or None"""
        c = const(o)
        if c is not None: return bool(c)
        n = f.inst(o)
        if n is None: return None
        if n.o == "icmp" and n.g("p") in ("eq", "ne"):
            for x, y in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
                if const(y) == 0:
                    i = f.inst(x)
                    if i is not None and i.o in ("zext", "trunc", "and", "freeze", "xor") or i is not None and i.t in ("i1", "i8", "i32"):
                        d = self.decide(f, x, ctx, at)
                        if d is not None: return d if n.g("p") == "ne" else not d
                    v = self.null(f, x, ctx, at)
                    if v != "?": return (v == "0") == (n.g("p") == "eq")
        if n.o == "xor" and const(n.a[1]) in (-1, 1):
            d = self.decide(f, n.a[0], ctx, at); return None if d is None else not d
        if n.o in ("zext", "trunc", "freeze"): return self.decide(f, n.a[0], ctx, at)
        if n.o in ("and", "or", "select"):
            if n.o == "select":
                d = self.decide(f, n.a[0], ctx, at)
                if d is None: return None
                return self.decide(f, n.a[1] if d else n.a[2], ctx, at)
            l, r = self.decide(f, n.a[0], ctx, at), self.decide(f, n.a[1], ctx, at)
            if n.o == "and":
                if l is False or r is False: return False
                return True if l and r else None
            if l or r: return True
            return False if l is False and r is False else None
        if n.iscall() and n.f:
            r = self.result(n, f, ctx)
            return r
        return None

    def result(self, n, f, ctx, depth=0):
        """constant truth value a called function returns under the context of this call, if it always returns the same"""
        g = self.p.func(n.f)
        if g is None or len(g.blocks) > 60 or depth > 3: return None
        k = self.callee_ctx(f, n, g, ctx)
        if not k: return None
        live = self.live(g, k)
        vals = set()
        for b in live:
            t = g.blocks[b][-1]
            if t.o == "ret" and t.a:
                vals.add(self.retval(g, t.a[0], k, live, t))
        return vals.pop() if len(vals) == 1 else None

    def retval(self, g, o, k, live, at):
        n = g.inst(o)
        if n is not None and n.o == "phi":
            v = {self.decide(g, x, k, n) for x, b in zip(n.a, n.g("pb")) if b in live}
            return v.pop() if len(v) == 1 else None
        return self.decide(g, o, k, at)

    def live(self, f, ctx):
        """blocks that can be entered under the context"""
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            t = f.blocks[b][-1]
            if t.o == "br" and len(t.s) == 2:
                d = self.decide(f, t.a[0], ctx, t)
                if d is not None: st.append(t.s[0] if d else t.s[1]); continue
            if t.iscall() and t.f:   # calls that never return
                g = self.p.func(t.f)
                if g is not None and self.never_returns(f, t, g, ctx):
                    st += t.s[1:]; continue
            dead = False
            for n in f.blocks[b]:
                if n.o == "call" and n.f:
                    g = self.p.func(n.f)
                    if g is not None and self.never_returns(f, n, g, ctx): dead = True
            if dead: continue
            st += t.s
        return seen

    def never_returns(self, f, n, g, ctx):
        if not any(self.isec(g, j) for j in range(len(g.args))): return False
        k = self.callee_ctx(f, n, g, ctx)
        key = ("nr", g.name, tuple(sorted(k.items(), key=repr)))
        if key in self.memo: return self.memo[key]
        self.memo[key] = False
        live = self.live(g, k)
        self.memo[key] = not any(g.blocks[b][-1].o == "ret" for b in live)
        return self.memo[key]

    def callee_ctx(self, f, n, g, ctx):
        k = {}
        for j, o in enumerate(n.a[:len(g.args)]):
            if g.args[j]["t"] != "ptr": continue
            if self.isec(g, j):
                v = self.null(f, o, ctx, n)
                if v != "?": k[(j, None)] = v
                continue
            r, off = base_off(f, o)
            if off is None or isinstance(r, list): continue
            offs = {x for (a, x) in ctx if a == r and x is not None} | {x for a, x, _ in self.stores(f) if a == r}
            for x in offs:
                if x < off: continue
                if not self.ecoff(f, r, x, ctx): continue
                v = self.member(f, r, x, ctx, n)
                if v != "?": k[(j, x - off)] = v
        return k

    def ecoff(self, f, r, x, ctx):
        """is an error-object pointer kept at offset x of r? (only those are tracked)"""
        for a, o, s in self.stores(f):
            if a == r and o == x:
                v = s.a[0]
                if f.isarg(v) and self.isec(f, v): return True
                i = f.inst(v)
                if i is not None and i.o == "load":
                    b, o2 = base_off(f, i.a[0])
                    if (b, o2) in ctx: return True
                if const(v) == 0: return True
                if i is not None and i.o == "alloca": return True
        return f.isarg(r) and (r, x) in ctx

    # ---- throws
    def exits(self, f, ctx):
        """frozenset of (exception type, description) that can leave f under the context"""
        key = (f.name, tuple(sorted(ctx.items(), key=repr)))
        if key in self.memo: return self.memo[key]
        self.memo[key] = frozenset()
        self.onstack.add(key)
        while True:
            r = self.compute(f, ctx)
            if r == self.memo[key]: break
            self.memo[key] = r
            if self.rec:      # results of a recursive group may have used an incomplete result: compute them again
                for k in self.rec: self.memo.pop(k, None)
                self.rec = set()
        self.onstack.discard(key)
        if self.onstack: self.rec.add(key)
        return r

    def compute(self, f, ctx):
        self.visited.add(f.name)
        live = self.live(f, ctx)
        out = set()
        for b in live:
            for n in f.blocks[b]:
                if not n.iscall(): continue
                for t, why in self.raised(f, n, ctx):
                    pad = f.blocks[n.s[1]] if n.o == "invoke" else None
                    pad = next((x for x in pad if x.o == "landingpad"), None) if pad else None
                    if pad is not None and t != "*" and self.caught(t, pad): continue
                    if pad is not None and t == "*" and any(isinstance(c, list) and c[0] in ("null", "c", "zero") for c in pad.g("cl", [])): continue
                    out.add((t, why))
        return frozenset(out)

    def raised(self, f, n, ctx):
        nm = n.f
        if nm == "__cxa_throw":
            t = n.a[1][1] if len(n.a) > 1 and isinstance(n.a[1], list) and n.a[1][0] == "g" else "*"
            if not self.assertion(f, n) and not self.once(f, n): yield t, "throw in %s (%s)" % (f.q, n.where())
            return
        if nm == "__cxa_rethrow" or nm and nm.startswith("_ZSt17rethrow_exception"):
            # counts when something of ours can be caught here
            for pad in self.pads_of(f, n):
                for q in f.preds[pad.b]:
                    t = f.blocks[q][-1]
                    if t.o == "invoke" and any(self.caught(x, pad) for x, _ in self.raised(f, t, ctx)):
                        yield "*", "exception thrown on in %s (%s)" % (f.q, n.where()); return
            return
        for t in self.p.callees(n) or ():
            g = self.p.func(t)
            if self.once(f, n): continue
            if g is None:
                q = self.p.q(t) if t.startswith("_Z") else t
                if q.startswith("std::filesystem::") and q.count("::") == 2 and q.split("::")[-1] not in FS_NOTHROW and not q.split("::")[-1].startswith("operator") and "error_code" not in self.p.dem(t):
                    yield FSERR, "%s called in %s (%s)" % (q, f.q, n.where())
                continue
            yield from self.exits(g, self.callee_ctx(f, n, g, ctx))

    def once(self, f, n):
        """inside the one-time initialisation of a static object: does not depend on the operation's input"""
        for x in flow.block_facts(f, n.b):
            i = f.inst(x[1]) if isinstance(x[1], int) else None
            while i is not None and i.o in ("zext", "trunc", "icmp"): i = f.inst(i.a[0])
            if i is not None and i.f == "__cxa_guard_acquire": return True
        return False

    def pads_of(self, f, n):
        out = []
        for b in f.dom.get(n.b, ()):
            for x in f.blocks[b]:
                if x.o == "landingpad" and x.g("cl"): out.append(x)
        return out

    def assertion(self, f, n):
        """the throw reports a broken precondition: its message is built from an 'Assertion failure' text"""
        b, seen = n.b, set()
        while b not in seen:
            seen.add(b)
            for x in f.blocks[b]:
                if x.iscall():
                    for a in x.a:
                        s = self.p.cstr(a)
                        if s and ("Assertion failure in " in s or "ssertion failure" in s): return True
            ps = [q for q in f.preds[b] if q in f.dom]
            if len(ps) != 1: 
                # several constant texts joined: look further up only through straight code
                return False
            t = f.blocks[ps[0]][-1]
            if t.o != "invoke" and len(t.s) > 1:
                return False
            b = ps[0]
        return False
