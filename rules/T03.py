"""T03: every access to the state behind a stop source, a stop token or an interruptible object is atomic (constructors aside); requesting stores true on every path and nothing else ever changes the state; testing returns the state and changes nothing; a token shares the state of the source it was taken from."""
TECHNIQUE = "abstract interpretation of the flag operations' IR on unknown objects (all cases), recording the atomicity, address and value of every memory access; lockset analysis of the members of all classes of the thread module"
NOTE = "Decides all member functions of the flag classes; what a program does between polls (how soon it reacts) is out of scope."
from sa import ir, absint, sharing
from sa.absint import P, UNDEF
from sa.report import Check
from sa.facts import AnalysisError

class Eng(absint.Engine):
    """records accesses to unknown memory and executes atomic read-modify-writes"""
    def inst(self, f, n, env):
        if n.o in ("load", "store") and self.recording:
            p = self.val(env, n.a[0 if n.o == "load" else 1])
            if isinstance(p, P) and p.o.kind in ("sym", "heap"):
                self.events.append((n.o, p.o, p.off, bool(n.g("atomic")), self.val(env, n.a[0]) if n.o == "store" else None, n))
        if n.o == "atomicrmw":
            p, v = self.val(env, n.a[0]), self.val(env, n.a[1])
            old = self.load(p, n.t)
            op = n.g("op") or n.g("p") or n.g("rmw")
            if self.recording: self.events.append(("rmw", p.o, p.off, True, (op, v), n))
            new = v if op == "xchg" else self.binop(op, n.t, old, v) if op in ("add", "sub", "and", "or", "xor") else self.term("rmw", n.t, old, v)
            self.store(p, new, n.t); env[n.i] = old
            return None
        if n.o == "cmpxchg":
            p, e, v = [self.val(env, a) for a in n.a[:3]]
            t = n.g("vt") or "i8"
            old = self.load(p, t)
            ok = self.cmp("eq", old, e)
            if self.recording: self.events.append(("rmw", p.o, p.off, True, ("cmpxchg", v if ok else None), n))
            if ok: self.store(p, v, t)
            env[n.i] = (old, ok)
            return None
        return super().inst(f, n, env)
    recording = True

def new(E, f, n, a):
    return P(E.obj("heap%d" % E.n, "undef"))
MODELS = {"_Znwm": new, "_ZdlPv": lambda *a: None, "_ZdlPvm": lambda *a: None, "__libc_single_threaded": lambda *a: 0}

def bit(x): return x & 1 if isinstance(x, int) else x

def state_events(E, states):
    return [e for e in E.events if e[1] in states]

def run():
    c = Check("T03", "Requests store true atomically to the state of the source and nothing else stores to it; tests read it atomically, return it, and write nothing; a token refers to the state of its source")
    p = ir.prog(tus=("flags",), units=["xo/thread/interruptible.cpp"])
    cases = 0
    def each(name, body, key, what):
        """body(E) -> problem text or None, for every case"""
        nonlocal cases
        bad, k = None, 0
        for r, E in absint.explore(p, lambda E: safe(body, E), MODELS, engine=Eng):
            k += 1
            if r and not bad: bad = r
        cases += k
        f = p.func(name)
        if f is None: raise AnalysisError("no function " + name)
        if k == 0: bad = "never returns"
        c.bad(key, bad) if bad else c.ok(key, "%s (%d cases)" % (what, k))
    def safe(body, E):
        try: return body(E)
        except absint.Thrown as e: return "throws " + e.ty
    def state_of(E, kind, s):
        """(object, offset) of the flag behind s"""
        if kind == "int": return s.o, None
        o = E.syms.get("*%s.0" % s.o.name)
        return o, 0
    def check_access(E, s, kind, writes):
        """problems with the recorded accesses to the state"""
        st, off = state_of(E, kind, s)
        w = []
        for o, ob, of, at, v, n in E.events:
            if ob is s.o and kind != "int":
                if o != "load": return "%s: writes the reference to the state" % n.where()
                continue
            if ob.name.startswith("*%s." % s.o.name) and ob is not st: continue     # reference counts
            if ob is not st: continue
            if kind == "int" and of == 0 and o == "load": continue                  # vtable pointer
            if not at: return "%s: the flag is %s without an atomic operation" % (n.where(), "read" if o == "load" else "written")
            if o in ("store", "rmw"): w.append((o, v, n))
        if writes is False and w: return "%s: changes the flag" % w[0][2].where()
        return None
    def value(E, s, kind):
        st, off = state_of(E, kind, s)
        if st is None: return None
        offs = {of for o, ob, of, at, v, n in E.events if ob is st and not (kind == "int" and of == 0)}
        if len(offs) != 1: return None
        return E.load(P(st, offs.pop()), "i8")

    # requests
    for kind, fn, txt in (("src", "src_request", "stop_source::request_stop"), ("int", "int_set", "interruptible::interrupt")):
        def body(E, kind=kind, fn=fn):
            s = E.sym("s"); E.call(fn, [s])
            b = check_access(E, s, kind, True)
            if b: return b
            v = value(E, s, kind)
            if v is None: return "a path does not store the request"
            if not isinstance(v, int) and v is not UNDEF and (cmpflag(E, v, 1) or E.bools.get(E.term("trunc", "i1", v)) == 1): return None      # known to be set already
            return None if bit(v) == 1 else "a path leaves the flag %s" % ("cleared" if v == 0 else "unchanged")
        each(fn, body, txt, "stores true atomically on every path")
    # tests
    for kind, fn, txt in (("src", "src_test", "stop_source::stop_requested"), ("tok", "tok_test", "stop_token::stop_requested"), ("int", "int_test", "interruptible::test_interrupt_flag")):
        def body(E, kind=kind, fn=fn):
            s = E.sym("s"); r = P(E.obj("r"))
            E.call(fn, [s, r])
            b = check_access(E, s, kind, False)
            if b: return b
            got = E.load(r, "i8")
            st, off = state_of(E, kind, s)
            if kind != "int" and E.bools.get(("null", st.name if st else "")): return None if bit(got) == 0 else "reports a request without a state"
            E.recording = False
            cur = value(E, s, kind)
            if cur is None: return "the result does not depend on the flag"
            want = E.bool(E.term("trunc", "i1", cur)) if not isinstance(cur, int) else bit(cur)
            g = got if isinstance(got, int) else None
            if g is None:
                if got == cur or got == ("b2i", E.term("trunc", "i1", cur), 1): return None
                if isinstance(got, tuple) and got[0] == "b2i": g = E.bool(got[1])
                else: return "the result is not the flag"
            return None if bit(g) == want or cmpflag(E, cur, bit(g)) else "the result is not the flag"
        each(fn, body, txt, "returns the flag, changes nothing")
    # a token refers to its source's state
    def tok(E):
        s = E.sym("s"); t = P(E.obj("t"))
        E.call("src_token", [s, t])
        b = check_access(E, s, "src", False)
        if b: return b
        x = E.load(t, "ptr")
        return None if isinstance(x, P) and x.o is E.syms.get("*s.0") and x.off == 0 else "the token does not refer to the state of the source"
    each("src_token", tok, "stop_source::get_token", "shares the state of the source")
    def notok(E):
        t = P(E.obj("t")); E.call("tok_make", [t]); r = P(E.obj("r")); E.call("tok_test", [t, r])
        return None if bit(E.load(r, "i8")) == 0 else "a token without source reports a request"
    each("tok_make", notok, "stop_token()", "a token without source never reports a request")
    # initial states
    def made(E):
        s = P(E.obj("src")); E.call("src_make", [s]); r = P(E.obj("r")); E.call("src_test", [s, r])
        return None if bit(E.load(r, "i8")) == 0 else "a new source is already stopped"
    each("src_make", made, "stop_source()", "starts without a request")
    def imade(E):
        s = P(E.obj("obj")); E.call("int_make", [s]); r = P(E.obj("r")); E.call("int_test", [s, r])
        return None if bit(E.load(r, "i8")) == 0 else "a new object is already interrupted"
    each("int_make", imade, "interruptible()", "starts without a request")
    # every other member function of the classes of the module leaves the flags alone and accesses members safely
    S = sharing.Sharing(p)
    n = 0
    for f in p.repo_funcs():
        if f.this is None or "/xo/thread/" not in f.file: continue
        t = p.pointee(f.args[f.this]["dv"][0][1])
        if t is None: continue
        cls = p.typename(t)
        if S.ctor(f, cls) or f.q.split("::")[-1].startswith("operator="): continue
        n += 1
        w = [e for v, e in S.member_events(f, t) if e[2] == "w" and not S.held(f, e[1])]
        if w: c.bad("%s writes members" % f.q, "%s: a member that another thread may read is written without an atomic operation or lock" % w[0][1].where())
        else: c.ok("%s writes members" % f.q, "only atomic state is changed")
    c.floor("member functions", n, 4)
    # what a token can do is part of its type
    from sa.tree import tree
    T = tree(units=["xo/thread/interruptible.cpp"], tus=("flags",))
    for r in T.recs_repo():
        if "/xo/thread/" not in r["file"]: continue
        pub = [m["n"] for m in r["fields"] if m["acc"] == 0]
        for m in pub if r["q"] in ("xo::stop_token", "xo::stop_source", "xo::interruptible") else (): c.bad("%s::%s" % (r["q"], m), "the state is public")
    c.cover(cases=cases, methods=n)
    c.finish()

def cmpflag(E, cur, g):
    """the case decided that the flag compares (un)equal to zero"""
    k = E.ord["s"].known(cur, 0) or E.ord["u"].known(cur, 0)
    return k is not None and g == int(k != "=")
