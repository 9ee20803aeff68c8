"""Lockset analysis of shared variables: every variable that is changed after initialisation must have one lock that is held
at every access (exclusively at changes), unless it is atomic, constant or thread-local."""
import re
from . import ir, locks
from .ir import base_off

SYNC = re.compile(r"std::(atomic|mutex|shared_mutex|recursive_mutex|timed_mutex|condition_variable|once_flag|shared_timed_mutex|atomic_bool)\b")


def fname(p, g): return p.globals[g]["dem"].replace("[abi:cxx11]", "")


class Sharing:
    def __init__(self, p):
        self.p, self.L = p, locks.Locks(p)
    def common(self, ev):
        """the locks that protect all events [(f, n, rw, how)]: (set of keys, first event that breaks the protection)"""
        keys, bad = None, None
        for f, n, rw, how in ev:
            h = self.held(f, n)
            ok = {k for k, mode, _ in h if rw == "r" or mode == "x"}
            new = ok if keys is None else keys & ok
            if not new and bad is None: bad = (f, n, rw, how, h)
            keys = new
        return keys or set(), bad
    def held(self, f, n): return self.L.states(f)[n.i] if n.i in self.L.states(f) else frozenset()

    # ---- globals
    def global_vars(self):
        for g, d in sorted(self.p.globals.items()):
            if d.get("decl") or d.get("tls") or d.get("const") or "dn" not in d or not d.get("file", "").startswith(ir.facts.REPO + "/xo/"): continue
            t = self.p.typename(d["dt"]) if d.get("dt", -1) is not None else ""
            yield g, d, t
    def global_events(self, names):
        """global -> events outside its own initialisation; plus escapes by return"""
        ev, esc = {g: [] for g in names}, {g: [] for g in names}
        def roots(f, r, off):
            if isinstance(r, list) and r and r[0] == "g" and r[1] in ev: return r[1]
            return None
        for f in self.p.funcs.values():
            if "__cxx_global" in f.name or f.name.startswith("_GLOBAL__"): continue
            txt = [n for n in f.insts() if any(refs(o, ev) for o in n.a)]
            if not txt: continue
            for n, v, rw, how in self.L.accesses(f, roots):
                if self.initialising(f, n, v): continue
                if n.iscall() and n.f in ("__cxa_atexit",): continue
                ev[v].append((f, n, rw, how))
            D, H, addr = self.L.derived(f, roots)
            for n in f.insts():
                if n.o == "ret" and n.a:
                    x = addr(n.a[0])
                    if x and x[1] == 0: esc[x[0]].append((f, n))
        return ev, esc
    def initialising(self, f, n, g):
        """between the guard of a function-local static and its release"""
        gv = "_ZGV" + g[2:]
        for b in f.dom.get(n.b, ()):
            for x in f.blocks[b]:
                if x.iscall() and x.f == "__cxa_guard_acquire" and base_off(f, x.a[0])[0] == ["g", gv]:
                    rel = [y for y in f.calls() if y.f == "__cxa_guard_release" and base_off(f, y.a[0])[0] == ["g", gv]]
                    # n is on the initialising side: it can still reach the release or the abort
                    fin = {y.b for y in rel} | {y.b for y in f.calls() if y.f == "__cxa_guard_abort"}
                    if x.f and f.reach(n.b) & fin and not (n.b in {y.b for y in rel} and any(y.b == n.b and y.k < n.k for y in rel)): return True
        return False

    # ---- members
    def methods(self, cls):
        out = []
        for f in self.p.repo_funcs():
            if f.this is None: continue
            t = self.p.pointee(f.args[f.this]["dv"][0][1])
            if t is None: continue
            nm = self.p.typename(t)
            if re.sub(r"<.*", "", nm) == cls or nm == cls: out.append((f, t))
        return out
    def ctor(self, f, cls):
        n = f.q.split("::")[-1]; c = cls.split("<")[0].split("::")[-1]
        return n == c or n == "~" + c
    def member(self, t, off):
        m = self.p.member_at(t, off)
        return m.split(".")[-1] if m else None
    def fields(self, t):
        """(name, offset, type name) including bases"""
        for nm, o, mt, kind in self.p.types[self.p.strip(t)].get("members", []):
            if kind == "b": yield from ((a, o + b, c) for a, b, c in self.fields(mt))
            elif kind != "e" and nm and not nm.startswith("_vptr"): yield nm, o, self.p.typename(mt)
    def member_events(self, f, t, skip=()):
        """(variable name, event) in one method; variables are members, '*m' is what a reference or pointer member refers to"""
        ty = {nm: tn for nm, o, tn in self.fields(t)}
        def roots(g, r, off):
            if r is not None and r == f.this and off is not None:
                m = self.member(t, off)
                if m and not m.startswith("_vptr") and not SYNC.search(ty.get(m, "")): return m
            n = g.inst(r)
            if n is not None and n.o == "load":
                b, o = base_off(g, n.a[0])
                if b is not None and b == f.this and o is not None:
                    m = self.member(t, o)
                    if m and ty.get(m, "").endswith("&") : return "*" + m
            return None
        for n, v, rw, how in self.L.accesses(f, roots):
            yield v, (f, n, rw, how)


def refs(o, ev):
    if isinstance(o, list) and o:
        if o[0] == "g": return o[1] in ev
        return any(refs(x, ev) for x in o[1:] if isinstance(x, list))
    return False
