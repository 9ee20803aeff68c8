"""Exceptions in the interpreter: handlers are selected by the type of the exception and its base classes, the caught object is the one that was thrown, and `throw;` throws the innermost caught exception again."""
from . import strdom, throws
from .absint import Thrown, P

class ExcEngine(strdom.StrEngine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.tids, self.caught, self.guards = {}, [], set()
        self.th = throws.Throws(self.p, None)
    def tid(self, t): return self.tids.setdefault(t, len(self.tids) + 1)
    def selector(self, n):
        for cl in n.g("cl", []):
            if not isinstance(cl, list): continue
            if cl[0] in ("null", "c", "zero"): return self.tid("...")
            if cl[0] == "g" and (cl[1] == self.exc[0] or cl[1] in self.th.bases(self.exc[0])): return self.tid(cl[1])
        if not n.g("cleanup"): raise Thrown(*self.exc)
        return 0
    def docall(self, f, n, env):
        nm = n.f and self.p.alias.get(n.f, n.f)
        if nm == "__cxa_guard_acquire":
            g = self.val(env, n.a[0]); k = (id(g.o), g.off)
            new = k not in self.guards; self.guards.add(k); return int(new)
        if nm == "__cxa_throw": raise Thrown(n.a[1][1], self.val(env, n.a[0]))
        if nm == "__cxa_rethrow":
            if not self.caught: raise Thrown("rethrow without exception")
            raise Thrown(*self.caught[-1])
        if nm == "__cxa_begin_catch":
            self.caught.append(self.exc)
            return self.exc[1] if self.exc[1] is not None else P(self.obj("caught", "sym"))
        if nm == "__cxa_end_catch":
            if self.caught: self.caught.pop()
            return None
        if nm and nm.startswith("llvm.eh.typeid.for"): return self.tid(n.a[0][1])
        return super().docall(f, n, env)
