"""Forward tracking of values that may be 'missing' (null pointer, -1, end position): every use that needs the value
to be present must be dominated by a test that excludes the missing case."""
from . import flow
from .ir import const, isnull, base_off

CASTS = ("bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint")
# calls that accept a null pointer
TOLERANT = {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "llvm.dbg.value", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.assume"}


class Missing:
    def __init__(self, p, sentinel=0):
        self.p, self.s = p, sentinel
        self.memo = {}
    def present(self, f, v, b, extra=()):
        """is the missing case of v excluded on every entry to block b?"""
        for pr, x, y, n in list(flow.block_facts(f, b)) + list(extra):
            for q, u, w in ((pr, x, y), (flow.SWAP.get(pr), y, x)):
                if u != v or w is None: continue
                c = const(w)
                if c is None: continue
                if self.s == 0:
                    if (q == "ne" and c == 0) or (q == "eq" and c != 0) or (q == "ugt" and c >= 0): return True
                else:
                    if (q == "ne" and c == -1) or (q == "eq" and c != -1) or (q == "sgt" and c >= -1) or (q == "sge" and c >= 0): return True
        return False
    def uses(self, f, v, depth=0, seen=None, extra=()):
        """(instruction, reason) for uses of v that need it to be present but are not dominated by a test"""
        seen = seen if seen is not None else set()
        if (f.name, v) in seen or depth > 12: return
        seen.add((f.name, v))
        for n in f.uses.get(v, ()):
            if n.o == "icmp": continue
            if n.o == "phi":
                for x, pb in zip(n.a, n.g("pb")):
                    if x == v:
                        ef = flow.edge_facts(f, pb, n.b) if len(f.succs(pb)) > 1 else []
                        if not self.present(f, v, pb, ef): yield from self.uses(f, n.i, depth + 1, seen); break
                continue
            if n.o == "select":
                fl = []
                if n.a[1] == v: flow.facts_of(f, n.a[0], True, fl)
                elif n.a[2] == v: flow.facts_of(f, n.a[0], False, fl)
                if not self.present(f, v, n.b, fl): yield from self.uses(f, n.i, depth + 1, seen)
                continue
            if n.o == "br" or n.o == "switch": continue
            if self.present(f, v, n.b): continue
            if n.o in CASTS or n.o in ("sext", "zext", "trunc"):
                yield from self.uses(f, n.i, depth + 1, seen); continue
            if n.o == "getelementptr":
                if self.s == 0 and n.a[0] == v: yield from self.uses(f, n.i, depth + 1, seen)
                elif self.s != 0: yield n, "indexes memory"
                continue
            if n.o == "load": yield n, "is dereferenced"; continue
            if n.o == "store":
                if n.a[1] == v: yield n, "is dereferenced"; continue
                # spilled to a local: follow its loads
                al = f.inst(n.a[1])
                if al is not None and al.o == "alloca":
                    for u in f.uses.get(al.i, ()):
                        if u.o == "load": yield from self.uses(f, u.i, depth + 1, seen)
                continue
            if n.o == "ret":
                for c in self.p.callers().get(f.name, ()):
                    if c.f and not self.present(c.fn, c.i, c.b): yield from self.uses(c.fn, c.i, depth + 1, seen)
                continue
            if n.iscall():
                if n.f in TOLERANT or (n.f or "").startswith("llvm.dbg"): continue
                if self.s != 0 and n.f and n.f.startswith("llvm."):
                    yield from self.uses(f, n.i, depth + 1, seen); continue
                g = self.p.func(n.f) if n.f else None
                hit = [k for k, o in enumerate(n.a) if o == v]
                if g is not None and hit and (self.p.inrepo(g) or g.q.startswith(('std::unique_ptr', 'std::__uniq_ptr', 'std::tuple', 'std::_Tuple', 'std::_Head'))):
                    for k in hit:
                        if k < len(g.args) and depth < 8: yield from self.uses(g, k, depth + 1, seen)
                    continue
                yield n, "is passed to " + (self.p.dem(n.f) if n.f else "an unknown function")
                continue
            if n.o in ("add", "sub", "mul", "or", "and") and self.s != 0:
                yield from self.uses(f, n.i, depth + 1, seen)
