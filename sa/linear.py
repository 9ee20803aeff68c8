"""Linear reasoning about positions in texts: proves 0 <= pos <= size(text) from dominating tests,
search results that were compared with npos, minima/maxima and loop invariants."""
from . import flow
from .ir import const, base_off

SIZE = {"size", "length"}
FIND = {"find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"}
STR = ("std::__cxx11::basic_string", "std::basic_string_view", "std::basic_string")


class Lin:
    def __init__(self, p):
        self.p = p
        self.leaf = {}
    def member(self, n):
        """(method, object) if n is a call of a std::string / string_view member"""
        if not n.iscall() or not n.f: return None, None
        q = self.leaf.get(n.f)
        if q is None:
            full = self.p.q(n.f)
            q = self.leaf[n.f] = full.split("::")[-1] if full.startswith(STR) else ""
        if not q: return None, None
        a = n.a[1:] if n.g("sret") else n.a
        return q, (self.obj(n.fn, a[0]) if a else None)
    def obj(self, f, o):
        r, off = base_off(f, o)
        n = f.inst(r)
        if n is not None and n.o == "load":
            return ("*", self.obj(f, n.a[0]), off)
        # a by-value string_view copied into a temporary: same text as its source
        return (repr(r), off)
    def lin(self, f, o, depth=0):
        """operand as {atom: coefficient}, constant; atoms are ('size', object) or value ids"""
        c = const(o)
        if c is not None: return {}, c
        n = f.inst(o)
        if n is None or depth > 24: return {("v", o if not isinstance(o, list) else repr(o)): 1}, 0
        if n.o in ("zext", "sext", "trunc", "freeze"): return self.lin(f, n.a[0], depth + 1)
        if n.o in ("add", "sub") or (n.o == "or" and n.r.get("disjoint")):
            a, ac = self.lin(f, n.a[0], depth + 1); b, bc = self.lin(f, n.a[1], depth + 1)
            s = -1 if n.o == "sub" else 1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
                if r[k] == 0: del r[k]
            return r, ac + s * bc
        if n.o == "mul" and const(n.a[1]) is not None:
            a, ac = self.lin(f, n.a[0], depth + 1)
            return {k: v * const(n.a[1]) for k, v in a.items()}, ac * const(n.a[1])
        if n.o == "load":
            v = self.stored(f, n)
            if v is not None: return self.lin(f, v, depth + 1)
        m, ob = self.member(n)
        if m in SIZE: return {("size", ob): 1}, 0
        return {("v", o): 1}, 0
    def stored(self, f, n):
        """the value a load of a local variable yields, if one store decides it (variables captured by reference)"""
        al = f.inst(n.a[0])
        if al is None or al.o != "alloca": return None
        st = [x for x in f.uses.get(al.i, []) if x.o == "store" and x.a[1] == al.i]
        best = None
        for x in st:
            if f.dominates(x, n) and (best is None or f.dominates(best, x)): best = x
        if best is None: return None
        for x in st:
            if x is best: continue
            # may x overwrite between best and n?
            seen, work = set(), list(f.succs(x.b)) if x.b != n.b or x.k > n.k else [n.b]
            if x.b == n.b and x.k < n.k and x.k > (best.k if best.b == n.b else -1): return None
            while work:
                b = work.pop()
                if b in seen: continue
                seen.add(b)
                if b == best.b: continue
                work += f.succs(b)
            if n.b in seen and n.b != best.b: return None
        return best.a[0]
    def const_len(self, n, k):
        a = n.a[1:] if n.g("sret") else n.a
        if len(a) <= k: return None
        s = self.p.cstr(a[k])
        return len(s) if s is not None else None
    def facts(self, f, b, extra=()):
        """list of linear expressions known to be >= 0 on entry to block b"""
        out, nonneg = [], set()
        raw = list(flow.block_facts(f, b)) + list(extra)
        for pr, x, y, n in raw:
            if pr in ("eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"):
                # search result compared with npos
                for u, w in ((x, y), (y, x)):
                    if const(w) is None: continue
                    lu, cu = self.lin(f, u)
                    if len(lu) == 1 and const(w) - cu == -1 and (pr == "ne" or (pr in ("ult", "sgt") and u is x)):
                        (t, k1), = lu.items()
                        r = f.inst(t[1]) if t[0] == "v" and isinstance(t[1], int) else None
                        if r is not None and k1 == 1: out += self.found(f, r)
                if pr == "ne":
                    for u, w in ((x, y), (y, x)):
                        if const(w) == 0:
                            l, c = self.lin(f, u)
                            if len(l) == 1: out.append((l, c - 1))
                    # character of a text compared unequal to 0 / equal to non-zero
                if pr == "eq":
                    for u, w in ((x, y), (y, x)):
                        cw = const(w)
                        if cw not in (None, 0):
                            i = f.inst(u)
                            while i is not None and i.o in ("sext", "zext", "trunc"): i = f.inst(i.a[0])
                            if i is not None and i.o == "load":
                                j = f.inst(i.a[0])
                                if j is not None:
                                    m, ob = self.member(j)
                                    if m in ("operator[]", "at", "front", "back"):
                                        if m in ("operator[]", "at"):
                                            l, c = self.lin(f, j.a[1])
                                        else: l, c = {}, 0
                                        d = dict((k, -v) for k, v in l.items()); d[("size", ob)] = d.get(("size", ob), 0) + 1
                                        out.append((d, -c - 1))
                    if const(y) == 0 and n.o == "icmp":
                        pass
                a, ac = self.lin(f, x); bb, bc = self.lin(f, y)
                def diff(p_, pc, q_, qc, k):
                    d = dict(p_)
                    for kk, v in q_.items():
                        d[kk] = d.get(kk, 0) - v
                        if d[kk] == 0: del d[kk]
                    return d, pc - qc - k
                if pr in ("ugt", "sgt"): out.append(diff(a, ac, bb, bc, 1))
                if pr in ("uge", "sge"): out.append(diff(a, ac, bb, bc, 0))
                if pr in ("ult", "slt"): out.append(diff(bb, bc, a, ac, 1))
                if pr in ("ule", "sle"): out.append(diff(bb, bc, a, ac, 0))
                if pr == "eq": out.append(diff(a, ac, bb, bc, 0)); out.append(diff(bb, bc, a, ac, 0))
            elif pr in ("true", "false"):
                i = f.inst(x)
                if i is not None and i.iscall():
                    m, ob = self.member(i)
                    if m == "empty" and pr == "false": out.append(({("size", ob): 1}, -1))
                    if i.f and pr == "true":
                        q = self.p.q(i.f)
                        if q in ("xo::str_begins_with", "xo::str_ends_with") and i.a:
                            ob = self.obj(f, i.a[0])
                            d = self.p.dem(i.f)
                            if d.endswith("char)"): out.append(({("size", ob): 1}, -1))
                            else:
                                out.append(({("size", ob): 1, ("size", self.obj(f, i.a[1])): -1}, 0))
        return out
    def search(self, n):
        """(method, object) if n is a text search, also through a function that only returns search results"""
        m, ob = self.member(n)
        if m in FIND: return m, ob
        if n.iscall() and n.f:
            g = self.p.func(n.f)
            if g is not None and self.p.inrepo(g) and g.r["ret"] == "i64" and len(g.blocks) < 12:
                offs = set()
                for x in g.insts():
                    if x.o == "ret":
                        vs = [x.a[0]]; seen = set()
                        while vs:
                            v = vs.pop()
                            if const(v) == -1: continue
                            i = g.inst(v)
                            if i is None or i.i in seen:
                                if i is None: return None, None
                                continue
                            seen.add(i.i)
                            if i.o == "phi": vs += i.a; continue
                            if i.o == "select": vs += i.a[1:]; continue
                            mm, o2 = self.member(i)
                            if mm not in FIND or not (isinstance(o2, tuple) and len(o2) == 2 and o2[0].isdigit() and g.isarg(int(o2[0]))): return None, None
                            offs.add(o2)
                if len(offs) == 1:
                    a, off = offs.pop()
                    base = self.obj(n.fn, n.a[int(a)])
                    if len(base) == 2 and base[1] is not None and off is not None: return "find_first_of*", (base[0], base[1] + off)
        return None, None
    def found(self, f, r):
        """facts implied by search result r being a position"""
        m, ob = self.search(r)
        if m == "find_first_of*":
            return [({("size", ob): 1, ("v", r.i): -1}, -1), ({("v", r.i): 1}, 0)]
        if m in FIND:
            L = 1
            if m in ("find", "rfind"):
                a = r.a
                l = self.const_len(r, 1)
                if l is not None and self.p.dem(r.f).find("(char const*") >= 0: L = max(l, 0)
                elif "char, unsigned long" in self.p.dem(r.f).split("basic_string")[-1]: L = 1
                else: L = 0
            out = [({("size", ob): 1, ("v", r.i): -1}, -L), ({("v", r.i): 1}, 0)]
            # a forward search never returns a position before its start
            if m in ("find", "find_first_of", "find_first_not_of") and len(r.a) > 2:
                l, c = self.lin(f, r.a[2])
                d = {k: -v for k, v in l.items()}; d[("v", r.i)] = d.get(("v", r.i), 0) + 1
                out.append((d, -c))
            return out
        if r.o == "phi":
            # loop variable holding search results: every incoming value is a search on the same text
            obs = set(); others = 0
            for v in r.a:
                i = f.inst(v)
                mm, o2 = self.search(i) if i is not None else (None, None)
                if mm in FIND or mm == "find_first_of*": obs.add(o2)
                elif v == r.i: pass
                else: others += 1
            if len(obs) == 1 and not others:
                return [({("size", obs.pop()): 1, ("v", r.i): -1}, -min(self.found_len(f, v) for v in r.a if v != r.i)), ({("v", r.i): 1}, 0)]
        return []
    def found_len(self, f, v):
        fs = self.found(f, f.inst(v))
        return -fs[0][1] if fs else 0
    def prove(self, f, e, b, extra=(), depth=0, busy=()):
        """is the linear expression e = (terms, constant) >= 0 on every entry to block b?"""
        terms, c = e
        if not terms: return c >= 0
        F = self.facts(f, b, extra)
        for t in list(terms):
            if t[0] == "size": F.append(({t: 1}, 0))
        # atoms occurring in facts: sizes are non-negative
        for l, _ in list(F):
            for t in l:
                if t[0] == "size": F.append(({t: 1}, 0))
        if self.combine(e, F, 3): return True
        if depth > 5: return False
        # case splits: select / phi / min / max
        for t in list(terms):
            if t[0] != "v" or t in busy: continue
            n = f.inst(t[1]) if isinstance(t[1], int) else None
            if n is None: continue
            def subst(v, at, ex, bz=busy):
                l, k = self.lin(f, v)
                d = {a: w for a, w in terms.items() if a != t}
                for a, w in l.items():
                    d[a] = d.get(a, 0) + w * terms[t]
                    if d[a] == 0: del d[a]
                return self.prove(f, (d, c + k * terms[t]), at, ex, depth + 1, bz)
            nm = (n.f or "") if n.iscall() else ""
            # a search either found a position or returned npos
            if n.iscall() and self.search(n)[0] and terms[t] in (1, -1):
                d = {a: w for a, w in terms.items() if a != t}
                if self.prove(f, (d, c - terms[t]), b, extra, depth + 1, busy + (t,)) and self.prove(f, e, b, Hyp(extra, self.found(f, n)), depth + 1, busy + (t,)): return True
            if nm.startswith(("llvm.umin", "llvm.smin")):
                if terms[t] < 0 and any(subst(v, b, extra) for v in n.a): return True
                if terms[t] > 0 and all(subst(v, b, extra) for v in n.a): return True
            if nm.startswith(("llvm.umax", "llvm.smax")):
                if terms[t] > 0 and any(subst(v, b, extra) for v in n.a): return True
                if terms[t] < 0 and all(subst(v, b, extra) for v in n.a): return True
            if n.o == "select":
                ok = True
                for v, truth in ((n.a[1], True), (n.a[2], False)):
                    ex = Hyp(extra, []); flow.facts_of(f, n.a[0], truth, ex)
                    if not subst(v, b, ex): ok = False; break
                if ok: return True
            if n.o == "phi":
                # induction: assume e for the phi itself on back edges (only when e's other terms do not change in the loop)
                ok = True
                for v, pb in zip(n.a, n.g("pb")):
                    if v == n.i: continue
                    ex = flow.edge_facts(f, pb, n.b) if len(f.succs(pb)) > 1 else []
                    l, k = self.lin(f, v)
                    d = {a: w for a, w in terms.items() if a != t}
                    for a, w in l.items():
                        d[a] = d.get(a, 0) + w * terms[t]
                        if d[a] == 0: del d[a]
                    if not self.prove(f, (d, c + k * terms[t]), pb, Hyp(ex, [e]), depth + 1, busy + (t,)): ok = False; break
                if ok: return True
        return False
    def combine(self, e, F, n):
        """e as a non-negative combination (sum of at most n facts plus a non-negative constant)"""
        terms, c = e
        if not terms: return c >= 0
        if n == 0: return False
        seen = 0
        for l, k in F:
            # the fact must cancel at least one term of e
            if not any(t in terms and terms[t] * w > 0 for t, w in l.items()): continue
            d = dict(terms)
            for t, w in l.items():
                d[t] = d.get(t, 0) - w
                if d[t] == 0: del d[t]
            if sum(abs(x) for x in d.values()) > sum(abs(x) for x in terms.values()) + 1: continue
            if self.combine((d, c - k), F, n - 1): return True
        return False


class Hyp(list):
    """extra branch facts plus linear hypotheses"""
    def __init__(self, facts, hyp):
        super().__init__(facts); self.hyp = list(getattr(facts, "hyp", [])) + hyp


_old = Lin.facts
def _facts(self, f, b, extra=()):
    out = _old(self, f, b, list(extra))
    if isinstance(extra, Hyp): out += extra.hyp
    return out
Lin.facts = _facts
