"""Locks on LLVM IR: which mutexes are held at each point (must and may), which shared variables are touched there, and
what a call may acquire.  Shared variables are globals or members of the current object; values derived from them
(iterators, element pointers) count as accesses to them."""
import re
from . import ir, facts
from .ir import base_off

GUARD = {"std::lock_guard": "x", "std::unique_lock": "x", "std::scoped_lock": "x", "std::shared_lock": "s"}
MTX = re.compile(r"^std::(shared_|recursive_|timed_|recursive_timed_|shared_timed_)?mutex$")
READS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "equal_range", "size", "empty", "at", "front", "back", "data", "get", "operator*", "operator->", "operator bool", "operator_bool", "operator==", "operator!=",
         "base", "count", "contains", "load", "c_str", "good", "is_open", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count_if", "for_each", "equal", "distance", "make_tuple", "make_pair", "addressof", "forward", "move", "__addressof", "cref", "ref"}


def params(dem):
    """parameter types of a demangled function name"""
    i = dem.rfind(")")
    d, j = 0, i
    while j >= 0:
        if dem[j] == ")": d += 1
        if dem[j] == "(":
            d -= 1
            if d == 0: break
        j -= 1
    s, out, d, cur = dem[j + 1:i], [], 0, ""
    for ch in s:
        if ch in "<([{": d += 1
        if ch in ">)]}": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


class Locks:
    def __init__(self, p):
        self.p, self.hold, self.may, self.acq = p, {}, {}, None

    # ---- lock operations
    def mkey(self, f, o):
        r, off = base_off(f, o)
        if isinstance(r, list): return ("g", r[1] if len(r) > 1 else "?", off)
        if r is not None and r == f.this: return ("this", off)
        return ("v", r, off)
    def op(self, n):
        """(kind, holder, mutex keys, mode): kind in acquire/bind/release/lock/unlock/move"""
        q = self.p.q(n.f) if n.f else ""
        for g, mode in GUARD.items():
            if not q.startswith(g + "::"): continue
            m = q[len(g) + 2:]
            h = base_off(n.fn, n.a[0])[0]
            if m == g.split("::")[1]:
                ps = params(self.p.dem(n.f))
                if ps and ps[0].endswith("&&"): return ("move", h, [base_off(n.fn, n.a[1])[0]], mode)
                tags = [x for x in ps if "defer_lock" in x or "try_to_lock" in x]
                ks = [self.mkey(n.fn, a) for a, t in zip(n.a[1:], ps) if "mutex" in t]
                return ("bind" if tags or not ks else "acquire", h, ks, mode)
            if m.startswith("~"): return ("release", h, [], mode)
            if m in ("lock", "unlock"): return (m, h, [], mode)
            return None
        c, _, m = q.rpartition("::")
        if MTX.match(c) and m in ("lock", "unlock", "lock_shared", "unlock_shared"):
            k = self.mkey(n.fn, n.a[0])
            return ("rawlock" if m.startswith("lock") else "rawunlock", None, [k], "s" if m.endswith("shared") else "x")
        return None
    def bind(self, f):
        b = {}
        for n in f.calls():
            o = self.op(n)
            if o and o[0] in ("acquire", "bind"): b[o[1]] = (o[2], o[3])
        for n in f.calls():
            o = self.op(n)
            if o and o[0] == "move" and o[2][0] in b: b[o[1]] = b[o[2][0]]
        return b

    def step(self, f, n, st, b, normal=True):
        """state = frozenset of (key, mode, holder)"""
        if not n.iscall(): return st
        o = self.op(n)
        if not o: return st
        k, h, ks, mode = o
        if k == "acquire" and normal: return st | {(x, mode, h) for x in ks}
        if k == "lock" and normal and h in b: return st | {(x, b[h][1], h) for x in b[h][0]}
        if k in ("release", "unlock"): return frozenset(x for x in st if x[2] != h)
        if k == "move":
            return frozenset((x[0], x[1], h) if x[2] == o[2][0] else x for x in st)
        if k == "rawlock" and normal: return st | {(x, mode, "raw") for x in ks}
        if k == "rawunlock": return frozenset(x for x in st if not (x[2] == "raw" and x[0] in ks))
        return st

    def states(self, f, must=True):
        """inst id -> locks held just before it"""
        c = self.hold if must else self.may
        if f.name in c: return c[f.name]
        b = self.bind(f)
        inn = {0: frozenset()}
        work = [0]; out = {}
        while work:
            x = work.pop()
            st = inn[x]
            for n in f.blocks[x]:
                out[n.i] = st
                if n.o != "invoke": st = self.step(f, n, st, b)
            last = f.blocks[x][-1]
            for k, s in enumerate(last.s):
                e = self.step(f, last, st, b, normal=(k == 0)) if last.o == "invoke" else st
                new = e if s not in inn else (inn[s] & e if must else inn[s] | e)
                if s not in inn or new != inn[s]: inn[s] = new; work.append(s)
        c[f.name] = out
        return out

    # ---- accesses
    def derived(self, f, roots):
        """roots: predicate(operand) -> shared variable name or None for an address operand (after base_off).
        Returns {value id: (var, level)}: level 0 = address of the shared variable (or inside it), 1 = value derived from it; and local holders."""
        D, H = {}, {}
        def addr(o):
            r, off = base_off(f, o)
            v = roots(f, r, off)
            if v: return (v, 0)
            if isinstance(o, int) and o in D: return D[o]
            if isinstance(r, int) and r in D: return D[r]
            return None
        ch = True; it = 0
        while ch and it < 40:
            ch = False; it += 1
            for n in f.insts():
                new = None
                if n.o in ("getelementptr", "bitcast", "phi", "select", "extractvalue", "insertvalue", "freeze", "inttoptr", "ptrtoint"):
                    for a in n.a:
                        x = addr(a)
                        if x: new = x if n.o == "getelementptr" else (x[0], max(x[1], 0)); break
                    if n.o in ("extractvalue", "insertvalue") and not new:
                        for a in n.a:
                            if isinstance(a, int) and a in D: new = D[a]
                elif n.o == "load":
                    h = H.get(base_off(f, n.a[0])[0]) if isinstance(base_off(f, n.a[0])[0], int) else None
                    if h: new = h
                    elif n.t == "ptr" or (n.t or "").startswith("{"):
                        x = addr(n.a[0])
                        if x: new = (x[0], 1)
                elif n.iscall():
                    if self.op(n): continue
                    x = None
                    for a in n.a:
                        x = x or addr(a) or (H.get(base_off(f, a)[0]) if isinstance(a, int) and isinstance(base_off(f, a)[0], int) else None)
                    if x and not (n.f or "").startswith("llvm.") and self.foreign(n):
                        if n.t in ("ptr",) or (n.t or "").startswith("{"): new = x
                        if n.g("sret"):
                            r = base_off(f, n.a[0])[0]
                            if isinstance(r, int) and r not in H: H[r] = x; ch = True
                elif n.o == "store":
                    x = addr(n.a[0])
                    r = base_off(f, n.a[1])[0]
                    if x and isinstance(r, int) and f.inst(r) is not None and f.inst(r).o == "alloca" and r not in H and (f.inst(r).o == "alloca"):
                        H[r] = x; ch = True
                if new and n.i not in D: D[n.i] = new; ch = True
                elif new and D[n.i][1] < new[1]: D[n.i] = new; ch = True
        return D, H, addr
    def foreign(self, n):
        """a library template (container, iterator, smart pointer), whose result refers into its argument"""
        if not n.f: return False
        d = self.p.q(n.f)
        if d.startswith(("std::function", "std::invoke")): return False
        return d.startswith("std::") or d.startswith("__gnu_cxx::") or d.startswith("xo::find") or d.split("::")[-1] in READS
    def accesses(self, f, roots):
        """(inst, variable, 'r'|'w', how)"""
        D, H, addr = self.derived(f, roots)
        for n in f.insts():
            if n.o == "load":
                x = addr(n.a[0])
                if x: yield n, x[0], "r", "is read"
            elif n.o == "store":
                x = addr(n.a[1])
                if x: yield n, x[0], "w", "is written"
            elif n.o in ("atomicrmw", "cmpxchg"):
                pass
            elif n.iscall() and not self.op(n) and not (n.f or "").startswith("llvm."):
                ps = None
                for k, a in enumerate(n.a):
                    x = addr(a)
                    if not x: continue
                    q = self.p.q(n.f) if n.f else ""
                    nm = q.split("::")[-1]
                    if q.startswith("std::atomic") or q.startswith("std::__atomic"): continue
                    if x[1] >= 1: yield n, x[0], "r", "is used by %s" % (nm or "a call"); continue
                    if n.f is None: yield n, x[0], "w", "is passed to an indirect call"; continue
                    rd = n.f.startswith("_ZNK") and k == (1 if n.g("sret") else 0) or nm in READS
                    if not rd:
                        ps = ps or params(self.p.dem(n.f))
                        o = len(n.a) - len(ps)
                        if 0 <= k - o < len(ps) and re.search(r"\bconst\b", ps[k - o]): rd = True
                    yield n, x[0], "r" if rd else "w", "is %s by %s" % ("read" if rd else "changed", nm)

    # ---- acquisitions
    def clskey(self, f, k):
        if k[0] == "this":
            t = f.p.pointee(f.args[f.this]["dv"][0][1])
            return ("m", f.p.member_at(t, k[1]).split(".")[-1] or "?", k[1])
        return k
    def acquires(self):
        """function name -> set of keys it may acquire, directly or through calls; 'this' keys are relative to its own object"""
        if self.acq is not None: return self.acq
        A, cls = {}, {}
        for f in self.p.funcs.values():
            s = set()
            for n in f.calls():
                o = self.op(n)
                if not o: continue
                if o[0] in ("acquire", "rawlock"): s |= set(o[2])
                if o[0] == "lock":
                    b = self.bind(f)
                    if o[1] in b: s |= set(b[o[1]][0])
            A[f.name] = {k for k in s if k[0] != "v"}
            cls[f.name] = {self.clskey(f, k) for k in s if k[0] != "v"}
        ch = True
        while ch:
            ch = False
            for f in self.p.funcs.values():
                for n in f.calls():
                    for t in self.p.callees(n) or ():
                        if t not in A or t == f.name: continue
                        new = self.atcall(f, n, A[t]) - A[f.name]
                        if new: A[f.name] |= new; ch = True
                        if cls[t] - cls[f.name]: cls[f.name] |= cls[t]; ch = True
        self.acq, self.acqcls = A, cls
        return A
    def atcall(self, f, n, keys):
        out = set()
        for k in keys:
            if k[0] == "g": out.add(k)
            elif k[0] == "this":
                a = n.a[1] if n.g("sret") and len(n.a) > 1 else (n.a[0] if n.a else None)
                if a is None: continue
                r, off = base_off(f, a)
                if r is not None and r == f.this and off is not None and k[1] is not None: out.add(("this", off + k[1]))
        return out


def hidden(p):
    """functions that are not declared in any header: analysed where they are called"""
    txt = ""
    for r, _, fs in facts.os.walk(facts.REPO + "/xo"):
        for x in fs:
            if x.endswith(".h"): txt += open(facts.os.path.join(r, x), errors="replace").read()
    words = set(re.findall(r"\w+", txt))
    out = []
    for f in p.repo_funcs():
        nm = f.q.split("::")[-1]
        if re.fullmatch(r"\w+", nm) and nm not in words and not f.file.endswith(".h") and p.callers().get(f.name) and not any(n.f == f.name for n in f.calls()): out.append(f.name)
    return tuple(sorted(out))
