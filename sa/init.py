"""Which bytes of variables and objects are certainly assigned: forward must-analysis with summaries of called functions.

Per function: for every local variable (alloca) and every object an argument points to, the set of bytes written on every path (as a bit mask), plus
what is additionally written when a returned or tested truth value is true or false.  A summary says which bytes behind each argument are written on
every normal return, which when the result is true, and which may be read before the function itself has written them."""
import re
from .ir import const, base_off

SIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8, "x86_fp80": 16, "i128": 16, "<2 x float>": 8, "<2 x double>": 16, "<4 x float>": 16}
FULL = (1 << 1024) - 1
def size(t):
    if t in SIZE: return SIZE[t]
    if t and t.startswith("{"): return None
    m = re.match(r"i(\d+)$", t or "")
    return (int(m.group(1)) + 7) // 8 if m else None
def bits(off, n): return ((1 << n) - 1) << off if off >= 0 else 0

def sh(m, off): return m << off if off >= 0 else m >> -off

class Summary:
    __slots__ = ("always", "true", "false", "reads", "ret", "value")
    def __init__(s): s.always, s.true, s.false, s.reads, s.ret, s.value = {}, {}, {}, {}, None, None

NONE = ({}, {})
LEAFY = ("pair", "array", "complex")
def meet(a, b):
    """what holds on both ways; what a truth value implies is compared in full: on a way where it was tested the other outcome is impossible"""
    if a is None: return b
    if b is None: return a
    st = {k: a[0][k] & b[0][k] for k in a[0] if k in b[0]}
    T = {}
    for v in a[1].keys() | b[1].keys():
        if isinstance(v, tuple):      # a chosen number: what each of its possible values implies
            x, y = a[1].get(v), b[1].get(v)
            if x is not None and y is not None: T[v] = join([(a[0], x), (b[0], y)])
            continue
        x, y = a[1].get(v, NONE), b[1].get(v, NONE); r = []
        for j in (0, 1):
            p = None if x[j] is None else plus(a[0], x[j]); q = None if y[j] is None else plus(b[0], y[j])
            r.append(q if p is None else p if q is None else {k: p[k] & q[k] for k in p if k in q})
        r = tuple(None if z is None else {k: m for k, m in z.items() if m & ~st.get(k, 0)} for z in r)
        if r[0] is None or r[1] is None or r[0] or r[1]: T[v] = r
    return st, T
def join(ways):
    r = {}
    for st, d in ways:
        for c, e in d.items():
            z = plus(st, e); r[c] = z if c not in r else {k: r[c][k] & z[k] for k in r[c] if k in z}
    return r
def plus(a, b):
    r = dict(a)
    for k, m in b.items(): r[k] = r.get(k, 0) | m
    return r

class Init:
    def __init__(self, p):
        self.p, self.memo, self.busy, self.sites = p, {}, set(), 0
        self.bytype = {}
        for i, t in enumerate(p.types):
            if t["tag"] in ("DW_TAG_class_type", "DW_TAG_structure_type") and t.get("members"): self.bytype.setdefault(p.typename(i), i)
        self.leafs = {}
    # ------------------------------------------------------------ types
    def leaf(self, ti):
        """bytes of an object of this type that hold a scalar member of its own (not padding, not the inside of standard classes): mask and [(offset, size, name)]"""
        ti = self.p.strip(ti)
        if ti in self.leafs: return self.leafs[ti]
        out = []
        def walk(ti, off, name, d):
            ti = self.p.strip(ti)
            if ti is None or ti < 0 or d > 12: return
            t = self.p.types[ti]; tag = t["tag"]
            if tag in ("DW_TAG_base_type", "DW_TAG_enumeration_type", "DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"): out.append((off, t["size"] or 8, name))
            elif tag == "DW_TAG_array_type":
                b = self.p.strip(t.get("base")); n = self.p.types[b]["size"] if b is not None and b >= 0 else 0
                for k in range(min(64, t["size"] // n) if n else 0): walk(b, off + k * n, "%s[%d]" % (name, k), d + 1)
            elif tag in ("DW_TAG_class_type", "DW_TAG_structure_type"):
                q = self.p.typename(ti)
                if q.startswith(("std::", "__gnu_cxx::", "rapidxml::")) and not q.startswith(("std::array", "std::pair", "std::complex")): return
                for m in t.get("members", ()):
                    if m[3] == "m" and m[0].startswith("_vptr"): continue
                    if m[3] in ("m", "b"): walk(m[2], off + m[1], m[0] if not name else name + "." + m[0] if m[0] else name, d + 1)
        walk(ti, 0, "", 0)
        m = 0
        for o, n, _ in out: m |= bits(o, n)
        self.leafs[ti] = (m, out)
        return self.leafs[ti]
    # ------------------------------------------------------------ summaries
    def summary(self, name):
        name = self.p.alias.get(name, name)
        if name in self.memo: return self.memo[name]
        f = self.p.func(name)
        if f is None or not f.blocks or name in self.busy: return None
        self.busy.add(name)
        a = Frame(self, f); a.solve()
        s = self.memo[name] = a.summary()
        self.busy.discard(name)
        return s
    def frame(self, f):
        a = Frame(self, f); a.solve(); return a

class Frame:
    def __init__(self, e, f):
        self.e, self.p, self.f = e, e.p, f
        self.al = {n.i: n for n in f.insts() if n.o == "alloca"}
        self.out, self.bad, self.reads, self.rets = {}, [], {}, []
        self.known, self.inphi, self.sweeps = {}, set(), {}
    def base(self, o):
        """(object, byte offset or None): object = alloca id or argument index"""
        off = 0
        for _ in range(20):
            b, d = base_off(self.f, o)
            off = None if off is None or d is None else off + d
            if isinstance(b, int):
                n = self.f.v.get(b)
                if n is None: return (b, off) if b < len(self.f.args) and self.f.args[b]["t"] == "ptr" else (None, None)
                if n.o == "alloca": return b, off
                if n.o in ("call", "invoke") and n.f and not n.f.startswith("llvm."):
                    s = self.e.summary(n.f)
                    if s is not None and s.ret is not None:
                        o = n.a[s.ret[0]]; off = None if off is None or s.ret[1] is None else off + s.ret[1]; continue
                if n.o == "freeze": o = n.a[0]; continue
                if n.o == "phi" and n.t == "ptr":
                    if n.i in self.inphi: return "self", None
                    self.inphi.add(n.i); r = {self.base(x)[0] for x in n.a} - {"self"}; self.inphi.discard(n.i)
                    if len(r) == 1 and None not in r: return r.pop(), None
            return None, None
        return None, None
    def whole(self, b):
        if b in self.al: return bits(0, min(4096, self.al[b].g("sz", 1) or 1))
        return FULL
    def write(self, st, b, off, n, addr=None):
        if b is None: return
        if off is None:
            if self.sweep(addr): st[b] = st.get(b, 0) | self.whole(b)       # a loop over a fixed number of elements: taken to be all of them
        elif n is None: st[b] = st.get(b, 0) | self.whole(b)
        else: st[b] = st.get(b, 0) | bits(off, n)
    def sweep(self, addr):
        """the address moves through an object in a loop whose number of rounds is fixed"""
        if addr is None: return True
        if not isinstance(addr, int): return False
        if addr in self.sweeps: return self.sweeps[addr]
        self.sweeps[addr] = False; f = self.f
        ph = set(); seen = set(); w = [addr]
        while w:
            x = w.pop()
            if x in seen or not isinstance(x, int): continue
            seen.add(x); n = f.v.get(x)
            if n is None: continue
            if n.o == "phi": ph.add(x)
            if n.o in ("phi", "getelementptr", "add", "sub", "zext", "sext", "trunc", "mul", "call", "invoke", "shl", "load", "freeze"): w += [a for a in n.a if isinstance(a, int)]
        use = {}
        for n in f.insts():
            for a in n.a or ():
                if isinstance(a, int): use.setdefault(a, []).append(n)
        tests = [n for x in seen if x in ph or f.v.get(x) is not None and f.v[x].o in ("add", "getelementptr", "sub", "load", "zext", "sext") for n in use.get(x, ()) if n.o == "icmp"]
        for x in ph:            # a test of the next value of what moves
            for n in use.get(x, ()):
                if n.o in ("add", "sub", "getelementptr"): tests += [m for m in use.get(n.i, ()) if m.o == "icmp"]
        # iterators kept in memory: compared through calls
        r = None
        for n in tests:
            o = [a for a in n.a if not isinstance(a, int) or a not in seen and not self.steps(a, ph)]
            k = all(self.fixed(a) for a in o)
            r = k if r is None else r and k
        self.sweeps[addr] = bool(r) if ph else False
        return self.sweeps[addr]
    def steps(self, a, ph):
        n = self.f.v.get(a)
        return n is not None and n.o in ("add", "sub", "getelementptr") and any(x in ph for x in n.a if isinstance(x, int))
    def fixed(self, o, d=0):
        """a number, or a fixed place in an object"""
        if const(o) is not None: return True
        if not isinstance(o, int) or d > 8: return isinstance(o, list)
        n = self.f.v.get(o)
        if n is None: return False
        if n.o in ("zext", "sext", "trunc", "add", "sub", "mul", "freeze"): return all(self.fixed(a, d + 1) for a in n.a)
        if n.o in ("call", "invoke") and n.f:
            s = self.e.summary(n.f)
            if s is not None and s.value is not None: return True
        if n.t == "ptr": return self.base(o)[1] is not None
        return False
    def read(self, st, b, off, n, at, what):
        if b is None or off is None or n is None: return
        m = bits(off, n) & ~st.get(b, 0)
        self.readmask(b, m, at, what)
    def readmask(self, b, m, at, what):
        if not m or not self.final: return
        if b in self.al:
            k = self.types(b)
            m &= k[0]
            if m: self.bad.append((at, b, m, what))
        else: self.reads[b] = self.reads.get(b, 0) | m
    def types(self, b):
        """leaf mask and members of a local variable"""
        if b in self.known: return self.known[b]
        n = self.al[b]; r = None
        for d in n.g("dv", []):
            if d[1] is not None and d[1] >= 0: r = self.e.leaf(d[1]); break
        if r is None:
            at = n.g("at")
            if at in SIZE: r = (bits(0, SIZE[at]), [(0, SIZE[at], "")])
        self.known[b] = r or (0, [])
        return self.known[b]
    def escape(self, st, o):
        b, off = self.base(o)
        if b is not None: st[b] = self.whole(b)
    def solve(self):
        f = self.f; self.final = False
        order = f.rpo; IN = {0: ({}, {})}; self.edge = {}
        for _ in range(12):
            ch = False
            for b in order:
                if b == 0: s = ({}, {})
                else:
                    s = None
                    for q in f.preds[b]:
                        if (q, b) in self.edge: s = meet(s, self.edge[(q, b)])
                    if s is None: continue
                if IN.get(b) != s or b == 0 and not _: ch = True
                IN[b] = s
                self.block(b, (dict(s[0]), dict(s[1])))
            if not ch: break
        self.final = True
        for b in order:
            if b in IN: self.block(b, (dict(IN[b][0]), dict(IN[b][1])))
    def facts(self, v, T):
        """what is written in addition when v is true / false; None: cannot be true / false"""
        c = const(v)
        if c is not None: return ({}, None) if c else (None, {})
        return T.get(v, NONE) if isinstance(v, int) else NONE
    def block(self, bi, s):
        st, T = s
        f = self.f
        self.phis(bi, st, T)
        for n in f.blocks[bi]:
            o = n.o
            if n.i in T and o != "phi": del T[n.i]
            if self.final and o not in ("phi", "insertvalue", "freeze", "select", "extractvalue", "insertelement", "extractelement", "shufflevector"): self.operands(n, st)
            if o == "load":
                b, off = self.base(n.a[0]); sz = size(n.t)
                if sz is None and b in self.al: sz = None
                self.read(st, b, off, sz, n, "read")
            elif o == "store":
                if isinstance(n.a[0], int):
                    vb, _ = self.base(n.a[0])
                    if vb is not None and (vb in self.al or vb < len(f.args) and self.ptr(n.a[0])): self.escape(st, n.a[0])
                if self.unassigned(n.a[0]): continue
                b, off = self.base(n.a[1]); self.write(st, b, off, size(n.g("vt")), n.a[1])
            elif o in ("call", "invoke"):
                before = dict(st) if o == "invoke" else None
                self.call(n, st, T)
                if o == "invoke":
                    self.edge[(bi, n.s[0])] = (dict(st), dict(T)); self.edge[(bi, n.s[1])] = (before, dict(T))
            elif o == "phi": pass
            elif o in ("zext", "trunc", "freeze", "sext"):
                if isinstance(n.a[0], int) and n.a[0] in T: T[n.i] = T[n.a[0]]
            elif o == "xor":
                if const(n.a[1]) in (1, -1) and isinstance(n.a[0], int) and n.a[0] in T: T[n.i] = T[n.a[0]][::-1]
            elif o == "icmp":
                if const(n.a[1]) == 0 and isinstance(n.a[0], int) and n.a[0] in T and n.g("p") in ("ne", "eq"): T[n.i] = T[n.a[0]] if n.g("p") == "ne" else T[n.a[0]][::-1]
            elif o == "and" and n.t in ("i1", "i8"):
                x, y = self.facts(n.a[0], T), self.facts(n.a[1], T)
                T[n.i] = (plus(x[0] or {}, y[0] or {}), {})
            elif o == "or" and n.t in ("i1", "i8"):
                x, y = self.facts(n.a[0], T), self.facts(n.a[1], T)
                T[n.i] = ({}, plus(x[1] or {}, y[1] or {}))
            elif o == "select" and n.t in ("i1", "i8"):
                x, y = self.facts(n.a[1], T), self.facts(n.a[2], T); c = self.facts(n.a[0], T)
                x = tuple(None if q is None else plus(q, c[0] or {}) for q in x); y = tuple(None if q is None else plus(q, c[1] or {}) for q in y)
                T[n.i] = tuple((w or {}) if v is None else v if w is None else {k: v[k] & w[k] for k in v if k in w} for v, w in zip(x, y))
            elif o == "ret":
                if self.final:
                    t, fl = self.facts(n.a[0], T) if n.a else ({}, {})
                    self.rets.append((n, dict(st), None if t is None else plus(st, t), None if fl is None else plus(st, fl)))
            elif o == "insertvalue": pass
            elif o == "br" and n.a:
                t, fl = self.facts(n.a[0], T)
                k = self.decided(n.a[0])
                if k is not None: t, fl = (t, None) if k else (None, fl)
                for k, x in ((0, t), (1, fl)):
                    if x is None and n.s[0] != n.s[1] and self.decided(n.a[0]) is not None: self.edge.pop((bi, n.s[k]), None); continue
                    T2 = dict(T)
                    if isinstance(n.a[0], int): T2[n.a[0]] = ({}, None) if k == 0 else (None, {})
                    self.edge[(bi, n.s[k])] = (plus(st, x or {}), T2)
                if n.s[0] == n.s[1]: self.edge[(bi, n.s[0])] = (dict(st), dict(T))
                continue
        t = f.blocks[bi][-1]
        if t.o == "switch" and isinstance(t.a[0], int) and ("c", t.a[0]) in T:
            d = T[("c", t.a[0])]; cases = t.g("cases")
            for x in set(t.s):
                vals = {c for c, y in zip(cases, t.s[1:]) if y == x} | ({c for c in d if c not in cases} if t.s[0] == x else set())
                vals &= set(d)
                if vals: self.edge[(bi, x)] = (plus(st, join([({}, {0: d[c]}) for c in vals])[0]), dict(T))
                else: self.edge.pop((bi, x), None)
            return
        if t.o not in ("br", "invoke", "ret") or t.o == "br" and not t.a:
            for x in t.s or (): self.edge[(bi, x)] = (dict(st), dict(T))
    def number(self, o):
        c = const(o); n = self.f.v.get(o) if isinstance(o, int) else None
        if c is not None or n is None: return c
        if n.o in ("call", "invoke") and n.f:
            s = self.e.summary(n.f); return s.value if s is not None else None
        if n.o in ("zext", "sext", "trunc"): return self.number(n.a[0])
        return None
    def decided(self, o):
        """outcome of a comparison of two known numbers"""
        n = self.f.v.get(o) if isinstance(o, int) else None
        if n is None or n.o != "icmp": return None
        a, b = self.number(n.a[0]), self.number(n.a[1])
        if a is None or b is None or a < 0 or b < 0: return None
        return {"eq": a == b, "ne": a != b, "ult": a < b, "slt": a < b, "ule": a <= b, "sle": a <= b, "ugt": a > b, "sgt": a > b, "uge": a >= b, "sge": a >= b}.get(n.g("p"))
    def phis(self, bi, st, T):
        """values chosen by the way on which the block is entered: what is known about them on each way"""
        ph = [n for n in self.f.blocks[bi] if n.o == "phi"]
        if not ph: return
        ways = {}
        for q in self.f.preds[bi]:
            e = self.edge.get((q, bi))
            if e is None: continue
            ext = dict(e[0])
            for n in ph:
                v = n.a[n.g("pb").index(q)]
                d = self.dmask(v, e[0])
                if d: ext[("phi", n.i)] = d
                else: ext.pop(("phi", n.i), None)
            ren = {("phi", v): ("phi", n.i) for n in ph for v in [n.a[n.g("pb").index(q)]] if isinstance(v, int)}
            def more(d): return None if d is None else {**d, **{ren[k]: m for k, m in d.items() if k in ren}} if any(k in ren for k in d) else d
            ways[q] = (ext, {v: tuple(map(more, x)) if isinstance(x, tuple) else {c: more(d) for c, d in x.items()} for v, x in e[1].items()})
        for n in ph:
            d = -1
            for w in ways.values(): d &= w[0].get(("phi", n.i), 0)
            if d: st[("phi", n.i)] = d
            else: st.pop(("phi", n.i), None)
        for n in ph:
            if n.t == "i32":
                T.pop(("c", n.i), None); l = []
                for q, w in ways.items():
                    v = n.a[n.g("pb").index(q)]; c = const(v)
                    l.append((w[0], {c: {}} if c is not None else w[1].get(("c", v)) if isinstance(v, int) else None))
                if l and all(x[1] is not None for x in l): T[("c", n.i)] = join(l)
            if n.t not in ("i1", "i8"): T.pop(n.i, None); continue
            acc = None
            for q, w in ways.items():
                t, fl = self.facts(n.a[n.g("pb").index(q)], w[1])
                c = (None if t is None else plus(w[0], t), None if fl is None else plus(w[0], fl))
                if acc is None: acc = c
                else: acc = tuple(y if x is None else x if y is None else {k: x[k] & y[k] for k in x if k in y} for x, y in zip(acc, c))
            if acc: T[n.i] = tuple(None if z is None else {k: m for k, m in z.items() if m & ~st.get(k, 0)} for z in acc)
        # what other truth values imply about the values chosen here
        for v in {v for w in ways.values() for v in w[1]}:
            if isinstance(v, tuple):
                if v[1] not in {n.i for n in ph} and all(v in w[1] for w in ways.values()): T[v] = join([(w[0], w[1][v]) for w in ways.values()])
                continue
            r = []
            for j in (0, 1):
                acc = None
                for w in ways.values():
                    x = w[1].get(v, NONE)[j]
                    if x is None: continue
                    z = plus(w[0], x); acc = z if acc is None else {k: acc[k] & z[k] for k in acc if k in z}
                r.append(None if acc is None else {k: m for k, m in acc.items() if m & ~st.get(k, 0)})
            if v not in {n.i for n in ph} and (r[0] is None or r[1] is None or r[0] or r[1]): T[v] = tuple(r)
    def dmask(self, o, st):
        """which elements of a (vector) value are defined, as a bit mask; scalars: 1 or 0"""
        if isinstance(o, list): return 0 if o and o[0] in ("undef", "poison") else -1
        n = self.f.v.get(o)
        if n is None: return -1
        if self.unassigned(o): return 0
        if n.o == "phi": return st.get(("phi", o), 0)
        if n.o == "insertelement":
            k = const(n.a[2]); m = self.dmask(n.a[0], st)
            if k is None: return -1
            return m | 1 << k if self.defined(n.a[1], st) else m & ~(1 << k)
        if n.o == "extractelement":
            k = const(n.a[1]); return -1 if k is None else -1 if self.dmask(n.a[0], st) >> k & 1 else 0
        if n.o in ("freeze",): return -1
        return -1
    def defined(self, o, st):
        if isinstance(o, list): return not (o and o[0] == "undef")
        n = self.f.v.get(o)
        if n is None: return True
        m = re.match(r"<(\d+) x", n.t or "")
        k = (1 << int(m.group(1))) - 1 if m else 1
        return self.dmask(o, st) & k == k
    def unassigned(self, o):
        """the marker for what a variable holds before its first assignment"""
        n = self.f.v.get(o) if isinstance(o, int) else None
        return n is not None and (n.f or "").startswith("xo.undef.")
    def operands(self, n, st):
        if n.o == "store" and self.unassigned(n.a[0]) and self.base(n.a[1])[0] in self.al: return
        for k, o in enumerate(n.a or ()):
            if not self.defined(o, st): self.bad.append((n, None, 1, "returned" if n.o == "ret" else "stored" if n.o == "store" else "used in a decision" if n.o in ("br", "switch") else "passed to " + self.p.q(n.f) if n.f else "computed with"))
    def ptr(self, o):
        n = self.f.v.get(o)
        return n is None or n.t == "ptr"
    def call(self, n, st, T):
        nm = n.f
        if nm and nm.startswith("xo.undef."): return
        if nm and nm.startswith("llvm."):
            if nm.startswith("llvm.memset"): b, off = self.base(n.a[0]); self.write(st, b, off, const(n.a[2]))
            elif nm.startswith(("llvm.memcpy", "llvm.memmove")):
                b, off = self.base(n.a[1]); k = const(n.a[2]); self.read(st, b, off, k, n, "copied")
                m = st.get(b) if b in self.al else None
                d, doff = self.base(n.a[0])
                if d is not None and m is not None and k is not None and off is not None and doff is not None: st[d] = st.get(d, 0) | sh(sh(m, -off) & bits(0, k), doff)
                else: self.write(st, d, doff, k)
            return
        s = self.e.summary(nm) if nm else None
        q = self.p.q(nm) if nm and nm.startswith("_Z") else nm or ""
        ext = s is None
        eff_t, eff_f = {}, {}
        std = q.startswith(("std::", "__gnu_cxx::"))
        for i, a in enumerate(n.a):
            if not isinstance(a, int): continue
            b, off = self.base(a)
            if b is None: continue
            self.e.sites += 1
            if i == 0 and n.g("sret"): self.write(st, b, off, None if off is None else self.sized(b, off)); continue
            p = q.split("::")
            if std and i == 0 and len(p) > 2 and p[1] not in ("chrono", "this_thread", "filesystem", "__detail", "__cxx11") + LEAFY or std and i == 0 and len(p) > 3 and p[1] == "__cxx11": continue      # the object is of a standard class, which has no members of interest
            if ext or std and not q.startswith(("std::swap", "std::exchange", "std::pair", "std::array", "std::complex", "std::vector::emplace_back", "std::vector::push_back", "std::forward", "std::move", "std::max", "std::min")):
                st[b] = st.get(b, 0) | self.whole(b); continue      # handed to code that is not analysed: taken to be assigned by it
            r = s.reads.get(i, 0)
            if r and off is not None: self.readmask(b, sh(r, off) & ~st.get(b, 0) & self.whole(b), n, "read by " + q)
        if not ext:
            for i, a in enumerate(n.a):
                if not isinstance(a, int): continue
                b, off = self.base(a)
                if b is None: continue
                for src, dst in ((s.always, st), (s.true, eff_t), (s.false, eff_f)):
                    m = src.get(i, 0)
                    if m and off is not None: dst[b] = dst.get(b, 0) | sh(m, off) & FULL
                    elif m and self.sweep(a): dst[b] = dst.get(b, 0) | self.whole(b)
            if eff_t or eff_f: T[n.i] = (eff_t, eff_f)
    def sized(self, b, off):
        return max(0, self.whole(b).bit_length() - off) if off is not None else None
    def summary(self):
        s = Summary(); f = self.f
        n = range(len(f.args))
        def fold(k, which):
            acc = None
            for r in self.rets:
                x = r[which]
                if x is None: continue
                m = x.get(k, 0); acc = m if acc is None else acc & m
            return acc
        for i in n:
            if f.args[i]["t"] != "ptr": continue
            a, t, fl = fold(i, 1), fold(i, 2), fold(i, 3)
            if a is None and not self.rets: a = FULL       # never returns
            if a: s.always[i] = a
            if t: s.true[i] = t
            if fl: s.false[i] = fl
        s.reads = dict(self.reads)
        vs = {const(r[0].a[0]) if r[0].a else None for r in self.rets}
        if len(vs) == 1: s.value = vs.pop()
        rb = {self.base(r[0].a[0]) if r[0].a and isinstance(r[0].a[0], int) else (None, None) for r in self.rets}
        if len(rb) == 1:
            b, off = next(iter(rb))
            if b is not None and b not in self.al and f.v.get(b) is None: s.ret = (b, off)
        return s
