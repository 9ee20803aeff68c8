"""Model of the linked LLVM IR: functions, instructions, flow graph (with exceptional edges), dominators,
callees (virtual calls resolved through the class hierarchy), constant and data-flow helpers."""
import re
from . import facts
from .facts import AnalysisError, rel


class Inst:
    __slots__ = ("i", "o", "t", "l", "f", "a", "s", "b", "k", "r", "fn")
    def __init__(self, d, b, k, fn):
        self.i, self.o, self.t, self.l, self.f = d["i"], d["o"], d.get("t"), d.get("l", -1), d.get("f")
        self.a, self.s, self.r, self.b, self.k, self.fn = d.get("a", []), d.get("s", []), d, b, k, fn
        if self.f is None and isinstance(d.get("fp"), list) and d["fp"][0] == "g": self.f = d["fp"][1]      # a direct call through an alias
    def g(self, k, d=None): return self.r.get(k, d)
    def iscall(self): return self.o in ("call", "invoke")
    def where(self): return self.fn.p.where(self)
    def __repr__(self): return "%%%d=%s %s" % (self.i, self.o, self.f or "")


class Func:
    def __init__(self, d, p):
        self.p, self.r, self.name, self.dem = p, d, d["name"], d["dem"]
        self.file, self.line = d.get("file", ""), d.get("line", 0)
        self.args = d["args"]
        self.v = {}
        self.blocks = []
        for b, bl in enumerate(d["blocks"]):
            l = []
            for k, x in enumerate(bl):
                n = Inst(x, b, k, self)
                l.append(n); self.v[n.i] = n
            self.blocks.append(l)
        self._preds = self._dom = self._pdom = self._uses = self._rpo = None
        self.q = qual(self.dem)
    def insts(self):
        for b in self.blocks:
            yield from b
    def calls(self):
        for b in self.blocks:
            for n in b:
                if n.iscall(): yield n
    def succs(self, b): return self.blocks[b][-1].s
    @property
    def preds(self):
        if self._preds is None:
            self._preds = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                for s in set(self.succs(b)): self._preds[s].append(b)
        return self._preds
    @property
    def rpo(self):
        if self._rpo is None:
            seen, out, st = set([0]), [], [(0, iter(self.succs(0)))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succs(s)))); break
                else:
                    out.append(b); st.pop()
            self._rpo = out[::-1]
        return self._rpo
    @property
    def dom(self):
        """block -> set of blocks dominating it (reachable blocks only)"""
        if self._dom is None:
            order = self.rpo; full = set(order)
            D = {b: full for b in order}; D[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [D[p] for p in self.preds[b] if p in D]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != D[b]: D[b] = n; ch = True
            self._dom = D
        return self._dom
    def dominates(self, x, y):
        """instruction x executes before y on every path to y"""
        if x.b == y.b: return x.k < y.k
        return y.b in self.dom and x.b in self.dom[y.b]
    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for n in self.insts():
                for o in n.a:
                    if isinstance(o, int): u.setdefault(o, []).append(n)
                fp = n.g("fp")
                if isinstance(fp, int): u.setdefault(fp, []).append(n)
            self._uses = u
        return self._uses
    def isarg(self, o): return isinstance(o, int) and o < len(self.args)
    def inst(self, o): return self.v.get(o) if isinstance(o, int) else None
    def reach(self, frm, avoid=()):
        """blocks reachable from block frm (inclusive) without entering blocks in avoid"""
        seen, st = set(), [frm]
        while st:
            b = st.pop()
            if b in seen or b in avoid: continue
            seen.add(b); st += self.succs(b)
        return seen
    def argname(self, k):
        dv = self.args[k].get("dv")
        return dv[0][0] if dv else "#%d" % k
    @property
    def this(self):
        """index of the object argument, or None"""
        for k in (0, 1):
            if k < len(self.args) and self.argname(k) == "this": return k
        return None
    def loc(self): return "%s:%d" % (rel(self.file), self.line)
    def __repr__(self): return "<%s>" % self.dem


_qc = {}
def qual(d):
    """qualified name without template arguments, parameters and return type: xo::flat_map::find"""
    if d in _qc: return _qc[d]
    s, o, i, n = d, [], 0, len(d)
    s = s.replace("(anonymous namespace)", "{anon}")
    s = re.sub(r"\[abi:[a-z0-9]+\]", "", s)
    n = len(s); depth = 0; out = []
    while i < n:
        if depth == 0 and s.startswith("operator", i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == "_")):
            m = re.match(r"operator(\(\)|\[\]|<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|[-+*/%^&|=!<>]=?|~|,|\"\" ?\w*| new\[\]| delete\[\]| new| delete)", s[i:])
            if m:
                out.append(m.group(0)); i += m.end(); continue
            if s[i:i+9] == "operator ":   # conversion operator: take the type up to the parameter list
                j = i + 9; dd = 0
                while j < n and not (s[j] == "(" and dd == 0):
                    if s[j] == "<": dd += 1
                    if s[j] == ">": dd -= 1
                    j += 1
                out.append(s[i:j].replace(" ", "_")); i = j; continue
        c = s[i]
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif depth == 0:
            if c == "(":
                # skip balanced parameter list; a following :: (lambda in function) continues the name
                j, dd = i, 0
                while j < n:
                    if s[j] == "(": dd += 1
                    if s[j] == ")":
                        dd -= 1
                        if dd == 0: break
                    j += 1
                rest = s[j+1:]
                m = re.match(r"( const)?( &&?)?::", rest)
                if m:
                    i = j + 1 + (len(m.group(0)) - 2); continue
                if s[i:i+2] == "()" and rest.startswith("("):
                    i = j + 1; continue
                break
            if c == " ":
                # return type before the name
                out = []; i += 1; continue
            out.append(c)
        i += 1
    r = "".join(out)
    _qc[d] = r
    return r


class Prog:
    def __init__(self, d):
        self.d = d
        self.types, self.locs = d["types"], d["locs"]
        self.funcs = {}
        for x in d["funcs"]: self.funcs[x["name"]] = Func(x, self)
        self.decls = {x["name"]: x for x in d["decls"]}
        self.globals = {x["name"]: x for x in d["globals"]}
        self.alias = {a: b for a, b in d["aliases"]}
        self.structs = d.get("structs", {})
        self.units = [rel(u) for u in d["units"]]
        self._callers = None
        self.byq = {}
        for f in self.funcs.values(): self.byq.setdefault(f.q, []).append(f)
        self.inrepo = lambda f: f.file.startswith(facts.REPO + "/xo/")
    def func(self, n): return self.funcs.get(self.alias.get(n, n))
    def dem(self, n):
        f = self.func(n)
        if f: return f.dem
        d = self.decls.get(n)
        return d["dem"] if d else n
    def q(self, n): return qual(self.dem(n))
    def repo_funcs(self):
        return [f for f in self.funcs.values() if self.inrepo(f)]
    def callees(self, n):
        """names a call may reach: [name...], or None if it is an unresolved indirect call"""
        if n.f: return [self.alias.get(n.f, n.f)]
        if "vf" in n.r: return [self.alias.get(x, x) for x in n.r["vf"]]
        return None
    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.funcs.values():
                for n in f.calls():
                    for t in self.callees(n) or []: c.setdefault(t, []).append(n)
            self._callers = c
        return self._callers
    def frames(self, l):
        """source frames of a location, innermost first: (file, line, function linkage name)"""
        while l is not None and l >= 0:
            f, ln, fn, up = self.locs[l]
            yield f, ln, fn
            l = up
    def where(self, n):
        first = None
        for f, ln, fn in self.frames(n.l):
            if first is None: first = (f, ln)
            if f.startswith(facts.REPO + "/"): return "%s:%d" % (rel(f), ln)
        return ("%s:%d" % (rel(first[0]), first[1])) if first else n.fn.loc()
    def typename(self, ti):
        while ti is not None and ti >= 0:
            t = self.types[ti]
            if t["tag"] in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type") and "base" in t: ti = t["base"]; continue
            if t["tag"] in ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"):
                return (self.typename(t["base"]) if "base" in t else "void") + ("*" if t["tag"] == "DW_TAG_pointer_type" else "&")
            return ((t["scope"] + "::") if t.get("scope") else "") + t["name"]
        return ""
    def strip(self, ti):
        while ti is not None and ti >= 0 and self.types[ti]["tag"] in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type") and "base" in self.types[ti]:
            ti = self.types[ti]["base"]
        return ti
    def pointee(self, ti):
        ti = self.strip(ti)
        if ti is not None and ti >= 0 and self.types[ti]["tag"] in ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"):
            return self.strip(self.types[ti].get("base"))
        return None
    def member_at(self, ti, off, path=""):
        """name of the data member of record type ti at byte offset off"""
        ti = self.strip(ti)
        if ti is None or ti < 0: return path
        t = self.types[ti]
        best = None
        for nm, o, mt, kind in t.get("members", []):
            if kind == "e": continue
            sz = self.types[self.strip(mt)]["size"] if mt >= 0 else 0
            if o <= off and (off < o + max(sz, 1)):
                if best is None or o >= best[1]: best = (nm, o, mt, kind)
        if best is None: return path
        p = path + ("." if path and best[0] else "") + best[0]
        if off == best[1] and not self.types[self.strip(best[2])].get("members"): return p
        if best[3] == "b" or off != best[1] or True:
            inner = self.types[self.strip(best[2])]
            if inner.get("members") and inner["tag"] in ("DW_TAG_class_type", "DW_TAG_structure_type") and best[3] == "b":
                return self.member_at(best[2], off - best[1], p) or p
        return p
    def cstr(self, o):
        """the text of a constant C string operand"""
        if isinstance(o, list) and o:
            if o[0] == "g":
                g = self.globals.get(o[1])
                if g and g.get("const") and isinstance(g.get("init"), list):
                    ini = g["init"]
                    if ini[0] == "data": 
                        b = bytes(x & 255 for x in ini[1]) if all(isinstance(x, int) for x in ini[1]) else b""
                        return b.split(b"\0")[0].decode("latin1")
                    if ini[0] == "zero": return ""
            if o[0] == "cgep" and o[2] == 0: return self.cstr(o[1])
        return None


_cache = {}
def prog(units=None, tus=(), inline=(), keep=(), passes="function(sroa)", only=None, extra=(), helpers=False, also=None):
    """also(p): names of further functions to look through; helpers: additionally inline every helper function (see helper_names), so that code is judged in the
    context of its callers whether or not part of it was moved into a function of its own"""
    k = (tuple(units) if units is not None else None, tuple(tus), tuple(inline), tuple(keep), passes, only, tuple(extra), helpers, also)
    if k not in _cache:
        names = helper_names(units, tus) if helpers else ()
        if also: names = tuple(sorted(set(names) | set(also(prog(units, tus)))))
        _cache[k] = Prog(facts.ir(units, tus, inline, keep, passes, only, extra, names))
        _cache[k].helpers = set(names)
    return _cache[k]


def api():
    p = facts.os.path.join(facts.VERIF, "meta", "api.txt")
    return set(open(p).read().split("\n")) if facts.os.path.exists(p) else None


def helper_names(units=None, tus=()):
    """linkage names of functions that are not part of the library's interface as recorded in meta/api.txt: functions a
    later edit introduced.  They have no contract of their own and are analysed where they are called."""
    known = api()
    if known is None: return ()
    p = prog(units, tus)
    out = []
    for f in p.repo_funcs():
        if f.q in known or "{lambda" in f.q or "$_" in f.q or "'lambda" in f.q or not f.dem.startswith(("xo::", "{anon}", "(anonymous")) and "xo::" not in f.q and not f.r.get("local"): continue
        if "__cxx_global" in f.name or f.name.startswith("_GLOBAL__"): continue
        if any(n.f == f.name for n in f.calls()): continue      # recursive
        if not any(n.f == f.name for n in p.callers().get(f.name, ())): continue      # never called directly (virtual or unused)
        out.append(f.name)
    return tuple(sorted(out))


def const(o):
    if isinstance(o, list) and o:
        if o[0] == "c": return o[1]
        if o[0] == "null": return 0
        if o[0] == "zero": return 0
    return None
def isnull(o): return isinstance(o, list) and o and o[0] == "null"


def base_off(f, o, through_phi=False):
    """strip constant-offset address arithmetic: (root operand, byte offset) or (root, None) if not constant"""
    off = 0
    for _ in range(100):
        if isinstance(o, list):
            if o and o[0] == "cgep":
                off = None if off is None else off + o[2]; o = o[1]; continue
            return o, off
        n = f.v.get(o)
        if n is None: return o, off
        if n.o == "getelementptr":
            off = None if off is None or "off" not in n.r else off + n.r["off"]
            o = n.a[0]; continue
        if n.o in ("bitcast", "addrspacecast"): o = n.a[0]; continue
        return o, off
    return o, off


def loads_of_this(f):
    """loads whose address is this+constant: {inst id: offset}"""
    r = {}
    for n in f.insts():
        if n.o == "load":
            b, o = base_off(f, n.a[0])
            if b == 0 and o is not None: r[n.i] = o
    return r

# functions that are looked through when code is judged: value helpers of the standard library, algorithms, lambdas
INL_MINMAX = (r"(^|[ *&])(std|xo)::(min|max|clamp|clamped)[<(]",)
INL_LAMBDA = (r"\$_\d+", r"'lambda", r"(^|[ *&])std::(__)?(find_if|find_if_not|any_of|all_of|none_of|count_if|for_each|find)[<(]", r"__gnu_cxx::__ops::", r"(^|[ *&])std::__iterator_category|std::__pred_iter|(^|[ *&])xo::(find_if|any_of|all_of|none_of|count_if|for_each|find)[<(]")
INL_ITER = (r"__gnu_cxx::(__normal_iterator|operator)", r"(^|[ *&])(bool )?__gnu_cxx::operator", r"^[^(]*std::reverse_iterator<.*>::", r"^[^(]*std::operator(==|!=)<", r"^[^(]*std::vector<[^(]*>::(begin|end|cbegin|cend|rbegin|rend|size|empty|data|operator\[\]|front|back)\(",
            r"(^|[ *&])std::(next|prev|advance|__advance|distance|__distance|begin|end|size|data|move|forward|addressof|__addressof|make_pair|as_const|__niter_base)[<(]", r"^[^(]*std::(unique_ptr|__uniq_ptr_impl|tuple|_Tuple_impl|_Head_base|initializer_list|array)<[^(]*>::", r"(^|[ *&])std::(get|__get_helper)<", r"^[^(]*std::(_)?optional")
SIMPLIFY = "always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)"
