"""Which storage the pointers a function returns refer to: flow-insensitive, with summaries of called functions.

A location is ("a", i) the object argument i points to, ("l", inst) a local variable or temporary, ("v", i) a by-value
argument, ("h", inst) memory allocated here, ("g", name) a global, or ("c", location): whatever a pointer stored in that
object points to when nothing else is known.  R(value) is the set of locations a pointer value may refer to."""
import re
from .ir import const

# members of class templates that are compiled elsewhere: what their result refers to
S = r"^std::__cxx11::basic_string::"
EXTERN = [(re.compile(S + r"(c_str|data|begin|end|cbegin|cend|rbegin|rend|front|back|operator\[\]|at|operator_.*basic_string_view.*)$"), "content"),
          (re.compile(S + r"(operator=|operator\+=|append|assign|insert|replace)$"), "self"), (re.compile(S + r"erase$"), "erase"),
          (re.compile(r"^std::(_Rb_tree_increment|_Rb_tree_decrement)$"), "node"),
          (re.compile(r"^(strchr|strrchr|strstr|strpbrk|memchr|memcpy|memmove|memset|strcpy|strcat|strncpy|std::basic_ostream::.*|std::ostream::.*|std::operator<<|std::operator>>|std::basic_istream::.*|std::istream::.*|std::getline|std::endl|std::flush)$"), "self")]
# classes whose destructor ends the life of what their members return
OWNER = re.compile(r"^(std::(__cxx11::)?(basic_string|vector|deque|list|forward_list|map|multimap|set|multiset|unordered_\w+|unique_ptr|function|optional|any|variant|array|tuple|pair|basic_(o|i|)stringstream|basic_[io]fstream)\b"
                   r"|xo::(prop_node|path|flat_map|flat_set|sorted_vector|sorted_set|sorted_ptr_map|dynarray|circular_deque|circular_buffer|storage|table|dictionary|indexed_map|indexed_set|label_vector|lookup_vector|collection|stringbuf|error_code|any|flag_set|object_ref)\b)")
DEPTH = 3

class Summary:
    __slots__ = ("ret", "eff")
    def __init__(s): s.ret, s.eff = set(), {}          # eff: location of an argument -> locations stored in it

def depth(l):
    d = 0
    while l[0] == "c": d += 1; l = l[1]
    return d
def root(l):
    while l[0] == "c": l = l[1]
    return l

class Escape:
    def __init__(self, p): self.p, self.memo, self.busy, self.full = p, {}, set(), {}
    def summary(self, name):
        name = self.p.alias.get(name, name)
        if name in self.memo: return self.memo[name]
        f = self.p.func(name)
        if f is None or not f.blocks or name in self.busy: return self.extern(name)
        self.busy.add(name)
        a = Frame(self, f); a.solve()
        self.busy.discard(name)
        s = Summary()
        def ext(l): return root(l)[0] in ("a", "g")
        s.ret = {l for l in a.ret if ext(l) or root(l)[0] == "h"}
        for k, v in a.cont.items():
            if root(k)[0] in ("a", "h"):
                w = {l for l in v if ext(l) or root(l)[0] == "h"}
                if w: s.eff[k] = w
        self.memo[name] = s
        return s
    def frame(self, f):
        a = Frame(self, f); a.solve(); return a
    def extern(self, name):
        s = Summary(); q = self.p.q(name) if name.startswith("_Z") else name
        for r, k in EXTERN:
            if r.match(q):
                if k == "self": s.ret = {("a", 0)}
                elif k == "erase": s.ret = {("a", 0)} if "__normal_iterator" not in self.p.dem(name).split("(")[-1] else {("c", ("a", 0))}
                elif k == "node": s.ret = {("c", ("a", 0))}
                else: s.ret = {("c", ("a", 0))}
        return s

class Frame:
    def __init__(self, e, f):
        self.e, self.p, self.f = e, e.p, f
        self.R, self.cont, self.ret, self.byval = {}, {}, set(), set()
        for i, a in enumerate(f.args):
            if a["t"] != "ptr": continue
            l = ("a", i)
            if (a.get("byval") or a.get("ind")) and not a.get("sret"): l = ("v", i)
            self.R[a["i"]] = {l}
    def val(self, o):
        if isinstance(o, int): return self.R.get(o, set())
        if isinstance(o, list) and o:
            if o[0] == "g": return {("g", o[1])}
            if o[0] == "cgep": return self.val(o[1])
            if o[0] == "ce": return set().union(*[self.val(x) for x in o[2:3]])
        return set()
    def content(self, l):
        if l in self.cont: r = set(self.cont[l])
        else: r = set()
        if root(l)[0] in ("a", "g", "v") or not r:
            if root(l)[0] == "g" or depth(l) >= DEPTH: pass
            else: r.add(("c", l))
        return r
    def put(self, l, v):
        if not v or root(l)[0] == "g" or depth(l) >= DEPTH: return
        s = self.cont.setdefault(l, set()); n = len(s); s |= v
        self.changed |= len(s) != n
    def set(self, i, v):
        s = self.R.setdefault(i, set()); n = len(s); s |= v
        self.changed |= len(s) != n
    def subst(self, l, args, n):
        """a location of a called function's summary, here"""
        if l[0] == "a": return set(self.val(args[l[1]])) if l[1] < len(args) else set()
        if l[0] == "g": return {l}
        if l[0] == "h": return {("h", n.i)}
        if l[0] == "c": return set().union(*[self.content(x) for x in self.subst(l[1], args, n)]) if True else set()
        return set()
    def solve(self):
        for _ in range(6):
            self.changed = False
            for n in self.f.insts(): self.step(n)
            if not self.changed: break
    def step(self, n):
        o = n.o
        if o == "alloca": self.set(n.i, {("l", n.i)})
        elif o in ("getelementptr", "bitcast", "freeze", "addrspacecast", "inttoptr", "ptrtoint", "extractvalue"): self.set(n.i, self.val(n.a[0]))
        elif o == "insertvalue": self.set(n.i, self.val(n.a[0]) | self.val(n.a[1]))
        elif o == "phi":
            for x in n.a: self.set(n.i, self.val(x))
        elif o == "select": self.set(n.i, self.val(n.a[1]) | self.val(n.a[2]))
        elif o == "load":
            if n.t == "ptr" or n.t.startswith("{") or n.t == "i64":
                for l in self.val(n.a[0]):
                    if n.t != "i64": self.set(n.i, self.content(l))
                    elif l in self.cont: self.set(n.i, self.cont[l])
        elif o == "store":
            v = self.val(n.a[0])
            if v:
                for l in self.val(n.a[1]): self.put(l, v)
        elif o in ("call", "invoke"):
            nm = n.f
            if not nm: return
            if nm.startswith("llvm."):
                if nm.startswith(("llvm.memcpy", "llvm.memmove")):
                    for d in self.val(n.a[0]):
                        for s in self.val(n.a[1]):
                            if s in self.cont or root(s)[0] in ("a", "v"): self.put(d, self.content(s))
                return
            if nm.startswith(("_Znw", "_Zna")) or nm in ("malloc", "calloc", "realloc"): self.set(n.i, {("h", n.i)}); return
            s = self.e.summary(nm)
            if n.t and n.t != "void":
                for l in s.ret: self.set(n.i, self.subst(l, n.a, n))
            for k, v in s.eff.items():
                vs = set().union(*[self.subst(x, n.a, n) for x in v])
                for d in self.subst(k, n.a, n): self.put(d, vs)
        elif o == "ret":
            if n.a: self.ret |= self.val(n.a[0])
        elif o in ("add", "sub", "and", "or") and n.t == "i64":
            self.set(n.i, self.val(n.a[0]) | self.val(n.a[1]))

    def owners(self):
        """locals (and by-value arguments) whose destructor ends the life of what they hold: location -> class"""
        own = {}
        for n in self.f.calls():
            if not n.f or "D" not in n.f or not n.a: continue
            d = self.p.dem(n.f); k = d.find("::~")
            if k < 0: continue
            v = self.val(n.a[0])
            if len(v) == 1:
                l = next(iter(v))
                if l[0] == "l" and OWNER.match(d): own[l] = d[:k]
        for i, a in enumerate(self.f.args):
            if a.get("ind") is not None and not a.get("sret"):
                t = self.p.typename(a["ind"])
                if OWNER.match(t): own[("v", i)] = t
        return own
    def name(self, l):
        if l[0] == "v":
            return "a parameter taken by value"
        n = self.f.inst(l[1]); dv = n.g("dv", [])
        return "local variable '%s'" % dv[0][0] if dv else "a temporary"
    def dangling(self):
        """what the function returns although it no longer exists when the caller receives it"""
        own = self.owners(); out = {}
        released = set()      # handed over: released, moved from or exchanged
        for n in self.f.calls():
            if n.f and n.a and (self.p.q(n.f) == "std::unique_ptr::release" or "&&" in self.p.dem(n.f) or self.p.q(n.f).endswith("swap")):
                d = self.p.q(n.f).split("::")
                for a in n.a[1 if n.g("sret") or d[-1] == "operator=" or len(d) > 1 and d[-1] == d[-2] else 0:]: released |= self.val(a)
        def judge(l, via):
            if l[0] in ("l", "v"): out.setdefault((self.name(l), via), l)
            elif l[0] == "c":
                d, r = depth(l), root(l)
                if r in own and (d == 1 or d == 2 and "unique_ptr<" in own[r]) and not r in released: out.setdefault((self.name(r), "the content of"), r)
            elif l[0] == "h":
                hold = [k for k, v in self.cont.items() if l in v]
                if hold and all(root(k)[0] == "l" for k in hold) and not any(root(k) in released for k in hold):
                    o = [k for k in hold if k in own and "unique_ptr" in own[k]]
                    if o and len(o) == len(hold): out.setdefault((self.name(o[0]), "the object owned by"), o[0])
        def judge_(l, via, seen):
            judge(l, via)
            if l[0] == "h" and l not in seen:
                seen.add(l)
                for x in self.cont.get(l, ()): judge_(x, "an object that refers to" if x[0] in "lv" else "", seen)
        for l in self.ret: judge_(l, "the address of", set())
        for i, a in enumerate(self.f.args):
            if a.get("sret"):
                for l in self.cont.get(("a", i), ()): judge_(l, "an object that refers to" if l[0] in "lv" else "", set())
        return sorted((x[1], x[0]) for x in out)
