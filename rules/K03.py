"""K03: results of lookups are tested before they are used as present elements."""
TECHNIQUE = "must-test dataflow on LLVM IR: every lookup result (iterator, pointer, index, optional) reaches element access only through a dominating not-found test"
NOTE = "Decides all lookups in the library and its instantiated templates: iterator searches, functions that may return null / no_index (inferred), and dereferences of optional values; an element known to exist by other means is not recognised (none such on the current tree)."
from sa import ir, flow, nullness
from sa.ir import const, base_off
from sa.report import Check

FIND = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "adjacent_find", "find_first_of", "find_last_of", "search"}
END = {"end", "cend", "rend", "crend"}
ERASE = {"erase"}
INL = ir.INL_LAMBDA[:1] + (r"__gnu_cxx::(__normal_iterator|operator)", r"(^|[ *&])(bool )?__gnu_cxx::operator", r"^[^(]*std::reverse_iterator<.*>::", r"^[^(]*std::operator(==|!=)<", r"(^|[ *&])std::(move|forward|addressof|__addressof|as_const|next|prev)[<(]",
       r"^[^(]*std::_Rb_tree_(const_)?iterator<.*>::", r"^[^(]*std::_List_(const_)?iterator<.*>::", r"^[^(]*std::__detail::_Node_(const_)?iterator", r"^[^(]*std::(unique_ptr|__uniq_ptr_impl|tuple|_Tuple_impl|_Head_base)<[^(]*>::", r"(^|[ *&])std::(get|__get_helper)<", r"std::operator(==|!=)\(std::_", r"^[^(]*std::_Rb_tree_iterator<|_Fwd_list", )

def leaf(p, f): return p.q(f).split("::")[-1] if f else ""

class Iter(nullness.Missing):
    """a search result; missing = equal to the end of the searched range"""
    def __init__(self, p): super().__init__(p, None)
    def endlike(self, f, w):
        n = f.inst(w)
        if n is None: return False
        if n.iscall(): return leaf(self.p, n.f) in END
        if n.o == "load":
            w2 = slotwriter(f, n)
            return w2 is not None and leaf(self.p, w2.f) in END
        if f.isarg(w): return True
        return False
    def present(self, f, v, b, extra=()):
        cls = alias(f, v)
        for pr, x, y, n in list(flow.block_facts(f, b)) + list(extra):
            if pr != "ne" or y is None: continue
            for u, w in ((x, y), (y, x)):
                if isinstance(u, int) and u in cls and (self.endlike(f, w) or f.isarg(w)): return True
        return False

def slotwriter(f, ld):
    """the call that filled the stack slot a load reads (class values returned in memory)"""
    r, off = base_off(f, ld.a[0])
    al = f.inst(r)
    if al is None or al.o != "alloca" or off != 0: return None
    ws = [u for u in f.uses.get(r, ()) if u.iscall() and u.g("sret") and u.a and u.a[0] == r]
    st = [u for u in f.uses.get(r, ()) if u.o == "store" and u.a[1] == r]
    return ws[0] if len(ws) == 1 and not st else None

def alias(f, v):
    n = f.inst(v)
    if n is not None and n.o == "load":
        w = slotwriter(f, n)
        if w is not None:
            return {u.i for u in f.insts() if u.o == "load" and slotwriter(f, u) is w}
    return {v}

def iter_uses(p, I, f, v, seen, depth=0):
    if (f.name, v) in seen or depth > 10: return
    seen.add((f.name, v))
    for n in f.uses.get(v, ()):
        if n.o in ("icmp", "br", "switch"): continue
        if n.o == "phi":
            for x, pb in zip(n.a, n.g("pb")):
                if x == v:
                    ef = flow.edge_facts(f, pb, n.b) if len(f.succs(pb)) > 1 else []
                    # a phi that merges the result with the end value is itself the result
                    if not I.present(f, v, pb, ef): yield from iter_uses(p, I, f, n.i, seen, depth + 1); break
            continue
        if n.o == "select":
            fl = []
            if n.a[1] == v: flow.facts_of(f, n.a[0], True, fl)
            elif n.a[2] == v: flow.facts_of(f, n.a[0], False, fl)
            if not I.present(f, v, n.b, fl): yield from iter_uses(p, I, f, n.i, seen, depth + 1)
            continue
        if I.present(f, v, n.b): continue
        if n.o in nullness.CASTS: yield from iter_uses(p, I, f, n.i, seen, depth + 1); continue
        if n.o == "getelementptr":
            if n.a[0] == v and n.g("off", -1) >= 0:
                # address of a part of the element, or the next element: only an access through it needs the element
                yield from iter_uses(p, I, f, n.i, seen, depth + 1)
            continue
        if n.o == "load": yield n, "is dereferenced"; continue
        if n.o == "store":
            if n.a[1] == v: yield n, "is dereferenced"; continue
            continue
        if n.o == "ret":
            if not returns_result(p, f) and not f.r.get("rref"):
                for c in p.callers().get(f.name, ()):
                    if c.f and not I.present(c.fn, c.i, c.b): yield from iter_uses(p, I, c.fn, c.i, seen, depth + 1)
            if f.r.get("rref"): yield n, "is returned as a reference to the element"
            continue
        if n.iscall():
            l = leaf(p, n.f)
            if l in ERASE and sum(1 for o in n.a if o == v) == 1 and not isrange(p, n): yield n, "is passed to erase()"; continue
            g = p.func(n.f) if n.f else None
            hit = [k for k, o in enumerate(n.a) if o == v]
            if g is not None and p.inrepo(g):
                for k in hit:
                    if k < len(g.args): yield from iter_uses(p, I, g, k, seen, depth + 1)
            elif l in ("operator*", "operator->", "_M_ptr", "operator="): yield n, "is dereferenced"
            elif n.f and (n.f.startswith("_ZN") or n.f.startswith("_ZNK")) and hit and hit[0] == (1 if n.g("sret") else 0) and n.g("nonnull0", True) and l not in ("base",) and derived(f, v): yield n, "is used as an element by %s" % l

def derived(f, v):
    """v is (part of) the element itself rather than an iterator value handed on"""
    n = f.inst(v)
    return n is not None and n.o == "getelementptr"

def isrange(p, n):
    d = p.dem(n.f)
    d = d[d.rfind("::erase(") if "::erase(" in d else d.rfind("erase("):]
    return d.count("iterator<") >= 2

def returns_result(p, f):
    return leaf(p, f.name) in FIND

def run():
    c = Check("K03", "For every lookup result: element access through it (dereference, member access, erase, indexing, optional value) is dominated by a comparison with the not-found value; results handed on are followed through calls and returns")
    p = ir.prog(tus=("strings", "containers", "geometry", "system"), inline=INL, passes="always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)", helpers=True)
    I = Iter(p); N0 = nullness.Missing(p, 0); NI = Index(p)
    it = ptr = idx = opt = 0
    nul, neg = maybe(p, 0), maybe(p, -1)
    # 1. iterator searches
    for f in p.repo_funcs():
        if f.name in p.helpers: continue
        for n in f.calls():
            l = leaf(p, n.f)
            if l in FIND and n.f not in nul and p.q(n.f).split("::")[-2:-1] not in (["basic_string"], ["basic_string_view"]):
                key = "%s uses %s" % (f.q, p.q(n.f))
                srcs = []
                if n.t == "ptr": srcs = [n.i]
                elif n.g("sret"):
                    srcs = [u.i for u in f.insts() if u.o == "load" and slotwriter(f, u) is n]
                if not srcs: continue
                it += 1
                bad = []
                for s in srcs: bad += list(iter_uses(p, I, f, s, set()))
                rep(c, key, n, bad)
            # optional
            if l in ("operator*", "operator->", "value") and p.q(n.f).split("::")[-2:-1] == ["optional"] and l != "value":
                opt += 1
                o = n.a[1] if n.g("sret") else n.a[0]
                b = base_off(f, o)
                ok = False
                for pr, x, y, t in flow.block_facts(f, n.b):
                    i = f.inst(x)
                    if pr == "true" and i is not None and i.iscall() and leaf(p, i.f) in ("operator_bool", "has_value") and base_off(f, i.a[0]) == b: ok = True
                key = "%s dereferences an optional" % f.q
                if ok or p.q(f.name).startswith("xo::optional"): c.ok(key, n.where())
                else: c.bad(key, "%s: an optional value is dereferenced without testing that it has a value" % n.where())
    # 2. functions that may return null or no_index
    for f in p.repo_funcs():
        if f.name in p.helpers: continue
        for n in f.calls():
            if n.f in nul or (n.f or "") == "__dynamic_cast":
                if n.f == "__dynamic_cast" and f.name in nul: pass
                ptr += 1
                rep(c, "%s uses %s" % (f.q, p.q(n.f)), n, list(N0.uses(f, n.i)))
            elif n.f in neg:
                idx += 1
                rep(c, "%s uses %s" % (f.q, p.q(n.f)), n, list(NI.uses(f, n.i)))
    # 3. text searches
    pos = 0
    NP = Npos(p)
    for f in p.repo_funcs():
        if f.name in p.helpers: continue
        for n in f.calls():
            if n.t == "i64" and leaf(p, n.f) in STRFIND and p.q(n.f).split("::")[-2] in ("basic_string", "basic_string_view"):
                pos += 1
                rep(c, "%s uses string::%s" % (f.q, leaf(p, n.f)), n, list(NP.uses(f, n.i)))
    c.cover(text_searches=pos, functions=len(p.repo_funcs()), iterator_lookups=it, pointer_lookups=ptr, index_lookups=idx, optional_dereferences=opt, may_return_null=sorted(p.q(x) for x in nul), may_return_no_index=sorted({p.q(x) for x in neg}))
    c.floor("iterator lookups", it, 10); c.floor("pointer lookups", ptr, 5); c.floor("index lookups", idx, 3)
    c.finish()

STRFIND = {"find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"}

class Npos(nullness.Missing):
    """npos may be used as a length and npos + 1 is position 0; every other arithmetic or position needs a real position"""
    def __init__(self, p): super().__init__(p, -1)
    def present(self, f, v, b, extra=()):
        if super().present(f, v, b, extra): return True
        for pr, x, y, n in list(flow.block_facts(f, b)) + list(extra):
            if (pr == "ult" and x == v) or (pr == "ugt" and y == v): return True
        return False
    def uses(self, f, v, depth=0, seen=None, extra=()):
        seen = seen if seen is not None else set()
        if v in seen: return
        seen.add(v)
        for n in f.uses.get(v, ()):
            if n.o in ("phi", "select"):
                ok = False
                if n.o == "phi": ok = all(x != v or self.present(f, v, pb, flow.edge_facts(f, pb, n.b) if len(f.succs(pb)) > 1 else ()) for x, pb in zip(n.a, n.g("pb")))
                else:
                    fl = []; flow.facts_of(f, n.a[0], n.a[1] == v, fl); ok = self.present(f, v, n.b, fl) or n.a[0] == v
                if not ok: yield from self.uses(f, n.i, depth + 1, seen)
                continue
            if self.present(f, v, n.b): continue
            if n.o in ("add", "sub"):
                k = const(n.a[1])
                if n.o == "add" and k == 1: continue
                if n.o == "sub" and n.a[0] == v or n.o == "add": yield from self.uses(f, n.i, depth + 1, seen)
                continue
            if n.o == "getelementptr" and n.a[0] != v: yield n, "indexes the text"
            if n.iscall():
                l = leaf(self.p, n.f); a = n.a[1:] if n.g("sret") else n.a
                if l in ("operator[]", "erase", "insert", "replace", "substr", "at") and len(a) > 1 and a[1] == v: yield n, "is a position of %s()" % l

class Index(nullness.Missing):
    def __init__(self, p): super().__init__(p, -1)
    def present(self, f, v, b, extra=()):
        if super().present(f, v, b, extra): return True
        for pr, x, y, n in list(flow.block_facts(f, b)) + list(extra):
            if (pr == "ult" and x == v) or (pr == "ugt" and y == v): return True
        return False
    def uses(self, f, v, depth=0, seen=None, extra=()):
        for n, why in super().uses(f, v, depth, seen, extra):
            if n.iscall() and leaf(self.p, n.f) not in ("operator[]",): continue
            yield n, why

def maybe(p, s):
    """repository functions whose returned value may be the constant s (null or -1)"""
    r = set()
    ch = True
    while ch:
        ch = False
        for f in p.repo_funcs():
            if f.name in r: continue
            rt = f.r["ret"]
            if s == 0 and rt != "ptr" or s == -1 and rt not in ("i64",): continue
            hit = False
            for x in f.insts():
                if x.o != "ret" or not x.a: continue
                st, seen = [(x.a[0], x.b, ())], set()
                while st and not hit:
                    v, b, ex = st.pop()
                    if s == 0 and ir.isnull(v) or s == -1 and const(v) == -1: hit = True; break
                    n = f.inst(v)
                    if n is None or n.i in seen: continue
                    seen.add(n.i)
                    if n.o == "phi": st += [(w, pb, flow.edge_facts(f, pb, n.b) if len(f.succs(pb)) > 1 else ()) for w, pb in zip(n.a, n.g("pb"))]
                    elif n.o == "select":
                        for w, tr in ((n.a[1], True), (n.a[2], False)):
                            fl = []; flow.facts_of(f, n.a[0], tr, fl); st.append((w, b, fl))
                    elif n.iscall() and n.f in r:
                        M = Index(p) if s else nullness.Missing(p, 0)
                        if not M.present(f, n.i, b, ex): hit = True
            if hit: r.add(f.name); ch = True
    return r

def rep(c, key, n, bad):
    if bad:
        u, why = bad[0]
        c.bad(key, "%s: the result of the lookup %s at %s without a not-found test on some path" % (n.where(), why, u.where()))
    else: c.ok(key, n.where())
