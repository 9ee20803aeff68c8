"""K07: for every public const operation of every library class, and every library function taking an object by const reference, the result type gives no mutable reference, pointer, iterator or view to a type that the object owns; no const operation casts constness away; the only mutable members are the access mark, interruption flags and locks."""
TECHNIQUE = "type-system analysis of the instantiated, type-checked program: closure of the types reachable mutably from each result type against the closure of the types owned by the object"
NOTE = "Ownership is the closure of member types through values, standard containers and owning pointers (raw pointers and references count as views, except in classes that also own storage). The product is computed from the declarations the compiler instantiated; classes without any instantiation in the library or the analysis units are not covered."
import re
from sa import tree, ctype
from sa.facts import rel, REPO
from sa.report import Check

OWNING = re.compile(r"^(std::(vector|deque|list|map|set|multimap|unordered_\w+|array|pair|tuple|optional|variant|unique_ptr|shared_ptr|basic_string|function|atomic\w*)|xo::)")
LOCKS = re.compile(r"mutex|once_flag|condition_variable")
SCALAR = {"char", "wchar_t"}

class K:
    def __init__(self, T):
        self.T = T
        self.rec = {}
        for r in T.recs.values(): self.rec.setdefault(r["full"], r); self.rec.setdefault(r["t"], r)
        self._own, self._mut = {}, {}
    # ---- types owned by a type
    def owned(self, t, top=True):
        t = ctype.bare(t)
        if t in self._own: return self._own[t]
        self._own[t] = set()
        r, x = set(), ctype.parse(t)
        rec = self.rec.get(t)
        if x.layers: pass
        elif rec is not None:
            owner = any(self.owner_field(f["t"]) for f in rec["fields"])
            for f in rec["fields"]:
                ft = ctype.parse(f["t"])
                if any(l[0] in ("&", "&&") for l in ft.layers): continue
                if ft.layers:
                    if owner and len(ft.layers) == 1 and not ft.const: r |= {ctype.strip_const(f["t"].rstrip("*& "))} & self.owned_by_ptr(rec)
                    continue
                r.add(ctype.bare(f["t"])); r |= self.owned(f["t"])
            for b in rec["bases"]:
                bt = b["t"] if isinstance(b, dict) else b
                r.add(ctype.bare(bt)); r |= self.owned(bt)
        elif OWNING.match(x.name):
            for a in x.args:
                if a.startswith("std::allocator") or a.startswith("std::char_traits") or a.startswith("std::default_delete"): continue
                a2 = re.sub(r"\[\d*\]$", "", a).strip()
                if not ctype.parse(a2).layers and re.match(r"[A-Za-z_(]", a2): r.add(ctype.bare(a2)); r |= self.owned(a2)
        elif re.search(r"\[\d+\]$", t):
            e = re.sub(r"\s*\[\d+\]$", "", t); r.add(ctype.bare(e)); r |= self.owned(e)
        self._own[t] = r
        return r
    def owner_field(self, t):
        x = ctype.parse(t)
        return not x.layers and bool(re.match(r"std::(unique_ptr|vector)", x.name))
    def owned_by_ptr(self, rec):
        r = set()
        for f in rec["fields"]:
            x = ctype.parse(f["t"])
            if not x.layers and x.args: r.add(ctype.bare(re.sub(r"\s*\[\d*\]$", "", x.args[0])))
        return r
    # ---- types that can be modified through a value of this (result) type
    def mutable(self, t):
        t = t.strip()
        if t in self._mut: return self._mut[t]
        self._mut[t] = set()
        r, x = set(), ctype.parse(t)
        if x.layers:
            if not x.const and "(" not in x.name: r.add(ctype.strip_const(re.sub(r"[\s*&]+$", "", t)))
            if len(x.layers) >= 1: r |= self.mutable_view(re.sub(r"[\s*&]+$", "", t))
        else: r |= self.mutable_view(t)
        self._mut[t] = r
        return r
    def mutable_view(self, t):
        t = ctype.strip_const(t); x = ctype.parse(t); r = set()
        rec = self.rec.get(t)
        if re.match(r"(__gnu_cxx::__normal_iterator|std::reverse_iterator|std::move_iterator|std::span)", x.name): r |= self.mutable(x.args[0])
        elif x.name in ("std::pair", "std::tuple", "std::optional", "std::vector", "std::reference_wrapper", "std::unique_ptr", "std::shared_ptr", "std::_Deque_iterator"):
            for a in x.args:
                if a.startswith("std::"): r |= self.mutable(a) if not a.startswith(("std::allocator", "std::default_delete", "std::basic_string")) else set()
                elif ctype.parse(a).layers: r |= self.mutable(a)
        elif rec is not None and self.isview(rec):
            for m in rec["methods"]:
                if m["acc"] == 0 and m["n"] in ("operator*", "operator->", "operator[]", "operator()", "begin", "end", "front", "back", "data") and m["ret"] != t:
                    r |= self.mutable(m["ret"]) - {t}
        return r
    def isview(self, rec):
        """holds pointers, references or iterators instead of elements"""
        fs = rec["fields"]
        return bool(fs) and any(ctype.parse(f["t"]).layers or "iterator" in f["t"] for f in fs) and not any(self.owner_field(f["t"]) for f in fs)

def run():
    c = Check("K07", "No public const operation (and no function given a const reference) has a result through which something the object owns can be modified; const operations contain no cast that removes const; mutable members are locks or marks")
    T = tree.tree(tus=("containers", "geometry", "system", "strings", "order", "errors", "flags"))
    k = K(T)
    nm = nf = nc = 0
    done = set()
    short = lambda s: re.sub(r"std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string", s)
    for r in T.recs_repo():
        own = k.owned(r["t"]) | {r["t"]}
        if k.isview(r): own = set()
        for m in r["methods"]:
            if m["acc"] != 0 or not m.get("const") or m.get("static") or m.get("deleted"): continue
            nm += 1
            done.add(m["m"])
            par = set()
            for p in m.get("params", ()): par |= k.mutable(p)
            got = {x for x in k.mutable(m["ret"]) if x in own or re.sub(r"\s*\[\]$", "", x) in own} - par
            key = "%s::%s const" % (short(r["full"]), m["n"])
            if got: c.bad(key, "%s:%d: the result %s lets a caller with a const object modify %s, which the object owns" % (rel(r["file"]), m["l"], short(m["ret"]), short(sorted(got)[0])))
            else: c.ok(key, "%s" % short(m["ret"]))
        for f in r["fields"]:
            if f.get("mutable"):
                key = "mutable member %s::%s" % (re.sub(r"<.*", "", r["full"]), f["n"])
                if LOCKS.search(f["t"]) or f["t"].startswith("std::atomic<bool>") or f["t"] == "std::atomic_bool" or f["t"] == "bool": c.ok(key, f["t"])
                else: c.bad(key, "%s: const operations may modify %s (%s)" % (rel(r["file"]), f["n"], short(f["t"])))
    for f in T.repo():
        const_this = f.get("const")
        if f.get("cls") and const_this and f.get("acc") == 0 and not f.get("static") and f["m"] not in done:
            r = k.rec.get(f["cls"])
            if r is not None and not k.isview(r):
                nm += 1
                own = k.owned(r["t"]) | {r["t"]}; par = set()
                for p in f["params"]: par |= k.mutable(p["t"])
                got = {x for x in k.mutable(f["ret"]) if x in own} - par
                key = "%s::%s const (template)" % (short(r["full"]), f["n"])
                if got: c.bad(key, "%s: the result %s lets a caller with a const object modify %s, which the object owns" % (T.where(f), short(f["ret"]), short(sorted(got)[0])))
                else: c.ok(key, short(f["ret"]))
        if not f.get("cls"):
            own, par = set(), set()
            for p in f["params"]:
                x = ctype.parse(p["t"])
                if x.layers and x.layers[0][0] in ("&", "*") and x.const: own |= k.owned(ctype.strip_const(re.sub(r"[\s*&]+$", "", p["t"]))) | {ctype.strip_const(re.sub(r"[\s*&]+$", "", p["t"]))}
                else: par |= k.mutable(p["t"]) | k.owned(p["t"])
            if own:
                nf += 1
                got = (k.mutable(f["ret"]) & own) - par - SCALAR
                key = "%s( %s )" % (short(f["q"]), ", ".join(short(p["t"]) for p in f["params"]))
                if got and f["ret"].strip().endswith(("&", "*")) or got and "iterator" in f["ret"]:
                    c.bad(key, "%s: the result %s lets the caller modify %s, which was passed as const" % (T.where(f), short(f["ret"]), short(sorted(got)[0])))
                else: c.ok(key)
        if const_this:
            for n in tree.nodes(f):
                if n.get("k") in ("CXXConstCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr") and n.get("c"):
                    a, b = n["c"][-1].get("t", ""), n.get("t", "")
                    pa, pb = ctype.parse(a), ctype.parse(b)
                    if (pb.layers or n.get("lv")) and (pa.const and not pb.const):
                        nc += 1
                        c.bad("%s const casts constness away" % short(f["q"]), "%s: %s is cast to %s inside a const operation" % (T.where(f, n), short(a), short(b)))
    c.cover(const_operations=nm, functions_with_const_objects=nf, casts_removing_const_in_const_operations=nc)
    c.floor("const operations analysed", nm, 400)
    c.floor("functions with const objects analysed", nf, 150)
    c.finish()
