"""G06: for every generic shape operation and every shape kind, the operation runs that kind's own implementation on the stored shape and hands its result through; every implementation can return; saving a kind writes the tag and parameters from which loading rebuilds the same kind with the same parameters, and unknown tags are refused."""
TECHNIQUE = "abstract interpretation of every generic operation for every kind of the variant (complete, finite domain) with symbolic parameters; algebraic comparison of the loaded parameters with the saved ones"
NOTE = "Known findings: the operations that a kind declares but only answers with 'not implemented'."
import re
from sa import ir, absint, strdom, poly, throws
from sa.absint import P, Thrown, Diverges, Unmodelled, UNDEF
from sa.facts import rel, AnalysisError
from sa.report import Check

def shape_units():
    import glob
    return sorted(rel(x) for x in glob.glob(p_repo + "/xo/shape/*.cpp"))
VAR = re.compile(r"std::variant<(xo::sphere.*?)>")
class Recursion(Exception): pass

def run():
    c = Check("G06", "Every generic shape operation dispatches to the implementation of the stored kind, and saving then loading restores kind and parameters")
    p = ir.prog(tus=("shapes",), units=shape_units(), helpers=True)
    gen = [f for f in p.funcs.values() if f.q.startswith("xo::") and any(VAR.search(t) for t in strdom.params(f.dem)) and "lambda" not in f.dem and f.blocks]
    if not gen: raise AnalysisError("no generic shape operation found")
    kinds = absint.split(VAR.search([t for t in strdom.params(gen[0].dem) if VAR.search(t)][0])[1])
    kind_of = lambda t: next((k for k in kinds if re.sub(r"\s*(const)?\s*&*$", "", t) == k), None)
    def over(f):
        """(kind, remaining parameter types) of an implementation for one kind"""
        ts = strdom.params(f.dem)
        ks = [kind_of(t) for t in ts]
        if sum(k is not None for k in ks) != 1 or "lambda" in f.dem or f.q.startswith("std::") or re.search(r"xo::(\w+)::\1$|::operator|::~", f.q): return None
        k = next(k for k in ks if k)
        return k, tuple(t if kd is None else "#" for t, kd in zip(ts, ks))
    impl = {}
    for f in p.funcs.values():
        if f.q.startswith("xo::") and f.blocks:
            o = over(f)
            if o: impl.setdefault((f.q, o[1]), {})[o[0]] = f
    byname = {f.name: (key, k) for key, d in impl.items() for k, f in d.items()}
    names = {f.q for f in gen} | {q for q, _ in impl}
    short = lambda k: k.replace("xo::", "")
    def sig(f): return tuple("#" if VAR.search(t) else t for t in strdom.params(f.dem))
    def label(q, s, k): return "%s( %s )" % (q.replace("xo::", ""), ", ".join(short(k) if t == "#" else re.sub(r"xo::|const ?|&", "", t).strip() for t in s))
    # ---- dispatch
    def model(E, f, n, a):
        nm = p.alias.get(n.f, n.f)
        if nm in byname:
            key, k = byname[nm]
            fn = p.func(nm); sh = len(fn.args) - len(key[1])
            i = key[1].index("#") + sh if sh >= 0 else None
            E.events.append((key, k, a[i] if i is not None else None, [x for j, x in enumerate(a) if j != i]))
            if fn.r.get("ret", "") == "void" or n.t in (None, "void"): return None
            v = ("impl", len(E.events))
            parts = E.T.get(n.t)[2]
            return v if parts is None else tuple(v + (j,) for j in range(len(parts)))
        if p.func(nm) is not None and p.func(nm) in gen:
            g = p.func(nm)
            st = E.__dict__.setdefault("gstack", [])
            if nm in st: raise Recursion(g.q)
            st.append(nm)
            try: return E.call(nm, a)
            finally: st.pop()
        return NotImplemented
    M = dict(strdom.MODELS)
    for q in names: M[q] = model
    n_disp = 0
    for g in sorted(gen, key=lambda f: f.dem):
        if g.q == "xo::from_prop_node": continue
        s = sig(g); own = impl.get((g.q, s), {})
        # an operation that looks at the variant itself has no implementations per kind
        any_impl = bool(own)
        for k in kinds:
            key = label(g.q, s, k)
            def body(E):
                v = E.sym("shape"); E.call("make_" + short(k), [v]); pre = len(v.o.log)
                kd = E.call("shape_kind", [v])
                args, j = [], 0
                fa = g.args; sh = len(fa) - len(s)
                byval = any(VAR.search(t) and not t.endswith("&") for t in strdom.params(g.dem))
                out = None
                if byval: return None
                for i, x in enumerate(fa):
                    if i < sh: out = E.sym("result"); args.append(out)
                    elif s[i - sh] == "#": args.append(v)
                    elif x["t"] == "ptr": args.append(E.sym("arg%d" % i))
                    else: args.append(("s", "arg", i))
                E.__dict__["gstack"] = [g.name]
                r = E.call(g.name, args)
                return r, [x for i, x in enumerate(args) if not (i >= sh and s[i - sh] == "#")], E.call("shape_kind", [v]), kd
            try: res = [(r, E) for r, E in absint.explore(p, lambda E: guard(E, body), M, engine=strdom.StrEngine)]
            except Unmodelled as e: c.bad(key, "%s: not decided: %s" % (g.loc(), e)); continue
            if any(r[0] == "ok" and r[1] is None for r, E in res): continue
            n_disp += 1
            for r, E in res:
                if r[0] == "recursion": c.bad(key, "%s: there is no implementation for %s, so the operation calls itself for ever" % (g.loc(), short(k))); break
                if r[0] != "ok": c.bad(key, "%s: %s" % (g.loc(), r[1])); break
                ret, args, after, before = r[1]
                ev = E.events
                wrong = [x for x in ev if x[1] != k]
                if wrong: c.bad(key, "%s: runs the implementation of %s" % (g.loc(), short(wrong[0][1]))); break
                if not any_impl:
                    if after != before: c.bad(key, "%s: changes the kind of the shape" % g.loc()); break
                    continue
                mine = [x for x in ev if x[0] == (g.q, s)]
                if len(mine) != 1: c.bad(key, "%s: runs the implementation for this kind %d times" % (g.loc(), len(mine))); break
                x = mine[0]
                if not (isinstance(x[2], P) and x[2].o.name == "shape" and x[2].off == 0): c.bad(key, "%s: the implementation works on a copy or on another object" % g.loc()); break
                if x[3] != args: c.bad(key, "%s: the implementation gets other arguments" % g.loc()); break
                if after != before: c.bad(key, "%s: changes the kind of the shape" % g.loc()); break
                rr = ret if isinstance(ret, tuple) else None
                if rr is not None and rr and rr[0] != "impl" and not all(isinstance(y, tuple) and y[:1] == ("impl",) and y[-1] == j for j, y in enumerate(rr)): c.bad(key, "%s: does not return the result of the implementation" % g.loc()); break
                if ret is not None and rr is None: c.bad(key, "%s: does not return the result of the implementation" % g.loc()); break
            else: c.ok(key, "%d paths" % len(res))
    # ---- every implementation returns
    T = throws_always(p)
    n_impl = 0
    for (q, s), d in sorted(impl.items()):
        if len(d) < 2: continue
        for k, f in sorted(d.items()):
            n_impl += 1
            key = "implementation " + label(q, s, k)
            if T(f): c.bad(key, "%s: ends in an error for every %s" % (f.loc(), short(k)))
            else: c.ok(key)
    # ---- text
    def opaque(E, f, n, a):
        if any(nm == p.alias.get(n.f, n.f) for nm in kindtext.values()): return NotImplemented
        strdom.put(E, a[0], [("opq", n.f)]); return None
    kindtext = {k: f.name for k in kinds for f in p.funcs.values() if f.q == "xo::to_str" and strdom.params(f.dem) in ([k + " const&"], [k])}
    for k, nm in sorted(kindtext.items()):
        key = "text of a " + short(k); f = p.func(nm)
        MT = dict(strdom.MODELS); MT["xo::to_str"] = opaque
        def body(E):
            r, s = E.sym("result"), E.sym("shape"); E.call(nm, [r, s]); return strdom.items(E, r)
        try: res = [r for r, E in absint.explore(p, lambda E: guard(E, body), MT, engine=strdom.StrEngine)]
        except Unmodelled as e: c.bad(key, "%s: not decided: %s" % (f.loc(), e)); continue
        for r in res:
            if r[0] != "ok": c.bad(key, "%s: %s" % (f.loc(), r[1])); break
            t = re.match(r"\w*", "".join(chr(x & 255) if isinstance(x, int) else "\0" for x in r[1]))[0]
            if t != short(k): c.bad(key, "%s: begins with '%s'" % (f.loc(), t)); break
        else: c.ok(key, t)
    # ---- saving and loading
    n_rt = rt(c, p, kinds, short, gen)
    c.cover(generic_operations=len(gen), kinds=len(kinds), dispatches=n_disp, implementations=n_impl, round_trips=n_rt)
    c.floor("shape kinds", len(kinds), 6)
    c.floor("dispatches interpreted", n_disp, 50)
    c.floor("implementations per kind", n_impl, 50)
    c.floor("round trips", n_rt, 6)
    c.finish()

def guard(E, fn):
    try: return ("ok", fn(E))
    except Thrown as e: return ("thrown", "ends in an error (%s)" % e.ty)
    except Recursion as e: return ("recursion", str(e))
    except Diverges as e: return ("recursion" if "recursion" in str(e) else "diverges", "does not end: %s" % e)
    except (strdom.OutOfText, strdom.Stale) as e: return ("memory", str(e))

def throws_always(p):
    memo = {}
    def T(f, depth=0):
        """no path of f reaches a return"""
        if f.name in memo: return memo[f.name]
        memo[f.name] = False
        seen, st, r = set(), [0], True
        while st and r:
            b = st.pop()
            if b in seen: continue
            seen.add(b); stop = False
            for n in f.blocks[b]:
                if n.o == "ret": r = False
                if n.iscall() and n.f:
                    g = p.func(p.alias.get(n.f, n.f))
                    if n.f in ("__cxa_throw", "__cxa_rethrow") or g is not None and depth < 8 and g.file.startswith(p_repo) and T(g, depth + 1): stop = True
            if not stop: st += f.succs(b)
        memo[f.name] = r
        return r
    return T
from sa.facts import REPO as p_repo

def rt(c, p, kinds, short, gen):
    """tag and parameters written for each kind, read back by the loader"""
    load = next((f for f in gen if f.q == "xo::from_prop_node"), None)
    if load is None: raise AnalysisError("no loader of shapes")
    n = 0
    # saving: property nodes are recorded as key -> value
    def key_at(E, a): return strdom.value(E, a)
    def index(E, f, i, a):
        o = E.obj("node:" + (key_at(E, a[1]) or "?"), "sym")
        a[0].o.ext.setdefault(("kids", a[0].off), {})[key_at(E, a[1])] = P(o)
        return P(o)
    def nm_q(i): return p.q(i.f)
    def setv(E, f, i, a):
        t = strdom.params(p.dem(i.f))[-1]
        a[0].o.ext[("val", a[0].off)] = read(E, t, a[1]); return a[0]
    def read(E, t, q):
        t = t.replace("const", "").replace("&", "").strip()
        if "char" in t and ("[" in t or "(" in t or "*" in t): return ("text", strdom.cstr(E, q if not isinstance(q, list) else q))
        if strdom.isstr(t): return ("text", strdom.items(E, q))
        if t == "float": return ("num", [E.load(q, "float")])
        if t == "double": return ("num", [E.load(q, "double")])
        if t == "int": return ("num", [E.load(q, "i32")])
        if "vec3_<float>" in t: return ("num", [E.load(P(q.o, q.off + 4 * k), "float") for k in range(3)])
        raise Unmodelled("value of type " + t)
    MS = dict(strdom.MODELS)
    MS.update({"xo::prop_node::operator[]": index, "xo::prop_node::operator=": setv, "xo::prop_node::prop_node": strdom.nop, "xo::prop_node::~prop_node": strdom.nop})
    def set2(E, f, i, a):
        o = index(E, f, i, a)
        o.o.ext[("val", 0)] = read(E, strdom.params(p.dem(i.f))[-1], a[2]); return o
    for q in ("set", "push_back", "add_child", "add_key_value", "emplace_back"): MS["xo::prop_node::" + q] = set2
    saved, tags = {}, {}
    for k in kinds:
        f = next((f for f in p.funcs.values() if f.q == "xo::to_prop_node" and strdom.params(f.dem) in ([k + " const&"], [k])), None)
        key = "save " + short(k)
        if f is None: continue
        def body(E):
            r, s = E.sym("result"), E.sym("shape")
            E.call(f.name, [r, s])
            kids = r.o.ext.get(("kids", 0), {})
            return {kk: v.o.ext.get(("val", 0)) for kk, v in kids.items()}
        try: res = [r for r, E in absint.explore(p, lambda E: guard(E, body), MS, engine=strdom.StrEngine)]
        except Unmodelled as e: c.bad(key, "%s: not decided: %s" % (f.loc(), e)); continue
        if len(res) != 1 or res[0][0] != "ok": c.bad(key, "%s: %s" % (f.loc(), res[0][1] if res[0][0] != "ok" else "depends on the values")); continue
        saved[k] = res[0][1]
        tags[k] = "".join(chr(x & 255) for x in (saved[k].get("type") or ("text", []))[1])
        if not tags[k]: c.bad(key, "%s: no type tag is saved" % f.loc())
        else: c.ok(key, "type=%s, %s" % (tags[k], ", ".join(x for x in saved[k] if x != "type")))
    dup = {t for t in tags.values() if list(tags.values()).count(t) > 1}
    if dup: c.bad("tags are distinct", "several kinds are saved as %s" % dup)
    else: c.ok("tags are distinct", ", ".join(sorted(tags.values())))
    # loading: get( key ) yields what was saved
    def getter(kids, mode):
        def m(E, f, i, a):
            d = p.dem(i.f); ts = strdom.params(d)
            sret = 1 if len(a) > len(ts) + 1 else 0
            this, rest = a[sret], a[sret + 1:]
            kv = None
            if ts and strdom.isstr(ts[0]):
                kk = key_at(E, rest[0]); kv = kids.get(kk, "missing")
            elif isinstance(this, P) and ("val", this.off) in this.o.ext: kv = this.o.ext[("val", this.off)]
            else: raise Unmodelled("get without a key")
            if kv == "missing":
                E.events.append("missing " + str(kk))
                if len(ts) > 1: return deliver(E, d, a, sret, i, read(E, ts[1], rest[1]) if isinstance(rest[1], P) else ("num", [rest[1]]))
                if i.t == "i1" or "try_" in i.f or i.t == "ptr" and not sret: return 0
                raise Thrown("missing key")
            return deliver(E, d, a, sret, i, kv)
        def deliver(E, d, a, sret, i, kv):
            if kv[0] == "text":
                if not sret: raise Unmodelled("text result")
                strdom.put(E, a[0], kv[1]); return None
            if sret:
                for j, x in enumerate(kv[1]): E.store(P(a[0].o, a[0].off + 4 * j), x, "float")
                return None
            if i.t in ("float", "double"): return kv[1][0]
            parts = E.T.get(i.t)[2]
            if parts is None: raise Unmodelled("result " + str(i.t))
            if len(parts) == 2 and parts[0][1].startswith("<"): return ((kv[1][0], kv[1][1]), kv[1][2])
            return tuple(kv[1])
        return m
    def child(kids):
        def m(E, f, i, a):
            kk = key_at(E, a[1])
            if kk not in kids:
                E.events.append("missing " + kk)
                if "try_" in p.dem(i.f): return 0
                raise Thrown("missing key")
            o = E.obj("node:" + kk, "sym"); o.ext[("val", 0)] = kids[kk]; return P(o)
        return m
    def loader(kids):
        M = dict(strdom.MODELS)
        for q in ("get", "get_any"): M["xo::prop_node::" + q] = getter(kids, q)
        for q in ("get_child", "try_get_child"): M["xo::prop_node::" + q] = child(kids)
        M["xo::prop_node::has_key"] = lambda E, f, i, a: int(key_at(E, a[1]) in kids)
        return M
    for k in list(saved) + [None]:
        kids = saved[k] if k else {"type": ("text", [ord(x) for x in "no such kind"])}
        key = "load what is saved for " + short(k) if k else "load an unknown tag"
        def body(E):
            s = E.sym("loaded"); E.call("make_" + ("plane" if k == kinds[0] else "sphere"), [s])
            r = E.call(load.name, [E.sym("node"), s])
            if not E.bool(r): return (False, None, None)
            kd = E.call("shape_kind", [s])
            return True, kd, s
        try: res = [(r, E) for r, E in absint.explore(p, lambda E: guard(E, body), loader(kids), engine=strdom.StrEngine)]
        except Unmodelled as e: c.bad(key, "%s: not decided: %s" % (load.loc(), e)); continue
        n += 1
        for r, E in res:
            if k is None:
                if r[0] == "ok" and r[1][0]: c.bad(key, "%s: accepted" % load.loc()); break
                continue
            if r[0] != "ok": c.bad(key, "%s: %s (%s)" % (load.loc(), r[1], ", ".join(map(str, E.events)))); break
            if not r[1][0]: c.bad(key, "%s: the tag '%s' is refused" % (load.loc(), tags[k])); break
            if r[1][1] != kinds.index(k): c.bad(key, "%s: the tag '%s' gives a %s" % (load.loc(), tags[k], short(kinds[r[1][1]]) if 0 <= r[1][1] < len(kinds) else "shape without a kind")); break
            words = p.typesize(k) // 4 if hasattr(p, "typesize") else {"xo::box": 3, "xo::plane": 3, "xo::sphere": 1}.get(k, 2)
            bad = None
            cx = poly.Ctx()
            for j in range(words):
                got, want = E.load(P(r[1][2].o, 4 * j), "float"), ("s", "shape", 4 * j)
                if got is UNDEF: bad = "parameter %d is not restored" % j
                else:
                    try: same = equal(cx, got, want)
                    except AnalysisError as e: same = got == want
                    if not same: bad = "parameter %d comes back as %s" % (j, str(got)[:80])
                if bad: break
            if bad: c.bad(key, "%s: %s" % (load.loc(), bad)); break
        else: c.ok(key, "%s, %d paths" % (tags.get(k, "refused"), len(res)))
    return n

def equal(cx, a, b):
    return cx.eq(poly.of_term(a, cx), poly.of_term(b, cx))
