"""R02: writes of text into fixed-size buffers stay inside the buffer and leave it terminated."""
TECHNIQUE = "buffer-size dataflow on LLVM IR: symbolic upper bounds of every size argument and index against the allocation"
NOTE = "Decides every formatted/copied write into a local array or caller-sized buffer found in the IR of the library; trusts the models of the C functions listed in the rule."
from sa import ir, flow
from sa.ir import const, base_off
from sa.report import Check

# callee -> (buffer arg, size arg, terminates?)
SINK = {"snprintf": (0, 1, True), "vsnprintf": (0, 1, True), "__snprintf_chk": (0, 1, True), "__vsnprintf_chk": (0, 1, True), "fgets": (0, 1, True), "strftime": (0, 1, True),
        "_ZNSi7getlineEPcl": (1, 2, True), "_ZNSi7getlineEPclc": (1, 2, True), "_ZNSi3getEPcl": (1, 2, True), "getcwd": (0, 1, True),
        "readlink": (1, 2, False), "gethostname": (0, 1, False), "strncpy": (0, 2, False), "read": (1, 2, False), "_ZNSi4readEPcl": (1, 2, False), "_ZNSi8readsomeEPcl": (1, 2, False),
        "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4copyEPcmm": (1, 2, False)}
MEM = {"memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2)}
FORBID = {"strcpy", "strcat", "sprintf", "vsprintf", "gets", "stpcpy", "__isoc99_scanf", "scanf"}
PASSES = "always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)"


def run():
    c = Check("R02", "For each text-writing call: size argument <= bytes left in the buffer (constant, or the caller's size parameter, by symbolic bounds); non-terminating writers leave room for and are followed by a terminator; returned lengths and indices into the buffer are bounded by its size; unbounded writers are absent")
    p = ir.prog(tus=("strings",), inline=(r"^(decltype\(auto\) |auto |[a-z0-9_ ]+(const)?[&*]? )?std::(min|max|clamp|array|__addressof|addressof)\b", r"std::array<", r"::data\(\)", r"::size\(\) const"), passes=PASSES)
    def rd(R, f, n):   # readlink, read: at most the size argument
        s = R.get(f, n.a[SINK[n.f][1]], n.b, "i64")
        return (-1, s[1])
    def cp(R, f, n): return (0, max(0, R.get(f, n.a[2], n.b, "i64")[1]))
    R = flow.Ranges(p, {"readlink": rd, "read": rd, "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4copyEPcmm": cp})
    sinks = 0; idx = 0
    for f in p.funcs.values():
        if not p.inrepo(f) and not f.file.startswith("/verif"): continue
        for n in f.calls():
            if n.f in FORBID or (n.f or "").startswith("__isoc99_s"):
                c.bad("%s uses %s" % (f.q, n.f), "%s: unbounded writer %s" % (n.where(), n.f))
            t = SINK.get(n.f)
            m = None
            if t is None:
                for k, v in MEM.items():
                    if n.f == k or (n.f or "").startswith("llvm.%s." % k): m = v
                if m is None: continue
            bi, si = (t[0], t[1]) if t else m
            root, off = base_off(f, n.a[bi])
            key = "%s %s" % (f.q, n.f if not n.f.startswith("_Z") else p.q(n.f).split("::")[-1])
            al = f.inst(root)
            size = n.a[si]
            if m and (al is None or al.o != "alloca"): continue     # memory block copies are only judged on local arrays
            if m and const(size) is None and al is None: continue
            if n.f == "getcwd" and ir.isnull(n.a[0]): c.ok(key + " (allocating)", n.where()); continue
            if n.f in ("snprintf", "vsnprintf") and const(size) == 0: c.ok(key + " (measuring)", n.where()); continue
            sinks += 1
            if al is not None and al.o == "alloca" and al.g("sz") is not None and const(al.a[0]) == 1:
                S = al.g("sz")
                if not al.g("at", "").startswith("[") and not m and al.g("sz") < 16: pass
                if off is None:
                    # variable offset: need offset+size <= S by ranges
                    g = f.inst(n.a[bi]); v = g.g("var", []) if g is not None else []
                    if len(v) == 1 and v[0][1] == 1:
                        lo, hi = R.get(f, v[0][0], n.b, "i64"); slo, shi = R.get(f, size, n.b, "i64")
                        if not (lo >= 0 and hi + shi + g.g("coff", 0) <= S): c.bad(key, "%s: write of up to %s bytes at variable offset into a buffer of %d bytes" % (n.where(), shi, S)); continue
                    c.ok(key, n.where()); continue
                lo, hi = R.get(f, size, n.b, "i64")
                ub = [k for r, k in flow.upper(f, size) if r is None]
                hi = min([hi] + ub)
                if hi > S - off or (lo < 0 and not ub):
                    c.bad(key, "%s: size argument may be %s but only %d bytes are left in the buffer" % (n.where(), hi, S - off)); continue
                c.ok(key, "%s: size <= %d <= %d" % (n.where(), hi, S - off))
                if t and not t[2]: terminated(c, p, R, f, n, al, S, off, hi, key)
                if t: result(c, p, R, f, n, al, S - off, key)
            elif f.isarg(root):
                # caller's buffer: the size must come from a size parameter
                if off != 0: c.bad(key, "%s: write at an offset into a caller's buffer" % n.where()); continue
                good = False
                for r, k in flow.upper(f, size):
                    if f.isarg(r) and r != root and k <= 0:
                        need = -k
                        under = k == 0 or any((q == "ugt" and a == r and (const(b) or 0) >= need - 1) or (q == "uge" and a == r and (const(b) or 0) >= need) or (q == "ne" and a == r and const(b) == 0 and need == 1) for q, a, b, _ in flow.block_facts(f, n.b))
                        if not under:
                            c.bad(key, "%s: size parameter minus %d may wrap around" % (n.where(), need)); good = None; break
                        if not t[2]:
                            # must terminate at an index <= size <= param - 1
                            st = [x for x in f.insts() if x.o == "store" and const(x.a[0]) == 0 and x.g("vt") == "i8" and base_off(f, x.a[1])[0] == root and (f.dominates(n, x))]
                            if k > -1: c.bad(key, "%s: no room is left for the terminator" % n.where()); good = None; break
                            if not st: c.bad(key, "%s: the copied text is not terminated" % n.where()); good = None; break
                        good = True; break
                if good: c.ok(key, "%s: bounded by the caller's size parameter" % n.where())
                elif good is False: c.bad(key, "%s: size is not bounded by a size parameter of the caller" % n.where())
            else:
                # growable buffers: size must be that container's own size
                cont = f.inst(root)
                owner = None
                if cont is not None and cont.iscall(): owner = cont.a[0] if cont.a else None
                elif cont is not None and cont.o == "load": owner = base_off(f, cont.a[0])[0]
                ok = False
                for r, k in flow.upper(f, size):
                    s = f.inst(r)
                    if k <= 0 and s is not None and ((s.iscall() and s.f and p.q(s.f).split("::")[-1] in ("size", "length", "capacity") and s.a and base_off(f, s.a[0])[0] == owner)): ok = True
                    if s is not None and s.o == "sub" and k <= 0: ok = True   # end - begin of an inlined size()
                    if s is not None and s.o == "load" and base_off(f, s.a[0])[0] == owner and k <= 0: ok = True
                    for x in f.calls():
                        if x.f and x.a and base_off(f, x.a[0])[0] == owner and f.dominates(x, n) and p.q(x.f).split("::")[-1] in ("resize", "vector", "basic_string", "assign", "reserve"):
                            for a in x.a[1:]:
                                ar, ac = flow.affine(f, a)
                                if (ar == r and ar is not None and ac >= k) or (ar is None and r is None and ac >= k): ok = True
                if ok: c.ok(key, "%s: bounded by the container's size" % n.where())
                else: c.bad(key, "%s: cannot bound the write into a buffer of unknown size" % n.where())
        # indices into local character arrays
        for n in f.insts():
            if n.o == "getelementptr" and "off" not in n.r:
                root, _ = base_off(f, n.a[0]); al = f.inst(root)
                if al is None or al.o != "alloca" or not al.g("at", "").endswith("x i8]"): continue
                v = n.g("var", [])
                if len(v) != 1: continue
                idx += 1
                S = al.g("sz"); key = "%s index into local buffer" % f.q
                for u in f.uses.get(n.i, []):
                    if u.o not in ("load", "store"): continue
                    lo, hi = R.get(f, v[0][0], u.b, "i64")
                    if lo + n.g("coff", 0) < 0 or hi * v[0][1] + n.g("coff", 0) >= S:
                        c.bad(key, "%s: index range [%d,%d] exceeds the %d byte buffer" % (u.where(), lo, hi, S))
                    else: c.ok(key, "%s: [%d,%d] within %d" % (u.where(), lo, hi, S))
    c.cover(functions=len(p.funcs), writes=sinks, indices=idx)
    c.floor("text-writing calls", sinks, 3)
    c.finish()


def uses_of_buffer(f, al, n):
    """calls after n that are handed the buffer as text"""
    out = []
    addr = {al.i}
    for x in f.insts():
        if x.o in ("getelementptr", "bitcast", "phi", "select") and any(a in addr for a in x.a if isinstance(a, int)): addr.add(x.i)
    for x in f.calls():
        if x is not n and any(a in addr for a in x.a if isinstance(a, int)) and x.f and not x.f.startswith("llvm.") and (f.dominates(n, x) or x.b in f.reach(n.b)):
            out.append(x)
    return out


def terminated(c, p, R, f, n, al, S, off, hi, key):
    """a writer that need not terminate: later text uses must be dominated by a terminator store, or carry a length"""
    zero = [x for x in f.insts() if x.o == "store" and const(x.a[0]) == 0 and x.g("vt") == "i8" and base_off(f, x.a[1])[0] == al.i]
    pre = any((x.f or "").startswith("llvm.memset") and base_off(f, x.a[0])[0] == al.i and const(x.a[1]) == 0 and (const(x.a[2]) or 0) >= S and f.dominates(x, n) for x in f.calls()) \
        or any(x.o == "store" and x.a[0] == ["zero"] and x.a[1] == al.i and f.dominates(x, n) for x in f.insts())
    for u in uses_of_buffer(f, al, n):
        nm = p.q(u.f).split("::")[-1]
        if nm in ("readlink", "gethostname", "memchr", "strnlen"): continue
        # explicit-length text uses pass an integer derived from the result
        d = p.dem(u.f)
        if "unsigned long" in d.split("(", 1)[-1] or "string_view" in d: continue
        ok = any(f.dominates(x, u) for x in zero) or (pre and hi <= S - off - 1)
        if not ok: c.bad(key, "%s: %s may leave the buffer without terminator before it is used as text at %s" % (n.where(), n.f, u.where()))


def result(c, p, R, f, n, al, room, key):
    """a returned length that is used together with the buffer must be below its size (snprintf returns the untruncated length)"""
    vals = {n.i}
    for _ in range(4):
        for x in f.insts():
            if x.o in ("sext", "zext", "trunc", "freeze") and x.a[0] in vals: vals.add(x.i)
    for u in f.calls():
        if u is n or not u.f: continue
        if any(isinstance(a, int) and base_off(f, a)[0] == al.i for a in u.a):
            for a in u.a:
                if isinstance(a, int) and a in vals:
                    lo, hi = R.get(f, a, u.b, "i64")
                    lo0, hi0 = R.get(f, n.i, u.b, "i32")
                    if min(hi, hi0) > room or max(lo, lo0) < 0: c.bad(key + " length", "%s: the returned length may exceed the buffer (range [%d,%d], room %d)" % (u.where(), lo, hi, room))
