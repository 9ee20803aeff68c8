"""E02: a file stream opened by a load, save or append operation is tested before it is used, and a failed test ends in an error."""
TECHNIQUE = "typestate analysis of every file stream object on LLVM IR (opened -> tested -> used) with must-report analysis of the failing branch"
NOTE = "Decides every local file stream the library opens by name outside destructors (writing from a destructor has no caller to report to); the state of a log file stays visible through its stream; errors while writing to an open file (disk full) are not decided."
from sa import ir, flow
from sa.ir import const, base_off
from sa.report import Check
from rules.E01 import always_reports

TESTS = {"good": True, "is_open": True, "operator bool": True, "operator_bool": True, "fail": False, "operator!": False}
STREAMS = ("basic_ifstream", "basic_ofstream", "basic_fstream", "basic_filebuf")

def opens(p, n):
    """is this call the opening of a named file by a stream object? -> operand of the stream"""
    if not n.f: return None
    q = p.q(n.f).split("::")
    if q[0] == "std" and len(q) > 2 and q[1] in STREAMS and (q[-1] == q[1] or q[-1] == "open") and len(n.a) >= 2:
        d = p.dem(n.f)
        par = d[d.rindex("::" + q[-1] + "("):] if "::" + q[-1] + "(" in d else d
        if "&&" in par: return None
        if "char" not in par and "path" not in par: return None
        return n.a[0]
    return None

def run():
    c = Check("E02", "Between opening a file by name and its first use every path passes a test of the stream's state, and the branch taken when the test fails cannot return without reporting an error or throwing")
    p = ir.prog(tus=("strings", "system", "containers", "geometry", "errors"), helpers=True, passes=ir.SIMPLIFY + ",function(jump-threading,simplifycfg)")
    nopen = 0
    for f in p.repo_funcs():
        for n in f.calls():
            o = opens(p, n)
            if o is None: continue
            r, off = base_off(f, o)
            i = f.inst(r) if not isinstance(r, list) else None
            sret = f.isarg(r) and f.args[r].get("sret")
            key = "%s opens a file" % f.q
            if i is None or i.o != "alloca":
                if not sret: c.ok(key, "%s: the stream is part of an object and stays accessible" % n.where())
                continue
            if "~" in f.q.split("::")[-1]: c.ok(key + " while it is destroyed", n.where()); continue
            nopen += 1
            al = i
            derived = {al.i}
            ch = True
            while ch:
                ch = False
                for x in list(derived):
                    for u in f.uses.get(x, ()):
                        if u.o in ("getelementptr", "bitcast") and u.a[0] in derived and u.i not in derived: derived.add(u.i); ch = True
                        if u.o in ("phi", "select") and u.i not in derived: derived.add(u.i); ch = True
            tests, uses = [], []
            for x in derived:
                for u in f.uses.get(x, ()):
                    if not u.iscall() or u is n: continue
                    if not u.f: uses.append(u); continue
                    q = p.q(u.f); tail = q.split("::")[-1]
                    if u.f.startswith("llvm.") or tail.startswith("~") or tail == "close": continue
                    if tail in TESTS and q.startswith("std::"): tests.append((u, TESTS[tail])); continue
                    if tail in ("eof", "bad", "rdstate", "clear", "exceptions", "setstate"): continue
                    if tail in ("basic_ifstream", "basic_ofstream", "basic_fstream", "basic_ios", "basic_istream", "basic_ostream") or tail == "open": continue
                    uses.append(u)
            if not uses:
                c.ok(key, "%s: only tested" % n.where()); continue
            bad = None
            for u in uses:
                if not after(f, n, u): continue
                if not tested(f, u, tests, n):
                    bad = "%s: the file is used here (%s) without a preceding test that it could be opened" % (u.where(), p.q(u.f) if u.f else "virtual call"); break
            if not bad:
                rep = {x.b for x in f.calls() if x.f and (p.q(x.f) in ("xo::set_error_or_throw", "xo::zml_error") or x.f in ("__cxa_throw", "__cxa_rethrow") or p.func(x.f) is not None and p.inrepo(p.func(x.f)) and always_reports(p, p.func(x.f), ()))}
                ub = {u.b for u in uses}
                nfail = 0
                for b in f.rpo:
                    t = f.blocks[b][-1]
                    if t.o != "br" or len(t.s) != 2: continue
                    for s in t.s:
                        for pr, x, y, m in flow.edge_facts(f, b, s):
                            tt = [w for w in tests if w[0].i == x]
                            if pr in ("true", "false") and tt and (pr == "true") != tt[0][1] and not any(f.dominates(u, tt[0][0]) for u in uses if not f.dominates(tt[0][0], u)):
                                nfail += 1
                                seen, st = set(), [s]
                                while st:
                                    z = st.pop()
                                    if z in seen or z in rep: continue
                                    seen.add(z); st += f.succs(z)
                                rr = [f.blocks[z][-1] for z in seen if f.blocks[z][-1].o == "ret"]
                                if rr and not bad: bad = "%s: when the file cannot be opened the operation goes on (to %s) without reporting an error" % (t.where(), rr[0].where())
                if not nfail and not bad: bad = "%s: no branch is taken on whether the file could be opened" % n.where()
            c.bad(key, bad) if bad else c.ok(key, n.where())
    c.floor("files opened by name", nopen, 4)
    c.cover(functions=len(p.repo_funcs()), opened=nopen)
    c.finish()

def after(f, n, u):
    if n.b == u.b and u.k > n.k: return True
    s = set()
    for x in f.succs(n.b): s |= f.reach(x)
    return u.b in s

def tested(f, u, tests, n):
    for pr, x, y, m in flow.block_facts(f, u.b):
        if pr not in ("true", "false"): continue
        for t, good in tests:
            if t.i == x and (pr == "true") == good and f.dominates(n, t): return True
    return False
