"""E03: what the environment may not provide (null pointer, -1) is tested before it is used."""
TECHNIQUE = "interprocedural must-test dataflow from every environment lookup to its uses on LLVM IR (null and -1 typestate)"
NOTE = "Decides every call of a lookup function listed in the rule (getenv, getcwd, localtime, __cxa_demangle, readlink, throwing std::filesystem overloads, ...); trusts that list and clang's IR; the tests themselves must dominate the use."
from sa import ir, nullness
from sa.ir import const
from sa.report import Check

NULLABLE = {"getenv", "secure_getenv", "getcwd", "get_current_dir_name", "__cxa_demangle", "localtime", "gmtime", "localtime_r", "gmtime_r", "getpwuid", "getpwnam", "getlogin", "realpath", "popen", "fopen", "opendir", "readdir",
            "setlocale", "dlopen", "dlsym", "ctime", "asctime", "ttyname", "tmpfile", "canonicalize_file_name", "gethostbyname", "strerror_r"}
MINUS1 = {"readlink", "open", "read", "sysconf", "pathconf", "confstr", "readlinkat"}
# lookups that throw when the information is missing: acceptable only in an operation that reports errors that way
THROWING = {"std::filesystem::current_path", "std::filesystem::temp_directory_path"}

def run():
    c = Check("E03", "Every use of the result of an environment or system lookup that needs the result to be present (dereference, indexing, passing to a function that dereferences it) is dominated by a test of that result; results delivered through an argument need a test of the call's status")
    p = ir.prog(tus=("strings", "system"), inline=ir.INL_LAMBDA + ir.INL_ITER + (r"std::unique_ptr", r"std::__uniq_ptr_impl", r"std::(_)?tuple|std::_Tuple_impl|std::_Head_base|std::get<"), passes=ir.SIMPLIFY)
    N, I = nullness.Missing(p, 0), nullness.Missing(p, -1)
    sites = 0
    for f in p.funcs.values():
        if not p.inrepo(f) and not any(x in f.file for x in ("/verif/",)): continue
        for n in f.calls():
            nm = n.f or ""
            if nm in p.funcs: continue
            q = p.q(nm) if nm.startswith("_Z") else nm
            if nm in NULLABLE:
                sites += 1
                key = "%s calls %s" % (f.q, nm)
                bad = list(N.uses(f, n.i))
                # buffer-filling variants: the buffer counts as delivered only if the result was tested
                buf = {"getcwd": 0, "localtime_r": 1, "gmtime_r": 1, "realpath": 1}.get(nm)
                if buf is not None and buf < len(n.a) and const(n.a[buf]) != 0: bad += [(u, "reads the result of an untested " + nm) for u in bufuse(f, n, buf, N)]
                report(c, key, n, bad)
            elif nm in MINUS1:
                sites += 1
                key = "%s calls %s" % (f.q, nm)
                bad = list(I.uses(f, n.i))
                if nm == "readlink" and not bad: bad += [(u, "reads the result of an untested " + nm) for u in bufuse(f, n, 1, I)]
                report(c, key, n, bad)
            elif q in THROWING:
                sites += 1
                c.ok("%s calls %s" % (f.q, q), "%s: reports by exception or error code" % n.where())
    c.cover(functions=len(p.repo_funcs()), lookups=sites)
    c.floor("environment lookups", sites, 3)
    c.finish()

def bufuse(f, n, k, M):
    r, _ = ir.base_off(f, n.a[k])
    out = []
    seen = set(); st = [r]
    while st:
        v = st.pop()
        if v in seen or not isinstance(v, int): continue
        seen.add(v)
        for u in f.uses.get(v, ()):
            if u is n: continue
            if u.o in ("getelementptr", "bitcast"): st.append(u.i); continue
            if (u.o == "load" or u.iscall() and not (u.f or "").startswith("llvm.")) and f.dominates(n, u) and not M.present(f, n.i, u.b): out.append(u)
    return out

def report(c, key, n, bad):
    if bad:
        u, why = bad[0]
        c.bad(key, "%s: the result may be missing but %s at %s without a test on some path" % (n.where(), why, u.where()))
    else: c.ok(key, n.where())
