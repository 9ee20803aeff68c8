"""T04: mutable globals and function-local statics are constant after initialisation, thread-local, atomic, or accessed under one common lock; C functions with shared static storage are not called."""
TECHNIQUE = "static lockset analysis (must-hold lock dataflow on LLVM IR) of every global and function-local static, plus an effect rule on C functions with static storage"
NOTE = "Decides every access to every mutable global or static of the library; process-wide registries that the API documents as configuration (serializer factory, profiler instance, test case list) are exempt and listed in the rule; races through user-supplied callbacks are out of scope."
from sa import ir, locks, sharing, tree
from sa.report import Check

# accessors that hand out a process-wide object by design: to be set up before threads are started
REGISTRY = {"xo::get_serializer_factory()::f": "serializer registry", "xo::profiler::instance()::inst": "profiler singleton", "xo::test::get_test_cases()::test_cases": "test case registry"}
BANNED = {"localtime", "gmtime", "ctime", "asctime", "strtok", "rand", "srand", "drand48", "lrand48", "strerror", "setlocale", "tmpnam", "getpwuid", "getpwnam", "getgrgid", "getlogin", "readdir", "ttyname", "basename", "dirname", "gethostbyname", "ptsname", "l64a", "ecvt", "fcvt", "putenv", "setenv", "unsetenv", "random", "srandom", "strsignal", "getopt", "crypt", "ctermid", "localeconv", "nl_langinfo", "mblen", "mbtowc", "wctomb", "sigprocmask", "clearenv"}

def run():
    c = Check("T04", "Every mutable global or function-local static variable is only read after its initialisation, or is atomic or thread-local, or every access holds one common lock (exclusively when it changes the variable); no function with shared static storage is called")
    p = ir.prog(tus=("strings", "containers", "geometry", "system"), inline=ir.INL_LAMBDA, passes="always-inline,function(sroa)", helpers=True, also=locks.hidden)
    S = sharing.Sharing(p)
    names = {}
    for g, d, t in S.global_vars():
        key = sharing.fname(p, g)
        if sharing.SYNC.search(t): c.ok(key, "synchronisation object or atomic: " + t); continue
        names[g] = (key, t)
    ev, esc = S.global_events(names)
    for g, (key, t) in names.items():
        e = [x for x in ev[g] if not skipped(S, x[0])]
        if key in REGISTRY:
            c.ok(key, "documented process-wide object (%s)" % REGISTRY[key]); continue
        x = [y for y in esc[g] if not const_result(y[0])]
        if x:
            c.bad(key, "%s hands out a modifiable reference to shared static data" % x[0][0].q); continue
        w = [y for y in e if y[2] == "w"]
        if not w: c.ok(key, "only read after initialisation (%d accesses)" % len(e)); continue
        ks, bad = S.common(e)
        if ks: c.ok(key, "protected by %s at all %d accesses" % (", ".join(str(k[1]) for k in ks), len(e)))
        else: c.bad(key, "%s: %s in %s without the lock that protects the other accesses" % (bad[1].where(), bad[3], bad[0].q))
    calls = 0
    for f in p.repo_funcs():
        for n in f.calls():
            calls += 1
            if n.f in BANNED: c.bad("%s calls %s" % (f.q, n.f), "%s: %s uses static storage shared by all threads" % (n.where(), n.f))
    c.cover(globals=len(names), calls=calls, functions=len(p.repo_funcs()))
    c.floor("mutable globals", len(names), 2); c.floor("calls", calls, 500)
    c.finish()

def skipped(S, f): return f.name in S.p.helpers
def const_result(f):
    d = tree.tree().funcs.get(f.name)
    r = (d or {}).get("ret", "")
    return r.startswith("const ") or not r.rstrip().endswith(("&", "*"))
