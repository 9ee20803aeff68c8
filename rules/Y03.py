"""Y03: for every function of the library and every path: what a returned pointer, reference, iterator, view, closure or object with such members refers to, computed through all called functions, is not one of the function's own variables, by-value parameters or temporaries, nor storage that such an object owns and frees; and no path runs off the end of a function that has to return a value."""
TECHNIQUE = "flow-insensitive interprocedural points-to analysis with function summaries over the compiler's intermediate representation; reachability of the compiler's end-of-function traps after constant propagation"
NOTE = "References invalidated later by changing a container, and pointers left behind in longer-living objects, are not part of the property. Members of templates that do not compile when instantiated are not covered."
from sa import ir, escape
from sa.report import Check

TUS = ("strings", "containers", "geometry", "system", "algebra", "cache", "enums", "factory", "flags", "shapes", "text", "timers", "extras")
MORE = (("files",), ("settings",), ("zml",), ("testing",), ("profiler",), ("errors",), ("log",), ("order",))

def ends(p, f):
    """blocks in which control runs off the end of a function that returns a value"""
    if f.q.split("::")[-1].startswith("~"): return      # abstract classes: the deleting destructor cannot be called
    for b, insts in enumerate(f.blocks):
        for n in insts:
            if n.f == "llvm.trap" and not enumerated(p, f, b): yield n

def enumerated(p, f, b):
    """the block is where switches go that have a case for every enumerator of their operand's type"""
    for x in f.preds[b]:
        t = f.blocks[x][-1]
        if t.o != "switch" or t.s[0] != b: return False
        a = t.a[0]
        dv = [] if not isinstance(a, int) else f.args[a].get("dv", []) if a < len(f.args) else f.inst(a).g("dv", [])
        ty = [p.types[p.strip(d[1])] for d in dv if d[1] is not None and p.strip(d[1]) >= 0]
        need = [{m[1] for m in y.get("members", ()) if m[3] == "e"} for y in ty if y["tag"] == "DW_TAG_enumeration_type"]
        if not need or not need[0] <= set(t.g("cases", ())): return False
    return bool(f.preds[b])

def run():
    c = Check("Y03", "No returned address, reference or view refers to a local, by-value parameter, temporary or to storage one of them owns; no value-returning function runs off its end")
    seen, calls, refs, rets = set(), 0, 0, 0
    for tus in (TUS,) + MORE:
        p = ir.prog(tus=tus)
        e = escape.Escape(p)
        for f in p.repo_funcs():
            if f.dem in seen: continue
            seen.add(f.dem)
            a = e.frame(f); key = f.q + " " + f.file.split("/")[-1]
            calls += sum(1 for _ in f.calls()); refs += bool(a.ret)
            d = a.dangling()
            for via, what in d: c.bad("%s returns %s %s" % (f.q, via, what), "%s: %s returns %s %s, which no longer exists when the caller receives it" % (f.loc(), f.q, via, what))
            if not d: c.ok(f.dem[:200])
        p = ir.prog(tus=tus, passes="function(sroa,simplifycfg,sroa,simplifycfg)")
        for f in p.repo_funcs():
            rets += 1
            for n in ends(p, f): c.bad("%s ends without a value" % f.q, "%s: a path through %s reaches its end without returning a value" % (f.loc(), f.q))
    c.floor("functions whose results were traced", len(seen), 2500)
    c.floor("functions returning addresses", refs, 600)
    c.cover(functions=len(seen), call_sites=calls, functions_returning_addresses=refs, ends_examined=rets)
    c.assume_("standard library functions compiled elsewhere return what the language standard says (listed in sa/escape.py)")
    c.finish()
