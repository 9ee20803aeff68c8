"""Y04: in every function of the library, on every path: a local variable, and every scalar member of a local object, is assigned before it is read, copied, returned, used in a decision or handed to a function that reads it; a constructor leaves no scalar member of its object unassigned and reads none beforehand; an object returned by value has all its scalar members assigned. What a called function assigns (always, or only when it returns true or false) and reads comes from a summary of its code. An array counts as assigned by a loop over a fixed number of elements, not by a loop whose number of rounds depends on data."""
TECHNIQUE = "forward must-assign dataflow over the compiler's intermediate representation, per byte of every variable, with interprocedural summaries conditional on truth values"
NOTE = "Constructors taking no_init_t and the default constructor of mat33_ leave members unassigned by design. Functions whose code is not available, and members of standard classes, are taken to assign what they are given. A loop over a fixed number of elements is taken to visit all elements."
from sa import ir, init
from sa.report import Check
from rules.Y03 import TUS, MORE

PASSES = "mark-unassigned,function(sroa,early-cse,loop(loop-rotate),early-cse,jump-threading)"

def by_design(p, f):
    d = f.dem
    return "no_init_t" in d or d.endswith("::mat33_()") or d.endswith("::cached_item()")      # the latter: a map node whose members file_resource_cache assigns next

def run():
    c = Check("Y04", "Every local variable, constructed object and returned object is assigned before it is used, on every path")
    seen, sites, vars_, ctors, rets = set(), 0, 0, 0, 0
    for tus in (TUS,) + MORE:
        p = ir.prog(tus=tus, passes=PASSES); e = init.Init(p)
        for f in p.repo_funcs():
            if f.dem in seen: continue
            seen.add(f.dem); a = e.frame(f); bad = set(); vars_ += len(a.al)
            for n, b, m, what in a.bad:
                nm = "a value" if b is None else (a.al[b].g("dv") or [["a temporary"]])[0][0]
                mem = [] if b is None else [x[2] for x in a.types(b)[1] if m >> x[0] & 1 and x[2]]
                bad.add((nm + ("." + mem[0] if mem else ""), what, f.loc()))
            for nm, what, at in bad: c.bad("%s: %s %s" % (f.q, nm, what), "%s: in %s, %s is %s before it has been assigned on every path leading there" % (at, f.q, nm, what))
            l = f.q.split("::"); objs = []
            if len(l) > 1 and l[-1] == l[-2] and f.r.get("cls") is not None: ctors += 1; objs.append(("member", f.r["cls"]))
            elif f.args and f.args[0].get("sret") and f.r.get("rt") is not None: rets += 1; objs.append(("returned member", f.r["rt"]))
            for what, t in objs:
                mask, mem = e.leaf(t); m = 0
                if by_design(p, f) and what == "member": continue
                for r in a.rets: m |= mask & ~r[1].get(0, 0)
                un = [x[2] for x in mem if m >> x[0] & 1]
                if un: bad.add(1); c.bad("%s leaves %s" % (f.q, un[0]), "%s: %s leaves %s %s unassigned" % (f.loc(), f.q, what, ", ".join(un[:4])))
                rd = [x[2] for x in mem if a.reads.get(0, 0) & mask >> 0 and a.reads.get(0, 0) >> x[0] & 1]
                if rd: bad.add(1); c.bad("%s reads %s" % (f.q, rd[0]), "%s: %s reads %s %s before it has been assigned" % (f.loc(), f.q, what, ", ".join(rd[:4])))
            if not bad: c.ok(f.dem[:200])
        sites += e.sites
    c.floor("functions examined", len(seen), 2500)
    c.floor("constructors", ctors, 260)
    c.floor("functions returning objects", rets, 420)
    c.cover(functions=len(seen), variables=vars_, constructors=ctors, functions_returning_objects=rets, arguments_followed_into_calls=sites)
    c.assume_("code that is not available for analysis (compiled standard library, operating system) assigns the objects it is given")
    c.finish()
