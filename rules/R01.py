"""R01: every call of a <cctype> function gets an argument that is provably EOF or an unsigned char value."""
TECHNIQUE = "interprocedural integer-range analysis of every <cctype> call site on the linked LLVM IR"
NOTE = "Sound for direct calls: a value-range analysis over all call sites of the compiled library and its template instantiations; trusts clang's IR and the model of the C library's domain ([-1,255])."
from sa import ir, flow
from sa.report import Check

CTYPE = "isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper".split()

def run():
    c = Check("R01", "The argument of every C character-classification or case-mapping call lies in [-1,255] on every path (value-range analysis; address-taken uses are rejected because their argument is a plain char)")
    p = ir.prog(tus=("strings",), passes="function(sroa,early-cse)")
    same = lambda R, f, n: (-1, 255)
    ext = {x: same for x in ("tolower", "toupper", "fgetc", "getc", "_ZNSi3getEv", "_ZNSi4peekEv")}
    R = flow.Ranges(p, ext)
    n_calls = 0
    for f in p.funcs.values():
        for n in f.insts():
            for o in n.a:
                if isinstance(o, list) and len(o) > 1 and o[0] == "g" and o[1] in CTYPE:
                    c.bad("%s address of %s" % (f.q, o[1]), "%s: %s is passed as a function and will be applied to plain char values" % (n.where(), o[1]))
            if n.iscall() and n.f in CTYPE:
                n_calls += 1
                lo, hi = R.get(f, n.a[0], n.b)
                k = "%s calls %s" % (f.q, n.f)
                if lo >= -1 and hi <= 255: c.ok(k, n.where())
                else: c.bad(k, "%s: argument range [%d,%d] of %s() is not within [-1,255]: undefined for bytes >= 0x80" % (n.where(), lo, hi, n.f))
    c.cover(units=len(p.units), functions=len(p.funcs), call_sites=n_calls)
    c.floor("ctype call sites", n_calls, 1)
    c.finish()
