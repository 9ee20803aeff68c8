"""S05: for every text up to the analysed length with every content (each character is a symbol, decided by the comparisons the code makes), every scanning operation of the character stream and every unquoting routine ends, reads only characters of the text and its terminator, leaves the cursor inside the text, and returns only characters that come from the text."""
TECHNIQUE = "abstract interpretation with symbolic characters: every comparison of a character is a case distinction, so the paths cover all texts of the analysed lengths; the buffer model reports any access past the terminator"
NOTE = "Texts of up to 4 characters (2 with the full operator table); the scanning loops carry no state other than the cursor, so longer texts only repeat these steps. Operator, delimiter and quote tables are assumed not to contain NUL."
import os
from sa import ir, absint, strdom
from sa.absint import P, Thrown, Diverges, Unmodelled, UNDEF
from sa.facts import AnalysisError
from sa.report import Check

import time
T0 = [time.time()]
class Eng(strdom.StrEngine): pass

def strtox(E, f, n, a):
    """a number reader: consumes any prefix that has no NUL"""
    s = strdom.cstr(E, a[0])
    k = E.pick(list(range(len(s) + 1)))
    if isinstance(a[1], P): E.store(a[1], P(a[0].o, a[0].off + k), "ptr")
    return ("s", "number", k)

def run():
    c = Check("S05", "Scanning any text, complete or truncated, never reads or moves past its end")
    p = ir.prog(tus=("text",), units=["xo/string/string_tools.cpp", "xo/serialization/char_stream.cpp"], helpers=True)
    M = dict(strdom.MODELS)
    for x in ("strtof", "strtod", "strtol", "strtoll", "strtoul", "strtoull", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull"): M[x] = strtox
    npaths = [0]
    deep = int(os.environ.get("S05_LEN", "0"))
    def syms(name, n): return [("s", name, k) for k in range(n)]
    def go(key, where, body, lens):
        worst = None; cnt = 0
        for n in lens:
            try:
                for r, E in absint.explore(p, lambda E: guard(E, lambda E: body(E, n)), M, engine=Eng, maxsteps=20000):
                    cnt += 1
                    if r[0] != "ok" and worst is None: worst = "%s for a text of %d characters%s" % (r[1], n, describe(E, n))
                    elif r[0] == "ok" and r[1] and worst is None: worst = "%s for a text of %d characters%s" % (r[1], n, describe(E, n))
                    if worst: break
            except Unmodelled as e: worst = "not decided: %s" % e
            if worst: break
        npaths[0] += cnt
        if os.environ.get("S05_TIME"): import time; print(key, cnt, round(time.time() - T0[0], 1)); T0[0] = time.time()
        if worst: c.bad(key, "%s: %s" % (where, worst))
        else: c.ok(key, "%d cases" % cnt)
    def fabricated(E, o):
        """a NUL in the result that no character of the text stands for"""
        if not strdom.has(o): return None
        return "returns a NUL character that is not in the text" if any(x == 0 and isinstance(x, int) for x in strdom.items(E, o)) else None
    ops = sorted(f for f in p.funcs if f.startswith("text_op"))
    where = {}
    for f in p.funcs.values():
        if f.q.startswith("xo::char_stream::"): where.setdefault(f.q.split("::")[-1], f.loc())
    for f in ops:
        nm = f.split("_", 2)[2]; zml = f.startswith("text_opz_")
        args = (0, 1, 2) if nm in ("seek", "seek_past", "try_get_text") else (0,)
        lens = range(0, (2 if zml else 2 if nm in ("seek", "seek_past", "tokens", "try_get_text", "line_token", "token_line", "number_token") else 3) + 1 + deep)
        for m in args:
            def body(E, n):
                s, a, o = E.sym("s"), E.sym("a"), E.sym("o")
                strdom.put(E, s, syms("text", n)); strdom.put(E, a, syms("arg", m)); strdom.put(E, o, [])
                E.call(f, [s, a, ("s", "char", 0), o])
                return None if nm in ("getc", "peekc") else fabricated(E, o)
            go("char_stream %s%s%s" % (nm, ", argument of %d characters" % m if len(args) > 1 else "", " with operators" if zml else ""), "xo/serialization/char_stream.h", body, lens)
    def fn(q): 
        l = [f for f in p.funcs.values() if f.q == q and f.blocks]
        if not l: raise AnalysisError("no body for " + q)
        return l[0]
    dec, unq = fn("xo::decode_char"), fn("xo::try_unquoted")
    def body(E, n):
        t = strdom.Text(syms("text", n)); t.n -= 1       # no terminator: the size is given
        ln = E.obj("len")
        v = E.call(dec.name, [P(t.buf), n, P(ln)])
        k = E.load(P(ln), "i32")
        if not isinstance(k, int): return "the number of characters used is not determined"
        if k < 1: return "reports that no character is used, so that its callers do not advance"
        if k > n: return "reports that %d characters are used" % k
    go("decode_char", dec.loc(), body, range(1, 6))
    def body(E, n):
        s, o = E.sym("s"), E.sym("o"); strdom.put(E, s, syms("text", n))
        E.call(unq.name, [o, s])
        return fabricated(E, o)
    go("try_unquoted", unq.loc(), body, range(0, 5))
    c.cover(operations=len(c.obl), cases=npaths[0])
    c.floor("operations", len(c.obl), 20)
    c.floor("cases", npaths[0], 500)
    c.finish()

def describe(E, n):
    """the characters decided on this path"""
    o = E.ord["s"]; out = []
    for k in range(n):
        a = ("s", "text", k)
        v = next((x for x in range(-128, 256) if o.known(a, x) == "="), None) if a in getattr(o, "eq", {}) else None
        out.append("?" if v is None else repr(chr(v & 255))[1:-1])
    return " like '%s'" % "".join(out) if n else ""

def guard(E, fn):
    try: return ("ok", fn(E))
    except Thrown as e: return ("ok", None)
    except Diverges as e: return ("diverges", "does not end (%s)" % e)
    except (strdom.OutOfText, strdom.Stale) as e: return ("memory", "accesses " + str(e))
