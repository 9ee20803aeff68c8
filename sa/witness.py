"""Compile-fail witnesses.  One probe file holds many one-line functions; the compiler's diagnostics are
attributed to the lines, so each witness is decided by the type checker alone.  A rejected program always
has an accepted twin that differs only in the forbidden step, so it is rejected for the right reason."""
import re, subprocess, tempfile, os
from concurrent.futures import ThreadPoolExecutor
from . import facts
from .facts import AnalysisError


def _lines(code):
    ok, err = facts.compiles(code, ("-ferror-limit=0",))
    bad, pend, other = {}, None, []
    for l in err.splitlines():
        m = re.match(r".*?probe\.cpp:(\d+):\d+: (fatal error|error|note|warning): (.*)", l)
        if m:
            if "error" in m[2]: bad.setdefault(int(m[1]), m[3])
            elif m[2] == "note" and pend and "requested here" in m[3]: bad.setdefault(int(m[1]), pend)
            continue
        m = re.match(r"(\S+):\d+:\d+: (fatal error|error): (.*)", l)
        if m: pend = m[3]; other.append(l)
    return ok, bad, other


def judge(prelude, progs):
    """progs: list of statements (each one line).  Returns per program None (accepted) or the diagnostic."""
    base = prelude.rstrip("\n").split("\n")
    ok, bad, other = _lines("\n".join(base) + "\n")
    if not ok: raise AnalysisError("the witness prelude does not compile: %s" % ((list(bad.values()) + other)[:3],))
    def code(ps): return "\n".join(base + ["%s" % (s if s.startswith("template") else "void w_%d() { %s }" % (i, s)) for i, s in enumerate(ps)]) + "\n"
    ok, bad, other = _lines(code(progs))
    r = [bad.get(len(base) + 1 + i) for i in range(len(progs))]
    if ok: return r
    # a line without an error of its own may still be the cause of one inside a header: decide it alone
    odd = [i for i in range(len(progs)) if r[i] is None]
    if other and odd:
        def alone(i):
            ok, bad, other = _lines("\n".join(base + ["void w() { %s }" % progs[i]]) + "\n")
            return None if ok else (list(bad.values()) + other + ["?"])[0]
        ok, bad, other = _lines(code([progs[i] for i in odd]))
        if not ok:
            with ThreadPoolExecutor(8) as ex:
                for i, x in zip(odd, ex.map(alone, odd)): r[i] = x
    return r


def check(c, prelude, pairs):
    """pairs: (key, forbidden statement or None, accepted twin or None, what is wrong when accepted)"""
    fl = [p[1] for p in pairs if p[1]]
    rf = dict(zip(fl, judge(prelude, fl))) if fl else {}
    al = sorted({p[2] for p in pairs if p[2]})
    ra = dict(zip(al, judge(prelude, al))) if al else {}
    nf = na = 0
    for key, f, a, what in pairs:
        if a is not None:
            na += 1
            if ra[a] is not None: c.bad(key, "`%s` is rejected by the compiler: %s" % (a, ra[a])); continue
        if f is not None:
            nf += 1
            if rf[f] is None: c.bad(key, "`%s` compiles: %s" % (f, what)); continue
            c.ok(key, "`%s` is rejected (%s)%s" % (f, rf[f][:90], "; `%s` is accepted" % a if a else ""))
        else: c.ok(key, "`%s` is accepted" % a)
    return nf, na
