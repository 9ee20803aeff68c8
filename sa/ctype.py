"""Reads canonical C++ type spellings: cv-qualifiers, reference/pointer layers, template arguments."""
import functools, re


class Ty:
    """name<args> with cv, and layers outside-in: list of ('&'|'&&'|'*', const-of-that-layer)"""
    __slots__ = ("name", "args", "const", "layers", "text")
    def __repr__(self): return self.text


@functools.lru_cache(None)
def parse(t):
    t = t.strip()
    r = Ty(); r.text = t; r.layers = []; r.args = []; r.const = False
    # function types and the like are opaque
    while True:
        m = re.search(r"(\*|&&|&)\s*(const|volatile|noexcept|\s)*$", t)
        if not m or t.endswith(")"): break
        r.layers.append((m[1], "const" in m[0])); t = t[:m.start()].rstrip()
    for _ in range(3):
        for w in ("const ", "volatile ", "struct ", "class ", "enum ", "typename "):
            if t.startswith(w):
                t = t[len(w):].lstrip()
                if w == "const ": r.const = True
        for w in (" const", " volatile"):
            if t.endswith(w):
                t = t[:-len(w)]
                if w == " const": r.const = True
    # split the last template argument list of the name
    if t.endswith(">"):
        d = 0
        for i in range(len(t) - 1, -1, -1):
            if t[i] == ">": d += 1
            elif t[i] == "<":
                d -= 1
                if d == 0: break
        r.name = t[:i].strip(); r.args = split(t[i + 1:-1])
    else:
        # member of a template instantiation (A<B>::iterator): keep the whole spelling as the name
        r.name = t
    return r


def split(s):
    r, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([{": d += 1
        elif ch in ">)]}": d -= 1
        if ch == "," and d == 0: r.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): r.append(cur.strip())
    return r


def bare(t):
    """the type without references and top-level cv"""
    x = parse(t)
    if not x.layers: return strip_const(t)
    t = x.text
    while True:
        m = re.search(r"(&&|&)\s*$", t)
        if not m: break
        t = t[:m.start()].rstrip()
    return strip_const(t) if not t.endswith("*") else t


def strip_const(t):
    t = t.strip()
    while t.startswith(("const ", "volatile ")): t = t.split(" ", 1)[1].strip()
    return t


def isconst(t):
    return t.strip().startswith(("const ", "volatile const ")) or t.strip().endswith(" const")
