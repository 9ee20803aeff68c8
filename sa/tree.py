"""Helpers over the syntax-tree facts: traversal, merged function/record tables, value bindings of locals."""
import re
from . import facts
from .facts import rel

ALLTU = ("strings", "containers", "geometry", "system")


def kids(n):
    """direct children of a statement or expression node"""
    if not isinstance(n, dict): return
    for k in ("init", "var", "cond", "then", "else", "range", "body"):
        c = n.get(k)
        if isinstance(c, dict): yield c
    for v in n.get("vars", ()):
        if isinstance(v.get("init"), dict): yield v["init"]
    for c in n.get("c", ()):
        if isinstance(c, dict): yield c


def walk(n, lambdas=True):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        yield x
        if x.get("k") == "LambdaExpr" and not lambdas: continue
        st.extend(reversed(list(kids(x))))


def strip(n, casts=True):
    """through parentheses, implicit nodes, temporaries and value-preserving casts"""
    while isinstance(n, dict):
        k = n.get("k")
        if k in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "DefaultArg", "DefaultInit", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr") or \
           (k == "ImplicitCastExpr" and casts) or (casts and k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr")):
            c = n.get("c")
            if not c: return n
            n = c[-1]
            continue
        if k == "CXXConstructExpr" and (n.get("elide") or n.get("cm")) and n.get("c"):
            n = n["c"][0]; continue
        return n
    return n


class Tree:
    def __init__(self, units=None, tus=ALLTU):
        self.ast = facts.ast(units, tus)
        self.funcs, self.recs, self.enums, self.globals = {}, {}, {}, {}
        for u in self.ast:
            for f in u["functions"]:
                f["unit"] = u["unit"]
                if f["m"] not in self.funcs or not f.get("inst"): self.funcs.setdefault(f["m"] or (f["q"], f["file"], f["l"]), f)
            for r in u["records"]: self.recs.setdefault(r["full"], r)
            for e in u["enums"]: self.enums.setdefault(e["q"], e)
            for g in u["globals"]: self.globals.setdefault((g["q"], g["file"], g["l"]), g)
        self.byq = {}
        for f in self.funcs.values(): self.byq.setdefault(f["q"], []).append(f)
    def repo(self):
        r = facts.REPO + "/xo/"
        return [f for f in self.funcs.values() if f["file"].startswith(r)]
    def recs_repo(self):
        r = facts.REPO + "/xo/"
        return [x for x in self.recs.values() if x["file"].startswith(r)]
    def where(self, f, n=None):
        return "%s:%d" % (rel(f["file"]), (n or f).get("l", f["l"]))


_t = {}
def tree(units=None, tus=ALLTU):
    k = (tuple(units) if units is not None else None, tuple(tus))
    if k not in _t: _t[k] = Tree(units, tus)
    return _t[k]


def bodies(f):
    """the statements of a function, including constructor initialisers"""
    for i in f.get("inits", ()):
        if isinstance(i.get("e"), dict): yield i["e"]
    if isinstance(f.get("body"), dict): yield f["body"]


def nodes(f, lambdas=True):
    for b in bodies(f): yield from walk(b, lambdas)


def local_inits(f):
    """declaration id -> initialiser of locals"""
    r = {}
    for n in nodes(f):
        if n.get("k") == "DeclStmt":
            for v in n.get("vars", ()):
                if isinstance(v.get("init"), dict): r[v["id"]] = v["init"]
    return r


def unref(t):
    return re.sub(r"\s*&+$", "", t).strip()
