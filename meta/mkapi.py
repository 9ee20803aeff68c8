#!/usr/bin/env python3
"""Writes meta/api.txt: the qualified names of all functions of the library as it was read when the rules were written.
Run by hand only, never by a check: a function missing from it is analysed in the context of its callers."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa import ir
p = ir.prog(tus=("strings", "containers", "geometry", "system"))
n = sorted({f.q for f in p.repo_funcs()} | {ir.qual(d["dem"]) for d in p.decls.values() if "xo::" in d["dem"]})
open(V + "/meta/api.txt", "w").write("\n".join(n) + "\n")
print(len(n))
