"""The four functions of libstdc++ behind std::map and std::set that live in the library: insertion, removal and stepping in a search tree.
The tree is not balanced; everything else (comparisons, nodes, iterators) is interpreted from the real headers."""
from .absint import P
PAR, LEFT, RIGHT = 8, 16, 24
def g(E, n, k): return E.load(P(n.o, n.off + k), "ptr")
def s(E, n, k, v): E.store(P(n.o, n.off + k), v, "ptr")
def null(x): return not isinstance(x, P)
def insert(E, f, n, a):
    left, x, p, h = a
    s(E, x, PAR, p); s(E, x, LEFT, 0); s(E, x, RIGHT, 0); E.store(x, 1, "i32")
    if left & 1:
        s(E, p, LEFT, x)
        if p == h: s(E, h, PAR, x); s(E, h, RIGHT, x)
        elif p == g(E, h, LEFT): s(E, h, LEFT, x)
    else:
        s(E, p, RIGHT, x)
        if p == g(E, h, RIGHT): s(E, h, RIGHT, x)
def mini(E, x):
    while not null(g(E, x, LEFT)): x = g(E, x, LEFT)
    return x
def maxi(E, x):
    while not null(g(E, x, RIGHT)): x = g(E, x, RIGHT)
    return x
def inc(E, f, n, a):
    x = a[0]
    if not null(g(E, x, RIGHT)): return mini(E, g(E, x, RIGHT))
    y = g(E, x, PAR)
    while g(E, y, RIGHT) == x: x, y = y, g(E, y, PAR)
    return y if g(E, x, RIGHT) != y else x
def dec(E, f, n, a):
    x = a[0]
    if E.load(x, "i32") == 0 and g(E, g(E, x, PAR), PAR) == x: return g(E, x, RIGHT)
    if not null(g(E, x, LEFT)): return maxi(E, g(E, x, LEFT))
    y = g(E, x, PAR)
    while g(E, y, LEFT) == x: x, y = y, g(E, y, PAR)
    return y
def erase(E, f, n, a):
    z, h = a
    def replace(u, v):
        p = g(E, u, PAR)
        if p == h: s(E, h, PAR, v)
        elif g(E, p, LEFT) == u: s(E, p, LEFT, v)
        else: s(E, p, RIGHT, v)
        if not null(v): s(E, v, PAR, p)
    nxt, prv = None, None
    if g(E, h, LEFT) == z: nxt = inc(E, f, n, [z])
    if g(E, h, RIGHT) == z: prv = h if g(E, h, LEFT) == z else dec(E, f, n, [z])
    if null(g(E, z, LEFT)): replace(z, g(E, z, RIGHT))
    elif null(g(E, z, RIGHT)): replace(z, g(E, z, LEFT))
    else:
        y = mini(E, g(E, z, RIGHT))
        if g(E, y, PAR) != z:
            replace(y, g(E, y, RIGHT)); r = g(E, z, RIGHT); s(E, y, RIGHT, r); s(E, r, PAR, y)
        replace(z, y); l = g(E, z, LEFT); s(E, y, LEFT, l); s(E, l, PAR, y)
    if nxt is not None: s(E, h, LEFT, nxt)
    if prv is not None: s(E, h, RIGHT, prv)
    return z
MODELS = {"std::_Rb_tree_insert_and_rebalance": insert, "std::_Rb_tree_increment": inc, "std::_Rb_tree_decrement": dec, "std::_Rb_tree_rebalance_for_erase": erase}
