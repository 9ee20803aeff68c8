"""Models of std::string (and the C string functions) for the abstract interpreter: a string is a buffer of characters of known
length whose characters are numbers or atoms; opaque pieces (texts of unknown length, e.g. a formatted number) are single items
marked ("opq", ...) that may be concatenated and compared but not looked into.  Access outside the characters and the
terminator raises OutOfText."""
from . import absint
from .absint import P, Obj, UNDEF, Unmodelled, Thrown

class OutOfText(Exception): pass
class Stale(Exception): pass
NPOS = -1

class Text:
    __slots__ = ("buf", "n", "items")
    def __init__(s, items, name="text"):
        s.items = None
        s.buf = Obj(name, "undef"); s.n = len(items)
        for k, ch in enumerate(list(items) + [0]): s.buf.log.append((k, 1, sc(ch), "i8"))
        s.buf.ext["text"] = s

def sc(ch):
    if isinstance(ch, str): ch = ord(ch)
    if isinstance(ch, int): ch = ch & 255; return ch - 256 if ch > 127 else ch
    return ch

class StrEngine(absint.Engine):
    """engine that checks reads and writes of string buffers"""
    def cell(self, o, off, sz, t, upto):
        x = o.ext.get("text") if o.kind == "undef" else None
        if x is not None:
            if o.ext.get("dead"): raise Stale("the characters of a text that was changed or destroyed")
            if isinstance(off, int) and (off < 0 or off + sz > x.n + 1): raise OutOfText("character %d of a text of %d characters" % (off, x.n))
        elif o.kind == "const" and o.init and isinstance(off, int):
            n = self.T.get(o.init[1])[0]
            if off < 0 or off + sz > n: raise OutOfText("byte %d of the %d-byte constant %s" % (off, n, o.name))
        return super().cell(o, off, sz, t, upto)
    def store(self, ptr, v, t):
        if isinstance(ptr, P):
            x = ptr.o.ext.get("text") if ptr.o.kind == "undef" else None
            if x is not None and isinstance(ptr.off, int) and (ptr.off < 0 or ptr.off > x.n): raise OutOfText("writes character %d of a text of %d characters" % (ptr.off, x.n))
        return super().store(ptr, v, t)

def has(p): return isinstance(p, P) and ("S", p.off) in p.o.ext
def text(E, p):
    if not isinstance(p, P): raise Unmodelled("text at %r" % (p,))
    t = p.o.ext.get(("S", p.off))
    if t is None:
        hook = getattr(E, "newtext", None)
        t = hook(p) if hook else None
        if t is None: raise Unmodelled("unknown text %s" % p)
        p.o.ext[("S", p.off)] = t
    return t
def items(E, p):
    t = text(E, p)
    return [E.cell(t.buf, k, 1, "i8", len(t.buf.log)) for k in range(t.n)]
def put(E, p, its, name="text"):
    old = p.o.ext.get(("S", p.off))
    if old is not None: old.buf.ext["dead"] = 1
    p.o.ext[("S", p.off)] = Text([sc(i) for i in its], name)
    return p
def value(E, p):
    """the characters as a python string (None when a character is not known)"""
    l = items(E, p)
    if any(not isinstance(x, int) for x in l): return None
    return bytes(x & 255 for x in l).decode("latin1")
def cstr(E, p, n=None):
    """items of a C string"""
    if not isinstance(p, P): raise Unmodelled("C string at %r" % (p,))
    if not isinstance(p.off, int): raise Unmodelled("C string at unknown position")
    s, k = [], 0
    while n is None or k < n:
        v = E.load(P(p.o, p.off + k), "i8")
        if v is UNDEF: raise OutOfText("text without an end")
        if n is None:
            if isinstance(v, int):
                if v == 0: return s
            elif isopq(v): pass
            elif E.same(v, 0, "s"): return s
        s.append(v); k += 1
        if k > 5000: raise Unmodelled("long text")
    return s
def isopq(v): return isinstance(v, tuple) and v and v[0] == "opq"
def eqch(E, a, b):
    if isinstance(a, int) and isinstance(b, int): return sc(a) == sc(b)
    if a == b: return True
    if isopq(a) or isopq(b): return bool(E.truth(("texteq", a, b)))
    return E.same(a, b, "s")
def eqs(E, a, b):
    if any(isopq(x) for x in a + b):
        if a == b: return True
        # compare up to the first opaque piece, the rest is open
        for x, y in zip(a, b):
            if isopq(x) or isopq(y): return bool(E.truth(("texteq", tuple(a), tuple(b))))
            if not eqch(E, x, y): return False
        return bool(E.truth(("texteq", tuple(a), tuple(b))))
    return len(a) == len(b) and all(eqch(E, x, y) for x, y in zip(a, b))
def cmps(E, a, b):
    if any(isopq(x) for x in a + b): raise Unmodelled("order of opaque texts")
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int): x, y = x & 255, y & 255
        r = E.rel(x, y, "u")
        if r != "=": return -1 if r == "<" else 1
    return (len(a) > len(b)) - (len(a) < len(b))
def known(l):
    if any(isopq(x) for x in l): raise Unmodelled("looks into a text of unknown content")
    return l
def num(v, what="position"):
    if not isinstance(v, int): raise Unmodelled("%s %r in a text" % (what, v))
    return v

def params(dem):
    """parameter types of a demangled function"""
    s = dem.replace("(anonymous namespace)", "{anon}")
    e = s.rfind(")")
    d = 0
    for k in range(e, -1, -1):
        if s[k] == ")": d += 1
        elif s[k] == "(":
            d -= 1
            if d == 0: return [] if k + 1 == e else absint.split(s[k + 1:e])
    return []
def isstr(t): return t.startswith("std::__cxx11::basic_string<") and "view" not in t and "initializer" not in t
def arg(E, t, v):
    """items of an operand of parameter type t"""
    if isstr(t): return items(E, v)
    if t.replace("const", "").replace(" ", "") == "char*": return cstr(E, v)
    if t == "char": return [sc(v)]
    raise Unmodelled("text operand of type " + t)
def pars(E, n): return params(E.p.dem(n.f)) if n.f else []

# ---- members
def ctor(E, f, n, a):
    t = pars(E, n); this = a[0]
    t = [x for x in t if "std::allocator<char> const&" != x]
    if not t: put(E, this, [])
    elif isstr(t[0]):
        if len(t) == 1:
            l = items(E, a[1])
            src, moved = a[1], t[0].endswith("&&")
            put(E, this, l)
            if moved: put(E, src, [])
        else:
            l = known(items(E, a[1])); b = num(a[2]); m = num(a[3]) if len(t) > 2 else NPOS
            if b > len(l) or b < 0: raise Thrown("std::out_of_range")
            put(E, this, l[b:] if m == NPOS or m < 0 else l[b:b + m])
    elif t[0] == "char const*": put(E, this, cstr(E, a[1], num(a[2], "length")) if len(t) > 1 and t[1] == "unsigned long" else cstr(E, a[1]))
    elif t[0] == "unsigned long": put(E, this, [sc(a[2])] * num(a[1], "length"))
    elif "initializer_list" in t[0]: put(E, this, [E.load(P(a[1].o, a[1].off + k), "i8") for k in range(num(a[2]))])
    elif "istreambuf_iterator" in t[0]: put(E, this, [("opq", "rest of the stream")])
    elif "iterator" in t[0] or "char*" in t[0] :
        if isinstance(a[1], P) and isinstance(a[2], P) and a[1].o is a[2].o: put(E, this, [E.load(P(a[1].o, k), "i8") for k in range(a[1].off, a[2].off)])
        else: raise Unmodelled("text from iterators")
    elif "string_view" in t[0] or "__sv_wrapper" in t[0]:
        if isinstance(a[1], P) and "string_view" in t[0]: l, q = E.load(a[1], "i64"), E.load(P(a[1].o, a[1].off + 8), "ptr")
        else: l, q = a[1], a[2]
        put(E, this, cstr(E, q, num(l)) if l else [])
    else: raise Unmodelled("std::string( %s )" % ", ".join(t))
    return None
def dtor(E, f, n, a):
    t = a[0].o.ext.get(("S", a[0].off)) if isinstance(a[0], P) else None
    if t is not None: t.buf.ext["dead"] = 1
    return None
def assign(E, f, n, a):
    t = pars(E, n)
    if isstr(t[0]) and len(t) == 1:
        if a[0] == a[1]: return a[0]
        l = items(E, a[1]); put(E, a[0], l)
        if t[0].endswith("&&"): put(E, a[1], [])
        return a[0]
    if t[0] == "char const*" and len(t) == 2: return put(E, a[0], cstr(E, a[1], num(a[2])))
    if t[0] == "unsigned long": return put(E, a[0], [sc(a[2])] * num(a[1]))
    return put(E, a[0], arg(E, t[0], a[1]))
def append(E, f, n, a):
    t = pars(E, n); l = items(E, a[0])
    if t[0] == "char const*" and len(t) == 2: m = cstr(E, a[1], num(a[2]))
    elif t[0] == "unsigned long": m = [sc(a[2])] * num(a[1])
    elif isstr(t[0]) and len(t) == 3: m = known(items(E, a[1]))[num(a[2]):][: None if a[3] < 0 else a[3]]
    elif "char*" in t[0] and len(t) == 2 and isinstance(a[2], P): m = [E.load(P(a[1].o, k), "i8") for k in range(a[1].off, a[2].off)]
    else: m = arg(E, t[0], a[1])
    return put(E, a[0], l + m)
def size(E, f, n, a): return len(known(items(E, a[0])))
def empty(E, f, n, a):
    l = items(E, a[0])
    if any(not isopq(x) for x in l): return 0
    if not l: return 1
    return E.truth(("emptytext", tuple(l)))
def at(E, f, n, a):
    t = text(E, a[0]); known(items(E, a[0]))
    i = num(a[1])
    if i < 0 or i > t.n: raise OutOfText("character %d of a text of %d characters" % (i, t.n))
    return P(t.buf, i)
def checked_at(E, f, n, a):
    t = text(E, a[0])
    if num(a[1]) < 0 or a[1] >= t.n: raise Thrown("std::out_of_range")
    return P(t.buf, a[1])
def front(E, f, n, a):
    t = text(E, a[0])
    if t.n == 0: raise OutOfText("front() of an empty text")
    return P(t.buf, 0)
def back(E, f, n, a):
    t = text(E, a[0])
    if t.n == 0: raise OutOfText("back() of an empty text")
    return P(t.buf, t.n - 1)
def data(E, f, n, a): return P(text(E, a[0]).buf, 0)
def begin(E, f, n, a): return P(text(E, a[0]).buf, 0)
def end(E, f, n, a): return P(text(E, a[0]).buf, text(E, a[0]).n)
def clear(E, f, n, a): put(E, a[0], []); return None
def push_back(E, f, n, a): put(E, a[0], items(E, a[0]) + [sc(a[1])]); return None
def pop_back(E, f, n, a):
    l = items(E, a[0])
    if not l: raise OutOfText("pop_back() of an empty text")
    put(E, a[0], l[:-1]); return None
def reserve(E, f, n, a): return None
def resize(E, f, n, a):
    l = known(items(E, a[0])); m = num(a[1])
    put(E, a[0], l[:m] + [sc(a[2]) if len(a) > 2 else 0] * (m - len(l))); return None
def substr(E, f, n, a):
    """result object, this, pos, count"""
    l = known(items(E, a[1])); b, m = num(a[2]), num(a[3])
    if b < 0 or b > len(l): raise Thrown("std::out_of_range")
    put(E, a[0], l[b:] if m < 0 else l[b:b + m]); return None
def needle(E, t, a):
    return [sc(a)] if t == "char" else arg(E, t, a)
def find(E, f, n, a):
    t = pars(E, n); l = known(items(E, a[0])); x = known(needle(E, t[0], a[1])); b = num(a[2])
    if b < 0: return NPOS
    for k in range(b, len(l) - len(x) + 1):
        if eqs(E, l[k:k + len(x)], x): return k
    return NPOS
def rfind(E, f, n, a):
    t = pars(E, n); l = known(items(E, a[0])); x = known(needle(E, t[0], a[1])); b = num(a[2])
    hi = len(l) - len(x)
    if b >= 0: hi = min(hi, b)
    for k in range(hi, -1, -1):
        if eqs(E, l[k:k + len(x)], x): return k
    return NPOS
def findset(first, of):
    def m(E, f, n, a):
        t = pars(E, n); l = known(items(E, a[0])); x = known(needle(E, t[0], a[1])); b = num(a[2])
        r = range(max(b, 0), len(l)) if first else range(min(len(l) - 1, b if b >= 0 else len(l) - 1), -1, -1)
        if first and b < 0: return NPOS
        for k in r:
            if any(eqch(E, l[k], y) for y in x) == of: return k
        return NPOS
    return m
def compare(E, f, n, a):
    t = pars(E, n)
    if t[0] == "unsigned long":
        l = known(items(E, a[0])); b, m = num(a[1]), num(a[2])
        if b > len(l) or b < 0: raise Thrown("std::out_of_range")
        l = l[b:] if m < 0 else l[b:b + m]
        y = arg(E, t[2], a[3])
        if len(t) == 5: y = known(y)[num(a[4]):][: None if a[5] < 0 else a[5]]
        return cmps(E, l, y)
    return cmps(E, items(E, a[0]), arg(E, t[0], a[1]))
def insert(E, f, n, a):
    t = pars(E, n)
    if t[0] != "unsigned long": raise Unmodelled("insert at iterator")
    l = known(items(E, a[0])); b = num(a[1])
    if b < 0 or b > len(l): raise Thrown("std::out_of_range")
    x = [sc(a[3])] * num(a[2]) if t[1] == "unsigned long" else arg(E, t[1], a[2])
    return put(E, a[0], l[:b] + x + l[b:])
def erase(E, f, n, a):
    t = pars(E, n); l = known(items(E, a[0]))
    if t and t[0] == "unsigned long":
        b, m = num(a[1]), num(a[2])
        if b < 0 or b > len(l): raise Thrown("std::out_of_range")
        return put(E, a[0], l[:b] + ([] if m < 0 else l[b + m:]))
    i = a[1].off
    j = a[2].off if len(t) > 1 else i + 1
    put(E, a[0], l[:i] + l[j:])
    return P(text(E, a[0]).buf, i)
def replace(E, f, n, a):
    t = pars(E, n)
    if t[0] != "unsigned long" or len(t) != 3: raise Unmodelled("replace by iterators")
    l = known(items(E, a[0])); b, m = num(a[1]), num(a[2])
    if b < 0 or b > len(l): raise Thrown("std::out_of_range")
    return put(E, a[0], l[:b] + arg(E, t[2], a[3]) + ([] if m < 0 else l[b + m:]))
def swap(E, f, n, a):
    x, y = items(E, a[0]), items(E, a[1]); put(E, a[0], y); put(E, a[1], x); return None
def plus(E, f, n, a):
    t = pars(E, n)
    if len(t) != 2 or not any(isstr(x) for x in t): return NotImplemented
    put(E, a[0], arg(E, t[0], a[1]) + arg(E, t[1], a[2])); return None
def eq(neg):
    def m(E, f, n, a):
        t = pars(E, n)
        if len(t) != 2 or not all(isstr(x) or x == "char const*" for x in t): return NotImplemented
        return int(eqs(E, arg(E, t[0], a[0]), arg(E, t[1], a[1])) != neg)
    return m
def less(op):
    def m(E, f, n, a):
        t = pars(E, n)
        if len(t) != 2 or not all(isstr(x) or x == "char const*" for x in t): return NotImplemented
        r = cmps(E, arg(E, t[0], a[0]), arg(E, t[1], a[1]))
        return int({"<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0}[op])
    return m
def view(E, f, n, a): return (len(known(items(E, a[0]))), P(text(E, a[0]).buf, 0))

# ---- C functions
def strlen(E, f, n, a): return len(known(cstr(E, a[0])))
def spn(neg):
    def m(E, f, n, a):
        s, x = known(cstr(E, a[0])), known(cstr(E, a[1])); k = 0
        while k < len(s) and any(eqch(E, s[k], y) for y in x) != neg: k += 1
        return k
    return m
def chr_(E, f, n, a):
    s = known(cstr(E, a[0]))
    for k, x in enumerate(s + [0]):
        if eqch(E, x, sc(a[1])): return P(a[0].o, a[0].off + k)
    return 0
def rchr(E, f, n, a):
    s = known(cstr(E, a[0]))
    for k, x in reversed(list(enumerate(s + [0]))):
        if eqch(E, x, sc(a[1])): return P(a[0].o, a[0].off + k)
    return 0
def cmp_(E, f, n, a): return cmps(E, known(cstr(E, a[0])), known(cstr(E, a[1])))
def cut(E, p, m):
    """items of a C string, at most m"""
    s = []
    for k in range(num(m)):
        v = E.load(P(p.o, p.off + k), "i8")
        if v is UNDEF: raise OutOfText("text without an end")
        if eqch(E, v, 0): break
        s.append(v)
    return s
def ncmp(E, f, n, a): return cmps(E, cut(E, a[0], a[2]), cut(E, a[1], a[2]))
def memcmp(E, f, n, a):
    m = num(a[2])
    return cmps(E, [E.load(P(a[0].o, a[0].off + k), "i8") for k in range(m)], [E.load(P(a[1].o, a[1].off + k), "i8") for k in range(m)]) if m else 0
def memchr(E, f, n, a):
    for k in range(num(a[2])):
        if eqch(E, E.load(P(a[0].o, a[0].off + k), "i8"), sc(a[1])): return P(a[0].o, a[0].off + k)
    return 0
def strstr(E, f, n, a):
    s, x = known(cstr(E, a[0])), known(cstr(E, a[1]))
    for k in range(len(s) - len(x) + 1):
        if eqs(E, s[k:k + len(x)], x): return P(a[0].o, a[0].off + k)
    return 0
def cls(test):
    def m(E, f, n, a):
        if not isinstance(a[0], int): return E.truth((test.__name__, a[0]))
        c = a[0]
        return int(0 <= c < 128 and test(chr(c)))
    return m
def tolower(E, f, n, a): return ord(chr(a[0]).lower()) if isinstance(a[0], int) and 0 <= a[0] < 128 else a[0] if isinstance(a[0], int) else E.term("tolower", "i32", a[0])
def toupper(E, f, n, a): return ord(chr(a[0]).upper()) if isinstance(a[0], int) and 0 <= a[0] < 128 else a[0] if isinstance(a[0], int) else E.term("toupper", "i32", a[0])
nop = lambda E, f, n, a: None
def fmt(E, items_, args):
    """printf formatting of known numbers; anything else is an opaque piece"""
    out, k, args = [], 0, list(args)
    f = "".join(chr(x & 255) for x in items_)
    import re as _re
    for m in _re.finditer(r"%([-+ 0#]*)(\d*)(\.\d+)?(hh|h|ll|l|z|j|t)?([diouxXcsfgeEGp%])|[^%]", f):
        if not m[0].startswith("%"): out.append(sc(m[0])); continue
        if m[5] == "%": out.append(sc("%")); continue
        v = args.pop(0)
        if m[5] == "s":
            out += cstr(E, v); continue
        if not isinstance(v, int): out.append(("opq", m[0], v)); continue
        if m[5] in "ouxX" and v < 0: v += 1 << (64 if m[4] in ("l", "ll", "z", "j") else 32)
        if m[5] == "c": out.append(sc(v)); continue
        out += [sc(x) for x in "%" + m[1] + m[2] + (m[3] or "") + {"i": "d", "u": "d"}.get(m[5], m[5]) and ("%" + m[1] + m[2] + (m[3] or "") + {"i": "d", "u": "d"}.get(m[5], m[5])) % v]
    return out
def stringf(E, f, n, a): put(E, a[0], fmt(E, known(cstr(E, a[1])), a[2:])); return None
def new(E, f, n, a): return P(E.obj("heap"))

B = "std::__cxx11::basic_string::"
MODELS = {B + "basic_string": ctor, B + "~basic_string": dtor, B + "operator=": assign, B + "assign": assign, B + "append": append, B + "operator+=": append, B + "size": size, B + "length": size,
          B + "empty": empty, B + "operator[]": at, B + "at": checked_at, B + "front": front, B + "back": back, B + "data": data, B + "c_str": data, B + "begin": begin, B + "end": end, B + "cbegin": begin, B + "cend": end,
          B + "clear": clear, B + "push_back": push_back, B + "pop_back": pop_back, B + "reserve": reserve, B + "shrink_to_fit": reserve, B + "resize": resize, B + "substr": substr, B + "find": find, B + "rfind": rfind,
          B + "find_first_of": findset(True, True), B + "find_first_not_of": findset(True, False), B + "find_last_of": findset(False, True), B + "find_last_not_of": findset(False, False), B + "compare": compare,
          B + "insert": insert, B + "erase": erase, B + "replace": replace, B + "swap": swap, B + "get_allocator": nop, B + "operator_std::basic_string_view<char,_std::char_traits<char>>": view,
          "std::operator+": plus, "std::operator==": eq(False), "std::operator!=": eq(True), "std::operator<": less("<"), "std::operator>": less(">"), "std::operator<=": less("<="), "std::operator>=": less(">="),
          "std::allocator::allocator": nop, "std::allocator::~allocator": nop, "std::__new_allocator::__new_allocator": nop, "std::__new_allocator::~__new_allocator": nop,
          "strlen": strlen, "strspn": spn(False), "strcspn": spn(True), "strchr": chr_, "strrchr": rchr, "strcmp": cmp_, "strncmp": ncmp, "memcmp": memcmp, "memchr": memchr, "strstr": strstr,
          "tolower": tolower, "toupper": toupper, "isdigit": cls(str.isdigit), "isalpha": cls(str.isalpha), "isalnum": cls(str.isalnum), "isspace": cls(lambda c: c in " \t\n\v\f\r"), "isupper": cls(str.isupper), "islower": cls(str.islower),
          "isxdigit": cls(lambda c: c in "0123456789abcdefABCDEF"), "isprint": cls(lambda c: 32 <= ord(c) < 127), "isgraph": cls(lambda c: 32 < ord(c) < 127), "iscntrl": cls(lambda c: ord(c) < 32 or ord(c) == 127), "ispunct": cls(lambda c: 32 < ord(c) < 127 and not c.isalnum()),
          "xo::stringf": stringf, "_Znwm": new, "_ZdlPv": nop, "_ZdlPvm": nop, "_Znam": new, "_ZdaPv": nop}
MODELS[B + "operator std::basic_string_view<char, std::char_traits<char>>"] = view
