"""std::ifstream, std::ofstream and the stream operations the serializers use, over a table of files (E.fs: name -> list of characters, E.opened: names in the order of opening, E.readonly: names that cannot be created)."""
from . import strdom
from .absint import P, Obj, Unmodelled, Thrown

IOS = 264          # offset of the state from the stream
def vptr(E, p):
    v = Obj("stream vtable", "undef"); E.store(P(v, 100), IOS, "i64"); E.store(P(v, 76), IOS, "i64")
    E.store(p, P(v, 100), "ptr")
def st(p):
    for off in (p.off, p.off - IOS, p.off - 16):
        for k in ("I", "W"):
            if (k, off) in p.o.ext: return p.o.ext[(k, off)]
    raise Unmodelled("stream without a state")
def name(E, f, n, a):
    t = strdom.pars(E, n)
    return strdom.items(E, a[1]) if strdom.isstr(t[0].replace(" const&", "").strip()) or "basic_string" in t[0] else strdom.cstr(E, a[1])
def key(its): return bytes(x & 255 for x in its).decode("latin1")
def iopen(E, f, n, a):
    if not strdom.pars(E, n): k = None
    else: k = key(name(E, f, n, a)); E.opened.append(k)
    reader(E, a[0], E.fs.get(k))
def reader(E, p, text):
    p.o.ext[("I", p.off)] = dict(text=list(text or []), pos=0, fail=text is None, eof=False); vptr(E, p); return p
def oopen(E, f, n, a):
    k = key(name(E, f, n, a)); E.opened.append(k)
    writer(E, a[0])["fail"] = k in E.readonly
    if k not in E.readonly: E.fs[k] = a[0].o.ext[("W", a[0].off)]["text"]
def writer(E, p):
    p.o.ext[("W", p.off)] = dict(text=[], fail=False, eof=False); vptr(E, p); return p.o.ext[("W", p.off)]
def good(E, f, n, a): s = st(a[0]); return int(not s["fail"] and not s["eof"])
def ok(E, f, n, a): return int(not st(a[0])["fail"])
def bad(E, f, n, a): return int(st(a[0])["fail"])
def eof(E, f, n, a): return int(st(a[0])["eof"])
def getline(E, f, n, a):
    s, p, k = st(a[0]), a[1], a[2]
    if len(a) > 3: raise Unmodelled("getline with a delimiter")
    got, end = [], None
    if s["fail"] or s["eof"]: s["fail"] = True
    else:
        while end is None:
            if s["pos"] >= len(s["text"]):
                s["eof"] = True; s["fail"] = s["fail"] or not got; end = 1
            elif s["text"][s["pos"]] == 10: s["pos"] += 1; end = 1
            elif len(got) == k - 1: s["fail"] = True; end = 1
            else: got.append(s["text"][s["pos"]]); s["pos"] += 1
    for i, x in enumerate(got + [0]): E.store(P(p.o, p.off + i), x, "i8")
    return a[0]
def iter_(E, f, n, a):
    """an istreambuf_iterator: position of its stream, or the end"""
    a[0].o.ext[("B", a[0].off)] = st(a[1]) if len(a) > 1 and isinstance(a[1], P) else None
    E.store(a[0], a[1] if len(a) > 1 and isinstance(a[1], P) else 0, "ptr"); E.store(P(a[0].o, a[0].off + 8), -1, "i32")
def rest(E, p):
    """text left in the stream that an iterator value points into"""
    s = st(p); r = s["text"][s["pos"]:]; s["pos"] = len(s["text"]); s["eof"] = True; return r
def text(E, f, n, a):
    if "istreambuf_iterator" not in E.p.dem(n.f): return strdom.ctor(E, f, n, a)
    p = next((x for x in a[1:] if isinstance(x, P) and any((k, x.off) in x.o.ext for k in ("I", "W"))), None)
    if p is None: raise Unmodelled("text from iterators of an unknown stream")
    strdom.put(E, a[0], rest(E, p))
def shl(E, f, n, a):
    t = strdom.pars(E, n)
    if len(t) != 2 or "basic_ostream" not in t[0] and "std::ostream" not in t[0]: return NotImplemented
    if strdom.isstr(t[1]): l = strdom.items(E, a[1])
    elif t[1] == "char const*": l = strdom.cstr(E, a[1])
    elif t[1] == "char": l = [strdom.sc(a[1])]
    else: return NotImplemented
    out(E, a[0], l); return a[0]
def out(E, p, l): st(p)["text"].extend(l)
def rdbuf(E, f, n, a): return a[0]
def manip(E, f, n, a):
    if isinstance(a[1], P) and "streambuf" in E.p.dem(n.f):
        l = rest(E, a[1])
        out(E, a[0], l)
        if not l: st(a[0])["fail"] = True
        return a[0]
    if "endl" not in str(a[1]): raise Unmodelled("stream manipulator %r" % (a[1],))
    out(E, a[0], [10]); return a[0]
def put(E, f, n, a): out(E, a[0], [strdom.sc(a[1])]); return a[0]
def write(E, f, n, a): out(E, a[0], strdom.cstr(E, a[1], a[2])); return a[0]
def osctor(E, f, n, a): writer(E, a[0])
def osstr(E, f, n, a): strdom.put(E, a[0], list(st(a[1])["text"]))
O = "std::__cxx11::basic_ostringstream::"
S = "std::__cxx11::basic_stringstream::"
MODELS = {S + "basic_stringstream": osctor, S + "~basic_stringstream": strdom.nop, S + "str": osstr, "std::basic_ifstream::rdbuf": rdbuf, "std::basic_ifstream::basic_ifstream": iopen, "std::basic_ofstream::basic_ofstream": oopen, "std::basic_ifstream::~basic_ifstream": strdom.nop, "std::basic_ofstream::~basic_ofstream": strdom.nop,
          "std::istreambuf_iterator::istreambuf_iterator": iter_, strdom.B + "basic_string": text, "std::operator<<": shl, O + "basic_ostringstream": osctor, O + "~basic_ostringstream": strdom.nop, O + "str": osstr}
MODELS["_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv"] = ok
for b in ("std::basic_ios::", "std::ios::"):
    MODELS.update({b + "good": good, b + "operator bool": ok, b + "fail": bad, b + "operator!": bad, b + "eof": eof, b + "bad": lambda E, f, n, a: 0})
for b in ("std::istream::", "std::basic_istream::"): MODELS[b + "getline"] = getline
for b in ("std::ostream::", "std::basic_ostream::"): MODELS.update({b + "operator<<": manip, b + "put": put, b + "write": write})
