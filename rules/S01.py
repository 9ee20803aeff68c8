"""S01: for every document of the stated domain, what write_zml_node and write_zml_node_concise write without reporting an error is read by parse_zml, without an error, as an equal tree: labels, values, order, duplicates, arrays and groups. Domain: every byte value alone and before and after a letter, all pairs of characters with a meaning to the reader, and the operators and references, each as label and value of members, of group members, of nodes with both a value and children, and of array elements; all trees of up to four nodes with and without labels and values; long and deep trees that need the multi-line form."""
TECHNIQUE = "abstract interpretation of writer and reader together over an enumerated domain of documents that covers every class of characters and contexts the code distinguishes"
NOTE = "std::ostream is modelled as a text that is appended to; std::string by its documented meaning. Documents outside the domain follow only as far as writer and reader treat texts character by character and nodes recursively, which is how both are written. Includes, macros and references cannot be written, only read, and are not part of the statement."
import itertools, multiprocessing, os
from sa import ir, absint, strdom
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.facts import AnalysisError
from sa.report import Check

UNITS = ["xo/string/string_tools.cpp", "xo/serialization/char_stream.cpp", "xo/serialization/prop_node_serializer_zml.cpp", "xo/container/prop_node.cpp", "xo/system/error_code.cpp"]
WRITERS = ("write_zml_node", "write_zml_node_concise")

def out(E, s, l):
    k = ("O", s.off); s.o.ext[k] = s.o.ext.get(k, []) + l
def shl(E, f, n, a):
    t = strdom.pars(E, n)
    if len(t) != 2 or "basic_ostream" not in t[0] and "std::ostream" not in t[0]: return NotImplemented
    if strdom.isstr(t[1]): l = strdom.items(E, a[1])
    elif t[1] == "char const*": l = strdom.cstr(E, a[1])
    elif t[1] == "char": l = [strdom.sc(a[1])]
    else: return NotImplemented
    out(E, a[0], l); return a[0]
def manip(E, f, n, a):
    if "ostream& (*)" not in E.p.dem(n.f).replace("basic_ostream<char, std::char_traits<char>>", "ostream"): return NotImplemented
    if "endl" not in str(a[1]): raise Unmodelled("stream manipulator %r" % (a[1],))
    out(E, a[0], [10]); return a[0]
def put(E, f, n, a): out(E, a[0], [strdom.sc(a[1])]); return a[0]
def write(E, f, n, a): out(E, a[0], strdom.cstr(E, a[1], a[2])); return a[0]
def osctor(E, f, n, a): a[0].o.ext[("O", a[0].off)] = []
def osstr(E, f, n, a): strdom.put(E, a[0], a[1].o.ext[("O", a[1].off)])
O = "std::__cxx11::basic_ostringstream::"
def include(E, f, n, a): raise Thrown("the text is read as an include of another file")
MODELS = dict(strdom.MODELS)
MODELS.update({"std::operator<<": shl, "std::ostream::operator<<": manip, "std::basic_ostream::operator<<": manip, "std::ostream::put": put, "std::basic_ostream::put": put, "std::ostream::write": write, "std::basic_ostream::write": write,
               O + "basic_ostringstream": osctor, O + "~basic_ostringstream": strdom.nop, O + "str": osstr,
               "xo::path::is_relative": include, "xo::load_string": include, "xo::load_zml_file": include, "xo::log::test_log_level": lambda E, f, n, a: 0, "xo::log::log_string": strdom.nop, "xo::log::flush": strdom.nop, "xo::log::error": strdom.nop, "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop, "__cxa_allocate_exception": strdom.new, "__cxa_free_exception": strdom.nop})

SPECIAL = b"{}[]#<>\\/=:'\"@$ \t\na\0"
MULTI = [b"//", b"/*", b"*/", b"<<", b">>", b": ", b"a: b", b"a//b", b"/*x*/", b"<<a>>", b"a = b", b"a=b", b"$a", b"@a", b"${a}", b"x${a}y", b"{ }", b"[ ]", b"a b", b"a  b", b"-1.5e-3", b"0x10", b"a.b.c", b"a;b", b"\\n", b"\\\\", b"\"\"", b"''", b"", b"a\nb\n", b"#a\nb", b"[a]", b"include <<x>>", bytes(range(1, 256)), b"x" * 100]

def texts():
    l = [bytes([b]) for b in range(256)] + [bytes([b, 97]) for b in range(256)] + [bytes([97, b]) for b in range(256)] + [bytes([a, b]) for a in SPECIAL for b in SPECIAL] + MULTI
    return list(dict.fromkeys(l))
# a document is a list of (label, value, children)
def context(label, value):
    y, z = b"y", b"z"
    return [(label, value, []), (b"g", b"", [(label, value, []), (z, y, [])]), (label, value, [(label, value, [])])], [(b"a", b"", [(b"", value, []), (b"", y, []), (b"", value, [])]), (b"h", value, [(b"", value, [])])]
def shapes(n):
    """forests of n nodes"""
    if n == 0: yield []; return
    for k in range(n):
        for c in shapes(k):
            for r in shapes(n - 1 - k): yield [c] + r
def count(f): return sum(1 + count(c) for c in f)
def fill(f, it):
    r = []
    for c in f:
        l, v = next(it); r.append((l, v, fill(c, it)))
    return r
def trees(v=b"v"):
    for n in range(1, 5):
        for f in shapes(n):
            if n < 4: l = itertools.product(((b"", b""), (b"", v), (b"a", b""), (b"a", v)), repeat=n)
            else: l = [tuple((x, y) for x in z) for z in itertools.product((b"", b"a"), repeat=n) for y in (b"", v)]
            for x in l: yield fill(f, iter(x))
def big():
    long = b"w" * 90
    for n in range(1, 4):
        for f in shapes(n):
            for x in itertools.product(((b"", b""), (b"", long), (b"a", b""), (b"a", long)), repeat=n):
                if any(v for _, v in x): yield fill(f, iter(x))
    for k in (5, 6, 7): yield [(b"g", b"", [(b"m%d" % i, b"%d" % i, []) for i in range(k)]), (b"l", b"", [(b"", b"%d" % i, []) for i in range(k)])]
    for k in range(3, 7):
        d = [(b"x", b"1", [])]
        for i in range(k): d = [(b"n%d" % i, b"", d + [(b"s", b"2", [])])]
        yield d
    for k in range(66, 84): yield [(b"g", b"", [(b"m", b"x" * k, [])]), (b"q", b"", [(b"", b"x" * k, []), (b"", b"y", [])])]
def show(d):
    def t(s): return repr(s[:24])[1:] + ("..." if len(s) > 24 else "")
    return "( " + ", ".join("%s=%s%s" % (t(l), t(v), show(c) if c else "") for l, v, c in d) + " )"
P_ = {}
def prog():
    if not P_:
        p = ir.prog(tus=("zml",), units=UNITS, helpers=True)
        def fn(q, par=None):
            l = [f for f in p.funcs.values() if f.q == q and f.blocks and (par is None or par in p.dem(f.name))]
            if len(l) != 1: raise AnalysisError("%d bodies for %s" % (len(l), q))
            return l[0]
        P_.update(p=p, parse=fn("xo::parse_zml", "char const*"), **{w: fn("xo::" + w) for w in WRITERS})
    return P_
def text(E, name, s):
    o = E.sym(name); strdom.put(E, o, list(s)); return o
def build(E, parent, d):
    for l, v, c in d: build(E, E.call("zml_add", [parent, text(E, "label", l), text(E, "value", v)]), c)
def judge(doc, w):
    """None when the document comes back, or is refused; otherwise what happens"""
    g = prog(); p = g["p"]
    def body(E):
        d = E.sym("document"); E.call("zml_root", [d]); build(E, d, doc)
        os = P(E.obj("stream"))
        try: E.call(g[w].name, [os, text(E, "label", b""), d, 0, 0, 0])
        except Thrown: return "refused", None
        l = os.o.ext.get(("O", 0), [])
        s = bytes(x & 255 for x in l); t = strdom.Text(l); r = E.sym("result")
        try: E.call(g["parse"].name, [r, P(t.buf), 0])
        except Thrown: return "read with an error", s
        except Diverges: return "not read in bounded time", s
        return ("same" if E.call("zml_equal", [d, r]) == 1 else "read as a different tree"), s
    res = []
    try:
        for r, E in absint.explore(p, lambda E: guard(E, body), MODELS, engine=strdom.StrEngine, maxsteps=4000000): res.append(r)
    except Unmodelled as e: return ("unmodelled", str(e))
    if len(res) != 1: return ("unmodelled", "%d cases for one document" % len(res))
    return res[0]
def guard(E, fn):
    try: return fn(E)
    except Thrown as e: return "ends in an error (%s)" % e.ty, None
    except Diverges as e: return "does not end: %s" % e, None
    except (strdom.OutOfText, strdom.Stale) as e: return "reads " + str(e), None
def work(batch):
    """the members of the root do not depend on each other: if they come back together, each does"""
    w = batch[0][2]
    if len(batch) > 1:
        r = judge([x for _, d, _ in batch for x in d], w)
        if r[0] == "same": return [(j, r) for j in batch]
    return [(j, judge(j[1], w)) for j in batch]

def run():
    c = Check("S01", "What the ZML writers write without an error is read back as an equal tree")
    g = prog()
    jobs = []
    for s in texts():
        k = repr(s[:20])[1:]
        if len(s) == 1 or s in MULTI: l = [("value " + k, x) for x in context(b"a", s)] + ([("label " + k, context(s, b"b")[0])] if s else [])
        else: l = [("text " + k, [(s, s, [(s, s, [])]), (b"g", b"", [(b"", s, [])])])]
        jobs += [(kind, d, w) for kind, d in l for w in WRITERS]
    for d in itertools.chain(trees(), big()): jobs += [("tree", d, w) for w in WRITERS]
    batches = []
    for w in WRITERS:
        l = [j for j in jobs if j[2] == w]
        odd = [j for j in l if any(not x[0] for x in j[1])]
        l = [j for j in l if not any(not x[0] for x in j[1])]
        batches += [l[i:i + 8] for i in range(0, len(l), 8)] + [[j] for j in odd]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool: res = [x for l in pool.imap_unordered(work, batches, chunksize=4) for x in l]
    n = {}
    bad = {}
    for (kind, d, w), (r, s) in sorted(res, key=lambda x: (x[0][2], x[0][0], len(repr(x[0][1])))):
        n[r] = n.get(r, 0) + 1
        if r == "unmodelled": raise AnalysisError("%s of %s: %s" % (w, show(d), s))
        # every document is an obligation; failures are grouped by what the document is about
        key = "%s, %s" % (w, kind if kind != "tree" else "shape " + outline(d))
        if "${" in kind and not kind.startswith("label"): key = "%s, values containing ${" % w
        if r == "same" or r == "refused" and not writable(d): c.ok(key)
        else: bad.setdefault(key, []).append((d, "refused although it has a ZML form" if r == "refused" else r, s))
    for key, l in bad.items():
        d, r, s = l[0]
        c.bad(key, "%s: the document %s is written as %s and %s%s" % (g[key.split(",")[0]].loc(), show(d), repr(s[:160])[1:] if s is not None else "-", r, " (and %d more)" % (len(l) - 1) if len(l) > 1 else ""))
    c.cover(documents=len(jobs), texts=len(texts()), same=n.get("same", 0), refused=n.get("refused", 0))
    c.floor("documents that come back", n.get("same", 0), 3000)
    c.finish()

def writable(d, array=False):
    """has this list of members a form in ZML"""
    return all((bool(l) != array) and not (array and v and c) and writable(c, bool(c) and not any(x[0] for x in c)) for l, v, c in d)

def outline(d):
    return "(" + " ".join(("L" if l else "-") + ("V" if v else "") + (outline(c) if c else "") for l, v, c in d) + ")"
