"""S02: for every byte value alone, next to every other kind of byte and at both ends of a text: the quoted form is between quotes and decoding it, by try_unquoted and by the token reader, gives back exactly the same text; try_quoted then reading is the identity; encode_char then decode_char is the identity and consumes the whole escape."""
TECHNIQUE = "abstract interpretation of the encoder and of both decoders over the complete finite domain of byte values, with neighbours from every class of bytes the code distinguishes"
NOTE = "Texts of three and more bytes follow from the byte-wise structure of the encoder, which is checked on all pairs of a byte and a representative of each class: the encoding of a pair is the concatenation of the encodings; long texts with all bytes are included."
from sa import ir, absint, strdom
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.facts import AnalysisError
from sa.report import Check

# one byte of each class the encoder or a decoder treats differently, and digits that could extend an escape
NEIGHBOURS = [ord(x) for x in "a07899\"\\'n rt\n"] + [0, 1, 27, 127, 128, 195, 255]

def run():
    c = Check("S02", "Decoding the quoted form of a text gives back the text, for every byte value next to every class of bytes")
    p = ir.prog(tus=("text",), units=["xo/string/string_tools.cpp", "xo/serialization/char_stream.cpp"], helpers=True)
    def fn(q, k=0):
        l = [f for f in p.funcs.values() if f.q == q and f.blocks]
        if not l: raise AnalysisError("no body for " + q)
        return l[k]
    enc, dec, quo, tryq, unq = (fn("xo::" + x) for x in ("encode_char", "decode_char", "quoted", "try_quoted", "try_unquoted"))
    def one(body):
        out = []
        for r, E in absint.explore(p, lambda E: guard(E, body), strdom.MODELS, engine=strdom.StrEngine): out.append(r)
        return out[0] if len(out) == 1 else ("cases", "%d cases for one input" % len(out))
    def text(E, name, s):
        o = E.sym(name); strdom.put(E, o, list(s)); return o
    def call1(E, f, s):
        r = E.sym("result of " + f.q); E.call(f.name, [r, text(E, "text", s)]); return bytes(strdom.items(E, r)[k] & 255 for k in range(strdom.text(E, r).n))
    def show(s): return repr(bytes(s[:24]))[1:] + ("..." if len(s) > 24 else "")
    n = [0]
    # ---- one byte
    bad = {}
    def fail(kind, b, why): bad.setdefault(kind, []).append((b, why))
    code = {}
    for b in range(256):
        def body(E):
            r = E.sym("enc"); E.call(enc.name, [r, strdom.sc(b)])
            l = [x & 255 for x in strdom.items(E, r)]
            e = E.obj("escape"); t = strdom.Text(l); ln = E.obj("len")
            v = E.call(dec.name, [P(t.buf), len(l), P(ln)])
            return bytes(l), v & 255, E.load(P(ln), "i32")
        r = one(body); n[0] += 1
        if r[0] != "ok": fail("encode_char / decode_char", b, r[1]); continue
        code[b] = r[1][0]
        if r[1][1] != b: fail("encode_char / decode_char", b, "written as %s, which is read as byte %d" % (show(r[1][0]), r[1][1]))
        elif r[1][2] != len(r[1][0]): fail("encode_char / decode_char", b, "%d of the %d characters of %s are used" % (r[1][2], len(r[1][0]), show(r[1][0])))
        if b in (34, 92) and not code[b].startswith(b"\\"): fail("escaping of quote and backslash", b, "written as %s" % show(code[b]))
    # ---- texts
    piece = {}
    def texts():
        yield b""
        for b in range(256): yield bytes([b])
        yield bytes(range(256)) * 2
        yield bytes(range(255, -1, -1))
        for b in range(256):
            for d in NEIGHBOURS: yield bytes([b, d])
    for s in texts():
        def body(E):
            q = call1(E, quo, s)
            return q, call1(E, unq, q)
        r = one(body); n[0] += 1
        k = s[0] if s else -1
        if r[0] != "ok": fail("quoted / try_unquoted", k, "%s: %s" % (show(s), r[1])); continue
        q, u = r[1]
        if u != s: fail("quoted / try_unquoted", k, "%s is written as %s, which is read as %s" % (show(s), show(q), show(u)))
        if len(s) == 1: piece[s[0]] = q[1:-1]
        want = b'"' + b"".join(piece.get(x, b"?") for x in s) + b'"'
        if len(s) > 1 and q != want: fail("quoted text is the sequence of its quoted bytes", k, "%s is written as %s instead of %s" % (show(s), show(q), show(want)))
    small = [bytes([b]) for b in range(256)] + [bytes([a, b]) for a in NEIGHBOURS for b in NEIGHBOURS] + [b""]
    for s in small:
        def body(E):
            q = call1(E, quo, s)
            o = E.sym("token"); E.call("text_token_own", [text(E, "quoted", q), o])
            return q, bytes(x & 255 for x in strdom.items(E, o))
        r = one(body); n[0] += 1
        k = s[0] if s else -1
        if r[0] != "ok": fail("quoted / get_token", k, "%s: %s" % (show(s), r[1]))
        elif r[1][1] != s: fail("quoted / get_token", k, "%s is written as %s, which is read as %s" % (show(s), show(r[1][0]), show(r[1][1])))
        def body2(E):
            r = E.sym("tq"); sp = strdom.Text([]); E.call(tryq.name, [r, text(E, "text", s), P(sp.buf)])
            q = bytes(x & 255 for x in strdom.items(E, r))
            return q, call1(E, unq, q)
        r = one(body2); n[0] += 1
        if r[0] != "ok": fail("try_quoted / try_unquoted", k, "%s: %s" % (show(s), r[1]))
        elif r[1][1] != s: fail("try_quoted / try_unquoted", k, "%s is written as %s, which is read as %s" % (show(s), show(r[1][0]), show(r[1][1])))
    for kind, f in (("encode_char / decode_char", dec), ("escaping of quote and backslash", enc), ("quoted / try_unquoted", quo), ("quoted text is the sequence of its quoted bytes", quo), ("quoted / get_token", fn("xo::char_stream::get_token")), ("try_quoted / try_unquoted", tryq)):
        l = bad.get(kind, [])
        for b in range(256):
            k = "%s, byte %d" % (kind, b)
            w = [y for x, y in l if x == b]
            if w: c.bad(k, "%s: %s" % (f.loc(), w[0]))
            else: c.ok(k)
        for x, y in l:
            if x == -1: c.bad(kind + ", empty text", "%s: %s" % (f.loc(), y))
    c.cover(byte_values=256, neighbours=len(set(NEIGHBOURS)), texts_interpreted=n[0])
    c.floor("texts interpreted", n[0], 5000)
    c.finish()

def guard(E, fn):
    try: return ("ok", fn(E))
    except Thrown as e: return ("thrown", "ends in an error (%s)" % e.ty)
    except Diverges as e: return ("diverges", "does not end: %s" % e)
    except (strdom.OutOfText, strdom.Stale) as e: return ("memory", "reads " + str(e))
