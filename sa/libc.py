"""Number conversions of the C library on concrete text: strtod, strtol and their kin by the grammar of the C standard, snprintf for numbers."""
import re
from . import strdom
from .absint import P, Unmodelled
FLT = re.compile(rb"[ \t\n\v\f\r]*([+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]))")
INT = re.compile(rb"[ \t\n\v\f\r]*([+-]?\d+)")
def text(E, p):
    l = strdom.cstr(E, p)
    if not all(isinstance(x, int) for x in l): raise Unmodelled("conversion of an unknown text")
    return bytes(x & 255 for x in l)
def end(E, a, k):
    if isinstance(a[1], P): E.store(a[1], P(a[0].o, a[0].off + k), "ptr")
def single(x):
    import struct
    try: return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError: return float("inf") if x > 0 else -float("inf")
def strtod(f32):
    def m(E, f, n, a):
        r = FLT.match(text(E, a[0])); end(E, a, r.end() if r else 0)
        if not r: return 0.0
        t = r[1].decode().lower()
        v = float.fromhex(t) if "0x" in t else float(t)
        return single(v) if f32 else v
    return m
def strtol(bits, signed):
    def m(E, f, n, a):
        if len(a) > 2 and a[2] != 10: raise Unmodelled("conversion with a base other than 10")
        r = INT.match(text(E, a[0])); end(E, a, r.end() if r else 0)
        v = int(r[1]) if r else 0; lo, hi = (-2**63, 2**63 - 1) if signed else (0, 2**64 - 1)
        if not signed: v = hi if abs(v) > hi else v
        v = max(lo, min(hi, v)) if signed else v % 2**64
        return v - 2**64 if v >= 2**63 else v
    return m
def snprintf(E, f, n, a):
    buf, size = a[0], a[1]; fmt = text(E, a[2]).decode("latin1"); args = list(a[3:]); out = b""
    for lit, conv in re.findall(r"([^%]+)|(%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z%])", fmt):
        if lit: out += lit.encode("latin1"); continue
        if conv == "%%": out += b"%"; continue
        x = []
        for _ in range(conv.count("*")): x.append(args.pop(0))
        v = args.pop(0); c = re.sub(r"hh|h|ll|l|z|j|t|L", "", conv[:-1]) + conv[-1]
        for y in x: c = c.replace("*", str(y), 1)
        if c[-1] == "s": v = text(E, v).decode("latin1")
        elif c[-1] in "uxXo" and isinstance(v, int) and v < 0: v &= 2**32 - 1 if "l" not in conv and "z" not in conv else 2**64 - 1; c = c.replace("u", "d")
        elif c[-1] in "diuc" and not isinstance(v, int) or c[-1] in "eEfFgGaA" and not isinstance(v, float): raise Unmodelled("format of an unknown value")
        if c[-1] in "iu": c = c[:-1] + "d"
        out += (c % v).encode("latin1")
    if isinstance(size, int) and size > 0:
        for k, ch in enumerate(list(out[:size - 1]) + [0]): E.store(P(buf.o, buf.off + k), strdom.sc(ch), "i8")
    return len(out)
MODELS = {"strtod": strtod(False), "strtof": strtod(True), "snprintf": snprintf}
for k, b, s in (("strtol", 64, True), ("strtoll", 64, True), ("strtoul", 64, False), ("strtoull", 64, False)): MODELS[k] = MODELS["__isoc23_" + k] = strtol(b, s)
