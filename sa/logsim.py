"""Interpretation of the logging system (log.cpp, log_sink.cpp and tu/log.cpp) for histories of operations with symbolic levels:
outputs are real objects of a class derived from sink whose handlers only record that they were called."""
from . import ir, absint, strdom
from .absint import P, Thrown, Diverges, Unmodelled

def got(E, f, n, a): E.events.append(("message", a[0].o.name, a[1]))
def flushed(E, f, n, a): E.events.append(("flush", a[0].o.name))
def self_(E, f, n, a): return E.thread
def txt(E, f, n, a): strdom.put(E, a[0], [("opq", "text")])
def zero(E, f, n, a): return 0
def format_(E, f, n, a):
    """the formatted text ends within the buffer"""
    if not isinstance(a[1], int) or a[1] < 1: raise Unmodelled("buffer of unknown size")
    E.store(a[0], ("opq", "formatted"), "i8"); E.store(P(a[0].o, a[0].off + 1), 0, "i8"); return 1
MODELS = dict(strdom.MODELS)
MODELS.update({"got_message": got, "got_flush": flushed, "pthread_self": self_, "xo::to_str": txt, "vsnprintf": format_,
               **{x: zero for x in ("pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_tryrdlock", "pthread_mutex_lock", "pthread_mutex_unlock")}})

def prog(): return ir.prog(tus=("log",), units=["xo/system/log.cpp", "xo/system/log_sink.cpp"], helpers=True)

class Eng(strdom.StrEngine):
    """static objects of the analysed units start with their initial values"""
    def glob(self, name):
        if name not in self.globals:
            g = self.p.globals.get(self.p.alias.get(name, name))
            if g and "init" in g: self.globals[name] = absint.Obj("@" + name, "const", (g["init"], g["t"]))
        return super().glob(name)

class World:
    """outputs and what the interpreter says about them"""
    def __init__(s, E): s.E, s.live, s.all = E, [], []; E.events, E.thread = [], 1
    def new(s, mode):
        n = "output %d" % len(s.all); o = P(s.E.obj(n)); s.all.append(n)
        l = ("s", n, 0)
        s.live.append(dict(name=n, o=o, level=l, mode=mode, thread=s.E.thread))
        s.E.call("log_new", [o, l, mode]); return s.live[-1]
    def delete(s, k): x = s.live.pop(k); s.E.call("log_delete", [x["o"]])
    def level(s, k):
        x = s.live[k]; x["level"] = ("s", x["name"], s.tick()); s.E.call("log_level", [x["o"], x["level"]])
    def tick(s): s.t = getattr(s, "t", 0) + 1; return s.t
    def mode(s, k, m):
        """by another thread than the one that made the output"""
        x = s.live[k]; old, s.E.thread = s.E.thread, 2
        x["mode"], x["thread"] = m, 2; s.E.call("log_mode", [x["o"], m]); s.E.thread = old
    def accepts(s, x, l): return (x["mode"] == 0 or x["thread"] == s.E.thread) and s.E.le(x["level"], l, "s")
    def send(s, entry, level, given):
        """(deliveries, flush report): what the entry does"""
        s.E.events = []
        try: s.E.call(entry, ([level] if given else []) + [strdom.put(s.E, s.E.sym("text"), [("opq", "message")])])
        except Thrown as e: return None, "ends in an exception (%s)" % e.ty
        return s.E.events, None
