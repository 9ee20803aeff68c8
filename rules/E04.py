"""E04: no function of the library's interface, apart from the documented writing operations, can reach an operation that creates, writes, moves or deletes files or folders; each writing operation reaches only the effects it is documented to have; loading settings writes only when the settings file does not exist."""
TECHNIQUE = "interprocedural effect analysis: file-system effects of external calls (with their constant open modes) propagated over the whole-library call graph, virtual calls resolved by class hierarchy"
NOTE = "Decides which operations may write at all and with which kind of effect; callbacks supplied by the user and the text written to an already open log file are not effects of the library; which path is written is not decided."
from sa import ir, flow
from sa.ir import const
from sa.report import Check
from sa.facts import AnalysisError

EFFECT = {  # external operation -> kind of effect
 "mkdir": "mkdir", "mkdirat": "mkdir", "remove": "delete", "unlink": "delete", "unlinkat": "delete", "rmdir": "delete", "rename": "move", "renameat": "move", "link": "write", "symlink": "write",
 "truncate": "write", "ftruncate": "write", "chmod": "write", "fchmod": "write", "utime": "write", "utimes": "write", "mkstemp": "write", "mkdtemp": "mkdir", "tmpfile": "write", "tmpnam": "write", "creat": "write",
 "system": "run", "popen": "run", "execv": "run", "execve": "run", "execvp": "run", "execl": "run", "execlp": "run", "fork": "run", "vfork": "run", "posix_spawn": "run",
}
FS = {"copy": "copy", "copy_file": "copy", "copy_symlink": "copy", "create_directory": "mkdir", "create_directories": "mkdir", "create_hard_link": "write", "create_symlink": "write", "create_directory_symlink": "write",
      "remove": "delete", "remove_all": "delete", "rename": "move", "resize_file": "write", "permissions": "write"}
# the operations that are documented to write, with the effects each may have
X = "xo::"
WRITERS = {X + "copy_file": "copy mkdir", X + "remove": "delete", X + "create_directories": "mkdir", X + "create_unique_directory": "mkdir", X + "save_string": "mkdir write", X + "append_string": "mkdir append",
 X + "prop_node_serializer::save_file": "mkdir write", X + "save_file": "mkdir write", X + "save_zml": "mkdir write", X + "save_xml": "mkdir write", X + "save_ini": "mkdir write",
 X + "settings::save": "mkdir write", X + "settings::load": "mkdir write", X + "settings::settings": "mkdir write",
 X + "log::file_sink::file_sink": "mkdir write append", X + "auto_storage_writer::~auto_storage_writer": "mkdir write", X + "file_storage::~file_storage": "mkdir write", X + "debug_storage": "mkdir write",
 X + "write_memory_dump": "mkdir write", X + "memory_dump": "mkdir write"}
APP, IN, OUT, TRUNC = 1, 8, 16, 32

def modes(f, o, seen=()):
    """the possible constant values of an operand (None: unknown)"""
    c = const(o)
    if c is not None: return {c}
    n = f.inst(o)
    if n is None or o in seen: return set() if o in seen else {None}
    if n.o == "select": return modes(f, n.a[1], seen + (o,)) | modes(f, n.a[2], seen + (o,))
    if n.o == "phi": return set().union(*(modes(f, a, seen + (o,)) for a in n.a))
    if n.o == "or":
        return {None if a is None or b is None else a | b for a in modes(f, n.a[0], seen) for b in modes(f, n.a[1], seen)}
    if n.iscall() and n.f and "operator|" in f.p.q(n.f) and len(n.a) == 2:
        return {None if a is None or b is None else a | b for a in modes(f, n.a[0], seen) for b in modes(f, n.a[1], seen)}
    return {None}

def effects(p, f, n, q):
    if q in EFFECT: return {EFFECT[q]}
    if q.startswith("std::filesystem::"):
        k = q.split("::")[-1]
        if k == "last_write_time" and n.t in (None, "void"): return {"write"}
        return {FS[k]} if k in FS else set()
    if q in ("fopen", "fopen64", "freopen"):
        m = p.cstr(n.a[1])
        return {"write"} if m is None or "w" in m or "+" in m else {"append"} if "a" in m else set()
    if q in ("open", "open64", "openat"):
        fl = modes(f, n.a[2 if q == "openat" else 1])
        return set() if all(x is not None and not x & 0o3103 for x in fl) else {"write"}
    parts = q.split("::")
    if parts[0] == "std" and len(parts) > 2 and parts[1] in ("basic_ofstream", "basic_ifstream", "basic_fstream", "basic_filebuf") and (parts[-1] == parts[1] or parts[-1] == "open"):
        if len(n.a) < 3: return set()                   # default, move
        ms = modes(f, n.a[-1] if isinstance(n.a[-1], (int, list)) else None)
        r = set()
        for m in ms:
            if m is None: r |= {"write", "append"} if parts[1] != "basic_ifstream" else {"write"}
            else:
                if parts[1] == "basic_ofstream": m |= OUT
                if m & APP: r.add("append")
                elif m & (OUT | TRUNC): r.add("write" if not (m & IN) or m & TRUNC else "write")
        return r
    return set()

def run():
    c = Check("E04", "Effects on the file system are reachable only from the documented writing operations, each with its documented kinds of effect (creating folders, overwriting, appending, copying, deleting)")
    p = ir.prog(tus=("system", "strings", "containers", "geometry", "flags"), passes="always-inline,function(sroa)", helpers=True, inline=(r"std::filesystem::operator[|&~^]",))
    known = ir.api() or set()
    funcs = list(p.repo_funcs())
    E, via, sites = {}, {}, 0
    for f in funcs:
        for n in f.calls():
            for t in p.callees(n) or ():
                if p.func(t) is not None: continue
                q = p.q(t) if t.startswith("_Z") else t
                for k in effects(p, f, n, q):
                    sites += 1
                    E.setdefault(f.name, set()).add(k); via.setdefault((f.name, k), (n, q))
    ch = True
    while ch:
        ch = False
        for f in funcs:
            for n in f.calls():
                for t in p.callees(n) or ():
                    t = p.alias.get(t, t)
                    new = E.get(t, set()) - E.get(f.name, set())
                    if new and t != f.name:
                        E.setdefault(f.name, set()).update(new); ch = True
                        for k in new: via[(f.name, k)] = (n, p.q(t))
    c.floor("writing calls", sites, 5)
    napi = 0
    for f in funcs:
        static = "__cxx_global" in f.name or f.name.startswith("_GLOBAL__")
        if not static and f.q not in known and f.q not in WRITERS: continue      # not part of the interface: judged at its callers
        napi += 1
        got = E.get(f.name, set())
        allowed = set(WRITERS.get(f.q, "").split())
        key = f.q if not static else "static initialisation of " + f.file.split("/")[-1]
        extra = got - allowed
        if extra:
            k = sorted(extra)[0]
            n, q = via[(f.name, k)]
            chain, g, seen = [], f, set()
            while g is not None and g.name not in seen:
                seen.add(g.name); n2, q2 = via[(g.name, k)]
                chain.append("%s (%s)" % (q2, n2.where()))
                nx = [p.alias.get(t, t) for t in p.callees(n2) or () if p.func(t) is not None and k in E.get(p.alias.get(t, t), ())]
                g = p.func(nx[0]) if nx else None
            c.bad(key, "may %s on disk: %s" % ({"mkdir": "create folders", "write": "overwrite files", "append": "append to files", "delete": "delete", "move": "move files", "copy": "copy files", "run": "run programs"}[k], " -> ".join(chain[:6])))
        elif got: c.ok(key, "documented writer: " + ", ".join(sorted(got)))
        else: c.ok(key)
    c.floor("interface functions", napi, 400)
    # loading settings only creates a file that is missing
    m = 0
    for f in funcs:
        if f.q != "xo::settings::load": continue
        for n in f.calls():
            if not any(E.get(p.alias.get(t, t)) for t in p.callees(n) or ()): continue
            m += 1
            fx = [x for x in flow.block_facts(f, n.b) if x[0] in ("eq", "ne", "false") and callname(p, f, x[1]) in ("xo::file_exists", "xo::exists")]
            ok = any(x[0] == "false" or (x[0] == "eq" and const(x[2]) == 0) or (x[0] == "ne" and const(x[2]) == 1) for x in fx)
            key = "settings::load writes"
            c.ok(key, n.where()) if ok else c.bad(key, "%s: an existing settings file may be overwritten while it is loaded" % n.where())
    # an existing file is only replaced by a copy when that was asked for
    for f in funcs:
        if f.q != "xo::copy_file": continue
        for n in f.calls():
            if not n.f or not p.q(n.f).startswith("std::filesystem::copy"): continue
            key = "copy_file replaces an existing file"
            opts = [a for a in n.a if (f.inst(a) is not None and f.inst(a).t in ("i16", "i32")) or const(a) is not None]
            vals = under(f, opts[0], n.b, False) if opts else set()
            c.bad(key, "%s: copies over an existing file although overwriting was not requested" % n.where()) if not vals or any(v is None or v & 6 for v in vals) else c.ok(key, n.where())
    c.cover(functions=len(funcs), interface=napi, writing_calls=sites)
    c.finish()

def callname(p, f, o):
    n = f.inst(o)
    d = 0
    while n is not None and n.o in ("zext", "trunc", "icmp", "xor", "freeze") and d < 5: n = f.inst(n.a[0]); d += 1
    return p.q(n.f) if n is not None and n.iscall() and n.f else ""

def flag(f, o):
    """does o carry the truth value of the only bool argument? True / False (negated) / None"""
    pol = True
    for _ in range(8):
        if f.isarg(o): return pol if f.args[o]["t"] == "i1" else None
        n = f.inst(o)
        if n is None: return None
        if n.o == "load":
            al = f.inst(n.a[0])
            st = [u for u in f.uses.get(al.i, []) if u.o == "store" and u.a[1] == al.i] if al is not None and al.o == "alloca" else []
            if len(st) != 1: return None
            o = st[0].a[0]; continue
        if n.o in ("zext", "trunc", "freeze", "and"): o = n.a[0]; continue
        if n.o == "xor": pol = not pol; o = n.a[0]; continue
        if n.o == "icmp" and const(n.a[1]) == 0 and n.g("p") in ("ne", "eq"):
            pol = pol if n.g("p") == "ne" else not pol; o = n.a[0]; continue
        return None
    return None

def under(f, o, b, v, seen=()):
    """values the operand can have when the only bool argument is v"""
    for x in flow.block_facts(f, b):
        if x[0] in ("true", "false"):
            k = flag(f, x[1])
            if k is not None and (k == v) != (x[0] == "true"): return {0}      # this code is not reached
    c = const(o)
    if c is not None: return {c}
    n = f.inst(o)
    if n is None or o in seen: return {None}
    if n.o == "select":
        k = flag(f, n.a[0])
        if k is not None: return under(f, n.a[1] if k == v else n.a[2], b, v, seen + (o,))
        return under(f, n.a[1], b, v, seen + (o,)) | under(f, n.a[2], b, v, seen + (o,))
    if n.o == "phi":
        r = set()
        for a, pb in zip(n.a, n.g("pb")):
            fx = list(flow.block_facts(f, pb)) + (flow.edge_facts(f, pb, n.b) if len(f.succs(pb)) > 1 else [])
            if any(x[0] in ("true", "false") and flag(f, x[1]) is not None and (flag(f, x[1]) == v) != (x[0] == "true") for x in fx): continue
            r |= under(f, a, pb, v, seen + (o,))
        return r
    if n.o == "or" or n.iscall() and n.f and "operator|" in f.p.q(n.f):
        return {None if x is None or y is None else x | y for x in under(f, n.a[0], b, v, seen + (o,)) for y in under(f, n.a[1], b, v, seen + (o,))}
    if n.o in ("zext", "trunc"): return under(f, n.a[0], b, v, seen + (o,))
    return {None}
