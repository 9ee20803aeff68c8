"""Turns /repo's current working tree into facts: LLVM IR (whole program, linked) and type-checked
syntax trees.  Everything is recomputed from the sources; results are cached under a key that hashes
every source file of the tree, the analysis units in /verif/tu and the extractors themselves."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XO_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CLANG = "/usr/lib/llvm-18/bin/clang++"
BASE = ["-std=gnu++17", "-I" + REPO, "-w", "-pthread"]
IRFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fPIC", "-flto", "-fwhole-program-vtables", "-fvisibility=hidden", "-emit-llvm", "-c"]


class AnalysisError(Exception):
    """The analysis itself could not be carried out (exit 2): never a verdict."""


def repo_units():
    """The translation units of the library, as CMake globs them (xo/<lib>/*.cpp)."""
    return sorted(glob.glob(os.path.join(REPO, "xo", "*", "*.cpp")))


def tu_units(names):
    r = []
    for n in names:
        p = os.path.join(VERIF, "tu", n + ".cpp")
        if not os.path.exists(p):
            raise AnalysisError("no analysis unit " + p)
        r.append(p)
    return r


_hash = None
def tree_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        fs = []
        for root in ("xo", "contrib"):
            for d, dirs, files in os.walk(os.path.join(REPO, root)):
                dirs[:] = sorted(x for x in dirs if x != "deprecated")
                fs += [os.path.join(d, f) for f in sorted(files) if f.endswith((".h", ".hpp", ".cpp", ".inl"))]
        fs += sorted(glob.glob(os.path.join(VERIF, "tu", "*"))) + sorted(glob.glob(os.path.join(VERIF, "tools", "*.cpp")))
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
        h.update(REPO.encode())
        _hash = h.hexdigest()[:20]
    return _hash


def cachedir():
    d = os.path.join(VERIF, ".build", "cache", tree_hash())
    if not os.path.isdir(d):
        base = os.path.join(VERIF, ".build", "cache")
        os.makedirs(base, exist_ok=True)
        old = sorted((os.path.getmtime(os.path.join(base, x)), x) for x in os.listdir(base))
        for _, x in old[:-6]:
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d


def tool(name):
    p = os.path.join(BUILD, name)
    if not os.path.exists(p):
        r = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], capture_output=True, text=True)
        if r.returncode or not os.path.exists(p):
            raise AnalysisError("cannot build " + name + ": " + r.stderr[-2000:])
    return p


def _run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise AnalysisError("%s failed:\n%s" % (what, (r.stdout + r.stderr)[-3000:]))
    return r


def _bc(src, extra):
    out = os.path.join(cachedir(), hashlib.sha256((src + "|" + " ".join(extra)).encode()).hexdigest()[:16] + ".bc")
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        _run([CLANG] + BASE + IRFLAGS + list(extra) + [src, "-o", tmp], "compiling " + src)
        os.replace(tmp, out)
    return out


def bitcode(units, extra=()):
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return list(ex.map(lambda s: _bc(s, tuple(extra)), units))


def ir(units=None, tus=(), inline=(), keep=(), passes="function(sroa)", only=None, extra=(), inline_names=()):
    """JSON of the linked program.  units: None = every unit of the library."""
    units = (repo_units() if units is None else [os.path.join(REPO, u) for u in units]) + tu_units(tus)
    for u in units:
        if not os.path.exists(u):
            raise AnalysisError("source file vanished: " + u)
    key = hashlib.sha256(repr((units, list(inline), list(keep), passes, only, list(extra), sorted(inline_names))).encode()).hexdigest()[:16]
    out = os.path.join(cachedir(), key + ".pickle")
    if os.path.exists(out):
        try:
            with open(out, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    bcs = bitcode(units, extra)
    js = os.path.join(cachedir(), key + ".%d.json" % os.getpid())
    cmd = [tool("irdump"), "-o", js, "--passes", passes]
    for r in inline: cmd += ["--inline", r]
    for r in keep: cmd += ["--keep", r]
    if only: cmd += ["--only", only]
    lf = None
    if inline_names:
        lf = os.path.join(cachedir(), key + ".%d.names" % os.getpid())
        with open(lf, "w") as g: g.write("\n".join(sorted(inline_names)) + "\n")
        cmd += ["--inline-list", lf]
    _run(cmd + bcs, "irdump")
    if lf: os.unlink(lf)
    with open(js) as f:
        d = json.load(f)
    os.unlink(js)
    d["units"] = units
    tmp = out + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(d, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(tmp, out)
    return d


_resdir = None
def ast(units=None, tus=()):
    """List of per-unit syntax-tree facts."""
    global _resdir
    units = (repo_units() if units is None else [os.path.join(REPO, u) for u in units]) + tu_units(tus)
    key = hashlib.sha256(repr(("ast", units)).encode()).hexdigest()[:16]
    out = os.path.join(cachedir(), key + ".pickle")
    if os.path.exists(out):
        try:
            with open(out, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    if _resdir is None:
        _resdir = subprocess.run([CLANG, "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    t = tool("astdump")
    def one(u):
        js = os.path.join(cachedir(), hashlib.sha256(u.encode()).hexdigest()[:16] + ".%d.ast.json" % os.getpid())
        _run([t, "-o", js, "-root", REPO + "/xo/", "-root", os.path.join(VERIF, "tu") + "/", u, "--"] + BASE + ["-resource-dir=" + _resdir], "parsing " + u)
        with open(js) as f:
            d = json.load(f)
        os.unlink(js)
        d["unit"] = u
        return d
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        r = list(ex.map(one, units))
    tmp = out + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(r, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(tmp, out)
    return r


def compiles(code, extra=()):
    """Does this program pass the compiler's front end?  Returns (ok, diagnostics)."""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "probe.cpp")
        with open(p, "w") as f:
            f.write(code)
        r = subprocess.run([CLANG] + BASE + ["-fsyntax-only"] + list(extra) + [p], capture_output=True, text=True)
        return r.returncode == 0, r.stderr


def rel(path):
    path = os.path.normpath(path)
    return os.path.relpath(path, REPO) if path.startswith(REPO + "/") else path
