"""L03: for every history of up to four operations on a factory (register, unregister, scoped registration and its end) with names in every order: registering a known name, creating or unregistering an unknown name is an error that changes nothing; creation makes the registered type and passes its arguments; the non-throwing creation yields null exactly for unknown names; the end of a scoped registration removes its name and nothing else; a scoped registration cannot be copied."""
TECHNIQUE = "abstract interpretation of factory, its sorted map and std::function over enumerated histories, compared with a table of names; type-level check that scoped registrations cannot be copied"
NOTE = "Three names that are each other's neighbours in every order; the code only compares names."
import itertools
from sa import ir, absint, strdom, par, facts
from sa.absint import P, Thrown, Diverges, Unmodelled
from sa.facts import AnalysisError
from sa.report import Check
NAMES = ("b", "a", "c")

def made(E, f, n, a): E.made.append((a[0], a[1]))
MODELS = dict(strdom.MODELS)
MODELS.update({"made": made, "std::runtime_error::runtime_error": strdom.nop, "std::runtime_error::~runtime_error": strdom.nop})

def histories():
    acts = [("reg1", n) for n in NAMES] + [("reg2", n) for n in NAMES[:2]] + [("unreg", n) for n in NAMES[:2]] + [("scope", n) for n in NAMES[:2]]
    for k in range(0, 4):
        for h in itertools.product(acts, repeat=k): yield list(h)
    for n in NAMES:
        for m in NAMES:
            yield [("scope", n), ("end", n)]
            if m != n:
                yield [("scope", n), ("reg1", m), ("end", n)]; yield [("reg1", m), ("scope", n), ("end", n)]; yield [("scope", n), ("scope", m), ("end", n)]; yield [("scope", n), ("scope", m), ("end", m), ("end", n)]
                yield [("scope", n), ("end", n), ("reg2", n)]
    for x in itertools.permutations(NAMES): yield [("reg1", x[0]), ("reg2", x[1]), ("reg1", x[2]), ("unreg", x[1])]

def run():
    c = Check("L03", "A factory creates exactly the registered types; every other registration, creation or removal is an error that changes nothing")
    p = ir.prog(tus=("factory",), helpers=True)
    def text(E, s): return strdom.put(E, E.sym("name"), list(s.encode()))
    def body(E, h):
        E.made = []; f = E.sym("factory"); E.call("fac_new", [f]); know = {}; regs = {}
        for k, (o, n) in enumerate(h):
            try:
                if o in ("reg1", "reg2"): E.call("fac_register_" + o[3], [f, text(E, n)])
                elif o == "unreg": E.call("fac_unregister", [f, text(E, n)])
                elif o == "scope": r = P(E.obj("scope%d" % k)); E.call("reg_new" if k % 2 else "reg_make", [r, f, text(E, n)]); 
                else: E.call("reg_delete", [regs.pop(n)])
                err = False
            except Thrown: err = True
            want = n in know if o in ("reg1", "reg2", "scope") else n not in know
            if err != want: return "%s of %s name %s" % ({"reg1": "registration", "reg2": "registration", "scope": "scoped registration", "unreg": "removal", "end": "the end of the scoped registration"}[o], "a known" if n in know else "an unknown", "is reported as an error" if err else "is not reported as an error")
            if not err:
                if o in ("reg1", "reg2", "scope"): know[n] = {"reg1": 1, "reg2": 2, "scope": 3}[o]
                else: know.pop(n)
                if o == "scope": regs[n] = r
            if o == "unreg" and not err: regs.pop(n, None)
        for n in NAMES + ("", "aa"):
            E.made = []
            if (E.call("fac_has", [f, text(E, n)]) & 1) != (n in know): return "has_type( '%s' ) is wrong" % n
            for e in ("fac_try", "fac_create"):
                E.made = []
                try: r = E.call(e, [f, text(E, n), ("s", "argument", 0)]) & 1; err = False
                except Thrown: r, err = 0, True
                what = "try_create" if e == "fac_try" else "create"
                if n in know:
                    if err or not r: return "%s of a registered name fails" % what
                    if len(E.made) != 1 or E.made[0][0] != know[n]: return "%s makes something else than the type that was registered" % what
                    if E.made[0][1] != ("s", "argument", 0): return "%s does not pass its argument on" % what
                else:
                    if r or E.made: return "%s of an unknown name makes an object" % what
                    if e == "fac_create" and not err: return "create of an unknown name is not an error"
                    if e == "fac_try" and err: return "try_create of an unknown name is an error instead of null"
        if E.call("fac_size", [f]) != len(know): return "the factory lists %s types instead of %d" % (E.call("fac_size", [f]), len(know))
        if (E.call("fac_empty", [f]) & 1) != (not know): return "empty() is wrong"
    def decide(h):
        bad, n = None, 0
        try:
            for r, E in absint.explore(p, lambda E: guard(lambda E: body(E, h), E), MODELS, engine=strdom.StrEngine, maxsteps=2000000):
                n += 1
                if r and not bad: bad = r
        except Unmodelled as e: bad = "not decided: %s" % e
        return bad, n
    word = {"reg1": "register", "reg2": "register other type as", "unreg": "unregister", "scope": "scoped registration of", "end": "end of scoped registration of"}
    hs = [list(x) for x in dict.fromkeys(tuple(h) for h in histories())]
    loc = next((f.loc() for f in p.funcs.values() if f.q.startswith("xo::factory::register_type")), "xo/utility/factory.h")
    n = 0
    for h, (bad, k) in zip(hs, par.run([(decide, (h,)) for h in hs])):
        n += k
        key = "after: " + (", ".join("%s %s" % (word[o], m) for o, m in h) or "nothing")
        if bad: c.bad(key, "%s: %s" % (loc, bad))
        else: c.ok(key)
    # a copy of a scoped registration would remove the name twice
    src = '#include "xo/utility/factory.h"\n#include <type_traits>\nstruct b { virtual ~b() {} }; struct d : b {};\nusing r = xo::factory_registrant< xo::factory<b>, d >;\n'
    if not facts.compiles(src + "static_assert( sizeof( r ) > 0 );\n")[0]: raise AnalysisError("factory_registrant does not compile")
    for what, trait in (("copied", "std::is_copy_constructible_v<r>"), ("assigned", "std::is_copy_assignable_v<r>")):
        key = "a scoped registration cannot be " + what
        if facts.compiles(src + "static_assert( !%s );\n" % trait)[0]: c.ok(key)
        else: c.bad(key, "xo/utility/factory.h: a scoped registration can be %s, so that its name is removed twice" % what)
    c.cover(histories=len(hs), cases=n)
    c.floor("histories", len(hs), 500)
    c.finish()

def guard(body, E):
    try: return body(E)
    except Thrown as e: return "ends in an exception (%s)" % e.ty
    except Diverges as e: return "does not end (%s)" % e
    except (strdom.OutOfText, strdom.Stale) as e: return "accesses " + str(e)
