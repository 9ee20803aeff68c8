"""Y01: for every pair of strong types (angle units and precisions, handles and indices of two object classes, times) the compiler rejects each implicit conversion, assignment, arithmetic and comparison between the two and each implicit conversion from or to a bare number, and accepts the explicit conversions and the same operation on one type."""
TECHNIQUE = "compile-fail witnesses judged by the compiler's type checker, each paired with an accepted twin that differs only in the forbidden step"
NOTE = "Witnesses are generated as the product of the strong types with the contexts initialisation, assignment, argument passing, return, + - and comparisons. Not claimed: operator bool is explicit but contextual conversion is allowed; handle_span iterators convert from numbers by design."
from sa import witness
from sa.report import Check

PRE = r'''
#include "xo/geometry/angle.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/utility/handle.h"
#include "xo/utility/index.h"
#include "xo/time/time.h"
using namespace xo;
struct apple {}; struct pear {};
template< typename T > T& val();
template< typename T > void sink( T );
template< typename T > void csink( const T& );
'''
TYPES = {  # type -> (family, explicit constructor argument)
    "radianf": "angle", "degreef": "angle", "radiand": "angle", "degreed": "angle",
    "handle<apple>": "handle", "handle<pear>": "handle", "index_class<apple>": "index", "index_class<pear>": "index", "xo::time": "time",
}
NUM = ["int", "unsigned", "float", "double", "long long", "bool"]
ARITH = {"angle": ["+", "-"], "time": ["+", "-"], "handle": [], "index": []}
CMP = {"angle": ["<", "<=", ">", ">=", "==", "!="], "time": ["<", "<=", ">", ">=", "==", "!="], "handle": ["<", "==", "!="], "index": ["<", "<=", ">", ">=", "==", "!="]}
COMP = {"angle": ["+=", "-="], "time": ["+=", "-="], "handle": [], "index": []}

def programs(t, o, what):
    """all ways of using an `o` where a `t` is expected; the twin uses a `t`"""
    fam = TYPES[t]
    yield "%s initialised from %s" % (t, what), "%s a = val<%s>();" % (t, o), "%s a = val<%s>();" % (t, t)
    yield "%s assigned from %s" % (t, what), "val<%s>() = val<%s>();" % (t, o), "val<%s>() = val<%s>();" % (t, t)
    yield "%s parameter given %s" % (t, what), "sink<%s>( val<%s>() );" % (t, o), "sink<%s>( val<%s>() );" % (t, t)
    yield "const %s& parameter given %s" % (t, what), "csink<%s>( val<%s>() );" % (t, o), "csink<%s>( val<%s>() );" % (t, t)
    yield "%s returned as %s" % (what, t), "auto f = []() -> %s { return val<%s>(); };" % (t, o), "auto f = []() -> %s { return val<%s>(); };" % (t, t)
    for op in ARITH[fam] + CMP[fam]:
        if op in ("+", "-") and fam == "index": continue
        yield "%s %s %s" % (t, op, what), "(void)( val<%s>() %s val<%s>() );" % (t, op, o), "(void)( val<%s>() %s val<%s>() );" % (t, op, t)
    for op in COMP[fam]:
        yield "%s %s %s" % (t, op, what), "val<%s>() %s val<%s>();" % (t, op, o), "val<%s>() %s val<%s>();" % (t, op, t)

def run():
    c = Check("Y01", "For each pair of strong types, and each strong type and number, every implicit mix is rejected by the compiler and its same-type twin accepted; explicit conversions are accepted")
    pairs = []
    for t in TYPES:
        for o in TYPES:
            if o == t: continue
            for k, f, a in programs(t, o, o): pairs.append((k, f, a, "two different kinds of quantity are mixed without a conversion in the source"))
        for n in NUM:
            for k, f, a in programs(t, n, n): pairs.append((k, f, a, "a bare number silently becomes a typed quantity"))
            pairs.append(("%s passed as %s" % (t, n), "sink<%s>( val<%s>() );" % (n, t), "sink<%s>( val<%s>() );" % (n, n), "a typed quantity silently becomes a bare number"))
            pairs.append(("%s %s %s" % (n, CMP[TYPES[t]][0], t), "(void)( val<%s>() %s val<%s>() );" % (n, CMP[TYPES[t]][0], t), None, "a bare number is compared with a typed quantity"))
    # quantities inside vectors do not mix either
    for a, b in (("vec3radf", "vec3degf"), ("vec3degf", "vec3radf"), ("vec3f", "vec3radf"), ("vec3radf", "vec3f")):
        pairs.append(("%s parameter given %s" % (a, b), "csink<%s>( val<%s>() );" % (a, b), "csink<%s>( val<%s>() );" % (a, a), "vectors of different quantities are mixed"))
        pairs.append(("%s assigned from %s" % (a, b), "val<%s>() = val<%s>();" % (a, b), "val<%s>() = val<%s>();" % (a, a), "vectors of different quantities are mixed"))
    for fn in ("quat_from_axis_angle( val<vec3f>(), val<%s>() )", "vec3_from_polar( 1.0f, val<%s>(), val<%s>() )", "quat_from_x_angle( val<%s>() )", "quat_from_y_angle( val<%s>() )", "quat_from_z_angle( val<%s>() )", "xo::sin( val<%s>() )"):
        name = fn.split("(")[0].strip()
        if name == "xo::sin":
            pass
        bad, good = fn.replace("%s", "float"), fn.replace("%s", "degreef")
        if name == "xo::sin": pairs.append(("%s accepts any angle" % name, None, "(void)%s;" % good, "")); continue
        pairs.append(("%s refuses a bare number as angle" % name, "(void)%s;" % bad, "(void)%s;" % good, "a bare number is accepted as an angle"))
        pairs.append(("%s accepts radians" % name, None, "(void)%s;" % fn.replace("%s", "radianf"), ""))
    # explicit conversions that are documented to exist
    for t in ("radianf", "degreef", "radiand", "degreed"):
        for o in ("radianf", "degreef", "radiand", "degreed", "float", "double", "int"):
            pairs.append(("%s converted explicitly from %s" % (t, o), None, "(void)%s( val<%s>() );" % (t, o), ""))
    for t, o in (("handle<apple>", "handle<pear>"), ("index_class<apple>", "index_class<pear>")):
        pairs.append(("%s converted explicitly from %s" % (t, o), None, "(void)%s( val<%s>() );" % (t, o), ""))
    for t in ("handle<apple>", "index_class<apple>"):
        pairs.append(("%s made explicitly from a number" % t, None, "(void)%s( val<uint32>() );" % t, ""))
        pairs.append(("%s tested with if" % t, None, "if ( val<%s>() ) {}" % t, ""))
        pairs.append(("%s has a default value" % t, None, "%s a;" % t, ""))
    pairs.append(("time made explicitly from nanoseconds", None, "(void)xo::time( 5LL );", ""))
    pairs.append(("time made from seconds by name", None, "(void)time_from_seconds( 5.0 );", ""))
    pairs.append(("time hides its representation", "val<xo::time>().internal_ = 1;", "val<xo::time>().reset();", "the stored number can be changed without saying which unit is meant"))
    nf, na = witness.check(c, PRE, pairs)
    c.cover(rejected_programs=nf, accepted_twins=na, strong_types=len(TYPES))
    c.floor("programs that must be rejected", nf, 700)
    c.finish()
