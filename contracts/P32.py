"""Units: linear conversions (contracts); names, non-linear conversions and readers (bounded runs)."""
from vf.spec import *

TU = "shim:units.cc"
CONTRACTS = []
M = 1e6


def affine(name):
    """assumed contract of udunits: a converter made from scale and offset is that function"""
    def f(ex, st, args, ins):
        v = ex.make_view(st)
        return v.scale * args[1] + v.offset
    return f


def mk(name, what, x=None, out=False, ud=False, ret="double"):
    c = Contract(name, TU, what, ret=ret, rel=1e-6 if x == "float" else 1e-9, abstol=1e-6)
    c.flt("scale", nonan=True).flt("offset", nonan=True)
    if x:
        c.flt("x", x)
    if out:
        c.arr("out", "double", lambda v: 2, out=True)
    c.requires(lambda v: And(v.scale != 0, v.scale < M, v.scale > -M, v.offset < M, v.offset > -M))
    c.gen = lambda rng: dict(scale=rng.choice([1.0, 0.01, 1.8, -0.5, 3.6, 1e-3]), offset=rng.choice([0.0, -273.15, 32.0, 1e-3, 1000.0]), **(dict(x=float(rng.randint(-1000, 1000)) / 4) if x else {}), **(dict(out=[0.0, 0.0]) if out else {}))
    if ud:
        c.callees["cv_get_galilean"] = null
        c.callees["cv_free"] = lambda ex, st, args, ins: None
        c.callees["cv_convert_double"] = c.callees["cv_convert_float"] = affine(c)
    CONTRACTS.append(c)
    return c


def null(ex, st, args, ins):
    from vf.sexec import Ptr
    return Ptr(None, 0)


for ud in (False, True):
    p, w = ("ud", "conversion by udunits") if ud else ("linear", "conversion by scale and offset")
    for t in ("double", "float"):
        c = mk(p + "_convert" + ("_f" if t == "float" else ""), w + ", " + t, x=t, ud=ud, ret=t)
        c.ensures("scale*x + offset", lambda v: feq(v.ret, v.scale * v.x + v.offset))
    c = mk(p + "_scale_offset", "scale and offset of a " + w, out=True, ud=ud, ret="int")
    c.ensures("linear", lambda v: v.ret == 1)
    c.ensures("scale", lambda v: feq(v.out_[0], v.scale))
    c.ensures("offset", lambda v: feq(v.out_[1], v.offset))
c = mk("ud_linear", "a linear function is known as linear", ud=True, ret="int")
c.ensures("linear", lambda v: v.ret == 1)

TS = "shim:scaled.cc"
CDM_ = "_ZNK10MetNoFimex3CDM%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"


def mkscaled(T, suf):
    c = Contract("scaled_" + suf, TS, "unpacked values of %s in another unit" % T, native=None)
    c.arr("inp", T, lambda v: v.n).size("n", 0, 1 << 20).flt("fill").flt("scale", nonan=True).flt("offset", nonan=True).flt("us", nonan=True).flt("uo", nonan=True).arr("out", "double", lambda v: v.n, out=True)
    c.ghost("i", lambda v: 0, lambda v: v.n)
    if T == "short":
        c.requires(lambda v: Or(isnan(v.fill), And(v.fill == toreal(lround(v.fill)), v.fill >= -32768, v.fill <= 32767)))
    val = lambda v: v.inp[v.i] if T in ("float", "double") else toreal(v.inp[v.i])
    und = lambda v: Or(isnan(val(v)), val(v) == v.fill) if T in ("float", "double") else val(v) == v.fill
    good = lambda v, x: Ite(und(v), isnan(x), feq(x, (val(v) * v.scale + v.offset) * v.us + v.uo))
    for nm, f in (("14getScaleFactor", "scale"), ("12getAddOffset", "offset"), ("12getFillValue", "fill")):
        c.callees[CDM_ % nm] = (lambda f: lambda ex, st, args, ins: getattr(ex.make_view(st), f))(f)
    c.array_inv("converted so far", "heap:double", lambda v, ks, A, i: Implies(v.i < ks[-1], good(v, A[v.i])))
    c.inv("copied so far", lambda v, ks: Implies(v.i < ks[-1], good(v, v.out_[v.i])))
    c.ensures("the value of the same cell, undefined stays undefined", lambda v: Implies(v.i < v.n, good(v, v.out_[v.i])))
    CONTRACTS.append(c)


for T, suf in (("short", "s"), ("float", "f"), ("double", "d")):
    mkscaled(T, suf)

NATIVE = {TU: {"link": True, "libs": ["-ludunits2"]}}
TRUSTED = ["udunits: parsing of units, factors between them; a linear converter is scale*x + offset", "attributes of a variable (P23)", "layout of CDMReader's first member"]
BOUNDED = [Program("units", "64 units of 10 kinds and 5 logarithmic ones, texts that are no units, single values in double and float precision, packed data of 6 types up to 3x3 with and without fill value, whole, by step and by part, 20000 random cases", "units.cc", 20000)]
