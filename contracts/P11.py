"""Conversion between data types, fill values, scale factors and offsets."""
from vf.spec import *
from vf.spec import RANGE

TU = "shim:convert.cc"
NATIVE = {TU: {"link": True}}
FL = ("float", "double")


def tor(x):
    return x if isinstance(x, FV) or isinstance(x, (float, np.floating)) else toreal(x)


def nearest(out, x, mag):
    """out is an integer nearest to x (concrete: up to the rounding of the computation of x)"""
    tol = 0 if is_sym(out) or is_sym(x) else 1e-9 * (1 + abs(mag)) * 4
    return And(tor(out) - x <= 0.5 + tol, x - tor(out) <= 0.5 + tol)


def inrange(ct, x):
    lo, hi = RANGE[ct]
    if ct == "long":
        lo, hi = -2 ** 62, 2 ** 62
    return And(x > lo - 0.25, x < hi + 0.25)


def mk(fi, fo, suf):
    c = Contract("convert_" + suf, TU, "%s to %s with fill value, scale and offset" % (fi, fo), rel=2e-6 if "float" in (fi, fo) else 1e-9)
    c.arr("in_", fi, lambda v: v.n)
    c.size("n", hi=1 << 40)
    c.flt("oldFill").flt("oldScale", nonan=True).flt("oldOffset", nonan=True)
    if fo in FL:
        c.flt("newFill")
    else:
        lo, hi = RANGE[fo]
        c.int("newFill", "long", lo=max(lo, -2 ** 52), hi=min(hi, 2 ** 52))
    c.flt("newScale", nonan=True).flt("newOffset", nonan=True)
    c.arr("out", fo, lambda v: v.n, out=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    c.requires(lambda v: [v.newScale != 0])
    integral = lambda x: x == toreal(lround(x))
    if fi not in FL:
        c.requires(lambda v: Or(isnan(v.oldFill), And(integral(v.oldFill), inrange(fi, v.oldFill))))
    x = lambda v: tor(v.in_[v.j])
    undef = lambda v: Or(isnan(x(v)) if fi in FL else False, x(v) == v.oldFill)
    scaled = lambda v: v.oldScale / v.newScale * x(v) + (v.oldOffset - v.newOffset) / v.newScale
    def spec(v, o):
        mag = lambda: abs(v.oldScale / v.newScale * x(v)) + abs(v.oldOffset / v.newScale) + abs(v.newOffset / v.newScale)
        if fo in FL:
            sc = None if is_sym(o) else [mag()]
            return And(Implies(undef(v), Or(isnan(o), o == v.newFill, feq(o, v.newFill))), Implies(Not(undef(v)), feq(o, scaled(v), scale=sc)))
        m = 0 if is_sym(o) or is_sym(x(v)) else mag()
        return And(Implies(undef(v), o == v.newFill), Implies(And(Not(undef(v)), inrange(fo, scaled(v))), nearest(o, scaled(v), m)))
    c.ensures("undefined becomes the new fill value, everything else is rescaled", lambda v: spec(v, v.out_[v.j]))
    c.array_inv("converted so far", "heap:" + fo, lambda v, ks, A, i: Implies(v.j < ks[-1], spec(v, A[v.j])))

    def gen(rng):
        n = rng.randint(0, 6)
        num = lambda: rng.choice([0, 1, -1, 2.5, 10, -3, 100, 0.5])
        eq = rng.random() < 0.3
        ofill = rng.choice([float("nan"), 3, 100, 0, 5, 250, 7])
        nfill = ofill if eq else rng.choice([3, 100, 0, 5, 250, 7] + ([float("nan")] if fo in FL else []))
        if fo not in FL and nfill != nfill:
            nfill = 3
        osc = rng.choice([1, 0.5, 2, 0.01, -1]); nsc = osc if eq else rng.choice([1, 0.5, 2, 0.25, -1, 0.01])
        oof = num(); nof = oof if eq else num()
        vals = [0, 1, 5, 7, 100, 3, 250] + ([float("nan"), 1.5, -2.25, 1e5, 3e9, 6e9, -7.3] if fi in FL else []) + ([] if fi == "uchar" else [-4, -30000, 32000])
        if ofill == ofill:
            vals.append(ofill)
        return dict(n=n, oldFill=ofill, oldScale=osc, oldOffset=oof, newFill=nfill, newScale=nsc, newOffset=nof, in_=[rng.choice(vals) for _ in range(n)], out=[1] * n)
    c.gen = gen
    return c


def mkcast(fi, fo, suf):
    c = Contract("cast_" + suf, TU, "%s to %s" % (fi, fo), rel=2e-6 if "float" in (fi, fo) else 1e-9)
    c.arr("in_", fi, lambda v: v.n)
    c.size("n", hi=1 << 40)
    c.arr("out", fo, lambda v: v.n, out=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    def spec(v, o):
        x = v.in_[v.j]
        if fo in FL:
            return feq(o, tor(x))
        if fi in FL:
            return Implies(And(Not(isnan(x)), inrange(fo, x)), nearest(o, x, 0))
        return Implies(inrange(fo, tor(x)), o == x)
    c.ensures("element j is the same number, rounded to the nearest for whole-number types", lambda v: spec(v, v.out_[v.j]))
    c.array_inv("converted so far", "heap:" + fo, lambda v, ks, A, i: Implies(v.j < ks[-1], spec(v, A[v.j])))

    def gen(rng):
        n = rng.randint(0, 6)
        vals = [0, 1, 5, 7, 100, 3, 250] + ([float("nan"), 1.5, -2.25, 1e5, 3e9, 6e9, -7.3] if fi in FL else []) + ([] if fi == "uchar" else [-4, -30000, 32000])
        return dict(n=n, in_=[rng.choice(vals) for _ in range(n)], out=[1] * n)
    c.gen = gen
    return c


CONTRACTS = [mk("float", "short", "fs"), mk("double", "int", "di"), mk("double", "long", "dl"), mk("short", "float", "sf"), mk("short", "double", "sd"),
             mk("uchar", "float", "Bf"), mk("float", "double", "fd"), mk("double", "float", "df"), mk("int", "ushort", "iS"), mk("float", "uint", "fI"),
             mkcast("float", "short", "fs"), mkcast("double", "int", "di"), mkcast("double", "long", "dl"), mkcast("int", "double", "id"),
             mkcast("short", "uchar", "sB"), mkcast("float", "double", "fd")]
BOUNDED = [Program("convert", "all 100 pairs of numeric types, arrays up to 5 values, 20000 random conversions, with and without unit converter", "convert.cc", 20000)]
