"""Extraction: the copy of sub-regions and the joining of parts (contracts shared with P10), the longitudes of the bounding box; the
composition (positions to chunks, coordinates to positions, the resulting model) is checked on bounded runs."""
from vf.spec import *
from contracts import P10

TU = "shim:extract.cc"
c = Contract("wrap180", TU, "longitude in -180..180", ret="double", rel=1e-9)
c.flt("in_", "double")
c.ghost("n", lambda v: -3000, lambda v: 3000)
c.requires(lambda v: [Not(isnan(v.in_)), v.in_ >= -1000000, v.in_ <= 1000000])
same = lambda v: v.in_ + 360 * v.n
c.multi_inv("shifted up", -1, lambda v, ks, x: x == v.in_ + 360 * ks[-1])
c.multi_inv("not too far up", -1, lambda v, ks, x: Implies(ks[-1] > 0, x < 180))
c.multi_inv("not too far down", -1, lambda v, ks, x: x >= -180)
c.multi_inv("not past it", -1, lambda v, ks, x: Implies(ks[-1] > 0, x > -180))
c.multi_inv("shifted down", -1, lambda v, ks, x: Implies(v.in_ >= -180, x == v.in_ - 360 * ks[-1]))
c.multi_inv("no shift back", -1, lambda v, ks, x: Implies(v.in_ < -180, And(x >= -180, x < 180, Implies(And(same(v) > -180, same(v) < 180), x == same(v)))))
c.ensures("result is in -180..180", lambda v: And(v.ret >= -180, v.ret <= 180))
c.ensures("result is the same meridian", lambda v: Implies(And(same(v) > -180, same(v) < 180), feq(v.ret, same(v))))
c.ensures("longitudes in range are kept", lambda v: Implies(And(v.in_ >= -180, v.in_ <= 180), feq(v.ret, v.in_)))


def gen(rng):
    x = rng.choice([rng.uniform(-200, 400), rng.randint(-20, 20) * 90, rng.uniform(-1e4, 1e4), 180, -180, 180.5, -180.5])
    return dict(in_=x)


c.gen = gen

CONTRACTS = [c] + list(P10.CONTRACTS)
NATIVE = dict(P10.NATIVE)
BOUNDED = [Program("extractor", "grids of 5 kinds up to 7x7, 5 levels, 5 times, 6 variables, up to 4 reductions each (positions, ranges, times, levels, bounding boxes), reads as a whole, by step and in parts, 3000 random cases", "extract.cc", 3000)]
