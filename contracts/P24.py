"""Merging of two grids: the smoothed border (contract); variables, units, packing and target grids (bounded runs)."""
from vf.spec import *

TU = "shim:smoothing.cc"


def fle(a, b):
    return Or(a <= b, feq(a, b))


def edge(i, n, v):
    """distance into the transition from the core, 0 in the core"""
    a = v.bo + v.tr
    return Ite(i < a, a - i, Ite(i >= n - a, i - (n - a), 0))


def border(v):
    return Or(v.x < v.bo, v.y < v.bo, v.x >= v.nx - v.bo, v.y >= v.ny - v.bo)


c = Contract("smooth_linear", TU, "weight of the outer value over the border and the transition of the inner grid", ret="double", rel=1e-9)
c.opts["abstol"] = 1e-9
c.size("tr", 1, 1 << 20).size("bo", 0, 1 << 20).size("nx", 1, 1 << 24).size("ny", 1, 1 << 24).size("x", 0, 1 << 24).size("y", 0, 1 << 24)
c.flt("inner", "double", nonan=True).flt("outer", "double", nonan=True)
c.requires(lambda v: And(v.x < v.nx, v.y < v.ny))
c.ensures("outer value on the border", lambda v: Implies(border(v), feq(v.ret, v.outer)))
roomy = lambda v: And(v.nx >= 2 * (v.bo + v.tr), v.ny >= 2 * (v.bo + v.tr))
c.ensures("inner value in the core", lambda v: Implies(And(roomy(v), Not(border(v)), edge(v.x, v.nx, v) == 0, edge(v.y, v.ny, v) == 0), feq(v.ret, v.inner)))
c.ensures("between the two values", lambda v: Or(And(fle(v.inner, v.ret), fle(v.ret, v.outer)), And(fle(v.outer, v.ret), fle(v.ret, v.inner))))
c.ensures("linear across the sides", lambda v: Implies(And(roomy(v), Not(border(v)), edge(v.y, v.ny, v) == 0), feq(v.ret, v.inner + toreal(edge(v.x, v.nx, v)) / toreal(v.tr) * (v.outer - v.inner))))
c.ensures("linear across top and bottom", lambda v: Implies(And(roomy(v), Not(border(v)), edge(v.x, v.nx, v) == 0), feq(v.ret, v.inner + toreal(edge(v.y, v.ny, v)) / toreal(v.tr) * (v.outer - v.inner))))


def gen(rng):
    tr, bo = rng.randint(1, 4), rng.randint(0, 3)
    nx, ny = rng.randint(1, 16), rng.randint(1, 16)
    return dict(tr=tr, bo=bo, nx=nx, ny=ny, x=rng.randrange(nx), y=rng.randrange(ny), inner=rng.uniform(-5, 5), outer=rng.choice([0.0, rng.uniform(-5, 5)]))


c.gen = gen
CONTRACTS = [c]
BOUNDED = [Program("merge", "inner grids of 2 to 9 cells inside outer grids of 5 to 9 cells in 5 projections, up to 4 dimensions, 3 types, packed or not, in memory or not, with and without units, odd shapes and dimension orders, 600 random cases", "merge.cc", 600)]
TRUSTED = ["CDMInterpolator (its own property, P16) brings the outer data to the inner grid", "PROJ, udunits2"]
NATIVE = {TU: {"link": True}}


# positions of cells in several dimensions
TI = "shim:index.cc"
K = 1 << 15


def mkindex(name, what, dims, pos, spec):
    c = Contract(name, TI, what, ret="size_t")
    for d in dims:
        c.size(d, 0, K)
    for p in pos:
        c.size(p, 0, K)
    c.ensures("the first dimension is the fastest", spec)
    CONTRACTS.append(c)


mkindex("index_position", "position of a cell in 4 dimensions", ("nx", "ny", "nz", "nt"), "xyzt", lambda v: v.ret == v.x + v.y * v.nx + v.z * (v.nx * v.ny) + v.t * (v.nx * v.ny * v.nz))
mkindex("index_position3", "position of a cell in 3 dimensions", ("nx", "ny", "nz"), "xyz", lambda v: v.ret == v.x + v.y * v.nx + v.z * (v.nx * v.ny))
mkindex("index_position_list", "position of a cell given as a list", ("nx", "ny", "nz"), "xyz", lambda v: v.ret == v.x + v.y * v.nx + v.z * (v.nx * v.ny))
mkindex("index_position_more", "position of a cell given with more dimensions", ("nx", "ny"), "xyzt", lambda v: v.ret == v.x + v.y * v.nx)
NATIVE[TI] = {"link": True}
