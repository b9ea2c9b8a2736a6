"""Distances between neighbouring grid cells on the sphere."""
from vf.spec import *

TU = "interpolation.c"
DEG = 0.017453292519943295
R = 6371000.0
sin_, cos_, acos_ = mkfun("sin"), mkfun("cos"), mkfun("acos")


def rad(x):
    return DEG * x


def gc(v, p, q):
    la0, lo0, la1, lo1 = (rad(v.lat[p]), rad(v.lon[p]), rad(v.lat[q]), rad(v.lon[q]))
    return R * acos_(sin_(la0) * sin_(la1) + cos_(la0) * cos_(la1) * cos_(lo1 - lo0))


def ll(rng, n):
    return [rng.randint(-180, 180) + rng.choice([0.0, 0.5]) for _ in range(n)], [float(rng.randint(-80, 80)) for _ in range(n)]


def base(variant, what):
    c = Contract("mifi_griddistance", TU, what, ret="int", variant=variant, rel=3e-5, abstol=1.0)
    c.size("nx", lo=1, hi=1 << 20).size("ny", lo=1, hi=1 << 20)
    n = lambda v: v.nx * v.ny
    c.arr("lon", "double", n, nonan=True).arr("lat", "double", n, nonan=True).arr("dx", "float", n, out=True).arr("dy", "float", n, out=True)
    return c


def mk2d():
    c = base("2d", "distance of cell (i,j) to its neighbours; the last row and column repeat the one before")
    c.requires(lambda v: And(v.nx >= 2, v.ny >= 2))
    c.ghost("gi", lambda v: 0, lambda v: v.nx).ghost("gj", lambda v: 0, lambda v: v.ny)
    c.define("ci", lambda v: Ite(v.gi < v.nx - 1, v.gi, v.nx - 2))
    c.define("cj", lambda v: Ite(v.gj < v.ny - 1, v.gj, v.ny - 2))
    c.define("R0", lambda v: v.ci + v.nx * v.cj)
    c.define("R1", lambda v: v.gi + v.nx * v.cj)
    c.define("R2", lambda v: v.gi + v.nx * v.gj)
    c.define("SX", lambda v: gc(v, v.R0, v.R0 + 1))
    c.define("SY", lambda v: gc(v, v.R0, v.R0 + v.nx))
    ok = lambda v, r: And(feq(v.dx_[r], v.SX), feq(v.dy_[r], v.SY))
    c.inv("rows done", lambda v, ks: Implies(v.cj < ks[-1], ok(v, v.R0)))
    c.inv("cells done", lambda v, ks: Implies(Or(v.cj < ks[-2], And(v.cj == ks[-2], v.ci < ks[-1])), ok(v, v.R0)))
    c.inv("inner cells keep", lambda v, ks: ok(v, v.R0))
    c.inv("last column", lambda v, ks: Implies(v.cj < ks[-1], ok(v, v.R1)))
    c.inv("upper rows keep", lambda v, ks: ok(v, v.R1))
    c.inv("last row", lambda v, ks: Implies(v.gi < ks[-1], ok(v, v.R2)))
    c.ensures("distance to the right neighbour", lambda v: feq(v.dx_[v.R2], v.SX))
    c.ensures("distance to the lower neighbour", lambda v: feq(v.dy_[v.R2], v.SY))
    c.ensures("success", lambda v: v.ret == 1)

    def gen(rng):
        nx, ny = rng.randint(2, 5), rng.randint(2, 5)
        lon, lat = ll(rng, nx * ny)
        return dict(nx=nx, ny=ny, lon=lon, lat=lat, dx=[0.0] * (nx * ny), dy=[0.0] * (nx * ny))
    c.gen = gen
    return c


def mk1d():
    c = base("1d", "one-dimensional grid: distance to the next cell in both directions")
    c.requires(lambda v: And(Or(v.nx == 1, v.ny == 1), v.nx + v.ny > 2))
    c.define("N", lambda v: v.nx * v.ny)
    c.ghost("j", lambda v: 0, lambda v: v.nx * v.ny)
    c.define("cj", lambda v: Ite(v.j < v.N - 1, v.j, v.N - 2))
    c.define("S", lambda v: gc(v, v.cj, v.cj + 1))
    ok = lambda v, r: And(feq(v.dx_[r], v.S), feq(v.dy_[r], v.S))
    c.inv("cells done", lambda v, ks: Implies(v.cj < ks[-1], ok(v, v.cj)))
    c.ensures("distance to the next cell", lambda v: ok(v, v.j))
    c.ensures("success", lambda v: v.ret == 1)

    def gen(rng):
        n = rng.randint(2, 6)
        nx, ny = rng.choice([(1, n), (n, 1)])
        lon, lat = ll(rng, n)
        return dict(nx=nx, ny=ny, lon=lon, lat=lat, dx=[0.0] * n, dy=[0.0] * n)
    c.gen = gen
    return c


def mk0d():
    c = base("1x1", "a single cell has no distance")
    c.requires(lambda v: And(v.nx == 1, v.ny == 1))
    c.ensures("zero and an error", lambda v: And(feq(v.dx_[0], 0.0), feq(v.dy_[0], 0.0), v.ret == -1))
    c.gen = lambda rng: dict(nx=1, ny=1, lon=[10.0], lat=[60.0], dx=[5.0], dy=[5.0])
    return c


CONTRACTS = [mk2d(), mk1d(), mk0d()]
