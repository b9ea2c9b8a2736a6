"""Fields derived from temperature, pressure and wind: the formulas are proved (contracts shared with P06 and P07); that the processors apply them
to the right cells, in the right order and units, is checked on bounded runs."""
from vf.spec import *
from contracts import P06, P07

CONTRACTS = [c for c in P07.CONTRACTS if c.fn in ("mifi_specific_to_relative_humidity", "mifi_virtual_temperature", "mifi_barometric_layer_thickness", "mifi_omega_to_vertical_wind_f", "mifi_omega_to_vertical_wind")] \
    + [c for c in P06.CONTRACTS if c.fn.startswith("mifi_atmosphere") or "barometric" in c.fn]
BOUNDED = [
    Program("pressure conversions", "datasets with pressure, sigma or hybrid levels, dimensions up to 4 long in any order, floats or packed shorts, one or several of theta2T, specific2relative, omega2vwind, add4Dpressure; 4000 random cases", "pressure.cc", 4000),
    Program("vertical velocity and geopotential height", "grids of 3 to 6 by 3 to 6 by 1 to 5, projected or rotated, axes of either direction, against the discretised continuity and hydrostatic equations; 4000 random cases", "derived.cc", 4000),
]
TRUSTED = ["CDMPressureConversions, CDMProcessor, values of mifi_compute_vertical_velocity (its contract covers the frame, the top level and the edges), PressureIntegrationToAltitudeConverter: bounded", "PROJ (grid distances)"]


def mkvv():
    c = Contract("mifi_compute_vertical_velocity", "interpolation.c", "vertical velocity: inside the fields, none at the top level", ret="size_t", budget=300)
    n2, n3 = (lambda v: v.nx * v.ny), (lambda v: v.nx * v.ny * v.nz)
    c.size("nx", lo=2, hi=1 << 12).size("ny", lo=2, hi=1 << 12).size("nz", lo=1, hi=1 << 10).flt("dx", nonan=True).flt("dy", nonan=True)
    c.arr("gx", "float", n2).arr("gy", "float", n2).arr("ap", "double", lambda v: v.nz).arr("b", "double", lambda v: v.nz)
    for k in ("zs", "ps"):
        c.arr(k, "float", n2)
    for k in "uvt":
        c.arr(k, "float", n3)
    c.arr("w", "float", n3, out=True)
    c.stride(lambda v: True, lambda v: v.nx)
    c.stride(lambda v: True, n2)
    c.ghost("o", lambda v: 0, n2)
    c.ghost("y", lambda v: 0, lambda v: v.ny).ghost("k", lambda v: 0, lambda v: v.nz)
    row = lambda v: v.nx * (v.y + v.ny * v.k)
    west = lambda v: fsame(v.w_[row(v)], v.w_[row(v) + 1])
    east = lambda v: fsame(v.w_[row(v) + v.nx - 1], v.w_[row(v) + v.nx - 2])
    zero = lambda v: feq(v.w_[v.o], 0.0)
    c.inv("top level so far", lambda v, ks: Implies(v.o < ks[0] * v.nx if len(ks) == 1 else v.o < ks[0] * v.nx + ks[1], zero(v)))
    c.inv("top level", lambda v, ks: zero(v))
    c.inv("edges of the levels so far", lambda v, ks: Implies(And(v.k >= 1, v.k - 1 < ks[0]), And(west(v), east(v))))
    c.inv("edges of the rows so far", lambda v, ks: Implies(And(v.k >= 1, Or(v.k - 1 < ks[0], And(v.k - 1 == ks[0], v.y < ks[1]))), And(west(v), east(v))) if len(ks) == 2 else None)
    c.ensures("no velocity at the top level", lambda v: zero(v))
    c.ensures("first and last column repeat their neighbours", lambda v: Implies(v.k >= 1, And(west(v), east(v))))

    def gen(rng):
        nx, ny, nz = rng.randint(2, 5), rng.randint(2, 5), rng.randint(1, 4)
        f = lambda n, a, b: [rng.uniform(a, b) for _ in range(n)]
        n = nx * ny
        lev = [(i + .5) / nz for i in range(nz)]
        return dict(nx=nx, ny=ny, nz=nz, dx=rng.choice([-1, 1]) * 1000.0, dy=1000.0, gx=f(n, 900, 1100), gy=f(n, 900, 1100), ap=[0.0] * nz, b=lev, zs=f(n, 0, 500), ps=f(n, 9e4, 1e5),
                    u=f(n * nz, -20, 20), v=f(n * nz, -20, 20), t=f(n * nz, 200, 300), w=[0.0] * (n * nz))
    c.gen = gen
    return c


CONTRACTS.append(mkvv())
