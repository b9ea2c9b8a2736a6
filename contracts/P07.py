"""Conversions of humidity, vertical velocity, virtual temperature and layer thickness."""
from vf.spec import *

TU = "vertical_coordinate_transformations.c"
K = 8.31432 / (9.80665 * 0.0289644)
EPS = 0.622
f32 = lambda x: float(np.float32(x))
C1, C2, C3, C4 = map(f32, (610.78, 17.269, 273.16, 35.86))
T0 = 273.15


def es(t):
    """saturation vapour pressure over water [Pa]"""
    return C1 * exp((C2 * (t - C3)) / (t - C4))


def scal(fn, what, ps, spec, req, ranges, rel=2e-5, ct="float"):
    c = Contract(fn, TU, what, ret=ct, rel=rel)
    c.opts["abstol"] = 1e-12
    for p in ps:
        c.flt(p, ct, nonan=True)
    c.requires(req)
    # exp is positive: the only fact about it that the clamping needs
    c.axioms.append(lambda v: [z3.ForAll([z3.Real("x?e")], UF["exp"](z3.Real("x?e")) > 0)])
    c.ensures("value", lambda v: feq(v.ret, spec(v)))

    def gen(rng):
        return {p: f32(rng.choice(ranges[p]) if rng.random() < 0.6 else rng.uniform(min(ranges[p]), max(ranges[p]))) for p in ps}
    c.gen = gen
    return c


T = [200.0, 233.15, 273.15, 273.16, 288.15, 300.0, 320.0]
P = [100.0, 5000.0, 50000.0, 85000.0, 101325.0]
CONTRACTS = [
    scal("mifi_virtual_temperature", "virtual temperature", ["q", "t"], lambda v: (1 + .60771704180064308681 * v.q) * v.t, lambda v: True, {"q": [0.0, 0.001, 0.02], "t": T}),
    scal("mifi_relative_to_specific_humidity", "relative to specific humidity, never negative", ["rh", "t", "p"],
         lambda v: (lambda s: Ite(s < 0, 0.0, s))(v.rh * 0.01 * es(v.t) * EPS / v.p), lambda v: And(v.p > 0, v.t > C4 + 1), {"rh": [-3.0, 0.0, 50.0, 100.0, 110.0], "t": T, "p": P}, rel=1e-4),
    scal("mifi_specific_to_relative_humidity", "specific to relative humidity, within 0 and 100 %", ["q", "t", "p"],
         lambda v: (lambda s: Ite(s < 0, 0.0, Ite(s > 100, 100.0, s)))(100 * v.q * v.p / (es(v.t) * EPS)), lambda v: And(v.p > 0, v.t > C4 + 1), {"q": [-0.001, 0.0, 0.005, 0.01, 0.05], "t": T, "p": P}, rel=1e-4),
    scal("mifi_dewpoint_to_relative_humidity", "dew point to relative humidity, at most 100 %", ["d", "t"],
         lambda v: (lambda s: Ite(s > 100, 100.0, s))(100 * exp(17.625 * (v.d - T0) / (243.04 + (v.d - T0)) - 17.625 * (v.t - T0) / (243.04 + (v.t - T0)))),
         lambda v: And(v.d > 100, v.t > 100), {"d": T, "t": T}, rel=1e-4),
    scal("mifi_barometric_layer_thickness", "thickness of a layer between two pressures", ["p0", "p1", "t"], lambda v: log(v.p0 / v.p1) * v.t * K,
         lambda v: And(v.p0 > 0, v.p1 > 0), {"p0": P, "p1": P, "t": T}, rel=1e-3),
]
CONTRACTS[-1].opts["abstol"] = 1e-2


def wind(fn, what, names, ct, spec, req, rel):
    c = Contract(fn, TU, what, ret="int", rel=rel)
    c.opts["abstol"] = 1e-12
    c.size("n")
    for a in names:
        c.arr(a, ct, lambda v: v.n)
    c.arr("o", ct, lambda v: v.n, out=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    c.requires(req)
    c.define("S", lambda v: spec(v, v.j))
    c.inv("elements done", lambda v, ks: feq(v.o_[v.j], Ite(v.j < ks[-1], v.S, v.o[v.j])))
    c.ensures("value of element j", lambda v: feq(v.o_[v.j], v.S))
    c.ensures("success", lambda v: v.ret == 1)

    def gen(rng):
        n = rng.randint(0, 6)
        g = {"w": lambda: rng.randint(-50, 50) / 8.0, "omega": lambda: rng.randint(-50, 50) / 4.0, "p": lambda: rng.choice(P), "t": lambda: rng.choice(T)}
        d = {a: [g[a]() if rng.random() < 0.95 else float("nan") for _ in range(n)] for a in names}
        d["n"] = n
        d["o"] = [0.0] * n
        return d
    c.gen = gen
    return c


KF = f32(K)
CONTRACTS += [
    wind("mifi_omega_to_vertical_wind", "pressure velocity to vertical wind", ["omega", "p", "t"], "double", lambda v, j: -K * v.omega[j] * v.t[j] / v.p[j], lambda v: v.p[v.j] != 0, 1e-9),
    wind("mifi_omega_to_vertical_wind_f", "pressure velocity to vertical wind, float", ["omega", "p", "t"], "float", lambda v, j: -KF * v.omega[j] * v.t[j] / v.p[j], lambda v: v.p[v.j] != 0, 2e-5),
    wind("mifi_vertical_wind_to_omega", "vertical wind to pressure velocity", ["w", "p", "t"], "double", lambda v, j: v.w[j] * v.p[j] / (-K * v.t[j]), lambda v: v.t[v.j] != 0, 1e-9),
]

from fractions import Fraction
for c in CONTRACTS:
    c.exec_opts["snap"] = [Fraction(K), Fraction(K * 288.15)]
