"""Vertical coordinates: pressure, height and depth of model levels (CF formulas)."""
from vf.spec import *

TU = "vertical_coordinate_transformations.c"
K = 8.31432 / (9.80665 * 0.0289644)      # R / (g M)


def levels(rng, n, kind):
    if kind == "sigma":
        return [rng.randint(0, 1000) / 1000.0 for _ in range(n)]
    if kind == "height":
        return [rng.choice([0.0, 2.0, 10.0, -40.0, 100.0, 1500.0, 8848.0, rng.randint(-100, 20000) / 1.0]) for _ in range(n)]
    if kind == "pressure":
        return [rng.choice([1013.25, 1000.0, 850.0, 500.0, 10.0, 0.5, rng.randint(1, 110000) / 100.0]) for _ in range(n)]
    if kind == "ap":
        return [rng.choice([0.0, 2000.0, 101325.0, rng.randint(0, 30000) / 1.0]) for _ in range(n)]
    if kind == "s":
        return [-rng.randint(0, 1000) / 1000.0 for _ in range(n)]
    if kind == "lnp":
        return [rng.randint(-40, 400) / 40.0 for _ in range(n)]


SC = {"p0": [1000.0, 101325.0, 1013.25], "ptop": [0.0, 10.0, 100.0], "ps": [950.0, 1013.25, 101325.0, 60000.0], "orog": [0.0, 250.0, -30.0, 4000.0],
      "P_b": [1013.25, 850.0], "T_b": [288.15, 250.0, 300.0], "h": [10.0, 100.0, 3500.0], "h_c": [5.0, 20.0, 250.0], "zeta": [0.0, 0.5, -1.25]}


def mk(fn, what, params, arrays, spec, req=None, rel=1e-9, variant=""):
    """params in the order of the C signature: scalars by name, arrays by name, output 'o'"""
    c = Contract(fn, TU, what, ret="int", rel=rel, variant=variant)
    c.opts["abstol"] = 1e-9
    for p in params:
        if p == "n":
            c.size("n")
        elif p == "o":
            c.arr("o", "double", lambda v: v.n, out=True)
        elif p in arrays:
            c.arr(p, "double", lambda v: v.n)
        else:
            c.flt(p, nonan=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    if req:
        c.requires(req)
    c.define("S", lambda v: spec(v, v.j))
    c.inv("levels done", lambda v, ks: feq(v.o_[v.j], Ite(v.j < ks[-1], v.S, v.o[v.j])))
    c.ensures("value of level j", lambda v: feq(v.o_[v.j], v.S))
    c.ensures("success", lambda v: v.ret == 1)

    def gen(rng):
        n = rng.randint(0, 6)
        d = {"n": n, "o": [rng.randint(-9, 9) / 1.0 for _ in range(n)]}
        for p in params:
            if p in arrays:
                d[p] = levels(rng, n, arrays[p])
                if rng.random() < 0.05 and n:
                    d[p][rng.randrange(n)] = float("nan")
            elif p not in ("n", "o"):
                d[p] = rng.choice(SC[p]) if rng.random() < 0.7 else rng.randint(1, 4000) / 4.0
        return d
    c.gen = gen
    return c


def g1(v, j):
    S = v.h_c * v.sigma[j] + (v.h - v.h_c) * v.C[j]
    return S + v.zeta * (1 + S / v.h)


def g2(v, j):
    S = (v.h_c * v.sigma[j] + v.h * v.C[j]) / (v.h_c + v.h)
    return v.zeta + (v.zeta + v.h) * S


CONTRACTS = [
    mk("mifi_atmosphere_ln_pressure", "p = p0 exp(-lev)", ["n", "p0", "lev", "o"], {"lev": "lnp"}, lambda v, j: v.p0 * exp(-v.lev[j])),
    mk("mifi_atmosphere_sigma_pressure", "p = ptop + sigma (ps - ptop)", ["n", "ptop", "ps", "sigma", "o"], {"sigma": "sigma"},
       lambda v, j: v.ptop + v.sigma[j] * (v.ps - v.ptop)),
    mk("mifi_atmosphere_pressure_sigma", "inverse of the sigma formula", ["n", "ptop", "ps", "pressure", "o"], {"pressure": "pressure"},
       lambda v, j: (v.pressure[j] - v.ptop) / (v.ps - v.ptop), lambda v: v.ps != v.ptop),
    mk("mifi_atmosphere_hybrid_sigma_pressure", "p = a p0 + b ps", ["n", "p0", "ps", "a", "b", "o"], {"a": "sigma", "b": "sigma"},
       lambda v, j: v.a[j] * v.p0 + v.b[j] * v.ps),
    mk("mifi_atmosphere_hybrid_sigma_ap_pressure", "p = ap + b ps", ["n", "ps", "a", "b", "o"], {"a": "ap", "b": "sigma"},
       lambda v, j: v.a[j] + v.b[j] * v.ps),
    mk("mifi_atmosphere_hybrid_height", "z = a + b orog", ["n", "orog", "a", "b", "o"], {"a": "height", "b": "sigma"},
       lambda v, j: v.a[j] + v.b[j] * v.orog),
    mk("mifi_barometric_pressure", "isothermal barometric formula", ["n", "P_b", "h", "T_b", "o"], {"h": "height"},
       lambda v, j: v.P_b * exp(-v.h[j] / (K * v.T_b)), lambda v: v.T_b > 0),
    mk("mifi_barometric_standard_pressure", "standard atmosphere", ["n", "h", "o"], {"h": "height"},
       lambda v, j: 1013.25 * exp(-v.h[j] / (K * 288.15))),
    mk("mifi_barometric_height", "inverse barometric formula", ["n", "P_b", "p", "T_b", "o"], {"p": "pressure"},
       lambda v, j: -K * v.T_b * log(v.p[j] / v.P_b), lambda v: And(v.T_b > 0, v.P_b > 0)),
    mk("mifi_barometric_standard_altitude", "standard altitude", ["n", "p", "o"], {"p": "pressure"},
       lambda v, j: -K * 288.15 * log(v.p[j] / 1013.25)),
    mk("mifi_ocean_s_g1_z", "ocean s-coordinate g1", ["n", "h", "h_c", "zeta", "sigma", "C", "o"], {"sigma": "s", "C": "s"}, g1, lambda v: v.h > 0),
    mk("mifi_ocean_s_g2_z", "ocean s-coordinate g2", ["n", "h", "h_c", "zeta", "sigma", "C", "o"], {"sigma": "s", "C": "s"}, g2, lambda v: And(v.h > 0, v.h_c > 0)),
]

from fractions import Fraction
for c in CONTRACTS:
    c.exec_opts["snap"] = [Fraction(K), Fraction(K * 288.15)]
