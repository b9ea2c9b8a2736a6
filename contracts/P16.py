"""Horizontal interpolation of a reader: the conversions around the kernels (P01, P12, P13, P14) and bounded end to end runs."""
from vf.spec import *
from vf.spec import RANGE
from contracts.common import bad2nan
from contracts.P11 import tor, nearest, inrange
from contracts import P14

TU = "shim:interpolator.cc"
NATIVE = {TU: {"link": True}}
NAN = float("nan")


def mkmatrix():
    c = Contract("lonlat_matrix", TU, "longitudes and latitudes of every cell of a longitude-latitude grid")
    c.arr("lon", "double", lambda v: v.nx).arr("lat", "double", lambda v: v.ny).size("nx", hi=1 << 20).size("ny", hi=1 << 20)
    c.arr("lonout", "double", lambda v: v.nx * v.ny, out=True).arr("latout", "double", lambda v: v.nx * v.ny, out=True)
    c.ghost("x", lambda v: 0, lambda v: v.nx)
    c.ghost("y", lambda v: 0, lambda v: v.ny)
    c.define("J", lambda v: v.y * v.nx + v.x)
    done = lambda v, ks: v.x < ks[0] if len(ks) == 1 else Or(v.x < ks[0], And(v.x == ks[0], v.y < ks[1]))
    doner = lambda v, ks: v.y < ks[0] if len(ks) == 1 else Or(v.y < ks[0], And(v.y == ks[0], v.x < ks[1]))
    for nm, f in (("longitudes", lambda v: v.lon[v.x]), ("latitudes", lambda v: v.lat[v.y])):
        c.array_inv("%s of the columns so far" % nm, "heap:double", lambda v, ks, A, i, f=f: Implies(done(v, ks), fsame(A[v.J], f(v))))
        c.array_inv("%s of the rows so far" % nm, "heap:double", lambda v, ks, A, i, f=f: Implies(doner(v, ks), fsame(A[v.J], f(v))))
    c.inv("copied out", lambda v, ks: Implies(v.J < ks[-1], And(fsame(v.lonout_[v.J], v.lon[v.x]), fsame(v.latout_[v.J], v.lat[v.y]))) if len(ks) == 1 else None)
    c.ensures("longitude of the column", lambda v: fsame(v.lonout_[v.J], v.lon[v.x]))
    c.ensures("latitude of the row", lambda v: fsame(v.latout_[v.J], v.lat[v.y]))
    c.ensures("the longitudes and latitudes handed in are unchanged", lambda v: And(fsame(v.lon_[v.x], v.lon[v.x]), fsame(v.lat_[v.y], v.lat[v.y])))

    def gen(rng):
        nx, ny = rng.randint(0, 4), rng.randint(0, 4)
        return dict(nx=nx, ny=ny, lon=[float(rng.randint(-180, 180)) for _ in range(nx)], lat=[float(rng.randint(-90, 90)) for _ in range(ny)], lonout=[0.0] * (nx * ny), latout=[0.0] * (nx * ny))
    c.gen = gen
    return c


def mkto(ct):
    c = Contract("to_array_" + ct, TU, "%s data to be interpolated, fill values undefined" % ct, rel=1e-6)
    c.arr("d", ct, lambda v: v.n).size("n", hi=1 << 40).flt("bad").arr("out", "float", lambda v: v.n, out=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    if ct == "int":
        c.requires_elem("d", lambda v, i: And(v.d[i] > -(1 << 24), v.d[i] < (1 << 24)))
    x = lambda v: tor(v.d[v.j])
    spec = lambda v, o: feq(o, Ite(x(v) == v.bad, NAN, x(v)))
    c.array_inv("converted", "heap:float", lambda v, ks, A, i: Implies(v.j < ks[-1], feq(A[v.j], x(v))))
    c.inv("copied out", lambda v, ks: Implies(v.j < ks[-1], spec(v, v.out_[v.j])))
    c.ensures("the same number, undefined if it is the fill value", lambda v: spec(v, v.out_[v.j]))
    c.ensures("the data of the reader is unchanged", lambda v: fsame(v.d_[v.j], v.d[v.j]) if ct == "float" else v.d_[v.j] == v.d[v.j])
    c.callees["mifi_bad2nanf"] = bad2nan("float")

    def gen(rng):
        n = rng.randint(0, 5)
        bad = rng.choice([-999.0, NAN, 7.0])
        vals = [0, 1, -3, 7, -999, 12] + ([NAN, 2.5] if ct == "float" else [])
        return dict(n=n, bad=bad, d=[rng.choice(vals) for _ in range(n)], out=[0.0] * n)
    c.gen = gen
    return c


def mkfrom(ct):
    c = Contract("from_array_" + ct, TU, "interpolated data as %s, undefined values as fill value" % ct, rel=1e-6)
    c.arr("d", "float", lambda v: v.n).size("n", hi=1 << 40)
    c.flt("bad") if ct == "float" else c.int("badi", "int", ghostparam=True, lo=-30000, hi=30000).flt("bad", nonan=True)
    if ct != "float":
        c.requires(lambda v: [v.bad == toreal(v.badi)])
    c.arr("out", ct, lambda v: v.n, out=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)

    def spec(v, o):
        x = v.d[v.j]
        if ct == "float":
            return feq(o, Ite(isnan(x), v.bad, x))
        return And(Implies(isnan(x), o == v.badi), Implies(And(Not(isnan(x)), inrange(ct, x)), nearest(o, x, 0)))
    c.array_inv("converted", "heap:" + ct, lambda v, ks, A, i: Implies(v.j < ks[-1], spec(v, A[v.j])))
    c.inv("copied out", lambda v, ks: Implies(v.j < ks[-1], spec(v, v.out_[v.j])))
    c.ensures("the same number rounded to the type, the fill value if undefined", lambda v: spec(v, v.out_[v.j]))

    def gen(rng):
        n = rng.randint(0, 5)
        b = rng.choice([-999, 7, 0])
        r = dict(n=n, bad=float(b), d=[float(rng.choice([0, 1.25, -3, 7, -999, 12.75, NAN])) for _ in range(n)], out=[0] * n)
        if ct != "float":
            r["badi"] = b
        return r
    c.gen = gen
    return c


def mklevels():
    c = Contract("process_levels", TU, "pre- and postprocessing of every level")
    c.arr("a", "float", lambda v: v.n, out=True).size("n", hi=1 << 50).size("nx", lo=1, hi=1 << 15).size("ny", lo=1, hi=1 << 15)
    c.size("nz", ghostparam=True, hi=1 << 16)
    c.requires(lambda v: [v.n == v.nz * (v.nx * v.ny)])
    c.div_hint(lambda v: (v.nz, 0, v.nx * v.ny))
    c.ghost("o", lambda v: 0, lambda v: v.nx * v.ny)
    c.ghost("z", lambda v: 0, lambda v: v.nz)
    c.define("J", lambda v: v.z * (v.nx * v.ny) + v.o)
    before = lambda v, ks: v.z < ks[0] if len(ks) <= 2 else Or(v.z < ks[0], And(v.z == ks[0], v.o < ks[2]))
    st = lambda v, b: Ite(b, feq(v.a_[v.J], 0.0 - v.a[v.J]), fsame(v.a_[v.J], v.a[v.J]))
    c.inv("levels done", lambda v, ks: st(v, before(v, ks)) if len(ks) == 1 else None)
    c.inv("cells done", lambda v, ks: st(v, Or(v.z < ks[0], And(v.z == ks[0], v.o < ks[-1]))) if len(ks) >= 2 else None)
    c.inv("cells done 2", lambda v, ks: st(v, Or(v.z < ks[0], And(v.z == ks[0], ks[1] > 0))) if len(ks) == 2 else None)
    c.ensures("every cell of every level is processed once", lambda v: feq(v.a_[v.J], 0.0 - v.a[v.J]))

    def gen(rng):
        nx, ny, nz = rng.randint(1, 4), rng.randint(1, 4), rng.randint(0, 5)
        return dict(nx=nx, ny=ny, nz=nz, n=nx * ny * nz, a=[float(rng.randint(1, 9)) for _ in range(nx * ny * nz)])
    c.gen = gen
    return c


CONTRACTS = [mkmatrix(), mkto("float"), mkto("short"), mkto("int"), mkfrom("float"), mkfrom("short"), mklevels()] + [c for c in P14.CONTRACTS if c.fn in ("points", "grid_points")]
BOUNDED = [Program("interpolator", "five kinds of grids up to 9x9 cells, all methods, target grids and point lists, whole fields and parts, 1500 random cases", "interp.cc", 1500),
           Program("targets", "axes by specification, templates up to 4x4, up to 3 cross-sections of up to 4 points; description of the result and interpolation of the result; 700 random cases", "targets.cc", 700)]
