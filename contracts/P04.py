"""Filling of undefined cells in a 2d field."""
from vf.spec import *

TU = "interpolation.c"
NAN = float("nan")


def field(rng):
    nx, ny = rng.randint(1, 6), rng.randint(1, 6)
    p = rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])
    return nx, ny, [NAN if rng.random() < p else rng.randint(-20, 20) / 2.0 for _ in range(nx * ny)]


def common(c, guard_defined):
    n = lambda v: v.nx * v.ny
    c.ghost("j", lambda v: 0, n)
    defined0 = lambda v, i: Not(isnan(v.f[i]))
    c.array_inv("defined cells keep their value", "f", lambda v, ks, A, i: Implies(defined0(v, i), feq(A[i], v.f[i])))
    c.array_inv("no undefined cell left", "f", lambda v, ks, A, i: Not(isnan(A[i])))
    c.array_inv("no undefined cell left so far", "f", lambda v, ks, A, i: Implies(i < ks[-1], Not(isnan(A[i]))))
    c.array_inv("cells not reached", "f", lambda v, ks, A, i: Implies(i >= ks[-1], feq(A[i], v.f[i])))
    c.array_inv("untouched", "f", lambda v, ks, A, i: feq(A[i], v.f[i]))
    c.stride(lambda v: v.nx >= 2, lambda v: v.nx)
    # the counting pass: the cells counted as undefined / defined so far
    cnt = lambda v: v.nc_[0]
    c.inv("count within range", lambda v, ks: And(cnt(v) >= 0, cnt(v) <= ks[-1]))
    c.inv("count zero only without undefined cells", lambda v, ks: Implies(And(cnt(v) == 0, v.j < ks[-1]), defined0(v, v.j)))
    c.inv("count all only without defined cells", lambda v, ks: Implies(And(cnt(v) == ks[-1], v.j < ks[-1]), isnan(v.f[v.j])))
    c.phi_inv("counter mirrors the reported count", lambda v, ks, x, x0: x == cnt(v))
    c.ensures("defined cells keep their value", lambda v: Implies(defined0(v, v.j), fsame(v.f_[v.j], v.f[v.j])))
    c.ensures("every cell is defined if any was, otherwise nothing changes",
              lambda v: Implies(isnan(v.f_[v.j]), Or(v.nc_[0] == v.nx * v.ny, v.nx * v.ny == 0)))
    c.ensures("success", lambda v: v.ret == 1)
    c.ensures("the number of filled cells is reported", lambda v: True if is_sym(v.nx) else (len(v.f) == 0 or v.nc_[0] == sum(1 for i in range(len(v.f)) if np.isnan(v.f[i]))))
    c.ensures("reported count of zero means nothing was undefined", lambda v: Implies(And(v.nc_[0] == 0, v.nx * v.ny > 0), defined0(v, v.j)))
    c.ensures("reported count of all means nothing was defined", lambda v: Implies(And(v.nc_[0] == v.nx * v.ny, v.nx * v.ny > 0), isnan(v.f[v.j])))


def fill2d():
    c = Contract("mifi_fill2d_f", TU, "relaxation fill: defined cells kept, undefined cells filled", ret="int")
    c.size("nx", lo=0, hi=1 << 20).size("ny", lo=0, hi=1 << 20).arr("f", "float", lambda v: v.nx * v.ny, out=True)
    c.flt("crit", "float", nonan=True).flt("eff", "float", nonan=True).size("maxLoop", lo=0, hi=1 << 40).arr("nc", "size_t", lambda v: 1, out=True)
    common(c, None)
    c.array_inv("weight zero where defined", "heap:float", lambda v, ks, A, i: And(Not(isnan(A[i])), Implies(Not(isnan(v.f[i])), A[i] == 0)))
    c.array_inv("weight zero where defined so far", "heap:float", lambda v, ks, A, i: Implies(i < ks[-1], And(Not(isnan(A[i])), Implies(Not(isnan(v.f[i])), A[i] == 0))))

    def gen(rng):
        nx, ny, f = field(rng)
        return dict(nx=nx, ny=ny, f=f, crit=rng.choice([0.0001, 0.01]), eff=rng.choice([1.0, 1.5, 1.6]), maxLoop=rng.choice([0, 1, 3, 20]), nc=[77])
    c.gen = gen
    return c


CONTRACTS = [fill2d()]


def creep(fn, default):
    c = Contract(fn, TU, "creep fill: defined cells kept, undefined cells filled", ret="int")
    c.size("nx", lo=0, hi=1 << 20).size("ny", lo=0, hi=1 << 20).arr("f", "float", lambda v: v.nx * v.ny, out=True)
    if default:
        c.flt("def_", "float", nonan=True)
    c.int("repeat", "ushort").int("w", "char", lo=0).arr("nc", "size_t", lambda v: 1, out=True)
    common(c, None)
    # values stay in the range [lo, hi] of the defined values and the default
    vals = lambda v: [float(v.f[i]) for i in range(len(v.f)) if not np.isnan(v.f[i])] + ([float(v.def_)] if default else [])
    c.ghost_real("lo", lambda v: min(vals(v) or [0.0])).ghost_real("hi", lambda v: max(vals(v) or [0.0]))
    rng_ = lambda v, x: And(x >= v.lo, x <= v.hi)
    c.requires_elem("f", lambda v, i: Or(isnan(v.f[i]), rng_(v, v.f[i])))
    c.requires(lambda v: [v.lo <= v.hi, Or(isnan(v.f[v.j]), rng_(v, v.f[v.j]))])
    if default:
        c.requires(lambda v: rng_(v, v.def_))
    else:
        c.phi_inv("sum within range", lambda v, ks, x, x0: And(x >= v.lo * toreal(ks[-1] - v.nc_[0]), x <= v.hi * toreal(ks[-1] - v.nc_[0])) if isinstance(x, FV) else None)
    c.array_inv("values within range", "f", lambda v, ks, A, i: Or(isnan(A[i]), rng_(v, A[i])))
    c.ensures("filled values stay in the range of the defined values", lambda v: Or(isnan(v.f_[v.j]), rng_(v, v.f_[v.j]) if is_sym(v.nx) else v.lo - 1e-3 <= v.f_[v.j] <= v.hi + 1e-3))
    ok = lambda v, A, i: Implies(Not(isnan(v.f[i])), A[i] == v.repeat)
    c.array_inv("defined cells are finished", "heap:ushort", lambda v, ks, A, i: ok(v, A, i))
    c.array_inv("defined cells are finished so far", "heap:ushort", lambda v, ks, A, i: Implies(i < ks[-1], ok(v, A, i)))
    c.array_inv("weights are not negative", "heap:char", lambda v, ks, A, i: A[i] >= 0)
    c.array_inv("weights are not negative so far", "heap:char", lambda v, ks, A, i: Implies(i < ks[-1], A[i] >= 0))

    def gen(rng):
        nx, ny, f = field(rng)
        d = dict(nx=nx, ny=ny, f=f, repeat=rng.choice([0, 1, 2, 5, 20, 65535 if rng.random() < 0.05 else 3]), w=rng.choice([1, 2, 5, 0]), nc=[77])
        if default:
            d["def_"] = rng.choice([0.0, -3.5])
        return d
    c.gen = gen
    return c


CONTRACTS += [creep("mifi_creepfill2d_f", False), creep("mifi_creepfillval2d_f", True)]
