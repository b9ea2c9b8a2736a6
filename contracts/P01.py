"""Horizontal sampling of one position on all levels: nearest, bilinear, bicubic."""
from vf.spec import *

TU = "interpolation.c"


def gen(methodpos):
    def g(rng):
        ix, iy, iz = rng.randint(1, 6), rng.randint(1, 6), rng.randint(0, 3)
        if rng.random() < 0.1:
            ix, iy = rng.choice([(1, 1), (1, 4), (4, 1), (2, 2)])

        def pos(n):
            k = rng.random()
            if k < 0.1:
                return rng.choice([float("nan"), 1e300, -1e300, 4294967296.0, 4294967297.0, -4294967296.0, 2147483648.0, 1e12, float("inf"), float("-inf")])
            if k < 0.5:
                return rng.randint(-8, 4 * n + 8) / 4.0
            return rng.randint(-40, 16 * n + 40) / 16.0
        nanp = rng.choice([0, 0, 0.2])
        return dict(inf=[float("nan") if rng.random() < nanp else rng.randint(-64, 64) / 4.0 for _ in range(ix * iy * iz)], out=[rng.choice([0.0, float("nan"), 7.0]) for _ in range(iz)],
                    x=pos(ix), y=pos(iy), ix=ix, iy=iy, iz=iz)
    return g


def base(fn, what):
    c = Contract(fn, TU, what, ret="int")
    c.arr("inf", "float", lambda v: v.ix * v.iy * v.iz).arr("out", "float", lambda v: v.iz, out=True)
    c.flt("x", finite=False).flt("y", finite=False)
    c.int("ix", lo=1, hi=1 << 20).int("iy", lo=1, hi=1 << 20).int("iz", lo=0, hi=1 << 20)
    c.requires(lambda v: v.ix * v.iy * v.iz < (1 << 31))
    c.requires(lambda v: v.ix * v.iy < (1 << 31))
    c.ghost("j", lambda v: 0, lambda v: v.iz)
    c.gen = gen(fn)
    return c


NANV = float("nan")


def cell(v, x, y, z):
    return v.inf[(z * v.iy + y) * v.ix + x]


def nearest(v, z):
    rx, ry = lround(v.x), lround(v.y)
    ok = And(Not(isnan(v.x)), Not(isnan(v.y)), rx >= 0, rx < v.ix, ry >= 0, ry < v.iy)
    return Ite(ok, cell(v, rx, ry, z), NANV)


def bilinear(v, z):
    x0, y0 = floor(v.x), floor(v.y)
    fx, fy = v.x - toreal(x0), v.y - toreal(y0)
    rx, ry = lround(v.x), lround(v.y)
    nn = And(Not(isnan(v.x)), Not(isnan(v.y)))
    inx, iny = And(nn, x0 >= 0, x0 + 1 < v.ix), And(nn, y0 >= 0, y0 + 1 < v.iy)
    rinx, riny = And(nn, rx >= 0, rx < v.ix), And(nn, ry >= 0, ry < v.iy)
    s = lambda x, y: cell(v, x, y, z)
    lin = lambda a, b, f: (1 - f) * a + f * b
    full = lin(lin(s(x0, y0), s(x0 + 1, y0), fx), lin(s(x0, y0 + 1), s(x0 + 1, y0 + 1), fx), fy)
    return Ite(And(inx, iny), full,
               Ite(And(inx, riny), lin(s(x0, ry), s(x0 + 1, ry), fx),
                   Ite(And(Not(inx), rinx, iny), lin(s(rx, y0), s(rx, y0 + 1), fy),
                       Ite(And(Not(inx), rinx, Not(iny), riny), s(rx, ry), NANV))))


def cubw(f):
    """Catmull-Rom weights (a=-1/2) for the offsets -1,0,1,2"""
    return (((2 - f) * f - 1) * f / 2, ((3 * f - 5) * f * f + 2) / 2, ((4 - 3 * f) * f + 1) * f / 2, (f - 1) * f * f / 2)


def bicubic(v, z):
    x0, y0 = floor(v.x), floor(v.y)
    fx, fy = v.x - toreal(x0), v.y - toreal(y0)
    ok = And(Not(isnan(v.x)), Not(isnan(v.y)), x0 >= 1, x0 + 2 < v.ix, y0 >= 1, y0 + 2 < v.iy)
    wx, wy = cubw(fx), cubw(fy)
    r = 0.0
    for a in range(4):
        for b in range(4):
            r = r + wx[a] * wy[b] * cell(v, x0 + a - 1, y0 + b - 1, z)
    return Ite(ok, r, NANV)


def mk(fn, f, what):
    c = base(fn, what)
    c.define("S", lambda v: f(v, v.j))
    c.inv("levels done", lambda v, ks: feq(v.out_[v.j], Ite(v.j < ks[-1], v.S, v.out[v.j])))
    c.ensures("value on level j", lambda v: feq(v.out_[v.j], v.S))
    c.ensures("reports success", lambda v: ieq(v.ret, 1))
    return c


CONTRACTS = [mk("mifi_get_values_f", nearest, "nearest grid value per level, undefined outside"),
             mk("mifi_get_values_bilinear_f", bilinear, "bilinear value per level, degraded at the border, undefined outside"),
             mk("mifi_get_values_bicubic_f", bicubic, "bicubic (a=-0.5) value per level, undefined near/outside the border")]

# position of a cell in the array
c = Contract("mifi_3d_array_position", TU, "position of a cell", ret="int")
c.int("x", lo=0, hi=1 << 30).int("y", lo=0, hi=1 << 30).int("z", lo=0, hi=1 << 30).int("ix", lo=1, hi=1 << 30).int("iy", lo=1, hi=1 << 30).int("iz", lo=1, hi=1 << 30)
c.requires(lambda v: And(v.x < v.ix, v.y < v.iy, v.z < v.iz, v.ix * v.iy * v.iz < (1 << 31), v.ix * v.iy < (1 << 31)))
c.requires(lambda v: And(v.z * v.iy + v.y <= v.iz * v.iy - 1, (v.z * v.iy + v.y) * v.ix + v.x <= v.ix * v.iy * v.iz - 1))
c.ensures("x fastest, z slowest", lambda v: v.ret == v.x + v.ix * (v.y + v.iy * v.z))
c.gen = lambda rng: (lambda ix, iy, iz: dict(ix=ix, iy=iy, iz=iz, x=rng.randint(0, ix - 1), y=rng.randint(0, iy - 1), z=rng.randint(0, iz - 1)))(rng.randint(1, 40), rng.randint(1, 40), rng.randint(1, 40))
CONTRACTS.append(c)
