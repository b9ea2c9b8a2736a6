"""Regridding whole fields with cached positions."""
from vf.spec import *
from contracts.P11 import tor

TU = "shim:cached.cc"
NATIVE = {TU: {"link": True}}
INV = (1 << 32) - 1

CONTRACTS = []
def mkround(suf, ct):
    c = Contract("roundclamp_" + suf, TU, "rounding a %s position to a cell" % ct, ret="size_t")
    c.size("mini", hi=1 << 31).size("maxi", hi=1 << 31).size("inv").flt("d", ct)
    c.ensures("nearest cell if inside", lambda v: Implies(And(Not(isnan(v.d)), v.ret != v.inv), And(v.ret >= v.mini, v.ret <= v.maxi, tor(v.ret) - v.d <= 0.5, v.d - tor(v.ret) <= 0.5)))
    c.ensures("invalid only outside", lambda v: Implies(And(isfinite(v.d), v.d >= tor(v.mini), v.d <= tor(v.maxi)), And(v.ret >= v.mini, v.ret <= v.maxi)))
    c.ensures("undefined or outside is invalid", lambda v: Implies(Or(isnan(v.d), v.d < tor(v.mini) - 0.5, v.d > tor(v.maxi) + 0.5), v.ret == v.inv))
    return c
CONTRACTS += [mkround("d", "double"), mkround("f", "float")]


def mk_nn_interp():
    c = Contract("nn_interpolate", TU, "nearest neighbour regridding of every level")
    c.arr("cells", "size_t", lambda v: v.outX * v.outY)
    c.size("inX", lo=1, hi=60000).size("inY", lo=1, hi=60000).size("outX", hi=1 << 20).size("outY", hi=1 << 20)
    c.arr("in_", "float", lambda v: v.n)
    c.size("n", hi=1 << 60)
    c.arr("out", "float", lambda v: v.nz * (v.outX * v.outY), out=True)
    c.arr("newSize", "size_t", lambda v: 1, out=True)
    c.size("nz", ghostparam=True, hi=1 << 16)
    c.requires(lambda v: v.n == v.nz * (v.inX * v.inY))
    c.div_hint(lambda v: (v.nz, 0, v.inX * v.inY))
    c.requires_elem("cells", lambda v, i: Or(v.cells[i] == INV, And(v.cells[i] >= 0, v.cells[i] < v.inX * v.inY)))
    c.ghost("o", lambda v: 0, lambda v: v.outX * v.outY)
    c.ghost("z", lambda v: 0, lambda v: v.nz)
    L = lambda v: v.outX * v.outY
    M = lambda v: v.inX * v.inY
    want = lambda v: Ite(v.cells[v.o] == INV, isnan(v.out_[v.z * L(v) + v.o]), fsame(v.out_[v.z * L(v) + v.o], v.in_[v.z * M(v) + v.cells[v.o]]))
    at = lambda v, A: Ite(v.cells[v.o] == INV, isnan(A[v.z * L(v) + v.o]), fsame(A[v.z * L(v) + v.o], v.in_[v.z * M(v) + v.cells[v.o]]))
    c.array_inv("preset to undefined", "heap:float", lambda v, ks, A, i: Implies(v.z * L(v) + v.o < ks[-1], isnan(A[v.z * L(v) + v.o])) if len(ks) == 1 else None)
    before = lambda v, ks: v.z < ks[0] if len(ks) == 1 else Or(v.z < ks[0], And(v.z == ks[0], v.o < ks[1]))
    c.array_inv("levels done", "heap:float", lambda v, ks, A, i: Ite(before(v, ks), at(v, A), isnan(A[v.z * L(v) + v.o])) if len(ks) <= 2 else None)
    c.inv("copied out", lambda v, ks: Implies(v.z * L(v) + v.o < ks[-1], want(v)) if len(ks) == 1 else None)
    c.ensures("as many values as target cells times levels", lambda v: v.newSize_[0] == v.nz * L(v))
    c.ensures("value of the cell of the same level, or undefined", want)

    def gen(rng):
        ix, iy, ox, oy, nz = [rng.randint(1, 4), rng.randint(1, 4), rng.randint(0, 4), rng.randint(0, 4), rng.randint(0, 3)]
        return dict(inX=ix, inY=iy, outX=ox, outY=oy, nz=nz, n=nz * ix * iy, in_=[rng.choice([rng.randint(-50, 50), float("nan")]) for _ in range(nz * ix * iy)],
                    cells=[rng.choice([INV, rng.randint(0, ix * iy - 1)]) for _ in range(ox * oy)], out=[-7] * (nz * ox * oy), newSize=[0])
    c.gen = gen
    return c


CONTRACTS += [mk_nn_interp()]


def mk_nn_create():
    c = Contract("nn_create", TU, "cells of the nearest neighbours, with reduced input domain")
    L = lambda v: v.outX * v.outY
    c.arr("px", "double", L).arr("py", "double", L)
    c.size("inX", lo=1, hi=60000).size("inY", lo=1, hi=60000).size("outX", hi=1 << 20).size("outY", hi=1 << 20)
    c.arr("cells", "size_t", L, out=True)
    c.arr("red", "size_t", lambda v: 4, out=True)
    c.ghost("o", lambda v: 0, L)
    c.define("rx", lambda v: lround(v.px[v.o]))
    c.define("ry", lambda v: lround(v.py[v.o]))
    c.define("valid", lambda v: And(Not(isnan(v.px[v.o])), Not(isnan(v.py[v.o])), v.rx >= 0, v.rx < v.inX, v.ry >= 0, v.ry < v.inY))
    full = lambda v: v.ry * v.inX + v.rx
    red = lambda v: [v.red_[q] for q in range(4)]
    c.ensures("the reduced domain is part of the grid", lambda v: And(red(v)[0] >= 0, red(v)[1] >= 0, red(v)[2] >= 1, red(v)[3] >= 1, red(v)[0] + red(v)[2] <= v.inX, red(v)[1] + red(v)[3] <= v.inY))
    c.ensures("the reduced domain has all needed cells", lambda v: Implies(v.valid, And(red(v)[0] <= v.rx, v.rx < red(v)[0] + red(v)[2], red(v)[1] <= v.ry, v.ry < red(v)[1] + red(v)[3])))
    c.ensures("each target cell keeps its nearest cell", lambda v: v.cells_[v.o] == Ite(v.valid, (v.ry - red(v)[1]) * red(v)[2] + v.rx - red(v)[0], INV))
    c.array_inv("cells found", "heap:size_t", lambda v, ks, A, i: A[v.o] == Ite(And(v.o < ks[-1], v.valid), full(v), INV))
    c.array_inv("no cell", "heap:size_t", lambda v, ks, A, i: Implies(v.o < ks[-1], A[v.o] == INV))
    c.array_inv("full grid", "heap:size_t", lambda v, ks, A, i: A[v.o] == Ite(v.valid, full(v), INV))
    c.live_inv("moved to the reduced grid", "heap:size_t", [lambda v, x: And(x >= 0, Implies(v.valid, x <= v.rx)), lambda v, y: And(y >= 0, Implies(v.valid, y <= v.ry)), lambda v, n: And(n >= 1, n <= v.inX)],
               lambda v, ks, A, x, y, n: A[v.o] == Ite(v.valid, Ite(v.o < ks[-1], (v.ry - y) * n + v.rx - x, full(v)), INV))
    c.array_inv("mapped", "heap:size_t", lambda v, ks, A, i: A[v.o] == Ite(v.valid, (v.ry - red(v)[1]) * red(v)[2] + v.rx - red(v)[0], INV))
    c.inv("copied out", lambda v, ks: Implies(v.o < ks[-1], v.cells_[v.o] == Ite(v.valid, (v.ry - red(v)[1]) * red(v)[2] + v.rx - red(v)[0], INV)))
    c.div_hint(lambda v: (v.ry, v.rx, v.inX))
    c.phi_inv("range x", lambda v, ks, x, x0: And(x >= 0, x <= v.inX))
    c.phi_inv("range y", lambda v, ks, x, x0: And(x >= 0, x <= v.inY))
    for n, f in enumerate((lambda v: v.rx, lambda v: v.ry)):
        c.phi_inv("lower%d" % n, (lambda f: lambda v, ks, x, x0: Implies(And(v.valid, v.o < ks[-1]), x <= f(v)))(f))
        c.phi_inv("upper%d" % n, (lambda f: lambda v, ks, x, x0: Implies(And(v.valid, v.o < ks[-1]), x >= f(v)))(f))

    def gen(rng):
        ix, iy, ox, oy = [rng.randint(1, 14), rng.randint(1, 14), rng.randint(0, 3), rng.randint(0, 3)]
        a, b = rng.randint(0, 9), rng.randint(0, 9)
        p = lambda n, s: rng.choice([rng.randint(4 * s, 4 * s + 24) / 4.0, rng.randint(-6, 4 * n + 6) / 4.0 if rng.random() < 0.3 else s + 1.0, float("nan") if rng.random() < 0.2 else 0.5 + s])
        return dict(inX=ix, inY=iy, outX=ox, outY=oy, px=[p(ix, a) for _ in range(ox * oy)], py=[p(iy, b) for _ in range(ox * oy)], cells=[0] * (ox * oy), red=[0] * 4)
    c.gen = gen
    return c


CONTRACTS += [mk_nn_create()]


from contracts import P01
import z3
from vf.sexec import FuncRef, FArr, B
UFN = z3.Function("sample.nan", z3.RealSort(), z3.BoolSort(), z3.RealSort(), z3.BoolSort(), z3.IntSort(), z3.BoolSort())
UFV = z3.Function("sample", z3.RealSort(), z3.BoolSort(), z3.RealSort(), z3.BoolSort(), z3.IntSort(), z3.RealSort())


def is_bool(x):
    return isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x))


class _P:
    pass


def mk_interp(name, spec, fn):
    c = Contract("cached_" + name, TU, "%s regridding of every level" % name, rel=1e-5)
    L = lambda v: v.outX * v.outY
    c.arr("px", "double", L).arr("py", "double", L)
    c.size("inX", lo=1, hi=60000).size("inY", lo=1, hi=60000).size("outX", hi=1 << 15).size("outY", hi=1 << 15)
    c.arr("in_", "float", lambda v: v.n)
    c.size("n", hi=1 << 60)
    c.arr("out", "float", lambda v: v.nz * L(v), out=True)
    c.arr("newSize", "size_t", lambda v: 1, out=True)
    c.size("nz", ghostparam=True, hi=1 << 16)
    c.requires(lambda v: v.n == v.nz * (v.inX * v.inY))
    c.div_hint(lambda v: (v.nz, 0, v.inX * v.inY))
    c.requires(lambda v: v.n < (1 << 31))
    c.ghost("o", lambda v: 0, L)
    c.ghost("z", lambda v: 0, lambda v: v.nz)

    def sample(v, x, y, z):
        if is_sym(v.inX):
            a = [x.val, B(x.nan), y.val, B(y.nan), z]
            return FV(UFN(*a), UFV(*a))
        p = _P()
        p.x, p.y, p.ix, p.iy, p.inf = x, y, v.inX, v.inY, v.in_
        return spec(p, z)
    want = lambda v, A: feq(A[v.z * L(v) + v.o], sample(v, v.px[v.o], v.py[v.o], v.z))
    c.ensures("as many values as target cells times levels", lambda v: v.newSize_[0] == v.nz * L(v))
    c.ensures("level z of target cell o is the sample of level z at its position", lambda v: want(v, v.out_))
    c.array_inv("cells before done", "heap:float", lambda v, ks, A, i: Implies(v.o < ks[0], want(v, A)) if len(ks) == 1 else None)
    c.array_inv("levels done", "heap:float", lambda v, ks, A, i: Implies(Or(v.o < ks[0], And(v.o == ks[0], v.z < ks[1])), want(v, A)) if len(ks) == 2 else None)
    c.array_inv("all done", "heap:float", lambda v, ks, A, i: want(v, A))
    c.inv("copied out", lambda v, ks: Implies(v.z * L(v) + v.o < ks[-1], want(v, v.out_)) if len(ks) == 1 else None)
    c.stride(lambda v: True, L)
    c.inv("lemma: own element", lambda v, ks: [Implies(And(v.z * L(v) + v.o == ks[1] * L(v) + ks[0], ks[0] >= 0, ks[0] < L(v)), And(v.z == ks[1], v.o == ks[0]))] if len(ks) == 2 else None)

    def callee(ex, st, args, ins):
        inf, out, x, y, ix, iy, iz = args
        vw = c.view(st)
        ex.require(st, "callee: the whole input field is handed over", z3.And(B(inf.obj is c.objs["in_"]), inf.off.term() == 0), "call")
        ex.require(st, "callee: field dimensions", z3.And(ix == vw.inX, iy == vw.inY, iz == vw.nz), "call")
        o = out.obj
        if o.kind == "heap":
            ex.materialize(st, o, ir_float())
        ex.require(st, "callee: room for all levels", z3.And(out.off.term() == 0, o.length >= iz), "call")
        ex.note_write(st, o)
        i = z3.Int("lam_i")
        old = ex.content(st, o)
        a = [x.val, B(x.nan), y.val, B(y.nan), i]
        inr = z3.And(i >= 0, i < iz)
        on = old.nan if old.nan is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
        st.mem[o.name] = FArr(z3.Lambda([i], z3.If(inr, UFN(*a), z3.Select(on, i))), z3.Lambda([i], z3.If(inr, UFV(*a), z3.Select(old.val, i))))
        return z3.IntVal(1)
    c.callees[fn] = callee

    def gen(rng):
        ix, iy, ox, oy, nz = [rng.randint(1, 6), rng.randint(1, 6), rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)]
        return dict(inX=ix, inY=iy, outX=ox, outY=oy, nz=nz, n=nz * ix * iy, in_=[rng.choice([rng.randint(-50, 50), rng.randint(-50, 50), float("nan") if rng.random() < 0.2 else 3]) for _ in range(nz * ix * iy)],
                    px=[rng.randint(-4, 4 * ix + 4) / 4.0 for _ in range(ox * oy)], py=[rng.randint(-4, 4 * iy + 4) / 4.0 for _ in range(ox * oy)], out=[-7] * (nz * ox * oy), newSize=[0])
    c.gen = gen
    return c


def ir_float():
    from vf import ir
    return ir.FLOAT


CONTRACTS += [mk_interp("bilinear", P01.bilinear, "mifi_get_values_bilinear_f"), mk_interp("bicubic", P01.bicubic, "mifi_get_values_bicubic_f")]


def mk_create():
    c = Contract("cached_create", TU, "positions moved to the reduced input grid")
    L = lambda v: v.outX * v.outY
    c.int("method", lo=-5, hi=50)
    c.arr("px", "double", L).arr("py", "double", L)
    c.size("inX", lo=1, hi=60000).size("inY", lo=1, hi=60000).size("outX", hi=1 << 20).size("outY", hi=1 << 20)
    c.arr("qx", "double", L, out=True).arr("qy", "double", L, out=True).arr("red", "size_t", lambda v: 4, out=True)
    c.ghost("o", lambda v: 0, L)
    c.throws(lambda v: And(v.method != 1, v.method != 2))
    X, Y = lambda v: v.px[v.o], lambda v: v.py[v.o]
    defd = lambda v: And(Not(isnan(X(v))), Not(isnan(Y(v))))
    red = lambda v: [v.red_[q] for q in range(4)]
    c.ensures("the reduced domain is part of the grid", lambda v: And(red(v)[0] >= 0, red(v)[1] >= 0, red(v)[2] >= 1, red(v)[3] >= 1, red(v)[0] + red(v)[2] <= v.inX, red(v)[1] + red(v)[3] <= v.inY))
    for n, (p, a, m, nm) in enumerate(((X, lambda v: v.inX, 0, "x"), (Y, lambda v: v.inY, 1, "y"))):
        fl = (lambda p: lambda v: floor(p(v)))(p)
        c.ensures("the reduced domain keeps the %s cells needed at position o" % nm,
                  (lambda fl, a, m: lambda v: Implies(defd(v), And(Or(red(v)[m] == 0, red(v)[m] <= fl(v) - 1, red(v)[m] == a(v) - 1), Or(red(v)[m] + red(v)[m + 2] == a(v), red(v)[m] + red(v)[m + 2] > fl(v) + 2, red(v)[m] + red(v)[m + 2] == 1))))(fl, a, m))
    qs = lambda v: [feq(v.qx_[v.o], X(v) - toreal(red(v)[0])), feq(v.qy_[v.o], Y(v) - toreal(red(v)[1]))]
    c.ensures("position in the reduced grid", lambda v: And(*qs(v)))
    c.inv("copied out", lambda v, ks: [Implies(v.o < ks[-1], x) for x in qs(v)])
    c.array_inv("moved x", "heap:double", lambda v, ks, A, i: feq(A[v.o], X(v) - toreal(red(v)[0])))
    c.array_inv("moved y", "heap:double", lambda v, ks, A, i: feq(A[v.o], Y(v) - toreal(red(v)[1])))
    isf = lambda x: isinstance(x, FV)
    for nm, f in (("x", X), ("y", Y)):
        c.phi_inv("least " + nm, (lambda f: lambda v, ks, x, x0: Implies(And(defd(v), v.o < ks[-1]), x <= f(v)) if isf(x) else None)(f))
        c.phi_inv("largest " + nm, (lambda f: lambda v, ks, x, x0: Implies(And(defd(v), v.o < ks[-1]), x >= f(v)) if isf(x) else None)(f))
        c.live_inv("moving " + nm, "heap:double", [lambda v, x: And(x >= 0, x <= 60000)], (lambda f: lambda v, ks, A, x: Implies(v.o < ks[-1], feq(A[v.o], f(v) - toreal(x))))(f))
    c.multi_inv("ordered", -2, lambda v, ks, a, b: a <= b)
    c.phi_inv("found", lambda v, ks, x, x0: Implies(And(defd(v), v.o < ks[-1]), x) if is_bool(x) else (Implies(And(defd(v), v.o < ks[-1]), x == 1) if not isf(x) else None))

    def gen(rng):
        ix, iy, ox, oy = [rng.randint(1, 14), rng.randint(1, 14), rng.randint(0, 3), rng.randint(0, 3)]
        a, b = rng.randint(0, 9), rng.randint(0, 9)
        p = lambda n, s: rng.choice([rng.randint(4 * s, 4 * s + 24) / 4.0, rng.randint(-6, 4 * n + 6) / 4.0 if rng.random() < 0.3 else s + 1.0, float("nan") if rng.random() < 0.2 else 0.5 + s, 1e30 if rng.random() < 0.05 else s])
        return dict(method=rng.choice([1, 2, 1, 2, 0, 3]), inX=ix, inY=iy, outX=ox, outY=oy, px=[p(ix, a) for _ in range(ox * oy)], py=[p(iy, b) for _ in range(ox * oy)], qx=[0] * (ox * oy), qy=[0] * (ox * oy), red=[0] * 4)
    c.gen = gen
    return c


CONTRACTS += [mk_create()]

BOUNDED = [Program("regridding", "fields up to 16x16x3x2 on grids up to 4x4, 4000 random cases", "cached.cc", 4000)]
TRUSTED = ["the sampling kernels are used by their contracts of P01", "OpenMP pragmas are ignored: iterations of the parallel loop write disjoint elements"]
