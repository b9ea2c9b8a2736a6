"""Rotation of vectors and directions."""
from vf.spec import *
from contracts.P11 import tor

TU = "shim:rotate.cc"
NATIVE = {TU: {"link": True}}


def base(c):
    c.size("nz", ghostparam=True, hi=1 << 16)
    c.requires(lambda v: [v.n == v.nz * (v.nx * v.ny), v.nx * v.ny < 1 << 31])
    c.div_hint(lambda v: (v.nz, 0, v.nx * v.ny))
    c.ghost("o", lambda v: 0, lambda v: v.nx * v.ny)
    c.ghost("z", lambda v: 0, lambda v: v.nz)
    c.define("J", lambda v: v.z * (v.nx * v.ny) + v.o)


before = lambda v, ks: v.z < ks[0] if len(ks) == 1 else Or(v.z < ks[0], And(v.z == ks[0], v.o < ks[1]))


def mkvalues():
    c = Contract("rotate_values", TU, "rotation of vector components by the angle of their cell", rel=1e-5)
    c.arr("m", "double", lambda v: 3 * (v.nx * v.ny)).int("nx", lo=1, hi=1 << 20).int("ny", lo=1, hi=1 << 20)
    c.arr("u", "float", lambda v: v.n, out=True).arr("v", "float", lambda v: v.n, out=True).size("n", hi=1 << 50)
    base(c)
    C, S = lambda v: v.m[3 * v.o], lambda v: v.m[3 * v.o + 1]
    sc = lambda v: None if is_sym(v.u[v.J]) else [abs(v.u[v.J]), abs(v.v[v.J])]
    wu = lambda v: v.u[v.J] * C(v) - v.v[v.J] * S(v)
    wv = lambda v: v.u[v.J] * S(v) + v.v[v.J] * C(v)
    c.inv("cells done", lambda v, ks: Ite(before(v, ks), And(feq(v.u_[v.J], wu(v)), feq(v.v_[v.J], wv(v))), And(fsame(v.u_[v.J], v.u[v.J]), fsame(v.v_[v.J], v.v[v.J]))) if len(ks) <= 2 else None)
    c.ensures("first component", lambda v: feq(v.u_[v.J], wu(v), scale=sc(v)))
    c.ensures("second component", lambda v: feq(v.v_[v.J], wv(v), scale=sc(v)))

    def gen(rng):
        import math
        nx, ny, nz = rng.randint(1, 4), rng.randint(1, 4), rng.randint(0, 3)
        m = []
        for i in range(nx * ny):
            p = rng.randint(-180, 360) * math.pi / 180
            m += [math.cos(p), math.sin(p), p * 180 / math.pi]
        f = lambda: [rng.choice([rng.randint(-40, 40) / 2, float("nan")]) if rng.random() < .2 else rng.randint(-40, 40) / 2 for _ in range(nx * ny * nz)]
        return dict(m=m, nx=nx, ny=ny, nz=nz, n=nx * ny * nz, u=f(), v=f())
    c.gen = gen
    return c


def mkdir():
    c = Contract("rotate_directions", TU, "directions turned by the angle of their cell, within 0 to 360 degrees", abstol=1e-3)
    c.arr("m", "double", lambda v: 3 * (v.nx * v.ny)).int("nx", lo=1, hi=1 << 20).int("ny", lo=1, hi=1 << 20)
    c.arr("a", "float", lambda v: v.n, out=True).size("n", hi=1 << 50)
    base(c)
    A, M = lambda v: v.a[v.J], lambda v: v.m[3 * v.o + 2]
    c.requires(lambda v: Or(isnan(A(v)), And(A(v) >= -720, A(v) <= 720)))
    c.requires(lambda v: Or(isnan(M(v)), And(M(v) >= -720, M(v) <= 720)))
    turned = lambda v, x: Ite(Or(isnan(A(v)), isnan(M(v))), isnan(x), And(x >= 0, x <= 360, Or(*[feq(x, A(v) - M(v) + 360.0 * k) for k in range(-4, 5)])))
    c.inv("cells done", lambda v, ks: Ite(before(v, ks), turned(v, v.a_[v.J]), fsame(v.a_[v.J], v.a[v.J])) if len(ks) <= 2 else None)
    c.ensures("turned by the angle of the cell, between 0 and 360", lambda v: turned(v, v.a_[v.J]))

    def gen(rng):
        nx, ny, nz = rng.randint(1, 4), rng.randint(1, 4), rng.randint(0, 3)
        m = []
        for i in range(nx * ny):
            m += [rng.random(), rng.random(), rng.choice([float(rng.randint(-270, 450)), 360.0, 0.0, -180.0, 360.5])]
        return dict(m=m, nx=nx, ny=ny, nz=nz, n=nx * ny * nz, a=[float(rng.choice([rng.randint(-180, 720), 0, 360, float("nan")])) for _ in range(nx * ny * nz)])
    c.gen = gen
    return c



PI = 3.14159265358979323846
RR, BB = z3.RealSort(), z3.BoolSort()
PX, PY = z3.Function("projX", RR, RR, RR), z3.Function("projY", RR, RR, RR)
PN = z3.Function("projUndef", RR, RR, BB)
IX, IY = z3.Function("invprojX", RR, RR, RR), z3.Function("invprojY", RR, RR, RR)
IN = z3.Function("invprojUndef", RR, RR, BB)
ARGS = lambda a, b: (a.val, b.val)


def proj_trans_generic(ex, st, args, ins):
    """assumed contract of proj: every point is transformed by itself, all of them or an error is reported"""
    pj, direction, x, sx, nx, y, sy, ny = args[:8]
    from vf.sexec import FArr, Unsupported
    ex.require(st, "callee: consecutive values", z3.And(sx == 8, sy == 8, nx == ny), "call")
    for p in (x, y):
        if p.obj.kind == "heap":
            ex.materialize(st, p.obj, ir_double())
        ex.require(st, "callee: room for all points", z3.And(p.off.term() == 0, p.obj.length >= nx), "call")
        ex.note_write(st, p.obj)
    i = z3.Int("lam_p")
    inr = z3.And(i >= 0, i < nx)
    ox, oy = ex.content(st, x.obj), ex.content(st, y.obj)
    nan = lambda A: A.nan if A.nan is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
    a = (z3.Select(ox.val, i), z3.Select(oy.val, i))
    fw = z3.simplify(direction == 1)
    if not (z3.is_true(fw) or z3.is_true(z3.simplify(direction == -1))):
        raise Unsupported("direction of proj_trans_generic")
    fx, fy, fn = (PX, PY, PN) if z3.is_true(fw) else (IX, IY, IN)
    nn = z3.Or(z3.Select(nan(ox), i), z3.Select(nan(oy), i), fn(*a))
    for p, old, f in ((x, ox, fx), (y, oy, fy)):
        st.mem[p.obj.name] = FArr(z3.Lambda([i], z3.If(inr, nn, z3.Select(nan(old), i))), z3.Lambda([i], z3.If(inr, f(*a), z3.Select(old.val, i))))
    return nx


def ir_double():
    from vf import ir
    return ir.DOUBLE


def proj(x, y):
    nn = bor(x.nan, y.nan, PN(x.val, y.val))
    return FV(nn, PX(x.val, y.val)), FV(nn, PY(x.val, y.val))


def invproj(x, y):
    nn = bor(x.nan, y.nan, IN(x.val, y.val))
    return FV(nn, IX(x.val, y.val)), FV(nn, IY(x.val, y.val))


ANON = "_ZN10MetNoFimex9reproject12_GLOBAL__N_1"
MAKE = ANON + "7make_PJERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_"
FAIL = ANON + "16throw_proj_errorEi"


def make_PJ(ex, st, args, ins):
    """assumed: proj knows both projections; the transformation itself is opaque"""
    from vf import ir
    from vf.sexec import Ptr
    for o in (0, 8):
        ex.store(st, Ptr(args[0].obj, args[0].off + o), ir.PTR, Ptr(None, 0))
    return None


def byname(c):
    c.callees["proj_trans_generic"] = proj_trans_generic
    c.callees[MAKE] = make_PJ
    c.callees[FAIL] = lambda ex, st, args, ins: ("throw",)
    c.callees["proj_errno"] = c.callees["proj_degree_input"] = c.callees["proj_degree_output"] = lambda ex, st, args, ins: ex.fresh_int("pj", 32, st)
    return c


def mkdelta():
    c = Contract("rotation_delta", TU, "rotation angle of each cell from a small step along the axes", native=None)
    n = lambda v: v.ox * v.oy
    c.int("latlon", "bool", lo=0, hi=1)
    for k in ("inx", "iny", "outx", "outy"):
        c.arr(k, "double", n)
    c.flt("dx", nonan=True).flt("dy", nonan=True).int("ox", lo=1, hi=1 << 14).int("oy", lo=1, hi=1 << 14).arr("m", "double", lambda v: 3 * n(v), out=True)
    c.ghost("o", lambda v: 0, n)
    c.callees["proj_trans_generic"] = proj_trans_generic
    rotation(c, lambda v: v.dx, lambda v: v.dy)
    return c


def rotation(c, DX, DY, X=lambda v: v.inx[v.o], Y=lambda v: v.iny[v.o], OX=lambda v: v.outx[v.o], OY=lambda v: v.outy[v.o], LL=lambda v: v.latlon == 1):
    add = lambda d: Ite(d > 0, 0.0, PI)
    DEG = PI / 180
    RAD = 180 / PI

    def bearing(la0, lo0, la1, lo1):
        la0, lo0, la1, lo1 = la0 * DEG, lo0 * DEG, la1 * DEG, lo1 * DEG
        d = lo0 - lo1
        return atan2(sin(d) * cos(la1), cos(la0) * sin(la1) - sin(la0) * cos(la1) * cos(d))

    def phix(v):
        x1, y1 = proj(X(v) + DX(v), Y(v))
        return atan2(y1 - OY(v), x1 - OX(v)) + add(DX(v))

    def phi(v):
        x1, y1 = proj(X(v), Y(v) + DY(v))
        py = 0 - atan2(x1 - OX(v), y1 - OY(v)) + add(DY(v))
        px = phix(v)
        d = py - px
        q = z3.Function("m_quot_remainder", RR, RR, z3.IntSort())(d.val, tofv(2 * PI).val)
        av = px + FV(d.nan, d.val - z3.ToReal(q) * tofv(2 * PI).val) / 2.0
        return Ite(LL(v), bearing(OY(v), OX(v), y1, x1) + add(DY(v)), av)
    done = lambda v, A: And(feq(A[3 * v.o], cos(phi(v))), feq(A[3 * v.o + 1], sin(phi(v))), feq(A[3 * v.o + 2], RAD * phi(v)))
    k = lambda ks: ks[-1]
    for nm, f in (("x+dx", lambda v: X(v) + DX(v)), ("y", Y), ("x", X), ("y+dy", lambda v: Y(v) + DY(v))):
        c.array_inv("step " + nm, "heap:double", (lambda f: lambda v, ks, A, i: Implies(v.o < ks[-1], feq(A[v.o], f(v))))(f))
    c.array_inv("angle of the x axis", "heap:double", lambda v, ks, A, i: Implies(v.o < ks[-1], feq(A[3 * v.o], phix(v))))
    c.array_inv("rotations so far", "heap:double", lambda v, ks, A, i: Ite(v.o < ks[-1], done(v, A), Or(LL(v), feq(A[3 * v.o], phix(v)))))
    c.inv("copied out", lambda v, ks: [Implies(3 * v.o + j < ks[-1], feq(v.m_[3 * v.o + j], w(v))) for j, w in ((0, lambda v: cos(phi(v))), (1, lambda v: sin(phi(v))), (2, lambda v: RAD * phi(v)))])
    c.ensures("cosine, sine and angle in degrees of the cell's rotation", lambda v: done(v, v.m_))


def mkgrid():
    c = Contract("rotation_grid", TU, "choice of the step: no cell outside the grid is read", native=None)
    n = lambda v: v.ox * v.oy
    c.int("latlon", "bool", lo=0, hi=1)
    for k in ("inx", "iny", "outx", "outy"):
        c.arr(k, "double", n)
    c.int("ox", lo=1, hi=1 << 14).int("oy", lo=1, hi=1 << 14).arr("m", "double", lambda v: 3 * n(v), out=True)
    c.callees["proj_trans_generic"] = proj_trans_generic
    return c


NOINL = [MAKE, FAIL]


def mkpoints():
    c = byname(Contract("points", TU, "points in another projection, each by itself", native=None, noinline=NOINL))
    c.arr("px", "double", lambda v: v.n, out=True).arr("py", "double", lambda v: v.n, out=True).int("n", lo=0, hi=1 << 28)
    c.ghost("o", lambda v: 0, lambda v: v.n)
    c.ensures("the point in the other projection", lambda v: And(feq(v.px_[v.o], proj(v.px[v.o], v.py[v.o])[0]), feq(v.py_[v.o], proj(v.px[v.o], v.py[v.o])[1])))
    return c


def mkgridpoints():
    c = byname(Contract("grid_points", TU, "points of a grid in another projection", native=None, noinline=NOINL))
    n = lambda v: v.ix * v.iy
    c.arr("xa", "double", lambda v: v.ix).arr("ya", "double", lambda v: v.iy).int("ix", lo=1, hi=1 << 14).int("iy", lo=1, hi=1 << 14)
    c.arr("px", "double", n, out=True).arr("py", "double", n, out=True)
    c.ghost("x", lambda v: 0, lambda v: v.ix).ghost("y", lambda v: 0, lambda v: v.iy)
    c.define("O", lambda v: v.y * v.ix + v.x)
    c.stride(lambda v: True, lambda v: v.ix)
    done = lambda v, ks: v.y < ks[0] if len(ks) == 1 else Or(v.y < ks[0], And(v.y == ks[0], v.x < ks[1]))
    c.inv("cells filled", lambda v, ks: Implies(done(v, ks), And(feq(v.px_[v.O], v.xa[v.x]), feq(v.py_[v.O], v.ya[v.y]))) if len(ks) <= 2 else None)
    for j in (0, 1):
        c.ensures("%s of the cell in the other projection" % "xy"[j], (lambda j: lambda v: feq((v.px_, v.py_)[j][v.O], proj(v.xa[v.x], v.ya[v.y])[j]))(j))
    return c


DELTA = ANON + "45get_vector_reproject_matrix_points_proj_deltaERNS1_7crs2crsEPKdS5_S5_S5_ddii"
GRID = ANON + "32get_vector_reproject_matrix_projERNS1_7crs2crsEPKdS5_S5_S5_ii"


def finish(c, name, fields, step, at=lambda v: v.o):
    """the calculation is completed by a function under contract: the values it is called with are obligations here"""
    def h(ex, st, args, ins):
        from vf import ir
        from vf.sexec import Ptr, IArr
        v = c.view(st)
        ptrs = args[2:6]
        ex.require(st, "callee: size of the grid", z3.And(args[-2] == v.ox, args[-1] == v.oy), "call")
        for p, (nm, f) in zip(ptrs, fields):
            if p.obj.kind == "heap":
                ex.materialize(st, p.obj, ir_double())
            ex.require(st, "callee: %s for all cells" % nm, z3.And(p.off.term() == 0, p.obj.length >= v.ox * v.oy), "call")
            got = ex.load(st, Ptr(p.obj, p.off + ex_lin(at(v)).scale(8)), ir.DOUBLE)
            ex.require(st, "callee: " + nm, feq(got, f(v)), "call")
        if step is not None:
            for nm, a in (("step along x", args[6]), ("step along y", args[7])):
                ex.require(st, "callee: " + nm, feq(a, step(v)), "call")
        for o in (0, 8):
            ex.store(st, Ptr(args[0].obj, args[0].off + o), ir.PTR, Ptr(None, 0))
        st.mem["done"] = IArr(z3.K(z3.IntSort(), z3.IntVal(1)))
        return None
    c.callees[name] = h
    c.arr("done", "int", lambda v: 1, out=True)
    c.requires(lambda v: v.done[0] == 0)
    c.ensures("calculated by the function under contract", lambda v: v.done_[0] == 1)


def ex_lin(t):
    from vf.sexec import Lin
    return Lin.of(t)


def cells(c):
    c.ghost("o", lambda v: 0, lambda v: v.ox * v.oy)


def size(c):
    return c.int("ox", lo=1, hi=1 << 14).int("oy", lo=1, hi=1 << 14)


def mkrotpoints():
    c = byname(Contract("rotation_points", TU, "rotation at points of the new projection: step at the same points of the old one", native=None, noinline=NOINL + [DELTA]))
    n = lambda v: v.ox * v.oy
    c.int("metric", "bool", lo=0, hi=1)
    size(c.arr("outx", "double", n).arr("outy", "double", n))
    cells(c)
    P = lambda v: invproj(v.outx[v.o], v.outy[v.o])
    finish(c, DELTA, [("x of the old projection", lambda v: P(v)[0]), ("y of the old projection", lambda v: P(v)[1]), ("x", lambda v: v.outx[v.o]), ("y", lambda v: v.outy[v.o])],
           lambda v: Ite(v.metric == 1, 100.0, 0.00001))
    return c


def mkrotfield():
    c = byname(Contract("rotation_field", TU, "rotation at points of the old projection: compared with the same points of the new one", native=None, noinline=NOINL + [GRID]))
    n = lambda v: v.ox * v.oy
    size(c.arr("inx", "double", n).arr("iny", "double", n))
    cells(c)
    P = lambda v: proj(v.inx[v.o], v.iny[v.o])
    finish(c, GRID, [("x", lambda v: v.inx[v.o]), ("y", lambda v: v.iny[v.o]), ("x of the new projection", lambda v: P(v)[0]), ("y of the new projection", lambda v: P(v)[1])], None)
    return c


def mkrotaxes():
    c = byname(Contract("rotation_axes", TU, "rotation on a grid of the new projection: each cell with its place in the old one", native=None, noinline=NOINL + [GRID]))
    size(c.arr("xa", "double", lambda v: v.ox).arr("ya", "double", lambda v: v.oy))
    c.ghost("x", lambda v: 0, lambda v: v.ox).ghost("y", lambda v: 0, lambda v: v.oy)
    c.define("O", lambda v: v.y * v.ox + v.x)
    c.stride(lambda v: True, lambda v: v.ox)
    done = lambda v, ks: v.y < ks[0] if len(ks) == 1 else Or(v.y < ks[0], And(v.y == ks[0], v.x < ks[1]))
    c.array_inv("x of the cells", "heap:double", lambda v, ks, A, i: Implies(done(v, ks), feq(A[v.O], v.xa[v.x])) if len(ks) <= 2 else None)
    c.array_inv("y of the cells", "heap:double", lambda v, ks, A, i: Implies(done(v, ks), feq(A[v.O], v.ya[v.y])) if len(ks) <= 2 else None)
    P = lambda v: invproj(v.xa[v.x], v.ya[v.y])
    finish(c, GRID, [("x of the old projection", lambda v: P(v)[0]), ("y of the old projection", lambda v: P(v)[1]), ("x", lambda v: v.xa[v.x]), ("y", lambda v: v.ya[v.y])], None, at=lambda v: v.O)
    return c


def mkstep():
    c = Contract("rotation_step", TU, "step along the axes: about a thousandth of the distance of the cells", native=None, noinline=NOINL + [DELTA])
    n = lambda v: v.ox * v.oy
    for k in ("inx", "iny", "outx", "outy"):
        c.arr(k, "double", n)
    size(c)
    cells(c)

    def step(v):
        X = v.inx
        d = lambda a, b: (X[a] - X[b]) * 1e-3
        y2, x2 = (v.oy - 1) / 2, (v.ox - 1) / 2
        w = v.ox
        big = (d(w + 1, 0) + d((y2 + 1) * w + (x2 + 1), y2 * w + x2)) / 2.0
        r = Ite(v.ox > 1, Ite(v.oy > 1, big, d(1, 0)), Ite(v.oy > 1, d(w, 0), Ite(X[0] > 1, X[0] * 1e-3, 1e-3)))
        return Ite(fabs(r) < 1e-9, 1e-3, r)
    f = lambda k: lambda v: getattr(v, k)[v.o]
    finish(c, DELTA, [(k, f(k)) for k in ("inx", "iny", "outx", "outy")], step)
    return c


CONTRACTS = [mkvalues(), mkdir(), mkdelta(), mkpoints(), mkgridpoints(), mkrotpoints(), mkrotfield(), mkrotaxes(), mkstep()]
BOUNDED = [Program("rotation", "random pairs of five projections, grids up to 5x5, winds rotated by the processor, 700 random cases", "rotate.cc", 700)]
TRUSTED = ["proj (proj_trans_generic) transforms each point by itself or reports an error", "proj knows both projections (make_PJ is replaced by an opaque transformation); whether they are angular is left open"]
