"""Position of a coordinate on a monotone axis; names of the interpolation methods are in P08."""
from vf.spec import *
TU = "interpolation.c"

before = lambda asc: (lambda a, b: a < b) if asc else (lambda a, b: a > b)


def mk_bsearch(asc):
    lt = before(asc)
    c = Contract("bsearchDoubleIndex", TU, "binary search on a %s axis" % ("ascending" if asc else "descending"), ret="int", variant="asc" if asc else "desc")
    c.flt("key", nonan=True).arr("base", "double", lambda v: v.num, nonan=True).int("num", lo=1, hi=1 << 30)
    c.fnptr("cmp", "ascendingDoubleComparator" if asc else "descendingDoubleComparator")
    c.ghost("m", lambda v: 0, lambda v: v.num)
    c.requires_elem("base", lambda v, i: And(Implies(v.m < i, lt(v.base[v.m], v.base[i])), Implies(i < v.m, lt(v.base[i], v.base[v.m]))))
    c.inv("right part", lambda v, ks: None)
    c.phi_inv("lower bound", lambda v, ks, x, x0: And(x >= 0, x <= v.num))
    c.phi_inv("upper bound", lambda v, ks, x, x0: And(x >= -1, x < v.num))
    c.phi_inv("tri", lambda v, ks, x, x0: And(x >= -1, x <= 1))
    c.phi_inv("all before are smaller", lambda v, ks, x, x0: And(x >= 0, x <= v.num, Implies(v.m < x, lt(v.base[v.m], v.key))))
    c.phi_inv("all behind are larger", lambda v, ks, x, x0: And(x >= -1, x < v.num, Implies(v.m > x, lt(v.key, v.base[v.m]))))
    c.phi_inv("before smaller", lambda v, ks, x, x0: Implies(And(x > 0, x <= v.num), lt(v.base[x - 1], v.key)))
    c.phi_inv("behind larger", lambda v, ks, x, x0: Implies(And(x >= -1, x < v.num - 1), lt(v.key, v.base[x + 1])))
    c.multi_inv("moved right", 3, lambda v, ks, f, p, cm: Implies(cm > 0, f == p + 1))
    c.multi_inv("moved left", 3, lambda v, ks, l, p, cm: Implies(cm < 0, l == p - 1))
    c.multi_inv("no gap", 2, lambda v, ks, f, l: f <= l + 1)
    c.multi_inv("started", 1, lambda v, ks, x: Implies(ks[-1] > 0, x != 0))
    c.ensures("a hit is the index of the key", lambda v: Implies(v.ret >= 0, And(v.ret < v.num, Ite(Not(is_sym(v.ret)), v.base[v.ret] == v.key, v.base[v.ret] == v.key))))
    c.ensures("a miss is the insertion point", lambda v: Implies(v.ret < 0, And(-(v.ret + 1) <= v.num, Implies(v.m < -(v.ret + 1), lt(v.base[v.m], v.key)), Implies(v.m >= -(v.ret + 1), lt(v.key, v.base[v.m])))))

    def gen(rng):
        n = rng.randint(1, 9)
        a = sorted(rng.sample(range(-40, 40), n), reverse=not asc)
        return dict(key=rng.choice(a + [rng.randint(-42, 42), rng.randint(-84, 84) / 2.0]), base=[float(x) for x in a], num=n)
    c.gen = gen
    return c


LON = 1


def wrapped(v, p):
    neg = Or(v.axis[0] < 0, v.axis[v.num - 1] < 0)
    return Ite(And(v.type == LON, neg), Ite(p > 180, p - 360, p), Ite(v.type == LON, Ite(p < 0, p + 360, p), p))


def circular(v):
    nxt = v.axis[v.num - 1] + (v.axis[1] - v.axis[0]) * 1.01
    return And(v.type == LON, Ite(v.axis[0] < v.axis[v.num - 1], nxt - 360 >= v.axis[0], nxt + 360 <= v.axis[0]))


def position(v, p, m):
    """position of p on the axis, if it belongs to interval m (extrapolated in the first and last interval)"""
    q = (p - v.axis[m]) / (v.axis[m + 1] - v.axis[m]) + toreal(m)
    n = toreal(v.num)
    q1 = Ite(And(circular(v), q <= -0.5), q + n, q)
    return Ite(And(circular(v), q1 > n - 0.5), q1 - n, q1)


def belongs(v, p, m):
    asc = v.axis[0] < v.axis[v.num - 1]
    lt = lambda a, b: Ite(asc, a < b, a > b)
    return And(Or(m == 0, lt(v.axis[m], p)), Or(m == v.num - 2, lt(p, v.axis[m + 1])))


def mk_p2p(asc):
    lt = before(asc)
    c = Contract("mifi_points2position", TU, "fractional axis positions, %s axis" % ("ascending" if asc else "descending"), ret="int", variant="asc" if asc else "desc", noinline=["bsearchDoubleIndex"])
    c.arr("pts", "double", lambda v: v.n, out=True).int("n", lo=0, hi=1 << 30).arr("axis", "double", lambda v: v.num, nonan=True).int("num", lo=2, hi=1 << 30).int("type")
    def mono(v, i, t):
        return And(Implies(t < i, lt(v.axis[t], v.axis[i])), Implies(i < t, lt(v.axis[i], v.axis[t])))
    c.requires_elem("axis", lambda v, i: And(mono(v, i, v.m), mono(v, i, v.m + 1), mono(v, i, 0), mono(v, i, v.num - 1)))
    c.requires(lambda v: [lt(v.axis[0], v.axis[v.num - 1]), lt(v.axis[0], v.axis[1]), lt(v.axis[v.m], v.axis[v.m + 1])])
    c.requires(lambda v: isfinite(v.axis[0]))
    # infinite points are covered by the concrete runs only (the proof's reals have no infinity arithmetic)
    c.requires(lambda v: Or(isnan(v.pts[v.j]), isfinite(v.pts[v.j])) if is_sym(v.n) else True)
    c.requires(lambda v: And(isfinite(v.axis[v.m]), isfinite(v.axis[v.m + 1])))
    c.ghost("j", lambda v: 0, lambda v: v.n)
    c.ghost("m", lambda v: 0, lambda v: v.num - 1)
    # state of point j while the loops run: untouched, wrapped or converted
    c.define("W", lambda v: wrapped(v, v.pts[v.j]))
    c.define("HIT", lambda v: And(isfinite(v.W), Or(v.W == v.axis[v.m], v.W == v.axis[v.m + 1])))
    c.define("BEL", lambda v: And(isfinite(v.W), belongs(v, v.W, v.m)))
    c.define("POS", lambda v: position(v, v.W, v.m))

    def result(v):
        r = v.pts_[v.j]
        return [Implies(Not(isfinite(v.W)), feq(r, -999.0)),
                Implies(And(isfinite(v.W), v.W == v.axis[v.m]), feq(r, toreal(v.m))),
                Implies(And(isfinite(v.W), v.W == v.axis[v.m + 1]), feq(r, toreal(v.m + 1))),
                Implies(And(v.BEL, Not(v.HIT)), feq(r, v.POS))]
    c.inv("wrapping", lambda v, ks: feq(v.pts_[v.j], Ite(v.j < ks[-1], v.W, v.pts[v.j])))
    c.inv("converted so far", lambda v, ks: [Implies(v.j < ks[-1], x) for x in result(v)])
    c.inv("not yet converted", lambda v, ks: Implies(v.j >= ks[-1], feq(v.pts_[v.j], v.W)))
    for n, what in enumerate(("undefined point is far outside", "axis value m has position m", "axis value m+1 has position m+1", "position between m and m+1")):
        c.ensures(what, (lambda n: lambda v: result(v)[n])(n))

    def bs(ex, st, args, ins):
        key, base, num = args[0], args[1], args[2]
        vw = c.view(st)
        o = base.obj
        ex.require(st, "callee bsearch: called on the whole axis", z3.And(B(o is c.objs["axis"]), base.off.term() == 0, num == vw.num), "call")
        fn = args[3].obj.name if isinstance(args[3].obj, FuncRef) else None
        ex.require(st, "callee bsearch: comparator fits the axis", fn == ("ascendingDoubleComparator" if asc else "descendingDoubleComparator"), "call")
        ex.require(st, "callee bsearch: defined key", bnot(key.nan), "call")
        r = ex.fresh_int("bs", 32, st)
        q = -(r + 1)
        i = z3.Int("qb")
        ax = vw.axis
        for t in (r, q, q - 1):
            st.pc.append(z3.Implies(z3.And(t >= 0, t < num), z3.And(*[B(mono(vw, t, x)) for x in (vw.m, vw.m + 1, z3.IntVal(0), vw.num - 1)])))
        st.pc.append(z3.Implies(r >= 0, z3.And(r < num, ax[r].val == key.val)))
        st.pc.append(z3.Implies(r < 0, z3.And(q <= num, z3.Implies(q > 0, B(lt(ax[q - 1], key))), z3.Implies(q < num, B(lt(key, ax[q]))))))
        for t in (vw.m, vw.m + 1, z3.IntVal(0), vw.num - 1, vw.num - 2):
            st.pc.append(z3.Implies(z3.And(r < 0, t >= 0, t < num), z3.And(z3.Implies(t < q, B(lt(ax[t], key))), z3.Implies(t >= q, B(lt(key, ax[t]))))))
        return r
    c.callees["bsearchDoubleIndex"] = bs

    def gen(rng):
        n = rng.randint(2, 7)
        if rng.random() < 0.5:
            a = sorted(rng.sample(range(-20, 20), n))
            a = [float(x) for x in a]
            ty = rng.choice([0, 2, 1])
        else:
            step = rng.choice([90.0, 60.0, 120.0, 45.0, 30.0])
            n = rng.choice([int(360 / step), max(2, int(360 / step) - 1)])
            s = rng.choice([0.0, -180.0, -180.0 + step, 10.0, -90.0])
            a = [s + step * i for i in range(n)]
            ty = 1
        if not asc:
            a = a[::-1]
        n = len(a)
        np_ = rng.randint(0, 5)

        def pt():
            k = rng.random()
            if k < 0.1:
                return rng.choice([float("nan"), float("inf"), -float("inf")])
            if k < 0.4:
                return rng.choice(a)
            if ty == 1:
                return rng.randint(-1600, 3200) / 8.0
            return rng.randint(-250, 250) / 8.0
        return dict(pts=[pt() for _ in range(np_)], n=np_, axis=a, num=n, type=ty)
    c.gen = gen
    c.opts["rel"] = 1e-9
    return c


def mk_p2p1():
    c = Contract("mifi_points2position", TU, "axis with a single value", ret="int", variant="single", noinline=["bsearchDoubleIndex"])
    c.arr("pts", "double", lambda v: v.n, out=True).int("n", lo=0, hi=1 << 30).arr("axis", "double", lambda v: v.num, nonan=True).int("num", lo=1, hi=1).int("type")
    c.requires(lambda v: isfinite(v.axis[0]))
    c.ghost("j", lambda v: 0, lambda v: v.n)
    c.requires(lambda v: Or(isnan(v.pts[v.j]), isfinite(v.pts[v.j])) if is_sym(v.n) else True)
    c.define("W", lambda v: wrapped(v, v.pts[v.j]))

    def result(v):
        return feq(v.pts_[v.j], Ite(And(isfinite(v.W), v.W == v.axis[0]), 0.0, -999.0))
    c.inv("wrapping", lambda v, ks: feq(v.pts_[v.j], Ite(v.j < ks[-1], v.W, v.pts[v.j])))
    c.inv("converted so far", lambda v, ks: Implies(v.j < ks[-1], result(v)))
    c.inv("not yet converted", lambda v, ks: Implies(v.j >= ks[-1], feq(v.pts_[v.j], v.W)))
    c.ensures("only the axis value itself is inside", result)

    def bs(ex, st, args, ins):
        key, base, num = args[0], args[1], args[2]
        vw = c.view(st)
        ex.require(st, "callee bsearch: called on the whole axis", z3.And(B(base.obj is c.objs["axis"]), base.off.term() == 0, num == vw.num), "call")
        ex.require(st, "callee bsearch: defined key", bnot(key.nan), "call")
        r = ex.fresh_int("bs", 32, st)
        st.pc.append(z3.Implies(r >= 0, z3.And(r < num, vw.axis[r].val == key.val)))
        st.pc.append(z3.Implies(r < 0, z3.And(-(r + 1) <= num, vw.axis[0].val != key.val)))
        return r
    c.callees["bsearchDoubleIndex"] = bs

    def gen(rng):
        a = rng.choice([0.0, 10.0, -170.0, 350.0])
        n = rng.randint(0, 4)
        return dict(pts=[rng.choice([a, a + 360, a - 360, 3.0, float("nan"), float("inf")]) for _ in range(n)], n=n, axis=[a], num=1, type=rng.choice([0, 1, 2]))
    c.gen = gen
    return c


CONTRACTS = [mk_p2p1(), mk_bsearch(True), mk_bsearch(False), mk_p2p(True), mk_p2p(False)]
