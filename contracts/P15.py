"""Accumulation and deaccumulation along the unlimited dimension."""
from vf.spec import *
from contracts.common import nan2bad

TU = "shim:accumulate.cc"
NATIVE = {TU: {"link": True}}


def mk():
    c = Contract("accumulate_step", TU, "sum of two steps of packed data")
    c.arr("d", "double", lambda v: v.n).arr("dp", "double", lambda v: v.n).size("n", hi=1 << 40).int("first", "bool", lo=0, hi=1)
    c.flt("fill").flt("zero", nonan=True).arr("out", "double", lambda v: v.n, out=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    undef = lambda v, x: Or(isnan(x), x == v.fill)

    def spec(v, o):
        a, b = v.d[v.j], v.dp[v.j]
        un = Or(undef(v, a), And(v.first == 0, undef(v, b)))
        bb = Ite(undef(v, b), v.zero, b)
        return Ite(un, Or(isnan(o), o == v.fill), feq(o, a + bb - v.zero))
    c.array_inv("added so far", "heap:double", lambda v, ks, A, i: Ite(v.j < ks[-1], spec(v, A[v.j]), feq(A[v.j], Ite(v.d[v.j] == v.fill, float("nan"), v.d[v.j]))))
    c.array_inv("undefined copy", "heap:double", lambda v, ks, A, i: Implies(v.j < ks[-1], feq(A[v.j], Ite(v.d[v.j] == v.fill, float("nan"), v.d[v.j]))))
    c.array_inv("undefined copy 2", "heap:double", lambda v, ks, A, i: Implies(v.j < ks[-1], feq(A[v.j], Ite(v.dp[v.j] == v.fill, float("nan"), v.dp[v.j]))))
    c.array_inv("zero for undefined", "heap:double", lambda v, ks, A, i: feq(A[v.j], Ite(undef(v, v.dp[v.j]), Ite(v.j < ks[-1], v.zero, float("nan")), v.dp[v.j])))
    c.inv("copied out", lambda v, ks: Implies(v.j < ks[-1], spec(v, v.out_[v.j])))
    c.ensures("sum of the unpacked values, undefined if any of them is", lambda v: spec(v, v.out_[v.j]))

    c.callees["mifi_nand2bad"] = nan2bad("double")

    def gen(rng):
        n = rng.randint(0, 5)
        fill = rng.choice([-999.0, float("nan"), 7.0])
        f = lambda: [float(rng.choice([rng.randint(-20, 20), fill, float("nan")])) if rng.random() < .4 else float(rng.randint(-20, 20)) for _ in range(n)]
        return dict(d=f(), dp=f(), n=n, first=rng.randint(0, 1), fill=fill, zero=float(rng.choice([0, 0, 2, -3])), out=[0.0] * n)
    c.gen = gen
    return c


CONTRACTS = [mk()]
BOUNDED = [Program("accumulate", "up to 6 steps of 4 cells, packed and unpacked types, in memory or read, 8 random reads in any order, 12000 random cases", "accumulate.cc", 12000)]
