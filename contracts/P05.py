"""fill value <-> undefined"""
from vf.spec import *
TU = "interpolation.c"


def mk(fn, ct, to_nan, what):
    c = Contract(fn, TU, what, ret="size_t")
    c.arr("p", ct, lambda v: v.n, out=True)
    c.endp("e", "p", lambda v: v.n)
    c.flt("bad", ct)
    c.size("n", ghostparam=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    if to_nan:
        sp = lambda v, j: Ite(Not(isnan(v.bad)), Ite(v.p[j] == v.bad, float("nan"), v.p[j]), v.p[j])
    else:
        sp = lambda v, j: Ite(isnan(v.p[j]), v.bad, v.p[j])
    c.inv("elements done", lambda v, ks: feq(v.p_[v.j], Ite(v.j < ks[-1], sp(v, v.j), v.p[v.j])))
    c.ensures("element j", lambda v: fsame(v.p_[v.j], sp(v, v.j)))

    def gen(rng):
        n = rng.randint(0, 8)
        bad = rng.choice([float("nan"), -999.0, 0.0, 1.5, 9.5])
        return dict(p=[rng.choice([float("nan"), bad, 0.0, 1.5, -999.0, 2.25, -1e30]) for _ in range(n)], bad=bad, n=n)
    c.gen = gen
    return c


CONTRACTS = [mk("mifi_bad2nanf", "float", True, "fill value becomes undefined, everything else is kept"),
             mk("mifi_nanf2bad", "float", False, "undefined becomes the fill value, everything else is kept"),
             mk("mifi_nand2bad", "double", False, "undefined becomes the fill value, everything else is kept (double)")]
