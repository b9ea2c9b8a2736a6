"""Interpolation of a field between two levels / times."""
from vf.spec import *

TU = "interpolation.c"
NANV = float("nan")


def base(fn, ct="float", what=""):
    c = Contract(fn, TU, what, ret="int", public=None)
    c.arr("fa", ct, lambda v: v.n).arr("fb", ct, lambda v: v.n).arr("o", ct, lambda v: v.n, out=True).size("n")
    c.flt("a", nonan=True).flt("b", nonan=True).flt("x", nonan=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)

    def gen(rng):
        n = rng.randint(0, 7)
        nanp = rng.choice([0, 0, 0.3])
        f = lambda: float("nan") if rng.random() < nanp else rng.randint(-64, 64) / 4.0
        lv = lambda: rng.choice([0.25, 0.5, 1.0, 2.0, 3.0, 4.0, 8.0, 10.0, 100.0, 850.0, 1000.0, 0.0, -1.0, -4.0]) if rng.random() < 0.8 else rng.randint(1, 4000) / 4.0
        a, b = lv(), lv()
        x = rng.choice([a, b, lv(), a + (b - a) * rng.choice([0.25, 0.5, 0.75, -0.5, 1.5, -1, 2, -1.25, 2.25]), a])
        return dict(fa=[f() for _ in range(n)], fb=[f() for _ in range(n)], o=[f() for _ in range(n)], n=n, a=a, b=b, x=x)
    c.gen = gen
    return c


def frac(a, b, x):
    return Ite(a == b, tz(a), (x - a) / (b - a))


def tz(a):
    return tofv(0) if is_sym(a) else np.float64(0)


def lin(v, j, f):
    """A + f (B - A); exactly A (B) at the end points, even if the other value is undefined"""
    return Ite(f == 0, v.fa[j], Ite(f == 1, v.fb[j], v.fa[j] + f * (v.fb[j] - v.fa[j])))


def mk(fn, spec, what, ct="float", err=None, **kw):
    c = base(fn, ct, what)
    c.opts.update(kw)
    c.define("S", lambda v: spec(v, v.j))
    c.inv("elements done", lambda v, ks: feq(v.o_[v.j], Ite(v.j < ks[-1], v.S, v.o[v.j])))
    bad = err or (lambda v: False)
    c.ensures("value of element j", lambda v: Or(bad(v), feq(v.o_[v.j], v.S, rel=kw.get("rel"))))
    c.ensures("nothing written when rejected", lambda v: Implies(bad(v), fsame(v.o_[v.j], v.o[v.j])))
    c.ensures("reports success, or an error for levels without a logarithm", lambda v: ieq(v.ret, Ite(bad(v), -1, 1)))
    return c


f0 = lambda v: frac(v.a, v.b, v.x)
E = 2.7182818284590452354
nonpos = lambda v: Or(v.a <= 0, v.b <= 0, v.x <= 0)


def flog(v):
    return frac(log(v.a), log(v.b), log(v.x))


def floglog(v):
    g = lambda t: log(log(t + E))
    return frac(g(v.a), g(v.b), g(v.x))


def within(lo, hi):
    def s(v, j):
        f = f0(v)
        return Ite(And(f >= lo, f <= hi), lin(v, j, f), NANV)
    return s


def const_extra(v, j):
    f = f0(v)
    return Ite(f >= 1, v.fb[j], Ite(f <= 0, v.fa[j], lin(v, j, f)))


CONTRACTS = [
    mk("mifi_get_values_linear_f", lambda v, j: lin(v, j, f0(v)), "linear in the coordinate"),
    mk("mifi_get_values_linear_d", lambda v, j: lin(v, j, f0(v)), "linear in the coordinate, double", ct="double"),
    mk("mifi_get_values_linear_weak_extrapol_f", within(-1, 2), "linear, undefined further than one interval outside"),
    mk("mifi_get_values_linear_no_extrapol_f", within(0, 1), "linear, undefined outside"),
    mk("mifi_get_values_linear_const_extrapol_f", const_extra, "linear, constant outside"),
    mk("mifi_get_values_log_f", lambda v, j: lin(v, j, flog(v)), "linear in the logarithm", err=nonpos, rel=2e-4),
    mk("mifi_get_values_log_log_f", lambda v, j: lin(v, j, floglog(v)), "linear in the double logarithm", err=nonpos, rel=2e-3),
    mk("mifi_get_values_nearest_f", lambda v, j: v.fa[j], "lower neighbour"),
]
for c in CONTRACTS:
    if "log_log" in c.fn:
        # log(t+e) > 0 for t > 0, so the inner logarithm never rejects its argument
        c.axioms.append(lambda v: [UF["log"](t.val + rconst(E)) > 0 for t in (v.a, v.b, v.x)] if False else [z3.Implies(t.val > 0, UF["log"](t.val + rconst(E)) > 0) for t in (v.a, v.b, v.x)])
ASSUMES = ["log(t + e) > 0 for t > 0 (axiom on libm log, used for the double-logarithmic variant)"]
