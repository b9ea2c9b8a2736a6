"""Vertical interpolation of a reader: the choice of the two levels and the interpolation between them (shared with P02) and the formulas
(shared with P06) are proved; the composition along columns is checked on bounded runs."""
from vf.spec import *
from contracts import P02, P06

TU = "shim:neighbors.cc"
MAXF = ((1 << 24) - 1) << 104
ok = lambda v, i: And(v.a[i] > -1e30, v.a[i] < 1e30)
dist = lambda v, i: Ite(v.a[i] >= v.x, v.a[i] - v.x, v.x - v.a[i])
F = lambda v: v.pos_[0]
S = lambda v: v.pos_[1]


def base(fn, what):
    c = Contract(fn, TU, what)
    c.arr("a", "float", lambda v: v.n, nonan=True)
    c.size("n", lo=1, hi=1 << 40)
    c.flt("x", "float")
    c.arr("pos", "long", lambda v: 2, out=True)
    c.ghost("j", lambda v: 0, lambda v: v.n)
    c.requires(lambda v: [Not(isnan(v.x)), v.x > -1e30, v.x < 1e30])
    c.requires(lambda v: ok(v, v.j))
    c.requires_elem("a", ok)
    c.ensures("both are positions of the list", lambda v: And(F(v) >= 0, F(v) < v.n, S(v) >= 0, S(v) < v.n))

    def gen(rng):
        n = rng.randint(1, 7)
        a = [rng.choice([rng.randint(-3, 3), rng.uniform(-9, 9)]) for _ in range(n)]
        if rng.random() < .4:
            a.sort(reverse=rng.random() < .5)
        return dict(n=n, a=a, x=rng.choice([rng.choice(a), rng.randint(-4, 4), rng.uniform(-12, 12)]), pos=[0, 0])
    c.gen = gen
    return c


closest = lambda v, f, s: And(dist(v, f) <= dist(v, v.j), Implies(v.a[v.j] != v.a[f], And(v.a[s] != v.a[f], dist(v, s) <= dist(v, v.j))))

# known finding: nothing is found (the first position twice) when the first element is the closest
known = lambda v: And(F(v) == 0, S(v) == 0, dist(v, 0) <= dist(v, v.j))


def closest_invs(c):
    c.multi_inv("first is an element", (1, 2), lambda v, ks, f, d, x: And(f >= 0, Or(f < ks[-1], f == 0), x == v.a[f], ok(v, f), d == dist(v, f)))
    c.multi_inv("first", (1, 1), lambda v, ks, f, d: And(f >= 0, Or(f < ks[-1], f == 0), ok(v, f), d == dist(v, f)))
    c.multi_inv("ordered", -2, lambda v, ks, d1, d2: d1 <= d2)
    c.multi_inv("first is closest", -1, lambda v, ks, d: Implies(v.j < ks[-1], d <= dist(v, v.j)))
    c.multi_inv("second", (2, 1), lambda v, ks, f, s, d2: And(s >= 0, ok(v, s), Or(s < ks[-1], s == 0), Or(And(s == 0, f == 0, Or(d2 == MAXF, d2 == dist(v, 0))), And(v.a[f] != v.a[s], d2 == dist(v, s)))))
    c.multi_inv("second is next", (1, 1), lambda v, ks, f, d2: Implies(And(v.j < ks[-1], v.a[v.j] != v.a[f]), d2 <= dist(v, v.j)))


c1 = base("closest", "two closest different levels")
closest_invs(c1)
c1.ensures("the two closest different values of the list", lambda v: Or(closest(v, F(v), S(v)), known(v)))

c2 = base("enclosing", "levels enclosing a value")
closest_invs(c2)
c2.ghost("k", lambda v: 0, lambda v: v.n)
c2.requires(lambda v: ok(v, v.k))
c2.multi_inv("below", (1, 1), lambda v, ks, f, d: And(f >= 0, f < v.n, ok(v, f), Or(And(d == MAXF, f == 0), And(v.a[f] <= v.x, d == v.x - v.a[f]))))
c2.multi_inv("above", (1, 1), lambda v, ks, f, d: And(f >= 0, f < v.n, ok(v, f), Or(And(d == MAXF, f == 0), And(v.a[f] > v.x, d == v.a[f] - v.x), And(f == 0, v.a[0] == v.x, d == 0))))
c2.multi_inv("at the first element", (1, 1), lambda v, ks, f, d: Implies(v.a[0] == v.x, And(f == 0, d == 0)))
for g in ("j", "k"):
    c2.multi_inv("next below " + g, -1, (lambda g: lambda v, ks, d: Implies(And(getattr(v, g) <= ks[-1], v.a[getattr(v, g)] <= v.x), d <= v.x - v.a[getattr(v, g)]))(g))
    c2.multi_inv("next above " + g, -1, (lambda g: lambda v, ks, d: Implies(And(getattr(v, g) <= ks[-1], v.a[getattr(v, g)] > v.x), d <= v.a[getattr(v, g)] - v.x))(g))
c2.ensures("with values on both sides, the next ones below and above", lambda v: Implies(And(v.a[v.j] <= v.x, v.a[v.k] > v.x), Or(And(F(v) == 0, S(v) == 0, v.a[0] == v.x), And(v.a[F(v)] <= v.x, v.a[F(v)] >= v.a[v.j], v.a[S(v)] > v.x, v.a[S(v)] <= v.a[v.k]))))
c2.ensures("otherwise the two closest different values", lambda v: Or(And(v.a[F(v)] <= v.x, v.a[S(v)] > v.x), closest(v, F(v), S(v)), known(v)))

CONTRACTS = [c1, c2] + [c for c in P02.CONTRACTS if c.fn.endswith("_f")] + list(P06.CONTRACTS)
NATIVE = dict(getattr(P02, "NATIVE", {}), **getattr(P06, "NATIVE", {}))
ASSUMES = list(getattr(P02, "ASSUMES", [])) + list(getattr(P06, "ASSUMES", []))
BOUNDED = [Program("vertical interpolator", "grids up to 3x3, 3 times, two vertical axes of 2 to 5 levels out of 11 kinds (pressure, sigma, hybrid, logarithmic, height, altitude, hybrid height, depth, ocean s), 7 methods, fixed levels, axis or template, 3000 random cases", "vertical.cc", 3000)]
