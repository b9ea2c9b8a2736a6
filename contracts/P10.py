"""Sub-regions (slices) of multi-dimensional data."""
from vf.spec import *

TU = "shim:data.cc"
TU2 = "shim:convert.cc"
NATIVE = {TU: {"link": True}, TU2: {"link": True}}
from contracts.P11 import FL, tor, inrange, nearest


def mk(rank, ct, suf):
    c = Contract("slice%d_%s" % (rank, suf), TU, "slice of %d-dimensional %s data" % (rank, ct), rounds=rank)
    R = range(rank)

    def prod(v, a, upto=None):
        r = 1
        for q in R[:upto if upto is not None else rank]:
            r = a[q] * r
        return r
    c.arr("in_", ct, lambda v: v.n)
    c.size("n", hi=1 << 30)
    c.arr("org", "size_t", lambda v: rank).arr("start", "long", lambda v: rank).arr("size", "long", lambda v: rank)
    c.arr("out", ct, lambda v: v.m, out=True)
    c.size("m", ghostparam=True, hi=1 << 30)
    c.requires(lambda v: [And(v.org[q] >= 0, v.org[q] <= 1 << 20) for q in R])
    c.requires(lambda v: Implies(And(*[v.size[q] >= 0 for q in R]), v.m == prod(v, v.size)))
    for q in R:
        c.ghost("g%d" % q, lambda v: 0, (lambda q: lambda v: v.size[q])(q))
    gs = lambda v: [getattr(v, "g%d" % q) for q in R]

    def pos(v, dims, ix):
        r = 0
        for q in reversed(R):
            r = r * dims[q] + ix[q]
        return r
    u = lambda x: Ite(x >= 0, x, x + (1 << 64))      # unsigned value of the stored size_t
    inside = lambda v: And(*[u(v.start[q]) + u(v.size[q]) <= v.org[q] for q in R])
    c.throws(lambda v: Or(Not(inside(v)), prod(v, v.org) != v.n))
    src = lambda v: v.in_[pos(v, v.org, [v.start[q] + gs(v)[q] for q in R])]
    same = fsame if ct in ("float", "double") else (lambda a, b: a == b)
    c.ensures("element (g0..) of the slice is element start+g of the data", lambda v: same(v.out_[pos(v, v.size, gs(v))], src(v)))

    c.exec_opts = {"recursion": rank}
    for d in range(1, rank):
        c.stride(lambda v: True, (lambda d: lambda v: prod(v, v.org, d))(d))
        c.stride(lambda v: True, (lambda d: lambda v: prod(v, v.size, d))(d))

    def before(v, ks):
        """the part of the slice already copied: (g_top, ...) lexicographically before the loop counters"""
        g = list(reversed(gs(v)))
        r = False
        for q in reversed(range(len(ks))):
            r = Or(g[q] < ks[q], And(g[q] == ks[q], r)) if r is not False else g[q] < ks[q]
        return r
    c.array_inv("copied so far", "heap:" + ct, lambda v, ks, A, i: Implies(before(v, ks), same(A[pos(v, v.size, gs(v))], src(v))) if len(ks) < rank else None)
    def lemmas(v, ks):
        g = list(reversed(gs(v)))
        out = []
        for q in range(len(ks)):
            s = prod(v, v.size, rank - 1 - q)
            out.append(Implies(g[q] <= ks[q] - 1, g[q] * s <= (ks[q] - 1) * s))
        return out
    c.inv("lemma: monotone", lemmas)

    def gen(rng):
        org = [rng.randint(0, 4) for _ in R]
        start = [rng.randint(0, max(o - 1, 0)) for o in org]
        size = [rng.randint(0, o - s) for o, s in zip(org, start)]
        if rng.random() < 0.2:
            q = rng.choice(list(R))
            size[q] += rng.randint(1, 2)
        if rng.random() < 0.1:
            q = rng.choice(list(R))
            start[q] = -rng.randint(0, 3) or -(1 << 63)
        n = 1
        m = 1
        for q in R:
            n *= org[q]
            m *= size[q]
        if rng.random() < 0.1:
            n += 1
        return dict(n=n, m=m, org=org, start=start, size=size, out=[-5] * m, in_=[rng.randint(-90, 90) for _ in range(n)])
    c.gen = gen
    return c


def mkset(fd, fs, suf):
    c = Contract("setvalues_" + suf, TU2, "%s values put into %s data" % (fs, fd), rel=2e-6 if "float" in (fd, fs) else 1e-9)
    c.arr("data", fd, lambda v: v.n, out=True)
    c.size("n", hi=1 << 40)
    c.int("pos", "long")
    c.arr("other", fs, lambda v: v.m)
    c.size("m", hi=1 << 40)
    c.int("first", "long").int("last", "long")
    c.ghost("j", lambda v: 0, lambda v: v.n)
    u = lambda x: Ite(x >= 0, x, x + (1 << 64))
    end = lambda v: Ite(u(v.last) < v.m, v.last, v.m)
    inside = lambda v: And(v.j >= u(v.pos), v.j - u(v.pos) < end(v) - u(v.first))
    def conv(v, o, x):
        if fd in FL:
            return feq(o, tor(x))
        return Implies(And(Not(isnan(x)), inrange(fd, x)), nearest(o, x, 0))
    same_ = fsame if fd in FL else (lambda a, b: a == b)
    src = lambda v: v.other[v.first + v.j - v.pos]
    c.throws(lambda v: u(v.first) > v.m)
    c.ensures("values from first up to last (or the end) replace those from pos on", lambda v: Implies(inside(v), conv(v, v.data_[v.j], src(v))))
    c.ensures("all other values are kept", lambda v: Implies(Not(inside(v)), same_(v.data_[v.j], v.data[v.j])))
    if fd != fs:
        # the whole other array is converted first
        c.array_inv("converted so far", "heap:" + fd, lambda v, ks, A, i: Implies(And(v.first >= 0, v.first + v.j - v.pos >= 0, v.first + v.j - v.pos < ks[-1]), conv(v, A[v.first + v.j - v.pos], src(v))))

    def gen(rng):
        n = rng.randint(0, 6)
        m = rng.randint(0, 6)
        return dict(n=n, m=m, data=[rng.randint(-9, 9) for _ in range(n)], other=[rng.randint(-90, 90) + (0.25 if fs in FL else 0) for _ in range(m)],
                    pos=rng.choice([0, 0, 1, 2, 3, n, n + 1, n + 3, -1]), first=rng.choice([0, 0, 0, 1, 2, m, m + 1, -1]), last=rng.choice([-1, -1, 0, 1, 2, 3, m, m + 2]))
    c.gen = gen
    return c


CONTRACTS = [mk(1, "float", "f"), mk(2, "float", "f"), mk(3, "float", "f"), mk(2, "short", "s"),
             mkset("float", "float", "ff"), mkset("short", "double", "sd"), mkset("double", "int", "di")]
BOUNDED = [Program("slices", "variables of rank 1 to 4 with dimensions up to 4, packed or not, 6000 random requests", "slices.cc", 6000)]
