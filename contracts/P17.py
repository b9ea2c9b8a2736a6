"""Calendar times."""
from vf.spec import *

TU = "shim:time.cc"
NATIVE = {TU: {"link": True}}
F = ["y", "mo", "d", "h", "mi", "s", "ms"]
LIM = {"y": (0, 4095), "mo": (1, 12), "d": (1, 31), "h": (0, 23), "mi": (0, 59), "s": (0, 60), "ms": (0, 1000)}
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def fields(c, suf="", names=F):
    for f in names:
        c.int(f + suf, lo=LIM[f][0], hi=LIM[f][1])


def rnd(rng, suf="", names=F):
    return {f + suf: rng.choice([LIM[f][0], LIM[f][1], rng.randint(*LIM[f])]) for f in names}


def lexless(v, a, b):
    r = False
    for f in reversed(F):
        x, y = getattr(v, f + a), getattr(v, f + b)
        r = Or(x < y, And(x == y, r))
    return r


def mkcmp(fn, what, spec):
    c = Contract(fn, TU, what, ret="bool")
    fields(c)
    fields(c, "2")
    c.ensures(what, lambda v: Iff(truth(v.ret), spec(v)))

    def gen(rng):
        a = rnd(rng)
        b = rnd(rng, "2") if rng.random() < .3 else {k + "2": x for k, x in a.items()}
        if rng.random() < .7:
            f = rng.choice(F)
            b[f + "2"] = rng.randint(*LIM[f])
        return dict(a, **b)
    c.gen = gen
    return c


def truth(x):
    return x if is_sym(x) and z3.is_bool(x) else x != 0


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def mkrecode():
    c = Contract("recode_time", TU, "a time restored from its encoding", ret="int")
    fields(c)
    c.arr("out", "int", lambda v: 7, out=True)
    for i, f in enumerate(F):
        c.ensures("the same " + f, lambda v, i=i, f=f: v.out_[i] == getattr(v, f))
    c.gen = lambda rng: dict(rnd(rng), out=[0] * 7)
    return c


def fdiv(a, b):
    return a / b if is_sym(a) else a // b


def fmod(a, b):
    return a % b


def leap(y):
    return And(fmod(y, 4) == 0, Or(fmod(y, 100) != 0, fmod(y, 400) == 0))


def days(y, mo, d):
    """days since 1970-01-01: whole years, whole months, days (Gregorian calendar)"""
    p = y - 1
    n = 365 * (y - 1970) + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400) - 477
    acc, r = 0, 0
    for m in range(1, 13):
        r = Ite(mo == m, acc, r)
        acc += LEN[m - 1]
    return n + r + Ite(And(mo > 2, leap(y)), 1, 0) + d - 1


def mkepoch():
    c = Contract("epoch_seconds_of", TU, "seconds since 1970-01-01 of a calendar time", ret="long")
    fields(c, names=F[:6])
    c.requires(lambda v: [v.y >= 1])
    c.ensures("days of the Gregorian calendar and seconds of the day", lambda v: v.ret == days(v.y, v.mo, v.d) * 86400 + 3600 * v.h + 60 * v.mi + v.s)

    c.gen = lambda rng: dict(rnd(rng, names=F[:6]), y=rng.choice([1, 4, 100, 400, 1582, 1600, 1899, 1900, 1970, 1999, 2000, 2001, 2004, 2100, 4095, rng.randint(1, 4095)]))
    return c


CONTRACTS = [mkcmp("later_time", "later", lambda v: lexless(v, "2", "")), mkcmp("same_time", "equal in every part", lambda v: And(*[getattr(v, f) == getattr(v, f + "2") for f in F])),
             mkrecode(), mkepoch()]
BOUNDED = [Program("times", "years 1600 to 2400, five units with time zones, lists of numbers and of absolute and relative times, 20000 random cases of each", "time.cc", 20000)]
