"""Forward interpolation: statistics of the source values falling into a target cell."""
from vf.spec import *
from contracts.P11 import tor

TU = "shim:forward.cc"
NATIVE = {TU: {"link": True}}
NANV = float("nan")
STEP = {"sum": lambda c, a, f: a + f, "mean": lambda c, a, f: a + f,
        "min": lambda c, a, f: Ite(Or(c == 0, f < a), f, a), "max": lambda c, a, f: Ite(Or(c == 0, f > a), f, a)}
CONTRACTS = []
for name in STEP:
    c = Contract("push_" + name, TU, "a value enters the " + name, rel=1e-5)
    c.size("count", hi=1 << 20).flt("val", "float").flt("f", "float").arr("c1", "size_t", lambda v: 1, out=True).arr("v1", "float", lambda v: 1, out=True)
    c.ensures("one more value", lambda v: v.c1_[0] == v.count + 1)
    c.ensures("value of the aggregate", (lambda n: lambda v: feq(v.v1_[0], STEP[n](v.count, v.val, v.f)))(name))
    CONTRACTS.append(c)
    c = Contract("get_" + name, TU, "result of the " + name, ret="float", rel=1e-5)
    c.size("count", hi=1 << 20).flt("val", "float").arr("c1", "size_t", lambda v: 1, out=True).arr("v1", "float", lambda v: 1, out=True)
    c.ensures("undefined without values, else the aggregate", (lambda n: lambda v: feq(v.ret, Ite(v.count == 0, NANV, v.val / tor(v.count) if n == "mean" else v.val)))(name))
    c.ensures("starts again without values", lambda v: And(v.c1_[0] == 0, feq(v.v1_[0], 0.0)))
    CONTRACTS.append(c)
    c = Contract("fresh_" + name, TU, "a new %s has no values" % name, ret="float")
    c.ensures("undefined", lambda v: isnan(v.ret))
    CONTRACTS.append(c)
BOUNDED = [Program("forward", "fields up to 12x12x3x2 into grids up to 5x5, all methods, 4000 random cases", "forward.cc", 4000)]
TRUSTED = ["the assignment of source to target cells (vectors of vectors) and the median (std::nth_element) are checked on bounded runs only"]
