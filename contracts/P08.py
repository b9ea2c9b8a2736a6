"""Names of the interpolation methods."""
from vf.spec import *

TU = "interpolation.c"
METHODS = {"nearestneighbor": 0, "bilinear": 1, "bicubic": 2, "coord_nearestneighbor": 3, "coord_kdtree": 4, "forward_sum": 5, "forward_mean": 6, "forward_median": 7,
           "forward_max": 8, "forward_min": 9, "forward_undef_sum": 10, "forward_undef_mean": 11, "forward_undef_median": 12, "forward_undef_max": 13, "forward_undef_min": 14}
SYNTAX = ["", "bilinea", "bilinear ", "Bilinear", "forward_", "forward_undef_", "nearest", "forward_undef_minimum", "coord_kdtre", "bicubicc", "linear", "kdtree", "forward_undef", "none"]


def method():
    c = Contract("mifi_string_to_interpolation_method", TU, "name of a horizontal interpolation method", ret="int")
    c.cstr("s", METHODS)
    for name, num in METHODS.items():
        c.ensures("name %s selects its own method" % name, (lambda name, num: lambda v: Implies(streq(v.s, name), v.ret == num))(name, num))
    c.ensures("any other name is unknown", lambda v: Implies(And(*[Not(streq(v.s, n)) for n in METHODS]), v.ret == -1))
    c.gen = lambda rng: dict(s=rng.choice(list(METHODS) + SYNTAX))
    return c


CONTRACTS = [method()]
