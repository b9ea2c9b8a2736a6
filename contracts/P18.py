"""Time interpolation of a reader: the interpolation between two steps (contract shared with P02), the conversions around it (shared with
P16), the order of times (shared with P17); the choice of the two steps is checked on bounded runs."""
from vf.spec import *
from contracts import P02, P16, P17

CONTRACTS = [c for c in P02.CONTRACTS if c.fn == "mifi_get_values_linear_weak_extrapol_f"]
CONTRACTS += [c for c in P16.CONTRACTS if c.fn.startswith(("to_array_", "from_array_"))]
CONTRACTS += [c for c in P17.CONTRACTS if c.fn == "later_time"]
NATIVE = dict(P16.NATIVE, **P17.NATIVE)
BOUNDED = [Program("time interpolator", "up to 6 irregular time steps of 4 cells, all unit combinations, packed and unpacked types, in memory or read, up to 6 new times in any order, 20000 random cases", "timeinterp.cc", 20000)]
