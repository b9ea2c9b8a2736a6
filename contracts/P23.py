"""The data model: defaults of the packing (contracts); histories of changes to dimensions, variables and attributes (bounded runs against
a reference)."""
from vf.spec import *

TU = "shim:model.cc"
# CDMDataType: NAT CHAR SHORT INT FLOAT DOUBLE STRING UCHAR USHORT UINT INT64 UINT64 STRINGS
FILL = [(1, -127.0), (2, -32767.0), (3, -2147483647.0), (4, 9.9692099683868690e+36), (5, 9.9692099683868690e+36), (7, 255.0), (8, 65535.0), (9, 4294967295.0), (10, -9223372036854775806.0), (11, 18446744073709551614.0)]
c = Contract("fill_of_type", TU, "default fill value of each data type", ret="double", rel=1e-12)
c.int("type")
for t, f in FILL:
    c.ensures("fill value of type %d" % t, lambda v, t=t, f=f: Implies(v.type == t, feq(v.ret, f)))
c.ensures("no fill value for texts and unknown types", lambda v: Implies(Or(v.type < 1, v.type == 6, v.type > 11), isnan(v.ret)))
c.gen = lambda rng: dict(type=rng.randint(-1, 14))
CONTRACTS = [c]
BOUNDED = [Program("model", "4 variables, 4 dimensions, 9 attributes, histories of 5 to 40 changes, 1500 random histories", "model.cc", 1500)]
TRUSTED = ["standard containers and std::regex"]
NATIVE = {TU: {"link": True}}
