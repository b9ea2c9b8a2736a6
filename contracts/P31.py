"""C interface: names copied into the buffer of the caller, positions and sizes of a slice (contracts); handles, data and callbacks (bounded runs)."""
from vf.spec import *

TU = "shim:capi.cc"
CONTRACTS = []
c = Contract("copy_name", TU, "a name copied into the buffer of the caller", ret="int")
c.arr("p", "char", lambda v: v.len).size("len", 0, 1 << 20).arr("dest", "char", lambda v: v.n, out=True).int("n", "int", lo=0, hi=1 << 20)
c.ghost("j", lambda v: 0, lambda v: v.n)
c.ensures("number of characters, or 0 if it does not fit", lambda v: v.ret == Ite(v.len + 1 <= v.n, v.len + 1, 0))
c.ensures("the name and zeros", lambda v: Implies(v.j < v.n, v.dest_[v.j] == Ite(And(v.len + 1 <= v.n, v.j < v.len), v.p[v.j], 0)))
CONTRACTS.append(c)

c = Contract("start_and_size", TU, "start and size of every dimension", ret="int")
c.arr("a", "size_t", lambda v: v.n).arr("b", "size_t", lambda v: v.n).size("n", 0, 1 << 16).arr("start", "uint", lambda v: v.n, out=True).arr("size", "uint", lambda v: v.n, out=True)
c.ghost("j", lambda v: 0, lambda v: v.n)
c.requires_elem("a", lambda v, i: And(v.a[i] >= 0, v.a[i] < (1 << 32))).requires_elem("b", lambda v, i: And(v.b[i] >= 0, v.b[i] < (1 << 32)))
c.inv("start before", lambda v, ks: Implies(v.j < ks[-1], v.start_[v.j] == v.a[v.j]))
c.inv("size before", lambda v, ks: Implies(v.j < ks[-1], v.size_[v.j] == v.b[v.j]))
c.ensures("succeeds", lambda v: v.ret == 0)
c.ensures("start", lambda v: Implies(v.j < v.n, v.start_[v.j] == v.a[v.j]))
c.ensures("size", lambda v: Implies(v.j < v.n, v.size_[v.j] == v.b[v.j]))
CONTRACTS.append(c)

c = Contract("number_of_dims", TU, "number of dimensions of a slice", ret="int")
c.arr("b", "size_t", lambda v: v.n).size("n", 0, 1 << 16)
c.ensures("number", lambda v: v.ret == v.n)
CONTRACTS.append(c)
NATIVE = {TU: {"link": True}}
TRUSTED = ["readers, interpolation and writers behind the handles (other properties)", "layout of std::string, std::vector in libstdc++"]
BOUNDED = [Program("capi", "grids up to 4x4 in 5 projections with up to 3 times and 4 variables of 4 types, packed or not, with and without fill values, in memory or not; all names, slices, units, callbacks, places and writes, 6000 random cases", "capi.cc", 6000, plugins=("netcdf",), libs=("-lnetcdf",))]
