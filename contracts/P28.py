"""Writing into existing files: values are packed for the file (contracts shared with P11) and slices of the input are cut (contracts shared
with P10); the positions written through the netCDF library are checked on bounded runs."""
from vf.spec import *
from contracts import P10, P11

CONTRACTS = [c for c in P11.CONTRACTS if c.fn.startswith("convert_")] + [c for c in P10.CONTRACTS if c.fn.startswith("slice")]
NATIVE = dict(getattr(P11, "NATIVE", {}), **getattr(P10, "NATIVE", {}))
BOUNDED = [Program("fill", "up to 5 variables of 4 types with up to 4 dimensions up to 4 long, 1 to 6 writes of slices and parts, or one fill from another dataset with any subset and order of positions, new times, translated dimensions and different shapes, 4000 random cases", "fill.cc", 4000, plugins=("netcdf",), libs=("-lnetcdf",))]
TRUSTED = ["netCDF and HDF5 libraries", "NetCDF_CDMWriter, FillWriter (positions in the file): bounded"]
