"""netCDF files: the types of the file and of the data model (contracts), conversion of values to another type (contracts shared with P11);
what is written and read through the netCDF library is checked on bounded runs."""
from vf.spec import *
from contracts import P11

TU = "shim:netcdftypes.cc"
# (number in CDMDataType, number in netcdf.h); CDM_CHAR are bytes and CDM_STRING text
TYPES = [(0, 0), (1, 1), (2, 3), (3, 4), (4, 5), (5, 6), (6, 2), (7, 7), (8, 8), (9, 9), (10, 10), (11, 11), (12, 12)]
NAMES = ["none", "char", "short", "int", "float", "double", "string", "uchar", "ushort", "uint", "int64", "uint64", "strings"]
CONTRACTS = []
for fn, d in (("nc_of_cdm", 0), ("cdm_of_nc", 1)):
    c = Contract(fn, TU, "type in the file of a type" if d == 0 else "type of a type in the file", ret="int")
    c.int("t", lo=0, hi=12)
    for ty in TYPES:
        c.ensures("%s corresponds" % NAMES[ty[0]], (lambda a, b: lambda v: Implies(v.t == a, v.ret == b))(ty[d], ty[1 - d]))
    CONTRACTS.append(c)
c = Contract("cdm_of_nc_of_cdm", TU, "every type is read as it was written", ret="int")
c.int("t", lo=0, hi=12)
c.ensures("same type", lambda v: v.ret == v.t)
CONTRACTS.append(c)
CONTRACTS += P11.CONTRACTS
NATIVE = dict(getattr(P11, "NATIVE", {}))
NATIVE[TU] = {"link": True, "libs": ["-lnetcdf"]}
BOUNDED = [Program("netcdf files", "up to 5 variables of 13 types, dimensions up to 3, up to 4 attributes each, netcdf3, 64 bit offset, netcdf4 classic and netcdf4, written with and without configuration (names, types, units, attributes, fill values, compression) and read back by slices and parts, 4000 random cases", "netcdf.cc", 4000, plugins=("netcdf",), libs=("-lnetcdf",))]
TRUSTED = ["netCDF and HDF5 libraries", "NetCDF_CDMReader, NetCDF_CDMWriter (calls of the library): bounded"]
