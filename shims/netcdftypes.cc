#include "shim.h"
#include "io/netcdf/NetCDF_Utils.cc"

extern "C" int nc_of_cdm(int t) { return MetNoFimex::cdmDataType2ncType(static_cast<MetNoFimex::CDMDataType>(t)); }
extern "C" int cdm_of_nc(int t) { return MetNoFimex::ncType2cdmDataType(t); }
extern "C" int cdm_of_nc_of_cdm(int t) { return MetNoFimex::ncType2cdmDataType(MetNoFimex::cdmDataType2ncType(static_cast<MetNoFimex::CDMDataType>(t))); }
