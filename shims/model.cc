#include "shim.h"
#include "CDM.cc"

extern "C" double fill_of_type(int type)
{
    return MetNoFimex::defaultFillValue_(static_cast<MetNoFimex::CDMDataType>(type));
}
