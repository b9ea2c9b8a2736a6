#include "shim.h"
#include "fimex/MathUtils.h"

extern "C" double wrap180(double in)
{
    return MetNoFimex::normalizeLongitude180(in);
}
