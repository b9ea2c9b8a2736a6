#include "shim.h"
#include "CDMBorderSmoothing_Linear.cc"

extern "C" double smooth_linear(size_t tr, size_t bo, size_t nx, size_t ny, size_t x, size_t y, double inner, double outer)
{
    MetNoFimex::CDMBorderSmoothing_Linear s(tr, bo);
    s.setHorizontalSizes(nx, ny);
    return s.MetNoFimex::CDMBorderSmoothing_Linear::operator()(x, y, inner, outer);
}
