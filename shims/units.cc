#include "shim.h"
#include "Units.cc"
using namespace MetNoFimex;

extern "C" double linear_convert(double scale, double offset, double x)
{
    LinearUnitsConverter c(scale, offset);
    return static_cast<UnitsConverter&>(c).convert(x);
}
extern "C" float linear_convert_f(double scale, double offset, float x)
{
    LinearUnitsConverter c(scale, offset);
    return static_cast<UnitsConverter&>(c).convert(x);
}
extern "C" int linear_scale_offset(double scale, double offset, double* out)
{
    LinearUnitsConverter c(scale, offset);
    c.getScaleOffset(out[0], out[1]);
    return c.isLinear();
}
// y = scale*x + offset, as made by udunits
extern "C" double ud_convert(double scale, double offset, double x)
{
    Ud2UnitsConverter c(cv_get_galilean(scale, offset));
    return static_cast<UnitsConverter&>(c).convert(x);
}
extern "C" float ud_convert_f(double scale, double offset, float x)
{
    Ud2UnitsConverter c(cv_get_galilean(scale, offset));
    return static_cast<UnitsConverter&>(c).convert(x);
}
extern "C" int ud_linear(double scale, double offset)
{
    Ud2UnitsConverter c(cv_get_galilean(scale, offset));
    return c.isLinear();
}
extern "C" int ud_scale_offset(double scale, double offset, double* out)
{
    TRY
    Ud2UnitsConverter c(cv_get_galilean(scale, offset));
    c.getScaleOffset(out[0], out[1]);
    return 1;
    CATCH
    return 0;
}
