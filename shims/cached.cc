#include "shim.h"
#include "MathUtils.cc"
#include "CachedInterpolation.cc"
using namespace MetNoFimex;

extern "C" size_t roundclamp_d(size_t mini, size_t maxi, size_t inv, double d) { return RoundAndClamp(mini, maxi, inv)(d); }
extern "C" size_t roundclamp_f(size_t mini, size_t maxi, size_t inv, float d) { return RoundAndClamp(mini, maxi, inv)(d); }

// the constructor: positions -> cells of the (possibly reduced) input grid
extern "C" void nn_create(double* px, double* py, size_t inX, size_t inY, size_t outX, size_t outY, size_t* cells, size_t* red)
{
    TRY
    const std::string x("x"), y("y");
    CachedNNInterpolation c(x, y, wrap(px), wrap(py), inX, inY, outX, outY);
    red[0] = c.reducedDomain_ ? c.reducedDomain_->xMin : 0;
    red[1] = c.reducedDomain_ ? c.reducedDomain_->yMin : 0;
    red[2] = c.inX;
    red[3] = c.inY;
    for (size_t i = 0; i < outX * outY; ++i)
        cells[i] = c.pointsInIn[i];
    CATCH
}

// interpolateValues of an object with the given state
extern "C" void nn_interpolate(size_t* cells, size_t inX, size_t inY, size_t outX, size_t outY, float* in, size_t n, float* out, size_t* newSize)
{
    TRY
    const std::string x("x"), y("y");
    CachedNNInterpolation c(x, y, nullptr, nullptr, 1, 1, 0, 0);
    c.inX = inX; c.inY = inY; c.outX = outX; c.outY = outY;
    c.pointsInIn.assign(cells, cells + outX * outY);
    size_t m;
    auto r = c.interpolateValues(wrap(in), n, m);
    *newSize = m;
    for (size_t i = 0; i < m; ++i)
        out[i] = r[i];
    CATCH
}

// bilinear and bicubic: the constructor moves the positions to the reduced input grid
extern "C" void cached_create(int method, double* px, double* py, size_t inX, size_t inY, size_t outX, size_t outY, double* qx, double* qy, size_t* red)
{
    TRY
    const std::string x("x"), y("y");
    CachedInterpolation c(x, y, method, wrap(px), wrap(py), inX, inY, outX, outY);
    red[0] = c.reducedDomain_ ? c.reducedDomain_->xMin : 0;
    red[1] = c.reducedDomain_ ? c.reducedDomain_->yMin : 0;
    red[2] = c.inX;
    red[3] = c.inY;
    for (size_t i = 0; i < outX * outY; ++i) {
        qx[i] = c.pointsOnXAxis[i];
        qy[i] = c.pointsOnYAxis[i];
    }
    CATCH
}

#define INTERPOL(NAME, METHOD) \
extern "C" void cached_##NAME(double* px, double* py, size_t inX, size_t inY, size_t outX, size_t outY, float* in, size_t n, float* out, size_t* newSize) \
{ \
    TRY \
    const std::string x("x"), y("y"); \
    CachedInterpolation c(x, y, METHOD, nullptr, nullptr, 1, 1, 0, 0); \
    c.inX = inX; c.inY = inY; c.outX = outX; c.outY = outY; \
    c.pointsOnXAxis = wrap(px); \
    c.pointsOnYAxis = wrap(py); \
    size_t m; \
    auto r = c.interpolateValues(wrap(in), n, m); \
    *newSize = m; \
    for (size_t i = 0; i < m; ++i) \
        out[i] = r[i]; \
    CATCH \
}
INTERPOL(bilinear, MIFI_INTERPOL_BILINEAR)
INTERPOL(bicubic, MIFI_INTERPOL_BICUBIC)
