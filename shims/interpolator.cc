#include "shim.h"
#include "Data.cc"
#define logger logger_interpolator
#include "CDMInterpolator.cc"

using namespace MetNoFimex;

extern "C" void lonlat_matrix(double* lon, double* lat, size_t nx, size_t ny, double* lonout, double* latout)
{
    TRY
    auto a = wrap(lon), b = wrap(lat);
    lonLatVals2Matrix(a, b, nx, ny);
    for (size_t i = 0; i < nx * ny; ++i) {
        lonout[i] = a[i];
        latout[i] = b[i];
    }
    CATCH
}
#define TO_ARRAY(T)                                                                                                                                            \
    extern "C" void to_array_##T(T* d, size_t n, double bad, float* out)                                                                                       \
    {                                                                                                                                                          \
        TRY                                                                                                                                                    \
        DataPtr p = std::make_shared<DataImpl<T>>(wrap(d), n);                                                                                                 \
        auto r = data2InterpolationArray(p, bad);                                                                                                              \
        for (size_t i = 0; i < n; ++i)                                                                                                                         \
            out[i] = r[i];                                                                                                                                     \
        CATCH                                                                                                                                                  \
    }
TO_ARRAY(float)
TO_ARRAY(short)
TO_ARRAY(int)
extern "C" void from_array_short(float* d, size_t n, double bad, short* out)
{
    TRY
    DataPtr p = interpolationArray2Data(CDM_SHORT, wrap(d), n, bad);
    auto r = static_cast<DataImpl<short>*>(p.get())->theData;
    for (size_t i = 0; i < n; ++i)
        out[i] = r[i];
    CATCH
}
extern "C" void from_array_float(float* d, size_t n, double bad, float* out)
{
    TRY
    DataPtr p = interpolationArray2Data(CDM_FLOAT, wrap(d), n, bad);
    auto r = static_cast<DataImpl<float>*>(p.get())->theData;
    for (size_t i = 0; i < n; ++i)
        out[i] = r[i];
    CATCH
}
struct Negate : InterpolatorProcess2d
{
    void operator()(float* a, size_t nx, size_t ny) override
    {
        for (size_t i = 0; i < nx * ny; ++i)
            a[i] = -a[i];
    }
};
extern "C" void process_levels(float* a, size_t n, size_t nx, size_t ny)
{
    TRY
    processArray_({std::make_shared<Negate>()}, a, n, nx, ny);
    CATCH
}
