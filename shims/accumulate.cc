#include "shim.h"
#include "Data.cc"
#define logger logger_processor
#include "CDMProcessor.cc"

using namespace MetNoFimex;

extern "C" void accumulate_step(double* d, double* dp, size_t n, bool first, double fill, double zero, double* out)
{
    TRY
    DataPtr a = std::make_shared<DataImpl<double>>(wrap(d), n), b = std::make_shared<DataImpl<double>>(wrap(dp), n);
    addDataP2Data(a, b, first, fill, zero);
    auto r = static_cast<DataImpl<double>*>(a.get())->theData;
    for (size_t i = 0; i < n; ++i)
        out[i] = r[i];
    CATCH
}
