#include "shim.h"
#include "Data.cc"
#define logger logger_reader
#include "CDMReader.cc"
using namespace MetNoFimex;

#ifdef VERIF_IR
// data of a variable as numbers in another unit; the attributes of the variable are replaced by their contract
struct Text
{
    alignas(std::string) char buf[sizeof(std::string)];
    operator const std::string&() const { return reinterpret_cast<const std::string&>(buf); }
};
#define SCALED(IN, N) \
extern "C" void scaled_##N(IN* in, size_t n, double fill, double scale, double offset, double unitScale, double unitOffset, double* out) \
{ \
    Text name; \
    alignas(CDMReader) char buf[sizeof(CDMReader)]; \
    CDMReader& r = *reinterpret_cast<CDMReader*>(buf); \
    reinterpret_cast<void**>(&r.cdm_)[0] = 0; \
    DataPtr d = r.scaleDataOf(name, DataPtr(new DataImpl<IN>(wrap(in), n)), unitScale, unitOffset); \
    const double* p = static_cast<const double*>(d->getDataPtr()); \
    std::copy(p, p + d->size(), out); \
}
SCALED(short, s)
SCALED(float, f)
SCALED(double, d)
#endif
