#include "shim.h"
#include "Data.cc"
using namespace MetNoFimex;

#define SLICE(R, T, N) \
extern "C" void slice##R##_##N(T* in, size_t n, const size_t* org, const size_t* start, const size_t* size, T* out) \
{ \
    TRY \
    std::vector<size_t> o(org, org + R), s(start, start + R), z(size, size + R); \
    DataImpl<T> d(wrap(in), n); \
    DataPtr r = d.slice(o, s, z); \
    const T* p = static_cast<const T*>(r->getDataPtr()); \
    std::copy(p, p + r->size(), out); \
    CATCH \
}
SLICE(1, float, f)
SLICE(2, float, f)
SLICE(3, float, f)
SLICE(2, short, s)
