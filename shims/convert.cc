#include "shim.h"
#include "Data.cc"
using namespace MetNoFimex;

// conversion of a whole array to another type with fill value, scale and offset
#define CONVERT(IN, OUT, FILL, CDM, N) \
extern "C" void convert_##N(IN* in, size_t n, double oldFill, double oldScale, double oldOffset, FILL newFill, double newScale, double newOffset, OUT* out) \
{ \
    TRY \
    DataImpl<IN> d(wrap(in), n); \
    DataPtr r = d.convertDataType(oldFill, oldScale, oldOffset, CDM, newFill, newScale, newOffset); \
    const OUT* p = static_cast<const OUT*>(r->getDataPtr()); \
    std::copy(p, p + r->size(), out); \
    CATCH \
}
CONVERT(float, short, long, CDM_SHORT, fs)
CONVERT(double, int, long, CDM_INT, di)
CONVERT(double, long long, long, CDM_INT64, dl)
CONVERT(short, float, double, CDM_FLOAT, sf)
CONVERT(short, double, double, CDM_DOUBLE, sd)
CONVERT(unsigned char, float, double, CDM_FLOAT, Bf)
CONVERT(float, double, double, CDM_DOUBLE, fd)
CONVERT(double, float, double, CDM_FLOAT, df)
CONVERT(int, unsigned short, long, CDM_USHORT, iS)
CONVERT(float, unsigned int, long, CDM_UINT, fI)

// plain change of type
#define CAST(IN, OUT, CDM, N) \
extern "C" void cast_##N(IN* in, size_t n, OUT* out) \
{ \
    TRY \
    DataImpl<IN> d(wrap(in), n); \
    DataPtr r = convertValues(d, CDM); \
    const OUT* p = static_cast<const OUT*>(r->getDataPtr()); \
    std::copy(p, p + r->size(), out); \
    CATCH \
}
CAST(float, short, CDM_SHORT, fs)
CAST(double, int, CDM_INT, di)
CAST(double, long long, CDM_INT64, dl)
CAST(int, double, CDM_DOUBLE, id)
CAST(short, unsigned char, CDM_UCHAR, sB)
CAST(float, double, CDM_DOUBLE, fd)

// values of other data put into data at a position
#define SETVALUES(T, U, N) \
extern "C" void setvalues_##N(T* data, size_t n, size_t pos, U* other, size_t m, size_t first, size_t last) \
{ \
    TRY \
    DataImpl<T> d(wrap(data), n); \
    DataImpl<U> o(wrap(other), m); \
    d.setValues(pos, o, first, last); \
    CATCH \
}
SETVALUES(float, float, ff)
SETVALUES(short, double, sd)
SETVALUES(double, int, di)
