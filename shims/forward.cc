#include "shim.h"
#include "CachedForwardInterpolation.cc"
using namespace MetNoFimex;

// one step of an aggregator: state before -> state after
#define AGG(NAME, CLASS) \
extern "C" void push_##NAME(size_t count, float val, float f, size_t* count1, float* val1) \
{ \
    CLASS a; \
    a.count = count; \
    a.val = val; \
    a.push(f); \
    *count1 = a.count; \
    *val1 = a.val; \
} \
extern "C" float get_##NAME(size_t count, float val, size_t* count1, float* val1) \
{ \
    CLASS a; \
    a.count = count; \
    a.val = val; \
    const float r = a.get_and_reset(); \
    *count1 = a.count; \
    *val1 = a.val; \
    return r; \
} \
extern "C" float fresh_##NAME() \
{ \
    CLASS a; \
    return a.get_and_reset(); \
}
AGG(sum, AggSum)
AGG(mean, AggMean)
AGG(min, AggMin)
AGG(max, AggMax)
