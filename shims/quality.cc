#include "shim.h"
#include "CDMQualityExtractor.cc"

extern "C" double extreme_high(double* a, size_t n) { return MetNoFimex::findDefinedExtreme(a, a + n, &std::max<double>); }
extern "C" double extreme_low(double* a, size_t n) { return MetNoFimex::findDefinedExtreme(a, a + n, &std::min<double>); }
