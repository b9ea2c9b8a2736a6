#include "shim.h"
#include "fimex/FindNeighborElements.h"

extern "C" int closest(const float* a, size_t n, float x, long* pos)
{
    const auto p = MetNoFimex::find_closest_distinct_elements(a, a + n, x);
    pos[0] = p.first;
    pos[1] = p.second;
    return 0;
}
extern "C" int enclosing(const float* a, size_t n, float x, long* pos)
{
    const auto p = MetNoFimex::find_closest_neighbor_distinct_elements(a, a + n, x);
    pos[0] = p.first;
    pos[1] = p.second;
    return 0;
}
