#include "shim.h"
#include "DataIndex.cc"
using namespace MetNoFimex;

// position in an array of 4 dimensions, the first one fastest
extern "C" size_t index_position(size_t nx, size_t ny, size_t nz, size_t nt, size_t x, size_t y, size_t z, size_t t)
{
    DataIndex i(std::vector<size_t>{nx, ny, nz, nt});
    return i.getPos(x, y, z, t);
}
extern "C" size_t index_position3(size_t nx, size_t ny, size_t nz, size_t x, size_t y, size_t z)
{
    DataIndex i(std::vector<size_t>{nx, ny, nz});
    return i.getPos(x, y, z);
}
extern "C" size_t index_position_list(size_t nx, size_t ny, size_t nz, size_t x, size_t y, size_t z)
{
    DataIndex i(std::vector<size_t>{nx, ny, nz});
    return i.getPos(std::vector<size_t>{x, y, z});
}
// dimensions that are not there count as position 0
extern "C" size_t index_position_more(size_t nx, size_t ny, size_t x, size_t y, size_t z, size_t t)
{
    DataIndex i(std::vector<size_t>{nx, ny});
    return i.getPos(x, y, z, t);
}
