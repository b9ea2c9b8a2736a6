#include "shim.h"
#include "c_fimex.cc"

// a std::string of n characters at p, without copying them (layout of libstdc++: pointer, length, buffer)
extern "C" int copy_name(const char* p, size_t len, char* dest, int n)
{
    struct { const char* p; size_t len; size_t room[2]; } s = {p, len, {len, 0}};
    static_assert(sizeof(s) == sizeof(std::string), "layout of std::string");
    return string_cpy(reinterpret_cast<const std::string&>(s), dest, n);
}
// a slicebuilder with the given start positions and sizes (layout of std::vector: begin, end, end of storage)
extern "C" int start_and_size(const size_t* a, const size_t* b, size_t n, unsigned int* start, unsigned int* size)
{
    alignas(16) char mem[sizeof(MetNoFimex::SliceBuilder)];
    MetNoFimex::SliceBuilder* sb = reinterpret_cast<MetNoFimex::SliceBuilder*>(mem);
    const size_t** va = reinterpret_cast<const size_t**>(const_cast<std::vector<size_t>*>(&sb->getDimensionStartPositions()));
    const size_t** vb = reinterpret_cast<const size_t**>(const_cast<std::vector<size_t>*>(&sb->getDimensionSizes()));
    va[0] = a; va[1] = va[2] = a + n;
    vb[0] = b; vb[1] = vb[2] = b + n;
    mifi_slicebuilder h(std::shared_ptr<MetNoFimex::SliceBuilder>(std::shared_ptr<MetNoFimex::SliceBuilder>(), sb));
    return mifi_slicebuilder_get_start_size(&h, start, size);
}
extern "C" int number_of_dims(const size_t* b, size_t n)
{
    alignas(16) char mem[sizeof(MetNoFimex::SliceBuilder)];
    MetNoFimex::SliceBuilder* sb = reinterpret_cast<MetNoFimex::SliceBuilder*>(mem);
    const size_t** vb = reinterpret_cast<const size_t**>(const_cast<std::vector<size_t>*>(&sb->getDimensionSizes()));
    vb[0] = b; vb[1] = vb[2] = b + n;
    mifi_slicebuilder h(std::shared_ptr<MetNoFimex::SliceBuilder>(std::shared_ptr<MetNoFimex::SliceBuilder>(), sb));
    return mifi_slicebuilder_ndims(&h);
}
