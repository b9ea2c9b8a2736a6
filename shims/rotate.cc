#include "shim.h"
#include "CachedVectorReprojection.cc"
#define logger logger_reproject
#include "reproject.cc"
using namespace MetNoFimex;

static reproject::Matrix_cp matrix(double* m, int nx, int ny)
{
    auto p = std::make_shared<reproject::Matrix>(1, 1);
    p->size_x = nx;
    p->size_y = ny;
    p->matrix = wrap(m);
    return p;
}
extern "C" void rotate_values(double* m, int nx, int ny, float* u, float* v, size_t n)
{
    TRY
    CachedVectorReprojection c(matrix(m, nx, ny));
    auto pu = wrap(u), pv = wrap(v);
    c.reprojectValues(pu, pv, n);
    CATCH
}
extern "C" void rotate_directions(double* m, int nx, int ny, float* a, size_t n)
{
    TRY
    CachedVectorReprojection c(matrix(m, nx, ny));
    auto pa = wrap(a);
    c.reprojectDirectionValues(pa, n);
    CATCH
}

#ifdef VERIF_IR
// the calculation of the rotation; proj itself is replaced by its contract
static reproject::crs2crs& c2c(char* buf, bool latlon)
{
    reproject::crs2crs& c = *reinterpret_cast<reproject::crs2crs*>(buf);
    c.dst_is_latlon_ = latlon;
    return c;
}
extern "C" void rotation_delta(bool latlon, double* inx, double* iny, double* outx, double* outy, double dx, double dy, int ox, int oy, double* m)
{
    alignas(reproject::crs2crs) char buf[sizeof(reproject::crs2crs)];
    auto r = reproject::get_vector_reproject_matrix_points_proj_delta(c2c(buf, latlon), inx, iny, outx, outy, dx, dy, ox, oy);
    for (int i = 0; i < 3 * ox * oy; ++i)
        m[i] = r->mtx()[i];
}
extern "C" void rotation_grid(bool latlon, double* inx, double* iny, double* outx, double* outy, int ox, int oy, double* m)
{
    alignas(reproject::crs2crs) char buf[sizeof(reproject::crs2crs)];
    auto r = reproject::get_vector_reproject_matrix_proj(c2c(buf, latlon), inx, iny, outx, outy, ox, oy);
    for (int i = 0; i < 3 * ox * oy; ++i)
        m[i] = r->mtx()[i];
}
// projections by name: the texts are not looked at, proj is replaced by its contract
struct Text
{
    alignas(std::string) char buf[sizeof(std::string)];
    operator const std::string&() const { return reinterpret_cast<const std::string&>(buf); }
};
extern "C" void grid_points(double* xa, double* ya, int ix, int iy, double* px, double* py)
{
    Text a, b;
    reproject::reproject_axes(a, b, xa, ya, ix, iy, px, py);
}
extern "C" void points(double* px, double* py, int n)
{
    Text a, b;
    reproject::reproject_values(a, b, px, py, n);
}
// done: set by the contract of the function that finishes the calculation
extern "C" void rotation_points(bool metric, double* outx, double* outy, int ox, int oy, int* done)
{
    Text a, b;
    reproject::get_vector_reproject_matrix_points(a, b, metric, outx, outy, ox, oy);
}
extern "C" void rotation_field(double* inx, double* iny, int ox, int oy, int* done)
{
    Text a, b;
    reproject::get_vector_reproject_matrix_field(a, b, inx, iny, ox, oy);
}
extern "C" void rotation_axes(double* xa, double* ya, int ox, int oy, int* done)
{
    Text a, b;
    reproject::get_vector_reproject_matrix(a, b, xa, ya, 0, 0, ox, oy);
}
extern "C" void rotation_step(double* inx, double* iny, double* outx, double* outy, int ox, int oy, int* done)
{
    alignas(reproject::crs2crs) char buf[sizeof(reproject::crs2crs)];
    reproject::get_vector_reproject_matrix_proj(c2c(buf, true), inx, iny, outx, outy, ox, oy);
}
#endif
