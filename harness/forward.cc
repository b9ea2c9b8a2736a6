// forward interpolation: all source cells falling into a target cell are aggregated, per level
#include "harness.h"
#include "CachedForwardInterpolation.h"
#include "fimex/interpolation.h"
#include "fimex/SharedArray.h"
#include <algorithm>
MAIN
{
    INIT
    const int methods[] = {MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_MEAN, MIFI_INTERPOL_FORWARD_MEDIAN, MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_MIN,
                           MIFI_INTERPOL_FORWARD_UNDEF_SUM, MIFI_INTERPOL_FORWARD_UNDEF_MEAN, MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN, MIFI_INTERPOL_FORWARD_UNDEF_MAX, MIFI_INTERPOL_FORWARD_UNDEF_MIN};
    for (long run = 0; run < N; run++) {
        const size_t ix = rnd(1, 12), iy = rnd(1, 12), nz = rnd(1, 3), nt = rnd(1, 2), ox = rnd(1, 5), oy = rnd(1, 5);
        const int mi = rnd(0, 9), kind = mi % 5;
        const bool undef = mi >= 5;
        auto r = std::make_shared<MemReader>();
        r->dim("x", ix); r->dim("y", iy); r->dim("z", nz); r->dim("t", nt, true);
        std::vector<double> v(ix * iy * nz * nt);
        const int pn = rnd(0, 2) ? 9 : 1;
        for (auto& x : v)
            x = rnd(0, pn) ? rnd(-400, 400) / 4.0 : NAN;
        r->var("v", CDM_FLOAT, {"x", "y", "z", "t"}, v);
        auto px = make_shared_array<double>(ix * iy), py = make_shared_array<double>(ix * iy);
        const double sx = rnd(1, 16) / 8.0, sy = rnd(1, 16) / 8.0, cx = rnd(-40, 8) / 4.0, cy = rnd(-40, 8) / 4.0;
        for (size_t y = 0; y < iy; y++)
            for (size_t x = 0; x < ix; x++) {
                px[y * ix + x] = cx + sx * x + rnd(-2, 2) * 0.3;
                py[y * ix + x] = cy + sy * y + rnd(-2, 2) * 0.3;
                if (rnd(0, 30) == 0) px[y * ix + x] = rnd(0, 1) ? NAN : -999;
                if (rnd(0, 30) == 0) py[y * ix + x] = rnd(0, 1) ? NAN : 4294967296.0;
            }
        begin("in " + S(ix) + "x" + S(iy) + "x" + S(nz) + "x" + S(nt) + " out " + S(ox) + "x" + S(oy) + " method " + S(mi) + " run " + S(run));
        CachedForwardInterpolation ci("x", "y", methods[mi], px, py, ix, iy, ox, oy);
        const size_t t = rnd(0, nt - 1);
        DataPtr d = ci.getInputDataSlice(r, "v", t);
        size_t ns = 0;
        auto o = ci.interpolateValues(d->asFloat(), d->size(), ns);
        CHECK(ns == ox * oy * nz, "size");
        for (size_t z = 0; z < nz; z++)
            for (size_t c = 0; c < ox * oy; c++) {
                std::vector<double> in;
                for (size_t i = 0; i < ix * iy; i++) {
                    const double rx = std::round(px[i]), ry = std::round(py[i]);
                    if (rx >= 0 && rx < ox && ry >= 0 && ry < oy && (size_t)ry * ox + (size_t)rx == c) {
                        const double x = v[(t * nz + z) * ix * iy + i];
                        if (undef || !std::isnan(x))
                            in.push_back(x);
                    }
                }
                const double got = o[z * ox * oy + c];
                const std::string what = "level " + S(z) + " cell " + S(c) + " values " + S(in) + " gives " + S(got);
                if (in.empty()) {
                    CHECK(std::isnan(got), what);
                    continue;
                }
                bool nan = std::any_of(in.begin(), in.end(), [](double x) { return std::isnan(x); });
                double sum = 0;
                for (double x : in) sum += x;
                if (kind == 0) CHECK(close_(got, sum, 1e-5, 1e-3), what);
                if (kind == 1) CHECK(close_(got, sum / in.size(), 1e-5, 1e-3), what);
                if (nan) continue; // order statistics of undefined values are unspecified
                std::sort(in.begin(), in.end());
                if (kind == 2) CHECK(got == in[in.size() / 2], what);
                if (kind == 3) CHECK(got == in.back(), what);
                if (kind == 4) CHECK(got == in.front(), what);
            }
    }
    CHECK(throws([] { CachedForwardInterpolation("x", "y", MIFI_INTERPOL_BILINEAR, make_shared_array<double>(1), make_shared_array<double>(1), 1, 1, 1, 1); }), "unknown method");
    return done();
}
