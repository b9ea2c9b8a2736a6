// regridding with cached positions: reduced input domain, slices of the result
#include "harness.h"
#include "fimex/CachedInterpolation.h"
#include "fimex/interpolation.h"
#include "fimex/SharedArray.h"
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const size_t ix = rnd(1, 16), iy = rnd(1, 16), nz = rnd(1, 3), nt = rnd(1, 2), ox = rnd(1, 4), oy = rnd(1, 4);
        const bool unlim = rnd(0, 1);
        const int methods[] = {MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD};
        const int m = methods[rnd(0, 4)];
        auto r = std::make_shared<MemReader>();
        MemReader outDef;
        const std::string X = "x", Y = "y";
        r->dim(X, ix); r->dim(Y, iy); r->dim("z", nz); r->dim("t", nt, unlim);
        outDef.dim(X, ox); outDef.dim(Y, oy); outDef.dim("z", nz); outDef.dim("t", nt, unlim);
        std::vector<double> v(ix * iy * nz * nt);
        for (auto& x : v)
            x = rnd(0, 19) ? rnd(-400, 400) / 4.0 : NAN;
        const std::vector<std::string> shape{X, Y, "z", "t"};
        r->var("v", CDM_FLOAT, shape, v);
        outDef.var("v", CDM_FLOAT, shape, {});
        const size_t on = ox * oy;
        auto px = make_shared_array<double>(on), py = make_shared_array<double>(on);
        std::vector<double> px0(on), py0(on);
        const double cx = rnd(0, ix), cy = rnd(0, iy), w = rnd(1, 12);
        for (size_t i = 0; i < on; i++) {
            px0[i] = cx + rnd(-8, 8) * w / 16;
            py0[i] = cy + rnd(-8, 8) * w / 16;
            if (rnd(0, 14) == 0) px0[i] = rnd(0, 1) ? NAN : rnd(0, 1) ? -1000.5 : 1e30;
            if (rnd(0, 14) == 0) py0[i] = rnd(0, 1) ? NAN : rnd(0, 1) ? 1000.5 : -1e30;
            px[i] = px0[i];
            py[i] = py0[i];
        }
        begin("in " + S(ix) + "x" + S(iy) + "x" + S(nz) + "x" + S(nt) + " out " + S(ox) + "x" + S(oy) + " method " + S(m) + " px " + S(px0) + " py " + S(py0));
        auto ci = createCachedInterpolation(X, Y, m, px, py, ix, iy, ox, oy);
        for (size_t i = 0; i < on; i++)
            CHECK(close_(px[i], px0[i], 0, 0) && close_(py[i], py0[i], 0, 0), "positions of the caller changed");
        CHECK(ci->getOutX() == ox && ci->getOutY() == oy, "output size");
        // reference: the sampling kernels on the whole field
        std::vector<float> in(v.begin(), v.end()), zv(nz * nt);
        std::vector<float> ref(on * nz * nt);
        auto f = m == MIFI_INTERPOL_BILINEAR ? mifi_get_values_bilinear_f : m == MIFI_INTERPOL_BICUBIC ? mifi_get_values_bicubic_f : mifi_get_values_f;
        for (size_t i = 0; i < on; i++) {
            f(in.data(), zv.data(), px0[i], py0[i], ix, iy, nz * nt);
            for (size_t z = 0; z < nz * nt; z++)
                ref[z * on + i] = zv[z];
        }
        size_t ns = 0;
        auto same = [&](const float* a, const float* b, size_t n, const char* what) {
            for (size_t i = 0; i < n; i++)
                CHECK(close_(a[i], b[i], 2e-5, 1e-3), std::string(what) + " value " + S(i) + ": " + S(a[i]) + " instead of " + S(b[i]));
        };
        const size_t t = rnd(0, nt - 1);
        DataPtr d = ci->getInputDataSlice(r, "v", t);
        auto o = ci->interpolateValues(d->asFloat(), d->size(), ns);
        if (unlim) {
            CHECK(ns == on * nz, "size of one slice");
            same(o.get(), &ref[t * nz * on], ns, "slice");
        } else {
            CHECK(ns == on * nz * nt, "size of the field");
            same(o.get(), &ref[0], ns, "field");
        }
        // part of the result
        SliceBuilder sb(outDef.getCDM(), "v");
        const size_t dl[4] = {ox, oy, nz, nt};
        size_t st[4], sz[4];
        for (int q = 0; q < 4; q++) {
            st[q] = rnd(0, dl[q] - 1);
            sz[q] = rnd(1, dl[q] - st[q]);
            if (rnd(0, 2) == 0) { st[q] = 0; sz[q] = dl[q]; }
            sb.setStartAndSize(shape[q], st[q], sz[q]);
        }
        CASE += " slice " + S(std::vector<size_t>(st, st + 4)) + S(std::vector<size_t>(sz, sz + 4));
        d = ci->getInputDataSlice(r, "v", sb);
        o = ci->interpolateValues(d->asFloat(), d->size(), ns);
        CHECK(ns == on * sz[2] * sz[3], "size of the sliced field");
        DataPtr od = ci->getOutputDataSlice(createData(ns, o), sb);
        CHECK(od->size() == sz[0] * sz[1] * sz[2] * sz[3], "size of the sliced result");
        auto of = od->asFloat();
        size_t p = 0;
        for (size_t tt = 0; tt < sz[3]; tt++) for (size_t z = 0; z < sz[2]; z++) for (size_t y = 0; y < sz[1]; y++) for (size_t x = 0; x < sz[0]; x++)
            same(&of[p++], &ref[(((st[3] + tt) * nz + st[2] + z) * oy + st[1] + y) * ox + st[0] + x], 1, "sliced result");
    }
    CHECK(throws([] { createCachedInterpolation("x", "y", 99, make_shared_array<double>(1), make_shared_array<double>(1), 1, 1, 1, 1); }), "unknown method");
    return done();
}
