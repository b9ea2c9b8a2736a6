// horizontal interpolation of a reader to another projection, against sampling each output cell on its own
#include "grid.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CoordinateSystemSliceBuilder.h"
static const double D2R = M_PI / 180;
struct Count : public InterpolatorProcess2d
{
    float add;
    std::vector<std::pair<size_t, size_t>>* log;
    void operator()(float* a, size_t nx, size_t ny) override
    {
        for (size_t i = 0; i < nx * ny; i++)
            a[i] += add;
    }
};
static double dist(double lon0, double lat0, double lon1, double lat1)
{
    const double a = std::sin((lat1 - lat0) / 2 * D2R), b = std::sin((lon1 - lon0) / 2 * D2R);
    return 2 * std::asin(std::min(1., std::sqrt(a * a + std::cos(lat0 * D2R) * std::cos(lat1 * D2R) * b * b)));
}
struct Var { std::string n; CDMDataType t; std::vector<double> v; double fill; };
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const Grid in = mkgrid(rnd(0, 4)), out = rnd(0, 5) ? mkgrid(rnd(0, 4)) : in;
        auto r = std::make_shared<MemReader>();
        const int nx = rnd(2, 6), ny = rnd(2, 6), nz = rnd(1, 3), nt = rnd(1, 3);
        const std::vector<double> x = mkaxis(in.x0, in.x1, nx, rnd(0, 3) ? 1 : -1), y = mkaxis(in.y0, in.y1, ny, rnd(0, 3) ? 1 : -1);
        addgrid(*r, in, x, y);
        std::vector<double> rawx = x, rawy = y; // the axes may be packed
        const double pack = rnd(0, 3) ? 1 : !in.deg && rnd(0, 1) ? 1000 : 4; // or in km
        if (pack != 1) {
            for (double& v : rawx) v /= pack;
            for (double& v : rawy) v /= pack;
            CDM& c = r->getInternalCDM();
            c.getVariable(in.xn()).setData(createData(CDM_DOUBLE, rawx.begin(), rawx.end()));
            c.getVariable(in.yn()).setData(createData(CDM_DOUBLE, rawy.begin(), rawy.end()));
            for (const std::string& n : {in.xn(), in.yn()})
                if (pack == 1000) c.addOrReplaceAttribute(n, CDMAttribute("units", std::string("km")));
                else r->att(n, "scale_factor", pack);
        }
        r->dim("k", nz);
        std::vector<double> kv(nz);
        for (int i = 0; i < nz; i++) kv[i] = 10 * i;
        r->var("k", CDM_DOUBLE, {"k"}, kv);
        addtime(*r, nt);
        const size_t nxy = nx * ny, nxyz = nxy * nz;
        std::vector<Var> vars;
        const CDMDataType types[] = {CDM_FLOAT, CDM_DOUBLE, CDM_SHORT};
        const bool wind = rnd(0, 1), inmem = rnd(0, 2) == 0;
        const std::vector<std::string> names = wind ? std::vector<std::string>{"s", "u", "v"} : std::vector<std::string>{"s"};
        for (const auto& n : names) {
            Var v{n, n == "s" ? types[rnd(0, 2)] : CDM_FLOAT, std::vector<double>(nxyz * nt), (double)-rnd(997, 999)};
            for (double& e : v.v) e = rnd(0, 11) == 0 ? v.fill : rnd(-300, 300);
            r->var(n, v.t, {in.xn(), in.yn(), "k", "t"}, v.v);
            r->getInternalCDM().addAttribute(n, CDMAttribute("_FillValue", createData(v.t, 1, v.fill)));
            r->att(n, "grid_mapping", std::string("gm"));
            if (n != "s") { r->att(n, "standard_name", std::string(n == "u" ? "x_wind" : "y_wind")); r->att(n, "units", std::string("m/s")); }
            if (inmem) {
                DataPtr d = createData(v.t, v.v.size());
                for (size_t i = 0; i < v.v.size(); i++) d->setValue(i, v.v[i]);
                r->getInternalCDM().getVariable(n).setData(d);
            }
            vars.push_back(v);
        }
        std::vector<double> other(nt);
        for (double& e : other) e = rnd(-100, 100);
        r->var("other", CDM_DOUBLE, {"t"}, other);

        // an output grid around some point of the input grid
        const int ox = rnd(1, 5), oy = rnd(1, 5);
        double cx = frnd(std::min(x[0], x.back()), std::max(x[0], x.back())), cy = frnd(std::min(y[0], y.back()), std::max(y[0], y.back()));
        reproject::reproject_values(in.p, out.p, &cx, &cy, 1);
        const double inst = in.deg ? std::fabs(x[1] - x[0]) : std::fabs(x[1] - x[0]) / 111000;
        double st = inst * frnd(.3, 1.5) * (out.deg ? 1 : 111000);
        std::vector<double> ax(ox), ay(oy);
        const int dirx = rnd(0, 4) ? 1 : -1, diry = rnd(0, 4) ? 1 : -1;
        for (int i = 0; i < ox; i++) ax[i] = cx + (i - ox / 2) * st * dirx;
        for (int i = 0; i < oy; i++) ay[i] = cy + (i - oy / 2) * st * diry;
        bool polar = false;
        if (out.deg)
            for (double v : ay) polar |= std::fabs(v) > 88;
        if (polar) continue;
        auto seam = [](const std::vector<double>& a) { const double lo = std::min(a[0], a.back()), hi = std::max(a[0], a.back()); return lo < -180 || (lo < 0 && hi > 180) || hi > 360; };
        if ((out.deg && seam(ax)) || (in.deg && seam(x))) continue; // longitude axes within -180..180 or 0..360
        const int methods[] = {MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD,
                               MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_MEAN, MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_MIN};
        const int method = methods[rnd(0, 8)];
        const bool forward = method >= MIFI_INTERPOL_FORWARD_SUM && method != MIFI_INTERPOL_COORD_NN && method != MIFI_INTERPOL_COORD_NN_KD && method != MIFI_INTERPOL_NEAREST_NEIGHBOR && method != MIFI_INTERPOL_BILINEAR && method != MIFI_INTERPOL_BICUBIC;
        const bool coord = method == MIFI_INTERPOL_COORD_NN || method == MIFI_INTERPOL_COORD_NN_KD;
        const bool points = !forward && !coord && rnd(0, 3) == 0; // to a list of latitudes and longitudes
        begin("method " + S(method) + " from " + in.p + " x " + S(x) + " y " + S(y) + " to " + (points ? "points in " : "") + out.p + " x " + S(ax) + " y " + S(ay) + " nz " + S(nz) + " nt " + S(nt) + " wind " + S(wind) + " memory " + S(inmem) + " pack " + S(pack));
        auto ip = std::make_shared<CDMInterpolator>(r);
        const bool twice = !points && rnd(0, 3) == 0;
        CASE += twice ? " twice" : "";
        float preadd = 0, postadd = 0;
        if (!forward && rnd(0, 3) == 0) { auto c = std::make_shared<Count>(); c->add = preadd = rnd(1, 5); ip->addPreprocess(c); }
        if (rnd(0, 3) == 0) { auto c = std::make_shared<Count>(); c->add = postadd = rnd(1, 5) * 1000; ip->addPostprocess(c); }
        double maxd = -1;
        if (method == MIFI_INTERPOL_COORD_NN_KD && rnd(0, 1)) { maxd = inst * 111000 * frnd(.2, 1); ip->setDistanceOfInterest(maxd); }
        // output positions in the input projection and in degrees
        const size_t no = ox * oy;
        std::vector<double> px, py;
        for (double b : ay) for (double a : ax) { px.push_back(a); py.push_back(b); }
        std::vector<double> olon = px, olat = py, ipx = px, ipy = py;
        reproject::reproject_values(out.p, MIFI_WGS84_LATLON_PROJ4, olon.data(), olat.data(), no);
        const std::string unit = out.deg ? "degree" : "m";
        int rx = ox, ry = oy;
        if (points) {
            ip->changeProjection(method, olon, olat);
            ipx = olon; ipy = olat;
            reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, in.p, ipx.data(), ipy.data(), no);
            rx = no; ry = 1;
        } else {
            if (twice)
                ip->changeProjection(method, out.p, std::vector<double>{ax[0], ax[0] + st}, std::vector<double>{ay[0], ay[0] + st}, unit, unit, CDM_DOUBLE, CDM_DOUBLE);
            ip->changeProjection(method, out.p, ax, ay, unit, unit, CDM_DOUBLE, CDM_DOUBLE);
            reproject::reproject_values(out.p, in.p, ipx.data(), ipy.data(), no);
        }
        const CDM& cdm = ip->getCDM();
        // the description of the result
        const std::vector<std::string> shape = cdm.getVariable("s").getShape();
        CHECK(shape.size() == 4 && shape[2] == "k" && shape[3] == "t", "shape");
        CHECK(cdm.getDimension(shape[0]).getLength() == size_t(rx) && cdm.getDimension(shape[1]).getLength() == size_t(ry), "size of the new grid");
        if (!points) {
            CHECK(all(ip->getScaledData(shape[0])) == ax && all(ip->getScaledData(shape[1])) == ay, "axes of the new grid");
            std::string lon, lat;
            if (cdm.getLatitudeLongitude("s", lat, lon) && out.kind != 4) {
                const std::vector<double> glon = all(ip->getData(lon)), glat = all(ip->getData(lat));
                CHECK(glon.size() == no && glat.size() == no, "number of longitudes");
                for (size_t i = 0; i < no; i++)
                    CHECK(!std::isfinite(olon[i]) || dist(glon[i], glat[i], olon[i], olat[i]) < 1e-5, "longitude and latitude of cell " + S(i) + " " + S(glon[i]) + " " + S(glat[i]) + " instead of " + S(olon[i]) + " " + S(olat[i]));
            } else
                CHECK(out.kind == 4, "no longitudes and latitudes");
        }
        CHECK(all(ip->getData("other")) == other, "variable without grid");
        // reference
        std::vector<double> fx(no), fy(no);
        std::vector<bool> unsure(no, false);
        std::vector<double> inlon, inlat;
        for (double b : y) for (double a : x) { inlon.push_back(a); inlat.push_back(b); }
        std::vector<double> tox = inlon, toy = inlat;
        if (in.kind != 4)
            reproject::reproject_values(in.p, MIFI_WGS84_LATLON_PROJ4, inlon.data(), inlat.data(), nxy);
        tox = inlon; toy = inlat;
        if (out.kind != 4 || forward)
            reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, out.p, tox.data(), toy.data(), nxy);
        double roi = 0;
        for (size_t i = 0; i < nxy; i++) {
            double m = 10;
            for (size_t j = 0; j < nxy; j++)
                if (i != j) m = std::min(m, dist(inlon[i], inlat[i], inlon[j], inlat[j]));
            roi = std::max(roi, m);
        }
        roi *= 1.414;
        if (method == MIFI_INTERPOL_COORD_NN_KD)
            roi = maxd > 0 ? maxd / MIFI_EARTH_RADIUS_M : out.deg ? st * D2R : st / MIFI_EARTH_RADIUS_M;
        if (method == MIFI_INTERPOL_COORD_NN_KD && ox == 1 && oy == 1 && maxd < 0)
            continue; // no distance defined
        for (size_t i = 0; i < no; i++) {
            if (coord) {
                double best = 100, second = 100;
                for (size_t j = 0; j < nxy; j++) {
                    const double d = dist(olon[i], olat[i], inlon[j], inlat[j]);
                    if (d < best) { second = best; best = d; fx[i] = j % nx; fy[i] = j / nx; }
                    else second = std::min(second, d);
                }
                const double lim = method == MIFI_INTERPOL_COORD_NN_KD ? 2 * std::asin(std::min(1., roi / 2)) : roi;
                unsure[i] = second - best < 1e-6 || std::fabs(best - lim) < 1e-4 * lim + 1e-9 || !std::isfinite(olon[i]);
                if (best > lim) fx[i] = fy[i] = -1000;
            } else {
                fx[i] = position(x, ipx[i], in.deg);
                fy[i] = position(y, ipy[i], false);
                for (double p : {fx[i], fy[i]}) {
                    const double h = std::fabs(p * 2 - std::round(p * 2)) / 2; // distance to a half or whole cell
                    unsure[i] = unsure[i] || !std::isfinite(p) || h < 1e-4;
                }
            }
        }
        auto M = points ? reproject::get_vector_reproject_matrix_points(in.p, MIFI_WGS84_LATLON_PROJ4, in.deg ? 0 : 1, olon.data(), olat.data(), no, 1)
                        : reproject::get_vector_reproject_matrix(in.p, out.p, ax.data(), ay.data(), out.deg ? MIFI_LONGITUDE : MIFI_PROJ_AXIS, out.deg ? MIFI_LATITUDE : MIFI_PROJ_AXIS, ox, oy);
        std::map<std::string, std::vector<double>> ref;
        for (const Var& v : vars) {
            std::vector<double>& w = ref[v.n];
            w.assign(no * nz * nt, NAN);
            for (int l = 0; l < nz * nt; l++) {
                std::vector<float> f(nxy);
                for (size_t i = 0; i < nxy; i++)
                    f[i] = v.v[l * nxy + i] == v.fill ? NAN : v.v[l * nxy + i] + preadd;
                if (forward) {
                    std::vector<std::vector<double>> cell(no);
                    for (size_t j = 0; j < nxy; j++) {
                        const double a = position(ax, tox[j], out.deg), b = position(ay, toy[j], false);
                        const bool one = (ox == 1 || oy == 1); // positions on axes with a single value are not defined by distance
                        if (one || !std::isfinite(a) || !std::isfinite(b) || std::fabs(std::fabs(a - std::floor(a)) - .5) < 1e-4 || std::fabs(std::fabs(b - std::floor(b)) - .5) < 1e-4) { std::fill(unsure.begin(), unsure.end(), true); continue; }
                        const long i1 = std::lround(a), j1 = std::lround(b);
                        if (i1 >= 0 && i1 < ox && j1 >= 0 && j1 < oy && !std::isnan(f[j]))
                            cell[i1 + j1 * ox].push_back(f[j]);
                    }
                    for (size_t i = 0; i < no; i++) {
                        if (cell[i].empty()) continue;
                        double s = 0, mx = -1e30, mn = 1e30;
                        for (double q : cell[i]) { s += q; mx = std::max(mx, q); mn = std::min(mn, q); }
                        w[l * no + i] = method == MIFI_INTERPOL_FORWARD_SUM ? s : method == MIFI_INTERPOL_FORWARD_MEAN ? s / cell[i].size() : method == MIFI_INTERPOL_FORWARD_MAX ? mx : mn;
                    }
                } else
                    for (size_t i = 0; i < no; i++) {
                        if (unsure[i]) continue;
                        float o = NAN;
                        if (method == MIFI_INTERPOL_BILINEAR) mifi_get_values_bilinear_f(f.data(), &o, fx[i], fy[i], nx, ny, 1);
                        else if (method == MIFI_INTERPOL_BICUBIC) mifi_get_values_bicubic_f(f.data(), &o, fx[i], fy[i], nx, ny, 1);
                        else mifi_get_values_f(f.data(), &o, fx[i], fy[i], nx, ny, 1);
                        w[l * no + i] = o;
                    }
            }
        }
        if (wind && !forward && !coord)
            for (size_t i = 0; i < ref["u"].size(); i++) {
                const double c = M->mtx()[3 * (i % no)], s = M->mtx()[3 * (i % no) + 1], u = ref["u"][i], v = ref["v"][i];
                ref["u"][i] = u * c - v * s;
                ref["v"][i] = u * s + v * c;
            }
        if (std::find(unsure.begin(), unsure.end(), false) == unsure.end())
            continue;
        for (const Var& v : vars) {
            auto cmp = [&](double got, size_t i, const std::string& what) {
                if (unsure[i % no]) return;
                double want = ref[v.n][i] + postadd;
                if (std::isnan(want)) { CHECK(got == v.fill || std::isnan(got), what + " cell " + S(i) + " is " + S(got) + " instead of undefined"); return; }
                if (v.t == CDM_SHORT) CHECK(std::fabs(got - want) <= .5 + 1e-3, what + " cell " + S(i) + " is " + S(got) + " instead of " + S(want));
                else CHECK(close_(got, want, 2e-3, 2e-2 * (1 + (method == MIFI_INTERPOL_BICUBIC))), what + " cell " + S(i) + " is " + S(got) + " instead of " + S(want));
            };
            const int t0 = rnd(0, nt - 1);
            const std::vector<double> g = all(ip->getDataSlice(v.n, t0));
            CHECK(g.size() == no * nz, "size of " + v.n);
            for (size_t i = 0; i < g.size(); i++)
                cmp(g[i], t0 * no * nz + i, v.n + " at step " + S(t0));
            // a part of it
            SliceBuilder sb(cdm, v.n);
            const int sx = rnd(0, rx - 1), sy = rnd(0, ry - 1), sz = rnd(0, nz - 1), stt = rnd(0, nt - 1);
            const int zx = rnd(1, rx - sx), zy = rnd(1, ry - sy), zz = rnd(1, nz - sz), zt = rnd(1, nt - stt);
            sb.setStartAndSize(shape[0], sx, zx); sb.setStartAndSize(shape[1], sy, zy); sb.setStartAndSize("k", sz, zz); sb.setStartAndSize("t", stt, zt);
            const std::vector<double> h = all(ip->getDataSlice(v.n, sb));
            CHECK(h.size() == size_t(zx) * zy * zz * zt, "size of a part of " + v.n);
            size_t e = 0;
            for (int d = 0; d < zt; d++) for (int c = 0; c < zz; c++) for (int b = 0; b < zy; b++) for (int a = 0; a < zx; a++)
                cmp(h[e++], ((stt + d) * nz + sz + c) * no + (sy + b) * rx + sx + a, "part of " + v.n);
            const std::vector<double> g2 = all(ip->getDataSlice(v.n, t0));
            for (size_t i = 0; i < g.size(); i++)
                CHECK(close_(g[i], g2[i]), "reading twice");
        }
        for (const Var& v : vars)
            CHECK(all(r->getData(v.n)) == v.v, "data of the source changed");
        CHECK(all(r->getData(in.xn())) == rawx && all(r->getData(in.yn())) == rawy, "axes of the source changed");
    }
    return done();
}
