// rotation of vectors and directions against finite differences of the projection itself
#include "harness.h"
#include "fimex/CDMProcessor.h"
#include "fimex/CachedVectorReprojection.h"
#include "fimex/reproject.h"
#include "fimex/CDMconstants.h"
#include "fimex/interpolation.h"
static const double D2R = M_PI / 180;
struct Proj { std::string p; bool deg; double x0, x1, y0, y1; };
static Proj make(int k)
{
    const double lon0 = rnd(-3, 3) * 20, R = 6371000;
    const std::string e = " +R=6371000 +no_defs";
    if (k == 0) return {"+proj=stere +lat_0=90 +lat_ts=60 +lon_0=" + S(lon0) + e, false, -3e6, 3e6, -3e6, 3e6};
    if (k == 1) return {"+proj=lcc +lat_1=50 +lat_2=60 +lat_0=55 +lon_0=" + S(lon0) + e, false, -2e6, 2e6, -2e6, 2e6};
    if (k == 2) return {"+proj=merc +lon_0=" + S(lon0) + e, false, -5e6, 5e6, 5e6, 9e6};
    if (k == 3) return {"+proj=ob_tran +o_proj=longlat +o_lat_p=" + S(rnd(20, 60)) + " +lon_0=" + S(lon0) + e, true, -30, 30, -20, 20};
    return {"+proj=longlat" + e, true, -40, 40, 35, 75};
}
// directions (counterclockwise angle in degree) of small steps along x and y in the plane of the projection; NAN if not conformal there
static std::vector<double> directions(const Proj& from, const Proj& to, const std::vector<double>& x, const std::vector<double>& y, double tol)
{
    const double h = from.deg ? 1e-3 : 50;
    const size_t n = x.size();
    std::vector<double> px, py, r(n, NAN);
    for (size_t i = 0; i < n; i++)
        for (int k = 0; k < 4; k++) {
            px.push_back(x[i] + (k == 0 ? -h : k == 1 ? h : 0));
            py.push_back(y[i] + (k == 2 ? -h : k == 3 ? h : 0));
        }
    reproject::reproject_values(from.p, to.p, px.data(), py.data(), 4 * n);
    for (size_t i = 0; i < n; i++) {
        double phi[2];
        bool ok = !(from.deg && std::fabs(y[i]) > 84);
        for (int k = 0; k < 2; k++) {
            const size_t j = 4 * i + 2 * k;
            double dx = px[j + 1] - px[j], dy = py[j + 1] - py[j];
            if (to.deg) {
                if (dx > 180) dx -= 360;
                if (dx < -180) dx += 360;
                dx *= std::cos((py[j] + py[j + 1]) / 2 * D2R);
                ok &= std::fabs(py[j]) < 85;
            }
            ok &= std::isfinite(dx + dy) && std::fabs(dx) + std::fabs(dy) > 1e-9;
            phi[k] = std::atan2(dy, dx) / D2R - (k ? 90 : 0);
        }
        if (ok && std::fabs(std::remainder(phi[0] - phi[1], 360)) < tol)
            r[i] = phi[1];
    }
    return r;
}
static double cdiff(double a, double b) { return std::fabs(std::remainder(a - b, 360)); }
static void compare(const Proj& from, const Proj& to, const std::vector<double>& xin, const std::vector<double>& yin, reproject::Matrix_cp m, const std::string& what)
{
    const std::vector<double> want = directions(from, to, xin, yin, .4);
    for (size_t i = 0; i < want.size(); i++) {
        const double c = m->mtx()[3 * i], s = m->mtx()[3 * i + 1], deg = m->mtx()[3 * i + 2];
        if (std::isnan(want[i])) continue;
        CHECK(cdiff(deg, want[i]) < .4, what + " " + S(i) + " rotated by " + S(deg) + " instead of " + S(want[i]));
        CHECK(std::fabs(c - std::cos(deg * D2R)) < 1e-6 && std::fabs(s - std::sin(deg * D2R)) < 1e-6, what + " matrix is not the rotation by its angle");
    }
}
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const int a = rnd(0, 4), b = rnd(0, 4);
        const Proj in = make(a), out = make(b);
        const int ox = rnd(1, 5), oy = rnd(1, 5);
        const int sx = rnd(0, 3) ? 1 : -1, sy = rnd(0, 3) ? 1 : -1;
        // a grid in the output projection
        auto axis = [&](double lo, double hi, int n, int sgn) {
            const double st = (hi - lo) / 400 * rnd(1, 8), s = frnd(lo, hi - n * st);
            std::vector<double> v(n);
            for (int i = 0; i < n; i++) v[i] = sgn > 0 ? s + i * st : s + (n - 1 - i) * st;
            return v;
        };
        {
            const std::vector<double> x = axis(out.x0, out.x1, ox, sx), y = axis(out.y0, out.y1, oy, sy);
            begin("from " + in.p + " to " + out.p + " x " + S(x) + " y " + S(y));
            auto m = reproject::get_vector_reproject_matrix(in.p, out.p, x.data(), y.data(), out.deg ? MIFI_LONGITUDE : MIFI_PROJ_AXIS, out.deg ? MIFI_LATITUDE : MIFI_PROJ_AXIS, ox, oy);
            CHECK(m->size_x == ox && m->size_y == oy, "size");
            std::vector<double> px, py;
            for (double yy : y) for (double xx : x) { px.push_back(xx); py.push_back(yy); }
            std::vector<double> ix = px, iy = py;
            reproject::reproject_values(out.p, in.p, ix.data(), iy.data(), ox * oy);
            compare(in, out, ix, iy, m, "grid cell ");
            auto mp = reproject::get_vector_reproject_matrix_points(in.p, out.p, in.deg ? 0 : 1, px.data(), py.data(), ox, oy);
            compare(in, out, ix, iy, mp, "point ");
            // the axes themselves
            std::vector<double> rx(ox * oy), ry(ox * oy);
            reproject::reproject_axes(out.p, in.p, x.data(), y.data(), ox, oy, rx.data(), ry.data());
            for (int i = 0; i < ox * oy; i++)
                CHECK(close_(rx[i], ix[i]) && close_(ry[i], iy[i]), "reprojected axes");
        }
        {
            const std::vector<double> x = axis(in.x0, in.x1, ox, sx), y = axis(in.y0, in.y1, oy, sy);
            begin("field from " + in.p + " to " + out.p + " x " + S(x) + " y " + S(y));
            std::vector<double> px, py;
            for (double yy : y) for (double xx : x) { px.push_back(xx); py.push_back(yy); }
            auto m = reproject::get_vector_reproject_matrix_field(in.p, out.p, px.data(), py.data(), ox, oy);
            compare(in, out, px, py, m, "field cell ");
        }
        if (run % 8 == 0) { // a reader with winds, rotated by the processor
            const int k = rnd(0, 1) ? 0 : 3;
            const double lon0 = rnd(-3, 3) * 20, olat = rnd(20, 60);
            Proj g = make(k);
            auto r = std::make_shared<MemReader>();
            const int nx = rnd(2, 4), ny = rnd(2, 4), nt = rnd(1, 2), type = rnd(0, 1) ? CDM_FLOAT : CDM_DOUBLE;
            const std::vector<double> x = axis(g.x0, g.x1, nx, 1), y = axis(g.y0, g.y1, ny, 1);
            r->dim("x", nx); r->dim("y", ny); r->dim("t", nt, true);
            r->var("x", CDM_DOUBLE, {"x"}, x); r->var("y", CDM_DOUBLE, {"y"}, y);
            r->var("gm", CDM_INT, {}, {0});
            r->att("gm", "earth_radius", 6371000.);
            if (k == 0) {
                g.p = "+proj=stere +lat_0=90 +lat_ts=60 +lon_0=" + S(lon0) + " +R=6371000 +no_defs";
                r->att("gm", "grid_mapping_name", std::string("polar_stereographic"));
                r->att("gm", "straight_vertical_longitude_from_pole", lon0);
                r->att("gm", "latitude_of_projection_origin", 90.);
                r->att("gm", "standard_parallel", 60.);
                r->att("x", "standard_name", std::string("projection_x_coordinate")); r->att("y", "standard_name", std::string("projection_y_coordinate"));
                r->att("x", "units", std::string("m")); r->att("y", "units", std::string("m"));
            } else {
                g.p = "+proj=ob_tran +o_proj=longlat +o_lat_p=" + S(olat) + " +lon_0=" + S(lon0) + " +R=6371000 +no_defs";
                r->att("gm", "grid_mapping_name", std::string("rotated_latitude_longitude"));
                r->att("gm", "grid_north_pole_longitude", lon0 + 180);
                r->att("gm", "grid_north_pole_latitude", olat);
                r->att("x", "standard_name", std::string("grid_longitude")); r->att("y", "standard_name", std::string("grid_latitude"));
                r->att("x", "units", std::string("degree")); r->att("y", "units", std::string("degree"));
            }
            r->var("t", CDM_DOUBLE, {"t"}, std::vector<double>(nt, 0.));
            r->att("t", "units", std::string("hours since 2020-01-01 00:00:00"));
            const int nz = rnd(0, 2); // 0: no levels
            if (nz > 0) { r->dim("lev", nz); std::vector<double> z(nz); for (int i = 0; i < nz; i++) z[i] = 100 * (i + 1); r->var("lev", CDM_DOUBLE, {"lev"}, z); r->att("lev", "units", std::string("hPa")); }
            const int nh = nx * ny * std::max(1, nz); // values of one step
            const size_t n = nh * nt;
            std::vector<double> u(n), v(n), d(n);
            for (size_t i = 0; i < n; i++) { u[i] = rnd(-40, 40) / 2.; v[i] = rnd(-40, 40) / 2.; d[i] = rnd(0, 359); if (rnd(0, 9) == 0) u[i] = -999; }
            std::vector<std::string> shape{"x", "y", "lev", "t"};
            if (nz == 0) shape.erase(shape.begin() + 2);
            const bool packed = rnd(0, 1);
            double scale[3], off[3];
            for (auto& nm : {"u", "v", "d"}) {
                r->var(nm, (CDMDataType)type, shape, nm[0] == 'u' ? u : nm[0] == 'v' ? v : d);
                r->att(nm, "grid_mapping", std::string("gm"));
                type == CDM_FLOAT ? r->att(nm, "_FillValue", -999.f) : r->att(nm, "_FillValue", -999.);
                const int k = nm[0] == 'u' ? 0 : nm[0] == 'v' ? 1 : 2;
                scale[k] = packed && k != 2 ? rnd(1, 3) / 2. : 1;
                off[k] = packed && k != 2 ? rnd(-6, 6) : 0;
                if (packed) {
                    r->att(nm, "scale_factor", scale[k]);
                    r->att(nm, "add_offset", off[k]);
                }
            }
            const bool toLL = rnd(0, 2) > 0;
            const int how = rnd(0, 2); // components by name, with new standard names, or all vectors
            if (how == 2) {
                r->att("u", "standard_name", std::string(toLL ? "x_wind" : "eastward_wind"));
                r->att("v", "standard_name", std::string(toLL ? "y_wind" : "northward_wind"));
            }
            begin("processor how " + S(how) + " levels " + S(nz) + " " + g.p + " to latlon " + S(toLL) + " x " + S(x) + " y " + S(y) + " u " + S(u) + " v " + S(v) + " d " + S(d) + " scale " + S(scale[0]) + " " + S(scale[1]) + " offset " + S(off[0]) + " " + S(off[1]));
            if (rnd(0, 2) == 0) for (const char* nm : {"u", "v", "d"}) if (rnd(0, 1)) { r->inMemory(nm); CASE += std::string(" ") + nm + " in memory"; }
            const Proj ll{MIFI_WGS84_LATLON_PROJ4, true, 0, 0, 0, 0};
            CDMProcessor p(r);
            if (how == 2) p.rotateAllVectorsToLatLon(toLL);
            else if (how == 1) p.rotateVectorToLatLon(toLL, {"u"}, {"v"}, {"new_u"}, {"new_v"});
            else p.rotateVectorToLatLon(toLL, {"u"}, {"v"});
            {
                const CDMVariable &cu = p.getCDM().getVariable("u"), &cv = p.getCDM().getVariable("v");
                CHECK(cu.isSpatialVector() && cv.isSpatialVector() && cu.getSpatialVectorCounterpart() == "v" && cv.getSpatialVectorCounterpart() == "u", "the components belong together");
                CHECK(cu.getSpatialVectorDirection() == (toLL ? CDMVariable::SPATIAL_VECTOR_LON : CDMVariable::SPATIAL_VECTOR_X)
                      && cv.getSpatialVectorDirection() == (toLL ? CDMVariable::SPATIAL_VECTOR_LAT : CDMVariable::SPATIAL_VECTOR_Y), "new direction of the components");
                CDMAttribute a;
                const std::string rot = toLL ? "LATLON_ROTATED_" : "GRID_ROTATED_";
                const bool hu = p.getCDM().getAttribute("u", "standard_name", a);
                CHECK(hu == (how > 0) && (!hu || a.getStringValue() == (how == 1 ? "new_u" : toLL ? rot + "x_wind" : rot + "eastward_wind")), "standard_name of u");
                const bool hv = p.getCDM().getAttribute("v", "standard_name", a);
                CHECK(hv == (how > 0) && (!hv || a.getStringValue() == (how == 1 ? "new_v" : toLL ? rot + "y_wind" : rot + "northward_wind")), "standard_name of v");
            }
            p.rotateDirectionToLatLon(toLL, {"d"});
            std::vector<double> gx, gy;
            for (int i = 0; i < nx * ny; i++) { gx.push_back(x[i % nx]); gy.push_back(y[i / nx]); }
            if (!toLL) reproject::reproject_values(g.p, ll.p, gx.data(), gy.data(), nx * ny);
            const std::vector<double> want = directions(toLL ? g : ll, toLL ? ll : g, gx, gy, 1);
            for (int t = 0; t < nt; t++) {
                const std::vector<double> ru = all(p.getScaledDataSlice("u", t)), rv = all(p.getScaledDataSlice("v", t)), rd = all(p.getDataSlice("d", t));
                CHECK(ru.size() == size_t(nh) && rv.size() == ru.size() && rd.size() == ru.size(), "size");
                for (int i = 0; i < nh; i++) {
                    const double uu = u[t * nh + i] * scale[0] + off[0], vv = v[t * nh + i] * scale[1] + off[1], dd = d[t * nh + i];
                    if (u[t * nh + i] == -999) {
                        CHECK((ru[i] == -999 || std::isnan(ru[i])) && (rv[i] == -999 || std::isnan(rv[i])), "undefined stays undefined");
                        continue;
                    }
                    CHECK(close_(std::hypot(uu, vv), std::hypot(ru[i], rv[i]), 1e-4, 1e-3), "length of cell " + S(i));
                    const double py = want[i % (nx * ny)];
                    if (std::isnan(py)) continue;
                    if (std::hypot(uu, vv) > 0)
                        CHECK(cdiff(std::atan2(rv[i], ru[i]) / D2R, std::atan2(vv, uu) / D2R + py) < 1, "direction of cell " + S(i) + " " + S(uu) + "," + S(vv) + " -> " + S(ru[i]) + "," + S(rv[i]) + " angle " + S(py));
                    CHECK(cdiff(rd[i], dd - py) < 1, "angle of cell " + S(i) + ": " + S(dd) + " -> " + S(rd[i]) + " rotation " + S(py));
                    CHECK(rd[i] >= 0 && rd[i] <= 360, "angle between 0 and 360");
                }
            }
            for (const char* nm : {"u", "v", "d"}) {
                std::vector<double> w = all(p.getData(nm)), parts;
                for (int t = 0; t < nt; t++) { const std::vector<double> s = all(p.getDataSlice(nm, t)); parts.insert(parts.end(), s.begin(), s.end()); }
                CHECK(w.size() == parts.size(), std::string("size of all data of ") + nm);
                for (size_t i = 0; i < w.size(); i++) CHECK(close_(w[i], parts[i]), std::string("all data of ") + nm + " cell " + S(i) + ": " + S(w[i]) + " not " + S(parts[i]));
            }
            CHECK(r->getDataSlice("u", 0)->asDouble()[0] == u[0], "source unchanged");
        }
    }
    return done();
}
