// targets of horizontal interpolation: automatic axes, templates, cross-sections; and the description of the result, which can be used again
#include "grid.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CrossSectionDefinition.h"
#include "fimex/SpatialAxisSpec.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
static CoordinateSystem_cp csOf(CDMReader_p r, const std::string& v)
{
    CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(listCoordinateSystems(r), v);
    CHECK(cs.get(), "no coordinate system of " + v);
    return cs;
}
static bool near(double a, double b, double lon = 0) { double d = std::fabs(a - b); return d < 1e-4 || (lon && std::fabs(d - 360) < 1e-4); }
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const Grid in = mkgrid(rnd(0, 4)), out = rnd(0, 5) ? mkgrid(rnd(0, 4)) : in;
        auto r = std::make_shared<MemReader>();
        const int nx = rnd(2, 6), ny = rnd(0, 2) ? rnd(2, 6) : nx, nt = rnd(1, 2);
        const std::vector<double> x = mkaxis(in.x0, in.x1, nx, rnd(0, 3) ? 1 : -1, 30), y = mkaxis(in.y0, in.y1, ny, rnd(0, 3) ? 1 : -1, 30);
        addgrid(*r, in, x, y);
        const double pack = rnd(0, 3) ? 1 : !in.deg && rnd(0, 1) ? 1000 : 4; // axes packed or in km
        if (pack != 1) {
            std::vector<double> px = x, py = y;
            for (double& v : px) v /= pack;
            for (double& v : py) v /= pack;
            CDM& c = r->getInternalCDM();
            c.getVariable(in.xn()).setData(createData(CDM_DOUBLE, px.begin(), px.end()));
            c.getVariable(in.yn()).setData(createData(CDM_DOUBLE, py.begin(), py.end()));
            for (const std::string& n : {in.xn(), in.yn()})
                if (pack == 1000) c.addOrReplaceAttribute(n, CDMAttribute("units", std::string("km")));
                else r->att(n, "scale_factor", pack);
        }
        addtime(*r, nt);
        const size_t nxy = nx * ny;
        const bool wind = rnd(0, 1);
        for (std::string n : wind ? std::vector<std::string>{"s", "u", "v"} : std::vector<std::string>{"s"}) {
            std::vector<double> v(nxy * nt);
            for (double& e : v) e = rnd(0, 11) == 0 ? -999 : rnd(-300, 300);
            r->var(n, CDM_FLOAT, {in.xn(), in.yn(), "t"}, v);
            r->getInternalCDM().addAttribute(n, CDMAttribute("_FillValue", createData(CDM_FLOAT, 1, -999.)));
            r->att(n, "grid_mapping", std::string("gm"));
            if (n != "s") { r->att(n, "standard_name", std::string(n == "u" ? "x_wind" : "y_wind")); r->att(n, "units", std::string("m/s")); }
        }
        const int conv = rnd(0, 2);
        if (conv) r->att(CDM::globalAttributeNS(), "Conventions", std::string(conv == 1 ? "CF-1.6" : "COARDS"));
        std::vector<double> lon, lat;
        for (double b : y) for (double a : x) { lon.push_back(a); lat.push_back(b); }
        if (in.kind != 4) reproject::reproject_values(in.p, MIFI_WGS84_LATLON_PROJ4, lon.data(), lat.data(), nxy);
        const int methods[] = {MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC};
        const int method = methods[rnd(0, 2)], mode = rnd(0, 3);
        CDMReader_p rd = r;
        ::begin("mode " + S(mode) + " method " + S(method) + " from " + in.p + " x " + S(x) + " y " + S(y) + " to " + out.p + " nt " + S(nt) + " wind " + S(wind) + " conv " + S(conv) + " pack " + S(pack));
        auto ip = std::make_shared<CDMInterpolator>(rd);
        auto direct = std::make_shared<CDMInterpolator>(rd); // the target given as axes or points
        const bool used = rnd(0, 3) == 0;
        if (used) { // other targets before
            if (rnd(0, 1)) ip->changeProjection(method, std::vector<double>{lon[0], lon[1]}, std::vector<double>{lat[0], lat[1]});
            else ip->changeProjection(method, out.p, std::vector<double>{out.x0, out.x1}, std::vector<double>{out.y0, out.y1}, out.deg ? "degree" : "m", out.deg ? "degree" : "m", CDM_DOUBLE, CDM_DOUBLE);
            CASE += " used before";
        }
        std::vector<std::string> names{"s"};
        if (wind) { names.push_back("u"); names.push_back("v"); }
        auto same = [&](CDMReader_p a, CDMReader_p b, const std::string& what) {
            for (const auto& n : names) {
                const std::vector<double> p = all(a->getData(n)), q = all(b->getData(n));
                CHECK(p.size() == q.size(), what + ": size of " + n + " is " + S(p.size()) + " instead of " + S(q.size()));
                for (size_t i = 0; i < p.size(); i++) CHECK(close_(p[i], q[i], 1e-3, 1e-3), what + ": " + n + " cell " + S(i) + " is " + S(p[i]) + " instead of " + S(q[i]));
            }
        };
        if (mode == 0) { // axes by specification
            if (out.kind == 4) continue;
            std::vector<double> px = lon, py = lat;
            reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, out.p, px.data(), py.data(), nxy);
            bool ok = true;
            for (size_t i = 0; i < nxy; i++) ok &= std::isfinite(px[i]) && std::isfinite(py[i]) && std::fabs(px[i]) < 2e7 && std::fabs(py[i]) < 2e7;
            if (!ok) continue;
            const double x0 = *std::min_element(px.begin(), px.end()), x1 = *std::max_element(px.begin(), px.end()), y0 = *std::min_element(py.begin(), py.end()), y1 = *std::max_element(py.begin(), py.end());
            const double sx = std::floor((x1 - x0) / rnd(2, 5)) + 1, sy = std::floor((y1 - y0) / rnd(2, 5)) + 1;
            std::string xs = "0," + S(sx) + ",...,x;relativeStart=0", ys = "0," + S(sy) + ",...,x;relativeStart=0";
            if (rnd(0, 2) == 0) xs = S(std::round(x0)) + "," + S(std::round(x0) + sx) + ",...," + S(std::round(x0) + 3 * sx);
            CASE += " axes " + xs + " " + ys;
            std::vector<double> ax, ay;
            bool bad = false;
            try { SpatialAxisSpec q(xs), p(ys); q.setStartEnd(x0, x1); p.setStartEnd(y0, y1); ax = q.getAxisSteps(); ay = p.getAxisSteps(); } catch (CDMException&) { bad = true; }
            // the bounding box is rounded: avoid axes that change with it
            for (double e : {-1., 1.}) {
                const double d = e * 1e-6 * (1 + std::max({std::fabs(x0), std::fabs(x1), std::fabs(y0), std::fabs(y1)}));
                SpatialAxisSpec q(xs, x0 + d, x1 + d), p(ys, y0 + d, y1 + d);
                try { bad |= q.getAxisSteps().size() != ax.size() || p.getAxisSteps().size() != ay.size() || q.getAxisSteps() .front()!= ax.front() || p.getAxisSteps().front() != ay.front(); } catch (CDMException&) { bad = true; }
            }
            if (bad || ax.empty() || ay.empty()) continue;
            const std::string unit = out.deg ? "degree" : "m";
            ip->changeProjection(method, out.p, xs, ys, unit, unit, "double", "double");
            direct->changeProjection(method, out.p, ax, ay, unit, unit, CDM_DOUBLE, CDM_DOUBLE);
            const auto sh = ip->getCDM().getVariable("s").getShape();
            const std::vector<double> gx = all(ip->getScaledData(sh[0])), gy = all(ip->getScaledData(sh[1]));
            CHECK(gx.size() == ax.size() && gy.size() == ay.size(), "number of axis values " + S(gx) + S(gy) + " instead of " + S(ax) + S(ay));
            for (size_t i = 0; i < gx.size(); i++) CHECK(close_(gx[i], ax[i], 1e-5), "x axis " + S(gx) + " instead of " + S(ax));
            for (size_t i = 0; i < gy.size(); i++) CHECK(close_(gy[i], ay[i], 1e-5), "y axis " + S(gy) + " instead of " + S(ay));
            continue;
        }
        // points around the cells
        auto pick = [&](double& lo, double& la) {
            const int i = rnd(0, nx - 2), j = rnd(0, ny - 2);
            double a = x[i] + frnd(.05, .45) * (x[i + 1] - x[i]) + rnd(0, 1) * .5 * (x[i + 1] - x[i]), b = y[j] + frnd(.05, .45) * (y[j + 1] - y[j]) + rnd(0, 1) * .5 * (y[j + 1] - y[j]);
            if (in.kind != 4) reproject::reproject_values(in.p, MIFI_WGS84_LATLON_PROJ4, &a, &b, 1);
            lo = a; la = b;
        };
        if (mode == 1) { // template
            auto t = std::make_shared<MemReader>();
            const int tx = rnd(1, 4), ty = rnd(1, 4);
            std::vector<double> tl(tx * ty), tb(tx * ty);
            for (int i = 0; i < tx * ty; i++) pick(tl[i], tb[i]);
            std::vector<double> cx(tx), cy(ty);
            for (int i = 0; i < tx; i++) cx[i] = 10 * i;
            for (int i = 0; i < ty; i++) cy[i] = 5 * i - 3;
            auto s = [](const char* c) { return std::string(c); };
            t->dim("tx", tx); t->dim("ty", ty);
            t->var("tx", CDM_FLOAT, {"tx"}, cx); t->att("tx", "standard_name", s("projection_x_coordinate")); t->att("tx", "units", s("m"));
            t->var("ty", CDM_DOUBLE, {"ty"}, cy); t->att("ty", "standard_name", s("projection_y_coordinate")); t->att("ty", "units", s("m"));
            t->var("tlon", CDM_DOUBLE, {"tx", "ty"}, tl); t->att("tlon", "standard_name", s("longitude")); t->att("tlon", "units", s("degrees_east"));
            t->var("tlat", CDM_DOUBLE, {"tx", "ty"}, tb); t->att("tlat", "standard_name", s("latitude")); t->att("tlat", "units", s("degrees_north"));
            t->var("ref", CDM_SHORT, {"tx", "ty"}, std::vector<double>(tx * ty, 0)); t->att("ref", "coordinates", s("tlon tlat"));
            CASE += " template " + S(tx) + "x" + S(ty) + " " + S(tl) + S(tb);
            CHECK(throws([&] { ip->changeProjection(method, t, "nosuch"); }), "unknown variable of the template");
            ip->changeProjection(method, t, "ref");
            direct->changeProjection(method, tl, tb);
            same(ip, direct, "template");
            const auto sh = ip->getCDM().getVariable("s").getShape();
            CHECK(sh.size() == 3 && sh[2] == "t" && ip->getCDM().getDimension(sh[0]).getLength() == (size_t)tx && ip->getCDM().getDimension(sh[1]).getLength() == (size_t)ty, "shape");
            CHECK(all(ip->getScaledData(sh[0])) == cx && all(ip->getScaledData(sh[1])) == cy, "axes of the template");
            for (const auto& a : sh) if (a != "t") CHECK(ip->getCDM().getUnits(a) == "m", "unit of " + a);
            std::string LA, LO;
            CHECK(ip->getCDM().getLatitudeLongitude("s", LA, LO), "latitude and longitude");
            CHECK(all(ip->getScaledData(LO)) == tl && all(ip->getScaledData(LA)) == tb, "latitude and longitude of the template");
            CHECK(ip->getCDM().getUnits(LO).find("east") != std::string::npos && ip->getCDM().getUnits(LA).find("north") != std::string::npos, "units of latitude and longitude");
        } else if (mode == 2) { // cross-sections
            std::vector<CrossSectionDefinition> cs;
            std::vector<double> wl, wb;
            std::vector<std::vector<int>> bnds;
            const int n = rnd(1, 3);
            std::string dsc;
            bool unsure = false;
            for (int i = 0; i < n; i++) {
                std::vector<std::pair<double, double>> pts;
                const int np = rnd(0, 4);
                for (int k = 0; k < np; k++) { double a, b; pick(a, b); pts.push_back({a, b}); }
                std::string nm = "c" + S(i);
                if (rnd(0, 5) == 0) nm += std::string(rnd(75, 90), 'n');
                cs.push_back(CrossSectionDefinition(nm, pts));
                dsc += " " + nm + ":";
                for (auto& p : pts) dsc += " " + S(p.first) + "," + S(p.second);
                if (!np) continue;
                const int first = wl.size();
                wl.push_back(pts[0].first); wb.push_back(pts[0].second);
                for (int k = 1; k < np; k++) {
                    double a[2] = {pts[k - 1].first, pts[k].first}, b[2] = {pts[k - 1].second, pts[k].second};
                    if (in.kind != 4) reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, in.p, a, b, 2);
                    const double f = std::max(std::fabs((a[1] - a[0]) / (x[1] - x[0])), std::fabs((b[1] - b[0]) / (y[1] - y[0])));
                    unsure |= std::fabs(f - std::round(f)) < 1e-6;
                    const int num = std::max(1, (int)std::floor(f));
                    for (int j = 1; j <= num; j++) {
                        double c = a[0] + j * (a[1] - a[0]) / num, d = b[0] + j * (b[1] - b[0]) / num;
                        if (in.kind != 4) reproject::reproject_values(in.p, MIFI_WGS84_LATLON_PROJ4, &c, &d, 1);
                        wl.push_back(c); wb.push_back(d);
                    }
                }
                bnds.push_back({first, (int)wl.size() - 1, i});
            }
            CASE += " sections" + dsc;
            if (unsure) continue;
            if (bnds.empty()) { CHECK(throws([&] { ip->changeProjectionToCrossSections(method, cs); }), "no sections"); continue; }
            ip->changeProjectionToCrossSections(method, cs);
            std::string LA, LO;
            CHECK(ip->getCDM().getLatitudeLongitude("s", LA, LO), "latitude and longitude");
            const std::vector<double> gl = all(ip->getScaledData(LO)), gb = all(ip->getScaledData(LA));
            CHECK(gl.size() == wl.size() && gb.size() == wl.size(), "points " + S(gl) + S(gb) + " instead of " + S(wl) + S(wb));
            for (size_t i = 0; i < gl.size(); i++) CHECK(near(gl[i], wl[i], 1) && near(gb[i], wb[i]), "point " + S(i) + " is " + S(gl[i]) + "," + S(gb[i]) + " instead of " + S(wl[i]) + "," + S(wb[i]));
            direct->changeProjection(method, gl, gb);
            same(ip, direct, "cross-sections");
            const std::vector<double> gbn = all(ip->getData("vcross_bnds"));
            CHECK(gbn.size() == 2 * bnds.size(), "number of sections");
            const std::string nm = ip->getData("vcross_name")->asString();
            const size_t L = ip->getCDM().getDimension("nvcross_strlen").getLength();
            for (size_t i = 0; i < bnds.size(); i++) {
                CHECK(gbn[2 * i] == bnds[i][0] && gbn[2 * i + 1] == bnds[i][1], "positions of section " + S(i));
                const std::string want = cs[bnds[i][2]].name;
                CHECK(nm.size() >= i * L + want.size() && nm.substr(i * L, L).c_str() == want, "name of section " + S(i) + " is " + nm.substr(std::min(nm.size(), i * L), L));
            }
        } else { // description, and use as input
            const int ox = rnd(2, 4), oy = rnd(2, 4);
            double cx, cy;
            pick(cx, cy);
            if (out.kind != 4) reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, out.p, &cx, &cy, 1);
            const double st = (in.deg ? std::fabs(x[1] - x[0]) : std::fabs(x[1] - x[0]) / 111000) * frnd(.3, 1) * (out.deg ? 1 : 111000);
            std::vector<double> ax(ox), ay(oy);
            for (int i = 0; i < ox; i++) ax[i] = cx + (i - ox / 2) * st;
            for (int i = 0; i < oy; i++) ay[i] = cy + (i - oy / 2) * st;
            if (out.deg && (ax[0] < -180 || ax.back() > 180 || std::fabs(ay[0]) > 85 || std::fabs(ay.back()) > 85)) continue;
            const std::string unit = out.deg ? "degree" : "m";
            const bool flt = rnd(0, 2) == 0;
            CASE += " x " + S(ax) + " y " + S(ay) + (flt ? " float axes" : "");
            ip->changeProjection(method, out.p, ax, ay, unit, unit, flt ? CDM_FLOAT : CDM_DOUBLE, flt ? CDM_FLOAT : CDM_DOUBLE);
            const CDM& cdm = ip->getCDM();
            for (const auto& n : names) {
                CoordinateSystem_cp c = csOf(ip, n);
                CHECK(c->isSimpleSpatialGridded(), "not a grid");
                const std::string X = c->getGeoXAxis()->getName(), Y = c->getGeoYAxis()->getName();
                const auto sh = cdm.getVariable(n).getShape();
                CHECK(sh.size() == 3 && sh[0] == X && sh[1] == Y && sh[2] == "t", "axes of " + n);
                CHECK(cdm.getVariable(X).getDataType() == (flt ? CDM_FLOAT : CDM_DOUBLE) && cdm.getVariable(Y).getDataType() == cdm.getVariable(X).getDataType(), "type of axes");
                const std::vector<double> gx = all(ip->getScaledDataInUnit(X, unit)), gy = all(ip->getScaledDataInUnit(Y, unit));
                CHECK((int)gx.size() == ox && (int)gy.size() == oy, "length of axes");
                for (int i = 0; i < ox; i++) CHECK(close_(gx[i], ax[i], 1e-6), "x axis");
                for (int i = 0; i < oy; i++) CHECK(close_(gy[i], ay[i], 1e-6), "y axis");
                CHECK(c->hasProjection(), "no projection");
                std::vector<double> a, b, wa, wb;
                for (double q : gy) for (double p : gx) { a.push_back(p); b.push_back(q); }
                wa = a; wb = b;
                c->getProjection()->convertToLonLat(a, b);
                if (out.kind != 4) reproject::reproject_values(out.p, MIFI_WGS84_LATLON_PROJ4, wa.data(), wb.data(), wa.size());
                for (size_t i = 0; i < a.size(); i++) CHECK(near(a[i], wa[i], 1) && near(b[i], wb[i]), "cell " + S(i) + " described at " + S(a[i]) + "," + S(b[i]) + " instead of " + S(wa[i]) + "," + S(wb[i]));
                const std::string sx = cdm.getVariable(X).getName();
                CDMAttribute sn;
                CHECK(cdm.getAttribute(X, "standard_name", sn) && sn.getStringValue() == (out.kind == 4 ? "longitude" : out.kind == 3 ? "grid_longitude" : "projection_x_coordinate"), "standard name of x");
                CHECK(cdm.getAttribute(Y, "standard_name", sn) && sn.getStringValue() == (out.kind == 4 ? "latitude" : out.kind == 3 ? "grid_latitude" : "projection_y_coordinate"), "standard name of y");
            }
            CDMAttribute ca;
            CHECK(cdm.getAttribute(CDM::globalAttributeNS(), "Conventions", ca) && ca.getStringValue().find("CF-") != std::string::npos, "conventions");
            CHECK(conv != 2 || ca.getStringValue().find("COARDS") != std::string::npos, "conventions of the input");
            // again to the same grid
            std::vector<double> ax2 = ax, ay2 = ay;
            CDMReader_p src = ip;
            auto again = std::make_shared<CDMInterpolator>(src);
            again->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, out.p, ax2, ay2, unit, unit, CDM_DOUBLE, CDM_DOUBLE);
            names.resize(1);
            same(again, ip, "used again");
        }
    }
    return done();
}
