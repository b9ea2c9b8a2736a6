// projections as PROJ strings and as CF attributes: both describe the same map
#include "harness.h"
#include "fimex/StringUtils.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/reproject.h"
#include <algorithm>
typedef std::vector<std::string> VS;
static std::string num(double v) { std::ostringstream o; o.precision(15); o << v; return o.str(); }
struct P
{
    VS tok;                         // parts of the PROJ string after +proj
    std::string proj, name;         // +proj=..., grid_mapping_name
    std::vector<CDMAttribute> cf;   // the same in CF
    bool deg = false;
    double lon = 0, lat = 0, span = 8; // where to compare
    void both(const std::string& t, const std::string& a, double v) { tok.push_back("+" + t + "=" + num(v)); cf.push_back(CDMAttribute(a, v)); }
};
static double deg(double lo, double hi) { return rnd(0, 2) == 0 ? rnd((int)lo, (int)hi) : rnd(0, 1) ? std::round(frnd(lo, hi) * 10) / 10 : std::round(frnd(lo, hi) * 1e8) / 1e8; }
static double wrap(double l) { while (l > 180) l -= 360; while (l <= -180) l += 360; return l; }
static P mk(int kind, std::string& earth)
{
    P p;
    const double lon0 = deg(-170, 170), lat0 = deg(20, 70) * (rnd(0, 3) ? 1 : -1), k = rnd(0, 1) ? .9996 : 1 - rnd(0, 99999) * 1e-7;
    const std::string K = rnd(0, 1) ? "k" : "k_0";
    p.lon = lon0;
    p.lat = lat0;
    bool offsets = true;
    const bool haslon = rnd(0, 5) > 0; // the default is 0
    auto lon = [&](const std::string& a) { if (haslon) p.both("lon_0", a, lon0); else { p.lon = 0; if (rnd(0, 1)) p.cf.push_back(CDMAttribute(a, 0.)); } };
    switch (kind) {
    case 0: p.proj = rnd(0, 1) ? "longlat" : "latlong"; p.name = "latitude_longitude"; p.deg = true; offsets = false; break;
    case 1: {
        p.proj = "ob_tran";
        p.tok.push_back(rnd(0, 1) ? "+o_proj=longlat" : "+o_proj=latlong");
        p.name = "rotated_latitude_longitude";
        p.deg = true;
        offsets = false;
        const double olat = deg(10, 85);
        p.tok.push_back("+lon_0=" + num(lon0));
        p.cf.push_back(CDMAttribute("grid_north_pole_longitude", rnd(0, 1) ? lon0 + 180 : wrap(lon0 + 180)));
        p.both("o_lat_p", "grid_north_pole_latitude", olat);
        if (rnd(0, 1)) p.both("o_lon_p", "north_pole_grid_longitude", deg(-150, 150));
        p.lat = 90 - olat;
        break;
    }
    case 2: case 3: {
        p.proj = "stere";
        const double l = kind == 2 ? (rnd(0, 2) ? 90 : -90) : lat0;
        p.name = kind == 2 ? "polar_stereographic" : "stereographic";
        lon(kind == 2 && rnd(0, 3) ? "straight_vertical_longitude_from_pole" : "longitude_of_projection_origin");
        p.both("lat_0", "latitude_of_projection_origin", l);
        if (kind == 2 && rnd(0, 1)) p.both("lat_ts", "standard_parallel", deg(50, 80) * (l > 0 ? 1 : -1));
        else if (rnd(0, 1)) p.both(K, "scale_factor_at_projection_origin", k);
        p.lat = l > 0 ? std::min(l, 75.) : std::max(l, -75.);
        break;
    }
    case 4: case 5: case 9: {
        p.proj = kind == 9 ? "aea" : "lcc";
        p.name = kind == 9 ? "albers_conical_equal_area" : "lambert_conformal_conic";
        const double l1 = deg(30, 50), l2 = l1 + deg(5, 20);
        lon("longitude_of_central_meridian");
        if (kind == 5) {
            p.tok.push_back("+lat_1=" + num(l1));
            if (rnd(0, 1)) { p.tok.push_back("+lat_2=" + num(l1)); p.tok.push_back("+lat_0=" + num(l1)); }
            else p.tok.push_back("+lat_0=" + num(l1));
            p.cf.push_back(CDMAttribute("standard_parallel", l1));
            p.cf.push_back(CDMAttribute("latitude_of_projection_origin", l1));
        } else {
            p.tok.push_back("+lat_1=" + num(l1));
            p.tok.push_back("+lat_2=" + num(l2));
            DataPtr d = createData(CDM_DOUBLE, 2);
            d->setValue(0, l1); d->setValue(1, l2);
            p.cf.push_back(CDMAttribute("standard_parallel", d));
            if (rnd(0, 3)) p.both("lat_0", "latitude_of_projection_origin", deg(30, 60));
        }
        p.lat = l1;
        break;
    }
    case 6:
        p.proj = "merc"; p.name = "mercator";
        lon("longitude_of_projection_origin");
        if (rnd(0, 1)) p.both("lat_ts", "standard_parallel", deg(0, 60)); else if (rnd(0, 1)) p.both(K, "scale_factor_at_projection_origin", k);
        break;
    case 7:
        p.proj = rnd(0, 1) ? "tmerc" : "etmerc"; p.name = "transverse_mercator";
        lon("longitude_of_central_meridian");
        if (rnd(0, 1)) p.both("lat_0", "latitude_of_projection_origin", deg(-30, 30));
        if (rnd(0, 1)) p.both(K, "scale_factor_at_central_meridian", k);
        p.span = 2;
        break;
    case 8: {
        p.proj = "utm"; p.name = "transverse_mercator"; offsets = false;
        const int z = rnd(1, 60);
        const bool south = rnd(0, 2) == 0;
        p.tok.push_back("+zone=" + S(z));
        if (south) p.tok.push_back("+south");
        p.cf.push_back(CDMAttribute("longitude_of_central_meridian", z * 6. - 183));
        p.cf.push_back(CDMAttribute("scale_factor_at_central_meridian", .9996));
        p.cf.push_back(CDMAttribute("false_easting", 500000.));
        if (south) p.cf.push_back(CDMAttribute("false_northing", 10000000.));
        p.lon = z * 6 - 183; p.lat = south ? -std::fabs(lat0) : std::fabs(lat0); p.span = 2;
        break;
    }
    case 10: case 11: case 15:
        p.proj = kind == 10 ? "aeqd" : kind == 11 ? "laea" : "ortho";
        p.name = kind == 10 ? "azimuthal_equidistant" : kind == 11 ? "lambert_azimuthal_equal_area" : "orthographic";
        lon("longitude_of_projection_origin");
        if (rnd(0, 4)) p.both("lat_0", "latitude_of_projection_origin", lat0); else p.lat = 0;
        break;
    case 12:
        p.proj = "cea"; p.name = "lambert_cylindrical_equal_area";
        lon("longitude_of_central_meridian");
        if (rnd(0, 1)) p.both("lat_ts", "standard_parallel", deg(0, 60)); else if (rnd(0, 1)) p.both(K, "scale_factor_at_projection_origin", k);
        break;
    case 13: {
        p.proj = "geos"; p.name = "geostationary";
        lon("longitude_of_projection_origin");
        p.both("h", "perspective_point_height", 35785831.);
        const std::string sw = rnd(0, 1) ? "x" : "y";
        if (sw == "x" || rnd(0, 1)) { p.tok.push_back("+sweep=" + sw); p.cf.push_back(CDMAttribute("sweep_angle_axis", sw)); }
        p.lat = deg(-30, 30);
        break;
    }
    case 14: {
        p.proj = "omerc"; p.name = "oblique_mercator";
        p.both("lonc", "longitude_of_projection_origin", lon0);
        p.both("lat_0", "latitude_of_projection_origin", lat0);
        p.both("alpha", "azimuth_of_central_line", deg(5, 80));
        if (rnd(0, 1)) p.both(K, "scale_factor_at_projection_origin", k);
        if (rnd(0, 2) == 0) { p.tok.push_back("+gamma=" + num(lat0 / 3)); p.cf.push_back(CDMAttribute("gamma", lat0 / 3)); }
        else if (rnd(0, 1)) { p.tok.push_back("+no_rot"); p.cf.push_back(CDMAttribute("no_rotation", "")); }
        p.span = 3;
        break;
    }
    case 16: p.proj = "sinu"; p.name = "sinusoidal"; lon("longitude_of_projection_origin"); break;
    case 17:
        p.proj = "nsper"; p.name = "vertical_perspective";
        lon("longitude_of_projection_origin");
        p.both("lat_0", "latitude_of_projection_origin", lat0);
        p.both("h", "perspective_point_height", 1e6 * rnd(1, 30));
        break;
    default: p.proj = rnd(0, 1) ? "moll" : "robin"; p.name = "unknown_to_fgdc"; p.tok.push_back("+lon_0=" + num(lon0)); p.cf.clear();
    }
    if (offsets && rnd(0, 1)) p.both("x_0", "false_easting", rnd(-1000, 1000) * 1000.5);
    if (offsets && rnd(0, 1)) p.both("y_0", "false_northing", rnd(-1000, 1000) * 1000.5);
    // figure of the earth
    const bool sphere = kind == 15 || kind == 17, ellps = kind == 8 || p.proj == "etmerc"; // spherical projections; utm needs an ellipsoid
    const double R = rnd(0, 1) ? 6371000 : 6367470.25;
    switch (sphere ? rnd(0, 2) : rnd(ellps ? 3 : 0, 7)) {
    case 0: earth = "+R=" + num(R); p.cf.push_back(CDMAttribute("earth_radius", R)); break;
    case 1: earth = "+a=" + num(R) + " +e=0"; p.cf.push_back(CDMAttribute("earth_radius", R)); break;
    case 2: earth = "+a=" + num(R) + " +b=" + num(R); p.cf.push_back(CDMAttribute("semi_major_axis", R)); p.cf.push_back(CDMAttribute("semi_minor_axis", R)); break;
    case 3: earth = "+ellps=WGS84"; p.cf.push_back(CDMAttribute("semi_major_axis", 6378137.)); p.cf.push_back(CDMAttribute("inverse_flattening", 298.257223563)); break;
    case 4: earth = "+a=6378137 +b=6356752.3142"; p.cf.push_back(CDMAttribute("semi_major_axis", 6378137.)); p.cf.push_back(CDMAttribute("semi_minor_axis", 6356752.3142)); break;
    case 5: earth = "+ellps=bessel"; p.cf.push_back(CDMAttribute("semi_major_axis", 6377397.155)); p.cf.push_back(CDMAttribute("inverse_flattening", 299.1528128)); break;
    case 6: earth = "+a=6378137 +rf=298.25"; p.cf.push_back(CDMAttribute("semi_major_axis", 6378137.)); p.cf.push_back(CDMAttribute("inverse_flattening", 298.25)); break;
    default: earth = "+a=6378137 +e=0.08"; p.cf.push_back(CDMAttribute("semi_major_axis", 6378137.)); p.cf.push_back(CDMAttribute("semi_minor_axis", 6378137. * std::sqrt(1 - .08 * .08)));
    }
    return p;
}
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        std::string earth;
        const int kind = rnd(0, 18);
        P p = mk(kind, earth);
        VS tok = p.tok;
        tok.push_back(earth);
        std::shuffle(tok.begin(), tok.end(), RNG);
        std::string str = "+proj=" + p.proj;
        for (auto& t : tok) str += (rnd(0, 9) ? " " : "  ") + t;
        if (rnd(0, 1)) str += " +no_defs";
        std::shuffle(p.cf.begin(), p.cf.end(), RNG);
        ::begin(str);
        std::vector<double> lon, lat;
        for (int i = 0; i < 6; i++) { lon.push_back(p.lon + frnd(-p.span, p.span)); lat.push_back(p.lat + frnd(-p.span, p.span)); }
        if (kind == 0) for (int i = 0; i < 6; i++) { lon[i] = frnd(-170, 170); lat[i] = frnd(-80, 80); }
        const std::string geo = "+proj=longlat " + earth + " +no_defs";
        auto map = [&](const std::string& s, std::vector<double>& x, std::vector<double>& y) {
            x = lon; y = lat;
            reproject::reproject_values(geo, s, &x[0], &y[0], x.size());
        };
        std::vector<double> ex, ey;
        map(str, ex, ey);
        // another way to write the earth is a difference below a millimetre
        auto same = [&](const std::string& s, const std::string& what) {
            std::vector<double> x, y;
            map(s, x, y);
            for (size_t i = 0; i < x.size(); i++) {
                double dx = x[i] - ex[i];
                if (p.deg) dx = wrap(dx);
                const double tol = p.deg ? 1e-8 : 5e-3;
                CHECK(std::fabs(dx) < tol && std::fabs(y[i] - ey[i]) < tol, what + ": " + s + " maps " + S(lon[i]) + "," + S(lat[i]) + " to " + S(x[i]) + "," + S(y[i]) + " instead of " + S(ex[i]) + "," + S(ey[i]));
            }
        };
        { // the same map after replacing another figure of the earth
            static const char* OTHER[] = {"+R=6400000", "+a=6300000 +b=6200000", "+ellps=airy", "+datum=NAD27", "+a=6300000 +e=0.1", "+ellps=bessel +a=6300000", "+b=6300000 +a=6350000"};
            VS t = p.tok;
            for (const auto& o : tokenize(OTHER[rnd(0, 6)], " ")) t.push_back(o);
            std::shuffle(t.begin(), t.end(), RNG);
            std::string o = "+proj=" + p.proj;
            for (auto& x : t) o += " " + x;
            CHECK(replaceProj4Earthfigure(o, "") == o, "no figure given");
            same(replaceProj4Earthfigure(o, earth), "figure replaced");
        }
        Projection_p a = Projection::createByProj4(str);
        CHECK(a->getName() == p.name, "name " + a->getName());
        if (kind < 18) CHECK(a->isDegree() == p.deg, "degree");
        same(a->getProj4String(), "from PROJ string");
        Projection_p b = Projection::create(a->getParameters());
        CHECK(*b == *a && b->getName() == a->getName(), "from own parameters: " + b->toString() + " / " + a->toString());
        CHECK(b->getProj4String() == a->getProj4String(), "PROJ string from own parameters");
        same(Projection::createByProj4(a->getProj4String())->getProj4String(), "from own PROJ string");
        if (kind < 18) {
            std::vector<CDMAttribute> cf = p.cf;
            cf.insert(cf.begin() + rnd(0, cf.size()), CDMAttribute("grid_mapping_name", p.name));
            Projection_p c = Projection::create(cf);
            CHECK(c->getName() == p.name && c->isDegree() == p.deg, "projection from CF attributes");
            same(c->getProj4String(), "from CF attributes");
            same(Projection::createByProj4(c->getProj4String())->getProj4String(), "from CF attributes and PROJ string");
            for (const CDMAttribute& at : cf) {
                const std::vector<CDMAttribute> ps = c->getParameters();
                auto it = std::find_if(ps.begin(), ps.end(), [&](const CDMAttribute& q) { return q.getName() == at.getName(); });
                CHECK(it != ps.end() && it->getStringValue() == at.getStringValue(), "parameter " + at.getName());
            }
        }
        std::vector<double> x = lon, y = lat;
        a->convertFromLonLat(x, y);
        for (size_t i = 0; i < x.size(); i++) CHECK(std::fabs(p.deg ? wrap(x[i] - ex[i]) : x[i] - ex[i]) < (p.deg ? 1e-8 : 5e-3) && std::fabs(y[i] - ey[i]) < (p.deg ? 1e-8 : 5e-3), "from longitude and latitude");
        a->convertToLonLat(x, y);
        for (size_t i = 0; i < x.size(); i++) CHECK(std::fabs(wrap(x[i] - lon[i])) < 1e-5 && std::fabs(y[i] - lat[i]) < 1e-5, "there and back " + S(x[i]) + "," + S(y[i]) + " from " + S(lon[i]) + "," + S(lat[i]));
    }
    return done();
}
