// readers with a horizontal grid in one of several projections
#ifndef VERIF_GRID_H
#define VERIF_GRID_H
#include "harness.h"
#include "fimex/reproject.h"
#include "fimex/CDMconstants.h"
#include "fimex/interpolation.h"
struct Grid { std::string p; bool deg; int kind; double lon0, olat; double x0, x1, y0, y1; std::string xn() const { return kind == 4 ? "lon" : "x"; } std::string yn() const { return kind == 4 ? "lat" : "y"; } };
static Grid mkgrid(int k)
{
    Grid g;
    g.kind = k;
    g.lon0 = rnd(-3, 3) * 20;
    g.olat = rnd(20, 60);
    const std::string e = " +R=6371000 +no_defs", l = S(g.lon0);
    g.deg = k == 3 || k == 4;
    switch (k) {
    case 0: g.p = "+proj=stere +lat_0=90 +lat_ts=60 +lon_0=" + l + e; g.x0 = g.y0 = -3e6; g.x1 = g.y1 = 3e6; break;
    case 1: g.p = "+proj=lcc +lat_1=50 +lat_2=60 +lat_0=55 +lon_0=" + l + e; g.x0 = g.y0 = -2e6; g.x1 = g.y1 = 2e6; break;
    case 2: g.p = "+proj=merc +lon_0=" + l + e; g.x0 = -5e6; g.x1 = 5e6; g.y0 = 5e6; g.y1 = 9e6; break;
    case 3: g.p = "+proj=ob_tran +o_proj=longlat +o_lat_p=" + S(g.olat) + " +lon_0=" + l + e; g.x0 = -30; g.x1 = 30; g.y0 = -20; g.y1 = 20; break;
    default: g.p = "+proj=longlat" + e; g.x0 = -40; g.x1 = 40; g.y0 = 35; g.y1 = 75;
    }
    return g;
}
static std::vector<double> mkaxis(double lo, double hi, int n, int sgn, int coarse = 8)
{
    const double st = (hi - lo) / 400 * rnd(1, coarse), s = frnd(lo, std::max(lo, hi - n * st));
    std::vector<double> v(n);
    for (int i = 0; i < n; i++)
        v[i] = sgn > 0 ? s + i * st : s + (n - 1 - i) * st;
    return v;
}
// add axes and grid mapping to the reader; variables on the grid need the attribute grid_mapping="gm"
static void addgrid(MemReader& r, const Grid& g, const std::vector<double>& x, const std::vector<double>& y)
{
    const std::string X = g.xn(), Y = g.yn();
    auto s = [](const char* c) { return std::string(c); };
    r.dim(X, x.size());
    r.dim(Y, y.size());
    r.var(X, CDM_DOUBLE, {X}, x);
    r.var(Y, CDM_DOUBLE, {Y}, y);
    if (g.kind == 4) {
        r.att(X, "standard_name", s("longitude")); r.att(Y, "standard_name", s("latitude"));
        r.att(X, "units", s("degrees_east")); r.att(Y, "units", s("degrees_north"));
    } else if (g.kind == 3) {
        r.att(X, "standard_name", s("grid_longitude")); r.att(Y, "standard_name", s("grid_latitude"));
        r.att(X, "units", s("degree")); r.att(Y, "units", s("degree"));
    } else {
        r.att(X, "standard_name", s("projection_x_coordinate")); r.att(Y, "standard_name", s("projection_y_coordinate"));
        r.att(X, "units", s("m")); r.att(Y, "units", s("m"));
    }
    r.var("gm", CDM_INT, {}, {0});
    r.att("gm", "earth_radius", 6371000.);
    switch (g.kind) {
    case 0:
        r.att("gm", "grid_mapping_name", s("polar_stereographic"));
        r.att("gm", "straight_vertical_longitude_from_pole", g.lon0);
        r.att("gm", "latitude_of_projection_origin", 90.);
        r.att("gm", "standard_parallel", 60.);
        break;
    case 1: {
        r.att("gm", "grid_mapping_name", s("lambert_conformal_conic"));
        r.att("gm", "longitude_of_central_meridian", g.lon0);
        r.att("gm", "latitude_of_projection_origin", 55.);
        r.getInternalCDM().addAttribute("gm", CDMAttribute("standard_parallel", CDM_DOUBLE, std::vector<std::string>{"50", "60"}));
        break;
    }
    case 2:
        r.att("gm", "grid_mapping_name", s("mercator"));
        r.att("gm", "longitude_of_projection_origin", g.lon0);
        r.att("gm", "standard_parallel", 0.);
        break;
    case 3:
        r.att("gm", "grid_mapping_name", s("rotated_latitude_longitude"));
        r.att("gm", "grid_north_pole_longitude", g.lon0 + 180);
        r.att("gm", "grid_north_pole_latitude", g.olat);
        break;
    default: r.att("gm", "grid_mapping_name", s("latitude_longitude"));
    }
}
static void addtime(MemReader& r, int nt, const std::string& unit = "hours since 2020-01-01 00:00:00", double start = 0, double step = 1)
{
    std::vector<double> t(nt);
    for (int i = 0; i < nt; i++)
        t[i] = start + i * step;
    r.dim("t", nt, true);
    r.var("t", CDM_DOUBLE, {"t"}, t);
    r.att("t", "units", unit);
    r.att("t", "standard_name", std::string("time"));
}
// position of v on an axis, as index with fraction; cyclic for longitudes
static double position(const std::vector<double>& ax, double v, bool lon)
{
    const int n = ax.size();
    if (n == 1)
        return v == ax[0] ? 0 : NAN;
    const double d = (ax[n - 1] - ax[0]) / (n - 1); // equidistant axes
    double p = (v - ax[0]) / d;
    if (lon) {
        const double per = std::fabs(360 / d);
        while (p < -.5 - 1e-9) p += per;
        while (p >= per - .5 - 1e-9) p -= per;
    }
    return p;
}
#endif
