// interpolation of a reader to other vertical levels
#include "harness.h"
#include "grid.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/mifi_constants.h"
#include <algorithm>
#include <sstream>
// the two levels of a column used for a target: next on both sides, otherwise the two closest different ones
static bool pick(const std::vector<double>& lev, double x, size_t& i, size_t& j)
{
    bool lo = false, hi = false;
    for (size_t k = 0; k < lev.size(); k++) {
        if (lev[k] <= x) { if (!lo || lev[k] > lev[i]) i = k; lo = true; }
        else { if (!hi || lev[k] < lev[j]) j = k; hi = true; }
    }
    if (lo && hi) return true;
    std::vector<size_t> o;
    for (size_t k = 0; k < lev.size(); k++) o.push_back(k);
    std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return std::fabs(lev[a] - x) < std::fabs(lev[b] - x); });
    i = o[0];
    for (size_t k : o) if (lev[k] != lev[i]) { j = k; return true; }
    return false;
}
static double blend(double a, double b, double f) { return f == 0 ? a : f == 1 ? b : a + f * (b - a); }
static double value(int m, double va, double vb, double a, double b, double x)
{
    auto L = [](double t) { return std::log(t); };
    auto LL = [](double t) { return std::log(std::log(t + M_E)); };
    const double f = (x - a) / (b - a);
    switch (m) {
    case 0: return blend(va, vb, f);
    case 1: return f < -1 || f > 2 ? NAN : blend(va, vb, f);
    case 2: return f < 0 || f > 1 ? NAN : blend(va, vb, f);
    case 3: return f <= 0 ? va : f >= 1 ? vb : blend(va, vb, f);
    case 4: return blend(va, vb, (L(x) - L(a)) / (L(b) - L(a)));
    case 5: return blend(va, vb, (LL(x) - LL(a)) / (LL(b) - LL(a)));
    default: return va;
    }
}
static const char* METHOD[] = {"linear", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "log", "loglog", "nearestneighbor"};
struct Axis
{
    std::string name;                                              // dimension, axis
    int nz = 0;
    std::vector<float> lev;                                        // [z][t][y][x] in the vertical type's unit
    double at(int x, int y, int z, int t) const { return lev[x + nx * (y + ny * (t + nt * (size_t)z))]; }
    int nx, ny, nt;
    bool bottom = false, surface = false;                          // limited by bathymetry, by the sea surface
};
static std::string ST(const char* c) { return c; }
MAIN
{
    INIT
    const CDMDataType types[] = {CDM_SHORT, CDM_FLOAT, CDM_DOUBLE, CDM_INT};
    for (long run = 0; run < N; run++) {
        auto r = std::make_shared<MemReader>();
        const int kind = rnd(0, 4);
        Grid g = mkgrid(kind);
        const int nx = rnd(1, 3), ny = rnd(1, 3), nt = rnd(1, 3);
        addgrid(*r, g, mkaxis(g.x0, g.x1, nx, 1), mkaxis(g.y0, g.y1, ny, 1));
        const std::string X = g.xn(), Y = g.yn();
        addtime(*r, nt);
        const int nc = nx * ny * nt;
        // surface fields
        std::vector<double> ps(nc), topo(nx * ny), depth(nx * ny), eta(nc);
        for (double& v : ps) v = rnd(960, 1040);
        for (double& v : topo) v = rnd(0, 900);
        for (double& v : depth) v = rnd(50, 900);
        for (double& v : eta) v = rnd(-2, 2) * .5;
        const bool psPa = rnd(0, 1), geopot = rnd(0, 1);
        // vertical quantity
        enum { PRESSURE, HEIGHT, ALTITUDE, DEPTH };
        const char* TYPE[] = {"pressure", "height", "altitude", "depth"};
        const int vt = rnd(0, 3);
        auto scaled = [](std::vector<double> v, double f) { for (double& x : v) x *= f; return v; };
        bool havePs = false, haveTopo = false, haveP0 = false, haveOrog = false;
        auto needPs = [&] { if (!havePs) { r->var("ps", CDM_DOUBLE, {X, Y, "t"}, scaled(ps, psPa ? 100 : 1)); r->att("ps", "units", ST(psPa ? "Pa" : "hPa")); havePs = true; } };
        auto needTopo = [&] {
            if (haveTopo) return;
            r->var("topo", CDM_DOUBLE, {X, Y}, geopot ? scaled(topo, MIFI_EARTH_GRAVITY) : topo);
            r->att("topo", "units", ST(geopot ? "m^2/s^2" : "m"));
            r->att("topo", "standard_name", ST(geopot ? "surface_geopotential" : "surface_altitude"));
            haveTopo = true;
        };
        auto needP0 = [&] { if (!haveP0) { r->var("p0", CDM_DOUBLE, {}, {100000}); r->att("p0", "units", ST("Pa")); haveP0 = true; } };
        std::string desc;
        auto mk = [&](const std::string& n) {
            Axis a;
            a.name = n;
            a.nx = nx; a.ny = ny; a.nt = nt;
            a.nz = rnd(2, 5);
            const bool down = rnd(0, 1);
            auto ord = [&](int i) { return down ? i : a.nz - 1 - i; };
            std::vector<double> z(a.nz), u(a.nz);
            r->dim(n, a.nz);
            a.lev.resize((size_t)nc * a.nz);
            auto set = [&](std::function<double(int, int, int)> f) { // cell, step, level
                for (int k = 0; k < a.nz; k++) for (int t = 0; t < nt; t++) for (int c = 0; c < nx * ny; c++) a.lev[c + nx * ny * (t + (size_t)nt * k)] = f(c, t, k);
            };
            auto P = [&](int c, int t) { return ps[c + nx * ny * t]; };
            int k0;
            if (vt == PRESSURE || ((vt == HEIGHT || vt == ALTITUDE) && rnd(0, 2) == 0)) {
                std::vector<float> p;
                k0 = rnd(0, 4);
                if (k0 == 0) {
                    const bool pa = rnd(0, 1);
                    for (int i = 0; i < a.nz; i++) z[i] = 1000 - 150 * ord(i) - rnd(0, 50);
                    set([&](int, int, int k) { return z[k]; });
                    r->var(n, CDM_DOUBLE, {n}, scaled(z, pa ? 100 : 1));
                    r->att(n, "units", ST(pa ? "Pa" : "hPa"));
                } else {
                    for (int i = 0; i < a.nz; i++) z[i] = (10 - 1.5 * ord(i) - rnd(0, 5) * .1) / 10, u[i] = rnd(0, 3) * 10;
                    r->var(n, CDM_DOUBLE, {n}, z);
                    r->att(n, "positive", ST("down"));
                    if (k0 == 1) {
                        needPs();
                        if (!r->getCDM().hasVariable("ptop")) { r->var("ptop", CDM_DOUBLE, {}, {20}); r->att("ptop", "units", ST("hPa")); }
                        r->att(n, "standard_name", ST("atmosphere_sigma_coordinate"));
                        r->att(n, "formula_terms", "sigma: " + n + " ps: ps ptop: ptop");
                        set([&](int c, int t, int k) { return 20 + z[k] * (P(c, t) - 20); });
                    } else if (k0 == 2) {
                        needPs();
                        const bool pa = rnd(0, 1);
                        r->var("ap_" + n, CDM_DOUBLE, {n}, scaled(u, pa ? 100 : 1));
                        r->att("ap_" + n, "units", ST(pa ? "Pa" : "hPa"));
                        r->att(n, "standard_name", ST("atmosphere_hybrid_sigma_pressure_coordinate"));
                        r->att(n, "formula_terms", "ap: ap_" + n + " b: " + n + " ps: ps");
                        set([&](int c, int t, int k) { return u[k] + z[k] * P(c, t); });
                    } else if (k0 == 3) {
                        needPs(); needP0();
                        r->var("a_" + n, CDM_DOUBLE, {n}, scaled(u, .001));
                        r->att(n, "standard_name", ST("atmosphere_hybrid_sigma_pressure_coordinate"));
                        r->att(n, "formula_terms", "a: a_" + n + " b: " + n + " ps: ps p0: p0");
                        set([&](int c, int t, int k) { return u[k] * .001 * 1000 + z[k] * P(c, t); });
                    } else {
                        needP0();
                        r->att(n, "standard_name", ST("atmosphere_ln_pressure_coordinate"));
                        r->att(n, "formula_terms", "p0: p0 lev: " + n);
                        set([&](int, int, int k) { return 1000 * std::exp(-z[k]); });
                    }
                }
                if (vt != PRESSURE) { // by the standard atmosphere
                    for (float& v : a.lev) v = -(8.31447 / (9.80665 * .0289644)) * 288.15 * std::log(v / 1013.25);
                    if (vt == HEIGHT) { needTopo(); for (size_t i = 0; i < a.lev.size(); i++) a.lev[i] -= topo[i % (nx * ny)]; }
                }
            } else if (vt == DEPTH) {
                k0 = 5 + rnd(0, 2);
                if (k0 == 5) {
                    const bool km = rnd(0, 1);
                    for (int i = 0; i < a.nz; i++) z[i] = 100 * ord(i) + rnd(0, 80);
                    r->var(n, CDM_DOUBLE, {n}, scaled(z, km ? .001 : 1));
                    r->att(n, "units", ST(km ? "km" : "m"));
                    r->att(n, "positive", ST("down"));
                    r->att(n, "standard_name", ST("depth"));
                    set([&](int, int, int k) { return z[k]; });
                } else {
                    const bool e = rnd(0, 1);
                    a.bottom = true, a.surface = e;
                    for (int i = 0; i < a.nz; i++) z[i] = -(ord(i) * .2 + .05), u[i] = z[i] * .9;
                    r->var(n, CDM_DOUBLE, {n}, z);
                    r->var("C_" + n, CDM_DOUBLE, {n}, u);
                    if (!r->getCDM().hasVariable("dep")) { r->var("dep", CDM_DOUBLE, {X, Y}, depth); r->att("dep", "units", ST("m")); r->var("dc", CDM_DOUBLE, {}, {12}); r->att("dc", "units", ST("m")); }
                    if (e && !r->getCDM().hasVariable("eta")) { r->var("eta", CDM_DOUBLE, {X, Y, "t"}, eta); r->att("eta", "units", ST("m")); }
                    r->att(n, "standard_name", ST(k0 == 6 ? "ocean_s_coordinate_g1" : "ocean_s_coordinate_g2"));
                    r->att(n, "formula_terms", "s: " + n + " C: C_" + n + " depth: dep depth_c: dc" + (e ? " eta: eta" : ""));
                    set([&](int c, int t, int k) {
                        const double h = depth[c], hc = 12, ze = e ? eta[c + nx * ny * t] : 0;
                        const double S1 = hc * z[k] + (h - hc) * u[k], S2 = (hc * z[k] + h * u[k]) / (h + hc);
                        return -(k0 == 6 ? S1 + ze * (1 + S1 / h) : ze + (ze + h) * S2);
                    });
                }
            } else {
                k0 = 8 + rnd(0, 2);
                if (k0 < 10) { // height or altitude axis
                    const bool km = rnd(0, 1);
                    for (int i = 0; i < a.nz; i++) z[i] = 400 * ord(i) + rnd(0, 300);
                    r->var(n, CDM_DOUBLE, {n}, scaled(z, km ? .001 : 1));
                    r->att(n, "units", ST(km ? "km" : "m"));
                    r->att(n, "positive", ST("up"));
                    r->att(n, "standard_name", ST(k0 == 8 ? "height" : "height_above_msl"));
                    set([&](int c, int, int k) { return z[k] + (vt == ALTITUDE && k0 == 8 ? topo[c] : vt == HEIGHT && k0 == 9 ? -topo[c] : 0); });
                    if ((vt == ALTITUDE) != (k0 == 9)) needTopo();
                } else {
                    for (int i = 0; i < a.nz; i++) z[i] = 300 * ord(i) + rnd(0, 200), u[i] = ord(i) * .1;
                    r->var(n, CDM_DOUBLE, {n}, z);
                    r->att(n, "units", ST("m"));
                    r->var("bb_" + n, CDM_DOUBLE, {n}, u);
                    if (!haveOrog) { r->var("orog", CDM_DOUBLE, {X, Y}, topo); r->att("orog", "units", ST("m")); haveOrog = true; }
                    r->att(n, "positive", ST("up"));
                    r->att(n, "standard_name", ST("atmosphere_hybrid_height_coordinate"));
                    r->att(n, "formula_terms", "a: " + n + " b: bb_" + n + " orog: orog");
                    if (vt == HEIGHT) needTopo();
                    set([&](int c, int, int k) { return z[k] + u[k] * topo[c] - (vt == HEIGHT ? topo[c] : 0); });
                }
            }
            desc += " axis " + n + " kind " + S(k0) + " " + S(z) + " " + S(u);
            return a;
        };
        Axis a = mk("z1"), b = mk("z2");
        // data
        struct Var { std::string n; const Axis* ax; CDMDataType ty; std::vector<double> v; bool vmin, vmax, zt; };
        const double fill = -999;
        std::vector<Var> vars;
        for (int i = 0; i < 3; i++) {
            Var v{"v" + S(i), i == 1 ? &b : &a, types[rnd(0, 3)], {}, rnd(0, 4) == 0, rnd(0, 4) == 0, rnd(0, 2) > 0};
            if (i == 1) v.zt = true;
            const size_t n = (size_t)nx * ny * v.ax->nz * (v.zt ? nt : 1);
            for (size_t q = 0; q < n; q++) v.v.push_back(rnd(0, 9) == 0 ? fill : rnd(-300, 300));
            std::vector<std::string> sh{X, Y, v.ax->name};
            if (v.zt) sh.push_back("t");
            r->var(v.n, v.ty, sh, v.v);
            r->getInternalCDM().addAttribute(v.n, CDMAttribute("_FillValue", createData(v.ty, 1, fill)));
            r->att(v.n, "grid_mapping", ST("gm"));
            if (i == 0) r->att(v.n, "coordinates", ST("other z1 z1_"));
            if (v.vmin) r->att(v.n, "valid_min", -250.);
            if (v.vmax) r->att(v.n, "valid_max", 250.);
            vars.push_back(v);
        }
        std::vector<double> flat(nx * ny);
        for (double& x : flat) x = rnd(-9, 9);
        r->var("flat", CDM_FLOAT, {X, Y}, flat);
        r->att("flat", "grid_mapping", ST("gm"));
        // a variable on a single level
        r->dim("zs", 1);
        r->var("zs", CDM_DOUBLE, {"zs"}, {vt == PRESSURE ? 850. : 2.});
        r->att("zs", "units", ST(vt == PRESSURE ? "hPa" : "m"));
        if (vt != PRESSURE) { r->att("zs", "positive", ST(vt == DEPTH ? "down" : "up")); r->att("zs", "standard_name", ST(vt == DEPTH ? "depth" : vt == HEIGHT ? "height" : "height_above_msl")); }
        std::vector<double> one(nc);
        for (double& x : one) x = rnd(-9, 9);
        r->var("one", CDM_FLOAT, {X, Y, "zs", "t"}, one);
        r->att("one", "grid_mapping", ST("gm"));
        // target
        const int m = rnd(0, 6), mode = rnd(0, 2); // fixed levels, axis z2, template v1
        std::vector<double> lev;
        const int nl = rnd(1, 5);
        for (int i = 0; i < nl; i++) {
            const Axis& q = rnd(0, 1) ? a : b;
            const double l = q.lev[rnd(0, (int)q.lev.size() - 1)], l2 = q.lev[rnd(0, (int)q.lev.size() - 1)];
            lev.push_back(rnd(0, 2) == 0 ? l : rnd(0, 1) ? l + frnd(0, 1) * (l2 - l) : l + frnd(-1, 1) * 60);
            if (vt == DEPTH && rnd(0, 3) == 0) lev.back() = rnd(0, 1) ? rnd(-3, 3) * .4 : depth[rnd(0, nx * ny - 1)] + rnd(-40, 40);
        }
        const bool noMin = rnd(0, 1), noMax = rnd(0, 1);
        desc = "kind " + S(kind) + " sizes " + S(nx) + " " + S(ny) + " " + S(nt) + " type " + TYPE[vt] + " method " + METHOD[m] + " mode " + S(mode) + (noMin ? "" : " valid min") + (noMax ? "" : " valid max") + (vt == DEPTH ? " depth " + S(depth) + " eta " + S(eta) : "") + " levels " + S(lev) + " ps " + S(ps) + (psPa ? " Pa" : " hPa") + " topo " + S(topo) + S(geopot) + desc;
        ::begin(desc);
        auto vi = std::make_shared<CDMVerticalInterpolator>(r, TYPE[vt], METHOD[m]);
        if (noMin || rnd(0, 1)) vi->ignoreValidityMin(noMin);
        if (noMax || rnd(0, 1)) vi->ignoreValidityMax(noMax);
        if (mode == 0) vi->interpolateToFixed(lev);
        else if (mode == 1) vi->interpolateToAxis("z2");
        else vi->interpolateByTemplateVariable("v1");
        const CDM& cdm = vi->getCDM();
        for (const Var& v : vars) {
            if (!v.zt) continue; // the vertical quantity may vary in time
            const bool changed = mode == 0 || v.ax != &b;
            const size_t no = !changed ? v.ax->nz : mode == 0 ? lev.size() : b.nz;
            const std::vector<std::string> sh = cdm.getVariable(v.n).getShape();
            CHECK(sh.size() == 4 && sh[0] == X && sh[1] == Y && sh[3] == "t", "shape of " + v.n);
            CHECK(cdm.getDimension(sh[2]).getLength() == no, "length of the vertical dimension");
            if (mode != 0) CHECK(sh[2] == "z2", "vertical dimension " + sh[2]);
            CHECK(cdm.getVariable(v.n).getDataType() == v.ty, "type of " + v.n);
            if (mode == 0) {
                auto lv = all(vi->getScaledDataInUnit(sh[2], vt == PRESSURE ? "Pa" : "km"));
                CHECK(lv.size() == lev.size(), "levels");
                for (size_t i = 0; i < lev.size(); i++) CHECK(close_(lv[i], lev[i] * (vt == PRESSURE ? 100 : .001)), "level " + S(i));
            }
            const size_t per = nx * ny * no;
            auto check = [&](double got, int x, int y, size_t l, int t, const std::string& how) {
                const std::string where = how + " of " + v.n + " at " + S(x) + "," + S(y) + "," + S(l) + "," + S(t) + ": ";
                if (!changed) {
                    CHECK(got == v.v[x + nx * (y + ny * (l + (size_t)v.ax->nz * t))], where + "changed");
                    return;
                }
                const double to = mode == 0 ? lev[l] : (double)b.at(x, y, l, t);
                std::vector<double> col;
                for (int k = 0; k < v.ax->nz; k++) col.push_back(v.ax->at(x, y, k, t));
                // not above the surface or below the bottom, of the target axis if it has any, otherwise of the source
                const bool tMin = mode && b.surface && !noMin, tMax = mode && b.bottom && !noMax, of = tMin || tMax;
                const bool useMin = of ? tMin : v.ax->surface && !noMin, useMax = of ? tMax : v.ax->bottom && !noMax;
                const double lo = useMin ? -eta[x + nx * (y + ny * t)] : -1e9, hi = useMax ? depth[x + nx * y] : 1e9;
                if (std::fabs(to - lo) < 1e-3 || std::fabs(to - hi) < 1e-3) return;
                if (to < lo || to > hi) { CHECK(got == fill, where + S(got) + " at " + S(to) + " outside of " + S(lo) + " to " + S(hi)); return; }
                // rounding of converted levels: both choices are right near a level
                std::vector<double> want;
                for (double e : {0., -2e-6, 2e-6}) {
                    const double xx = to + e * (std::fabs(to) + 100);
                    size_t i = 0, j = 0;
                    double w = NAN;
                    if (pick(col, xx, i, j)) {
                        if (m >= 4 && m <= 5 && (to <= 0 || col[i] <= 0 || col[j] <= 0)) return; // no logarithm
                        auto val = [&](size_t k) { const double q = v.v[x + nx * (y + ny * (k + (size_t)v.ax->nz * t))]; return q == fill ? NAN : q; };
                        w = value(m, val(i), val(j), col[i], col[j], xx);
                        if (e == 0 && std::fabs(col[i] - col[j]) < 1) return; // steep, depends on rounding
                        if (m == 1) for (double f : {-1., 2.}) if (std::fabs((to - col[i]) / (col[j] - col[i]) - f) < 1e-4) return;
                        for (size_t k = 0; k < col.size(); k++) if (std::isnan(val(k)) && std::fabs(col[k] - to) < 1e-3 * (1 + std::fabs(to))) return;
                        for (size_t k = 0; k < col.size(); k++) if (k != i && k != j && std::fabs(std::fabs(col[k] - to) - std::fabs(col[j] - to)) < 1e-3 * (1 + std::fabs(to))) return;
                    }
                    if (v.vmin && w < -250) w = -250;
                    if (v.vmax && w > 250) w = 250;
                    want.push_back(w);
                }
                // known finding: undefined at the first level of a column, or beyond it
                bool first = true;
                for (double c : col) first &= std::fabs(col[0] - to) <= std::fabs(c - to) + 4e-6 * (std::fabs(to) + 100) && (c - to) * (col[0] - to) >= -1e-3;
                if (first || std::fabs(col[0] - to) < 4e-6 * (std::fabs(to) + 100)) want.push_back(NAN);
                bool ok = false;
                const bool integral = v.ty == CDM_SHORT || v.ty == CDM_INT;
                for (double w : want) {
                    if (v.ty == CDM_SHORT && std::fabs(w) > 32000) return;
                    ok |= std::isnan(w) ? got == fill : std::fabs(got - w) <= (integral ? .5 : 0) + .05 + 2e-3 * std::fabs(w);
                }
                CHECK(ok, where + S(got) + " instead of " + S(want[0]) + " target " + S(to) + " column " + S(col) + " values " + [&] { std::vector<double> q; for (int k = 0; k < v.ax->nz; k++) q.push_back(v.v[x + nx * (y + ny * (k + (size_t)v.ax->nz * t))]); return S(q); }());
            };
            auto sweep = [&](const std::vector<double>& d, int t, const std::string& how) {
                CHECK(d.size() == per, how + " of " + v.n + " has " + S(d.size()));
                for (size_t i = 0; i < per; i++) check(d[i], i % nx, i / nx % ny, i / (nx * ny), t, how);
            };
            for (int t = nt - 1; t >= 0; t--) sweep(all(vi->getDataSlice(v.n, t)), t, "step");
            auto w = all(vi->getData(v.n));
            CHECK(w.size() == per * nt, "whole size " + S(w.size()));
            for (int t = 0; t < nt; t++) sweep(std::vector<double>(w.begin() + per * t, w.begin() + per * (t + 1)), t, "whole");
            const int px = rnd(0, nx - 1), py = rnd(0, ny - 1), pt = rnd(0, nt - 1);
            const size_t pl = rnd(0, (int)no - 1), ql = rnd(1, (int)(no - pl));
            SliceBuilder sb(cdm, v.n);
            sb.setStartAndSize(X, px, 1); sb.setStartAndSize(Y, py, 1); sb.setStartAndSize(sh[2], pl, ql); sb.setStartAndSize("t", pt, 1);
            auto p = all(vi->getDataSlice(v.n, sb));
            CHECK(p.size() == ql, "part size");
            for (size_t i = 0; i < ql; i++) check(p[i], px, py, pl + i, pt, "part");
        }
        CDMAttribute co;
        CHECK(cdm.getAttribute("v0", "coordinates", co), "coordinates lost");
        std::istringstream ci(co.getStringValue());
        std::vector<std::string> cs;
        for (std::string q; ci >> q;) cs.push_back(q);
        CHECK((cs == std::vector<std::string>{"other", "z1_"}), "coordinates " + co.getStringValue());
        if (mode == 0) {
            const std::string d = cdm.getVariable("v0").getShape()[2];
            auto is = [&](const char* n, const char* w) { CDMAttribute q; CHECK(cdm.getAttribute(d, n, q) && q.getStringValue() == w, std::string(n) + " of the new axis"); };
            if (vt != PRESSURE) is("positive", vt == DEPTH ? "down" : "up");
            if (vt == ALTITUDE) is("standard_name", "height_above_msl");
        }
        auto f = all(vi->getData("flat"));
        CHECK(f == flat, "variable without levels changed");
        CHECK(all(vi->getData("one")) == one && cdm.getVariable("one").getShape()[2] == "zs" && cdm.hasVariable("zs"), "variable with a single level changed");
        CHECK(cdm.hasVariable("z1") == (mode == 2), "replaced axis");
        CHECK(r->getCDM().hasVariable("z1") && r->getCDM().getVariable("v0").getShape()[2] == "z1", "source changed");
    }
    return done();
}
