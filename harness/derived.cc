// vertical velocity from the continuity equation, geopotential height from the hypsometric equation
#include "harness.h"
#include "grid.h"
#include "fimex/CDMProcessor.h"
#include "fimex/interpolation.h"
typedef std::vector<std::string> VS;
static std::string ST(const char* c) { return c; }
static std::map<std::string, size_t> DIM;
static size_t at(const VS& shape, const std::map<std::string, size_t>& p) { size_t o = 0, f = 1; for (const auto& d : shape) { o += p.at(d) * f; f *= DIM[d]; } return o; }
static size_t vol(const VS& s) { size_t n = 1; for (const auto& d : s) n *= DIM[d]; return n; }
static const double Rd = 8.31447 / .0289644, G = 9.80665, RE = 6371000;
static double dist(double lon1, double lat1, double lon2, double lat2)
{
    const double d = M_PI / 180, a = std::sin((lat2 - lat1) * d / 2), b = std::sin((lon2 - lon1) * d / 2);
    return 2 * RE * std::asin(std::sqrt(a * a + std::cos(lat1 * d) * std::cos(lat2 * d) * b * b));
}
typedef std::vector<double> D;
// dz/dt of a parcel: what the divergence above it makes the level sink or rise, and the wind along the slope of the level; sx, sy: direction of the axes
static D velocity(int nx, int ny, int nz, const D& gx, const D& gy, const D& ap, const D& b, const D& zs, const D& ps, const D& u, const D& v, const D& t, double sx, double sy)
{
    // pressure at the half levels, such that a level is in the middle of its layer
    D ah(nz + 1, 0.), bh(nz + 1, 0.);
    bh[nz] = 1;
    for (int k = nz - 1; k > 0; k--) ah[k] = 2 * ap[k] - ah[k + 1], bh[k] = 2 * b[k] - bh[k + 1];
    const int n = nx * ny;
    D w((size_t)n * nz, 0.);
    auto ph = [&](int c, int k) { return ah[k] + bh[k] * ps[c]; };
    auto dlnp = [&](int c, int k) { return k == 0 ? 0. : std::log(ph(c, k + 1) / ph(c, k)); };
    auto dp = [&](int c, int k) { return ph(c, k + 1) - ph(c, k); };
    auto alfa = [&](int c, int k) { return k == 0 ? std::log(2.) : 1 - ph(c, k) * dlnp(c, k) / dp(c, k); };
    auto phi = [&](int c, int k) { double s = zs[c] * G; for (int l = nz - 1; l > k; l--) s += Rd * t[c + n * l] * dlnp(c, l); return s + Rd * t[c + n * k] * alfa(c, k); };
    auto div = [&](int c, int k) { // of the mass flow through the layer
        auto fu = [&](int q) { return gy[q] * u[q + n * k] * dp(q, k); };
        auto fv = [&](int q) { return gx[q] * v[q + n * k] * dp(q, k); };
        return (sx * (fu(c + 1) - fu(c - 1)) + sy * (fv(c + nx) - fv(c - nx))) / (2 * gx[c] * gy[c]);
    };
    for (int k = 1; k < nz; k++) {
        for (int j = 1; j < ny - 1; j++) for (int i = 1; i < nx - 1; i++) {
            const int c = i + nx * j;
            double above = 0;
            for (int l = 1; l < k; l++) above += div(c, l);
            const double w1 = Rd * t[c + n * k] * (dlnp(c, k) * above + alfa(c, k) * div(c, k)) / dp(c, k);
            const double w2 = u[c + n * k] * sx * (phi(c + 1, k) - phi(c - 1, k)) / (2 * gx[c]) + v[c + n * k] * sy * (phi(c + nx, k) - phi(c - nx, k)) / (2 * gy[c]);
            w[c + n * k] = (w1 + w2) / G;
        }
        for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) w[i + nx * j + n * k] = w[std::min(std::max(i, 1), nx - 2) + nx * std::min(std::max(j, 1), ny - 2) + n * k];
    }
    return w;
}
static std::vector<float> F(const D& d) { return std::vector<float>(d.begin(), d.end()); }
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const int nx = rnd(3, 5), ny = rnd(3, 5), nz = rnd(1, 4), nt = rnd(1, 2), n = nx * ny;
        auto field = [&](size_t c, double lo, double hi) { D d(c); for (double& x : d) x = (float)(lo + (hi - lo) * rnd(0, 50) / 50); return d; };
        // levels
        D ap(nz), b(nz);
        for (int k = 0; k < nz; k++) b[k] = (k + .5) / nz, ap[k] = nz > 1 ? 2000. * (nz - 1 - k) / nz : 0;
        const bool wild = rnd(0, 2) == 0;
        if (wild) for (double& x : ap) x = std::floor(x * rnd(90, 110) / 100);
        if (rnd(0, 2) == 0) {
            // the function itself
            const double dx = rnd(1, 5) * 1000, dy = rnd(1, 5) * 1000;
            const D gx = field(n, 1000, 3000), gy = field(n, 1000, 3000), zs = field(n, 0, 1500), ps = field(n, 95000, 104000), u = field((size_t)n * nz, -40, 40), v = field((size_t)n * nz, -40, 40), t = field((size_t)n * nz, 220, 310);
            ::begin("velocity nx=" + S(nx) + " ny=" + S(ny) + " ap=" + S(ap) + " b=" + S(b) + " u=" + S(u[0]) + " v=" + S(v[0]) + " dx=" + S(dx) + " dy=" + S(dy));
            std::vector<float> w((size_t)n * nz, -1e9f);
            CHECK(mifi_compute_vertical_velocity(nx, ny, nz, dx, dy, F(gx).data(), F(gy).data(), ap.data(), b.data(), F(zs).data(), F(ps).data(), F(u).data(), F(v).data(), F(t).data(), w.data()) == MIFI_OK, "status");
            const D e = velocity(nx, ny, nz, gx, gy, ap, b, zs, ps, u, v, t, 1, 1);
            for (size_t i = 0; i < e.size(); i++) CHECK(close_(w[i], e[i], 1e-4, 1e-3), "velocity " + S(i) + " is " + S(w[i]) + " not " + S(e[i]));
            continue;
        }
        // a reader
        auto r = std::make_shared<MemReader>();
        Grid g = mkgrid(rnd(0, 1) ? 4 : rnd(0, 2));
        const int sx = rnd(0, 4) ? 1 : -1, sy = rnd(0, 1) ? 1 : -1;
        const D xa = mkaxis(g.x0, g.x1, nx, sx), ya = mkaxis(g.y0, g.y1, ny, sy);
        addgrid(*r, g, xa, ya);
        const std::string X = g.xn(), Y = g.yn();
        addtime(*r, nt);
        D lon(n), lat(n);
        for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { lon[i + nx * j] = xa[i]; lat[i + nx * j] = ya[j]; }
        if (g.kind != 4) {
            reproject::reproject_values(g.p, "+proj=longlat +R=6371000 +no_defs", lon.data(), lat.data(), n);
            r->var("lon", CDM_DOUBLE, {X, Y}, lon); r->att("lon", "units", ST("degrees_east")); r->att("lon", "standard_name", ST("longitude"));
            r->var("lat", CDM_DOUBLE, {X, Y}, lat); r->att("lat", "units", ST("degrees_north")); r->att("lat", "standard_name", ST("latitude"));
        }
        r->dim("z", nz);
        DIM = {{X, nx}, {Y, ny}, {"z", nz}, {"t", nt}};
        const bool velo = rnd(0, 1);
        const bool up = !velo && rnd(0, 1);
        auto flip = [&](D d) { if (up) std::reverse(d.begin(), d.end()); return d; };
        const bool hPa = rnd(0, 1);
        auto scaled = [](D v, double f) { for (double& x : v) x *= f; return v; };
        r->var("z", CDM_DOUBLE, {"z"}, flip(b));
        r->att("z", "standard_name", ST("atmosphere_hybrid_sigma_pressure_coordinate")); r->att("z", "formula_terms", ST("ap: ap b: b ps: ps")); r->att("z", "positive", ST("down"));
        r->var("ap", CDM_DOUBLE, {"z"}, scaled(flip(ap), hPa ? .01 : 1)); r->att("ap", "units", ST(hPa ? "hPa" : "Pa"));
        r->var("b", CDM_DOUBLE, {"z"}, flip(b)); r->att("b", "units", ST("1"));
        const D ps = field((size_t)n * nt, 95000, 104000), zs = field(n, 0, 1500);
        const VS orders[] = {{X, Y, "z", "t"}, {Y, X, "z", "t"}, {"z", X, Y, "t"}};
        const VS shape = orders[velo ? 0 : rnd(0, 2)];
        auto mk = [&](const std::string& nm, const char* sn, const VS& s, const D& v, const char* unit) {
            r->var(nm, CDM_DOUBLE, s, v); r->att(nm, "units", ST(unit)); if (*sn) r->att(nm, "standard_name", ST(sn));
            if (g.kind != 4) { r->att(nm, "grid_mapping", ST("gm")); r->att(nm, "coordinates", ST("lon lat")); }
        };
        const bool haveSap = rnd(0, 5), geop = rnd(0, 3);
        mk("ps", haveSap ? "surface_air_pressure" : "", {X, Y, "t"}, scaled(ps, hPa ? .01 : 1), hPa ? "hPa" : "Pa");
        mk("zs", geop ? "surface_geopotential" : "surface_altitude", {X, Y}, geop ? scaled(zs, velo ? 9.81 : G) : zs, geop ? "m^2/s^2" : "m");
        const D t = field(vol(shape), 220, 310), u = field(vol(shape), -40, 40), v = field(vol(shape), -40, 40), q = field(vol(shape), 0, .02);
        const bool celsius = rnd(0, 1), haveQ = rnd(0, 1), kmh = rnd(0, 1);
        const std::string tn = rnd(0, 1) ? "air_temperature_ml" : "ta";
        D tf = t; if (celsius) for (double& x : tf) x -= 273.15;
        mk(tn, "air_temperature", shape, tf, celsius ? "celsius" : "K");
        if (rnd(0, 1)) mk("t2m", "air_temperature", {X, Y, "t"}, field((size_t)n * nt, 220, 310), "K"); // without levels
        mk("u", rnd(0, 1) || velo ? "x_wind" : "", shape, scaled(u, kmh ? 3.6 : 1), kmh ? "km/h" : "m/s");
        mk("v", "y_wind", shape, scaled(v, kmh ? 3.6 : 1), kmh ? "km/h" : "m/s");
        if (haveQ) mk("q", "specific_humidity", shape, q, "1");
        ::begin(std::string(velo ? "velocity" : "height") + " of a reader grid" + S(g.kind) + " x" + S(xa) + " y" + S(ya) + " t" + S(nt) + " ap=" + S(ap) + " b=" + S(b) + (hPa ? " hPa" : "") + (up ? " upwards" : "") + (celsius ? " celsius" : "") + (haveQ ? " humidity" : "") + (haveSap ? "" : " no ps") + (geop ? "" : " altitude") + S(shape) + tn);
        CDMProcessor p(r);
        if (velo) p.addVerticalVelocity(); else p.addGeopotentialHeight();
        const std::string name = velo ? "upward_air_velocity_ml" : tn == "ta" ? "geopotential_height" : "geopotential_height_ml";
        CHECK(p.getCDM().hasVariable(name), "no " + name);
        CHECK(p.getCDM().getVariable(name).getShape() == shape, "shape of " + name);
        CHECK(p.getCDM().getAttribute(name, "units").getStringValue() == (velo ? "m/s" : "m"), "unit");
        CHECK(p.getCDM().getAttribute(name, "standard_name").getStringValue() == (velo ? "upward_air_velocity" : "geopotential_height"), "standard name");
        D gx(n), gy(n);
        for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
            // as the last row and column repeat the one before
            const int c = i + nx * j, e = std::min(i, nx - 2) + nx * std::min(j, ny - 2);
            gx[c] = dist(lon[e], lat[e], lon[e + 1], lat[e + 1]);
            gy[c] = dist(lon[e], lat[e], lon[e + nx], lat[e + nx]);
        }
        for (int it = 0; it < nt; it++) {
            const D got = all(p.getScaledDataSlice(name, it));
            CHECK(got.size() == (size_t)n * nz, "size " + S(got.size()));
            if (velo) {
                auto cut = [&](const D& d, size_t len) { return D(d.begin() + it * len, d.begin() + (it + 1) * len); };
                const size_t L = (size_t)n * nz;
                const D e = velocity(nx, ny, nz, gx, gy, ap, b, zs, cut(ps, n), cut(u, L), cut(v, L), cut(t, L), sx, sy);
                for (size_t i = 0; i < e.size(); i++) CHECK(close_(got[i], e[i], 2e-3, 2e-3), "velocity " + S(i) + " is " + S(got[i]) + " not " + S(e[i]));
                continue;
            }
            for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
                const double s = ps[i + nx * (j + (size_t)ny * it)];
                double z = zs[i + nx * j], pl = s;
                for (int k = nz - 1; k >= 0; k--) {
                    std::map<std::string, size_t> pos = {{X, i}, {Y, j}, {"z", up ? nz - 1 - k : k}, {"t", it}};
                    const double pk = ap[k] + b[k] * s;
                    if (haveSap && geop) {
                        double T = t[at(shape, pos)];
                        if (haveQ) T *= 1 + (1 / .622 - 1) * q[at(shape, pos)];
                        z += std::log(pl / pk) * T * Rd / G;
                        pl = pk;
                    } else z = -Rd / G * 288.15 * std::log(pk / 101325);
                    pos["t"] = 0;
                    const double o = got[at(shape, pos)];
                    CHECK(close_(o, z, 1e-4, .1), "height at level " + S(k) + " of cell " + S(i) + "," + S(j) + " is " + S(o) + " not " + S(z));
                }
            }
        }
    }
    return done();
}
