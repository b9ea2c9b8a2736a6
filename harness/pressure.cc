// fields derived from pressure: temperature, relative humidity, vertical wind, pressure itself
#include "harness.h"
#include "grid.h"
#include "fimex/CDMPressureConversions.h"
typedef std::vector<std::string> VS;
static std::string ST(const char* c) { return c; }
struct Field { VS shape; std::vector<double> v; }; // unpacked, in SI units
static std::map<std::string, size_t> DIM;
static size_t at(const VS& shape, const std::map<std::string, size_t>& p) { size_t o = 0, f = 1; for (const auto& d : shape) { o += p.at(d) * f; f *= DIM[d]; } return o; }
static size_t vol(const VS& s) { size_t n = 1; for (const auto& d : s) n *= DIM[d]; return n; }
static std::map<std::string, size_t> pos(const VS& shape, size_t i) { std::map<std::string, size_t> p; for (const auto& d : shape) { p[d] = i % DIM[d]; i /= DIM[d]; } return p; }
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        auto r = std::make_shared<MemReader>();
        Grid g = mkgrid(rnd(0, 4));
        const int nx = rnd(1, 3), ny = rnd(1, 3), nz = rnd(1, 3), nt = rnd(1, 3);
        addgrid(*r, g, mkaxis(g.x0, g.x1, nx, 1), mkaxis(g.y0, g.y1, ny, 1));
        const std::string X = g.xn(), Y = g.yn();
        const bool unl = rnd(0, 3);
        if (unl) addtime(*r, nt);
        else {
            std::vector<double> tv; for (int i = 0; i < nt; i++) tv.push_back(6 * i);
            r->dim("t", nt); r->var("t", CDM_DOUBLE, {"t"}, tv); r->att("t", "units", ST("hours since 2000-01-01 00:00:00")); r->att("t", "standard_name", ST("time"));
        }
        r->dim("z", nz);
        DIM = {{X, nx}, {Y, ny}, {"z", nz}, {"t", nt}};
        // vertical axis
        const int zk = rnd(0, 3);
        std::vector<double> z(nz), ap(nz), ps(nx * ny * nt);
        for (double& v : ps) v = rnd(960, 1040);
        const bool pst = rnd(0, 3), psPa = rnd(0, 1);
        const VS psShape = pst ? VS{X, Y, "t"} : VS{X, Y};
        auto scaled = [](std::vector<double> v, double f) { for (double& x : v) x *= f; return v; };
        for (int i = 0; i < nz; i++) z[i] = zk == 0 ? 1000 - 200 * i - rnd(0, 90) : 1 - .25 * i - rnd(0, 9) * .01, ap[i] = rnd(0, 3) * 10;
        const bool zPa = rnd(0, 1);
        r->var("z", CDM_DOUBLE, {"z"}, zk == 0 && zPa ? scaled(z, 100) : z);
        r->att("z", "positive", ST("down"));
        if (zk == 0) r->att("z", "units", ST(zPa ? "Pa" : "hPa"));
        else {
            r->var("ps", CDM_DOUBLE, psShape, scaled(std::vector<double>(ps.begin(), ps.begin() + vol(psShape)), psPa ? 100 : 1));
            r->att("ps", "units", ST(psPa ? "Pa" : "hPa"));
            if (zk == 1) {
                r->var("ptop", CDM_DOUBLE, {}, {20}); r->att("ptop", "units", ST("hPa"));
                r->att("z", "standard_name", ST("atmosphere_sigma_coordinate")); r->att("z", "formula_terms", ST("sigma: z ps: ps ptop: ptop"));
            } else {
                r->att("z", "standard_name", ST("atmosphere_hybrid_sigma_pressure_coordinate"));
                if (zk == 2) { r->var("ap", CDM_DOUBLE, {"z"}, ap); r->att("ap", "units", ST("hPa")); r->att("z", "formula_terms", ST("ap: ap b: z ps: ps")); }
                else { r->var("p0", CDM_DOUBLE, {}, {1000}); r->att("p0", "units", ST("hPa")); r->var("a", CDM_DOUBLE, {"z"}, scaled(ap, .001)); r->att("z", "formula_terms", ST("a: a b: z ps: ps p0: p0")); }
            }
        }
        auto pressure = [&](const std::map<std::string, size_t>& p) { // hPa
            const size_t k = p.at("z");
            if (zk == 0) return z[k];
            const double s = ps[at(psShape, p)];
            return zk == 1 ? 20 + z[k] * (s - 20) : ap[k] + z[k] * s;
        };
        std::string desc = "grid" + S(g.kind) + " x" + S(nx) + " y" + S(ny) + " z" + S(nz) + " t" + S(nt) + (unl ? "" : " fixed") + " levels" + S(zk) + S(z) + (pst ? "" : " constant ps");
        // fields
        const CDMDataType TY[] = {CDM_FLOAT, CDM_DOUBLE, CDM_SHORT};
        std::map<std::string, Field> F;
        const VS orders[] = {{X, Y, "z", "t"}, {Y, X, "z", "t"}, {"z", X, Y, "t"}, {X, "z", Y, "t"}};
        const VS shape = orders[rnd(0, 2) ? 0 : rnd(0, 3)];
        auto mk = [&](const std::string& n, const char* sn, const VS& s, double lo, double hi, const char* unit, double uscale, double uoff) {
            Field f; f.shape = s; // file value * uscale + uoff = SI value
            const CDMDataType t = TY[rnd(0, 2)];
            const double q = (hi - lo) / uscale / 60000, o = t == CDM_SHORT ? (((hi + lo) / 2 - uoff) / uscale) : 0;
            std::vector<double> raw(vol(s));
            for (double& v : raw) {
                const double si = rnd(0, 40) / 40. * (hi - lo) + lo, u = (si - uoff) / uscale;
                v = t == CDM_SHORT ? std::floor((u - o) / q + .5) : t == CDM_FLOAT ? (float)u : u;
                f.v.push_back((t == CDM_SHORT ? v * q + o : v) * uscale + uoff);
            }
            r->var(n, t, s, raw);
            if (t == CDM_SHORT) { r->att(n, "scale_factor", q); r->att(n, "add_offset", o); }
            r->att(n, "units", std::string(unit));
            if (*sn) r->att(n, "standard_name", std::string(sn));
            if (g.kind != 4) r->att(n, "grid_mapping", ST("gm"));
            F[n] = f;
            desc += " " + n + S(s) + datatype2string(t) + " " + unit;
        };
        const bool haveT = rnd(0, 5), haveT2 = rnd(0, 3) == 0, celsius = rnd(0, 1), gkg = rnd(0, 1), haveQ = rnd(0, 5), haveTh = rnd(0, 5), haveO = rnd(0, 5), oh = rnd(0, 1);
        if (haveT2) mk(rnd(0, 1) ? "a_t2m" : "zt2m", "air_temperature", {X, Y, "t"}, 240, 300, "K", 1, 0);
        if (haveT) mk("ta", "air_temperature", shape, 220, 310, celsius ? "celsius" : "K", 1, celsius ? 273.15 : 0);
        if (haveQ) mk("q", "specific_humidity", shape, 0, rnd(0, 1) ? .001 : .02, gkg ? "g/kg" : "1", gkg ? .001 : 1, 0);
        if (rnd(0, 3) == 0) { // one without a coordinate system
            r->dim("station", 3);
            r->var("a_q0", CDM_FLOAT, {"station"}, {.001, .002, .003});
            r->att("a_q0", "standard_name", std::string("specific_humidity"));
            r->att("a_q0", "units", std::string("1"));
        }
        if (haveTh) mk("th", "air_potential_temperature", shape, 260, 400, "K", 1, 0);
        const char* on[] = {"omega", "lagrangian_tendency_of_air_pressure", "vertical_air_velocity_expressed_as_tendency_of_pressure"};
        if (haveO) mk("om", on[rnd(0, 2)], shape, -5, 5, oh ? "hPa/s" : "Pa/s", oh ? 100 : 1, 0);
        if (haveO && g.kind != 4 && rnd(0, 1)) r->att("om", "coordinates", ST("x y"));
        // another vertical axis, of a field with or without time
        const int z2n = rnd(0, 2) ? 0 : rnd(1, 4);
        const bool z2t = rnd(0, 2);
        std::vector<double> z2(z2n);
        for (int i = 0; i < z2n; i++) z2[i] = 900 - 150 * i - rnd(0, 90);
        if (z2n) {
            r->dim("z2", z2n); DIM["z2"] = z2n;
            r->var("z2", CDM_DOUBLE, {"z2"}, z2); r->att("z2", "positive", ST("down")); r->att("z2", "units", ST("hPa"));
            mk(rnd(0, 1) ? "a2" : "v2", "", z2t ? VS{X, Y, "z2", "t"} : VS{X, Y, "z2"}, 0, 1, "1", 1, 0);
        }
        mk("other", "", {X, "t"}, 0, 1, "1", 1, 0);
        // operations
        VS ops;
        const bool opT = rnd(0, 1), opH = rnd(0, 1), opO = rnd(0, 1), opP = rnd(0, 1);
        std::string nT = "air_temperature", nH = "relative_humidity", nW = "upward_air_velocity", nP = "air_pressure4D";
        auto opt = [&](std::string op, std::map<std::string, std::string> o) { for (const auto& x : o) op += ";" + x.first + "=" + x.second; ops.push_back(op); };
        bool giveT = haveT && rnd(0, 2) == 0;
        if (opT) { std::map<std::string, std::string> o; if (rnd(0, 1)) o["air_temperature"] = nT = "temp"; if (haveTh && rnd(0, 1)) o["air_potential_temperature"] = "th"; opt("theta2T", o); }
        if (opH) { std::map<std::string, std::string> o; if (rnd(0, 1)) o["relative_humidity"] = nH = "rh"; if (haveQ && rnd(0, 1)) o["specific_humidity"] = "q"; if (giveT) o["air_temperature"] = "ta"; opt("specific2relative", o); }
        if (opO) { std::map<std::string, std::string> o; if (rnd(0, 1)) o["upward_air_velocity"] = nW = "w"; if (haveO && rnd(0, 1)) o["omega"] = "om"; if (giveT) o["air_temperature"] = "ta"; opt("omega2vwind", o); }
        if (opP) { std::map<std::string, std::string> o; if (rnd(0, 1)) o["air_pressure4D"] = nP = "p"; opt("add4Dpressure", o); }
        std::shuffle(ops.begin(), ops.end(), RNG);
        desc += " operations " + S(ops);
        ::begin(desc);
        if (rnd(0, 19) == 0) { VS bad = ops; bad.push_back("theta2t"); CHECK(throws([&] { CDMPressureConversions(r, bad); }), "unknown operation accepted"); }
        const bool full = haveT || haveQ || haveTh || haveO;
        const bool use2 = z2n && z2t && (!full || z2n > nz), tie = full && z2n == nz && z2t;
        if (opP && !full && !use2) { CHECK(throws([&] { CDMPressureConversions(r, ops); }), "pressure without any field on levels"); continue; }
        CDMPressureConversions c(r, ops);
        const CDM& cdm = c.getCDM();
        auto check = [&](const std::string& n, const VS& sh, std::function<double(size_t)> e, double rel, double abs, const char* unit) {
            CHECK(cdm.hasVariable(n), n + " is missing");
            CHECK(cdm.getVariable(n).getShape() == sh, "shape of " + n);
            std::vector<double> got;
            for (size_t t = 0; t < (unl ? nt : 1); t++) { auto s = all(c.getScaledDataSlice(n, t)); got.insert(got.end(), s.begin(), s.end()); }
            CHECK(got.size() == vol(sh), "size of " + n + " " + S(got.size()));
            for (size_t i = 0; i < got.size(); i++) CHECK(close_(got[i], e(i), rel, abs), n + " " + S(i) + " is " + S(got[i]) + " not " + S(e(i)) + (DIM.count("z2") && std::count(sh.begin(), sh.end(), "z2") ? "" : " at " + S(pressure(pos(sh, i))) + " hPa"));
            CDMAttribute a;
            CHECK(cdm.getAttribute(n, "units", a) && a.getStringValue() == unit, "unit of " + n);
        };
        auto sn = [&](const std::string& n, const char* s) { CDMAttribute a; CHECK(cdm.getAttribute(n, "standard_name", a) && a.getStringValue() == s, "standard name of " + n); };
        std::set<std::string> expect, gone;
        if (opT && haveTh) {
            gone.insert("th"); expect.insert(nT);
            check(nT, shape, [&](size_t i) { return F["th"].v[i] * std::pow(pressure(pos(shape, i)) / 1000, 8.31447 / .0289644 / 1004); }, 3e-5, 1e-4, "K");
            sn(nT, "air_temperature");
        }
        if (opH && haveQ && haveT) {
            expect.insert(nH);
            check(nH, shape, [&](size_t i) {
                const double T = F["ta"].v[i], es = 610.78 * std::exp(17.269 * (T - 273.16) / (T - 35.86)), rh = F["q"].v[i] * 100 * pressure(pos(shape, i)) / (es * .622);
                return std::min(32767 / 25000., std::max(0., rh)); }, 1e-4, 6e-5, "1");
            sn(nH, "relative_humidity");
        }
        if (opO && haveO && haveT && (giveT || !haveT2)) {
            gone.insert("om"); expect.insert(nW);
            check(nW, shape, [&](size_t i) { return -F["om"].v[i] * 8.31447 / .0289644 * F["ta"].v[i] / (9.80665 * 100 * pressure(pos(shape, i))); }, 1e-4, 1e-4, "m/s");
            sn(nW, "upward_air_velocity");
            CDMAttribute a, b;
            const bool h = r->getCDM().getAttribute("om", "coordinates", a);
            CHECK(h == cdm.getAttribute(nW, "coordinates", b) && (!h || a.getStringValue() == b.getStringValue()), "coordinates of the wind");
        }
        if (opP) {
            expect.insert(nP);
            CHECK(cdm.hasVariable(nP), "pressure is missing");
            const VS got = cdm.getVariable(nP).getShape();
            const bool two = tie ? std::count(got.begin(), got.end(), "z2") > 0 : use2;
            const VS s4 = {X, Y, two ? "z2" : "z", "t"};
            check(nP, s4, [&](size_t i) { auto p = pos(s4, i); if (two) return z2[p["z2"]]; return pressure(p); }, 1e-5, 0, "hPa");
            sn(nP, "air_pressure");
        }
        // the rest
        std::set<std::string> have;
        for (const auto& v : cdm.getVariables()) have.insert(v.getName());
        for (const auto& v : r->getCDM().getVariables()) {
            const std::string n = v.getName();
            if (gone.count(n)) { CHECK(!have.count(n), n + " is still there"); continue; }
            CHECK(have.count(n), n + " is gone");
            have.erase(n);
            for (size_t t = 0; t < (unl ? nt : 1); t++) CHECK(all(c.getDataSlice(n, t)) == all(r->getDataSlice(n, t)), n + " changed");
        }
        CHECK(have == expect, "new variables");
    }
    return done();
}
