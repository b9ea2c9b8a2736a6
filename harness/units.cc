// units: which can be converted, the conversion of single values and of the data of a reader
#include "harness.h"
#include "fimex/Units.h"
#include "fimex/UnitsConverter.h"
#include "fimex/UnitsException.h"
struct U { const char* name; double scale, offset; }; // value in the base unit of the family: scale*x + offset
static const double D = M_PI / 180;
static const std::vector<std::vector<U>> FAM = {
    {{"K", 1, 0}, {"kelvin", 1, 0}, {"degC", 1, 273.15}, {"celsius", 1, 273.15}, {"degree_Celsius", 1, 273.15}, {"degF", 5 / 9., 273.15 - 160 / 9.}, {"0.1 K", 0.1, 0}, {"mK", 1e-3, 0}, {"K @ 100", 1, 100}, {"0.5 K @ 20", 0.5, 10}},
    {{"Pa", 1, 0}, {"hPa", 100, 0}, {"mbar", 100, 0}, {"kPa", 1000, 0}, {"atm", 101325, 0}, {"bar", 1e5, 0}, {"dbar", 1e4, 0}, {"mPa", 1e-3, 0}, {"MPa", 1e6, 0}, {"pPa", 1e-12, 0}, {"PPa", 1e15, 0}, {"N m-2", 1, 0}, {"kg m-1 s-2", 1, 0}, {"-1 Pa", -1, 0}},
    {{"m", 1, 0}, {"km", 1000, 0}, {"cm", 0.01, 0}, {"mm", 1e-3, 0}, {"Mm", 1e6, 0}, {"ft", 0.3048, 0}, {"1000 m", 1000, 0}, {"meter", 1, 0}, {"m @ 12", 1, 12}, {"dam", 10, 0}},
    {{"m/s", 1, 0}, {"m s-1", 1, 0}, {"km/h", 1 / 3.6, 0}, {"knot", 1852 / 3600., 0}, {"m s^-1", 1, 0}, {"cm s-1", 0.01, 0}},
    {{"1", 1, 0}, {"%", 0.01, 0}, {"percent", 0.01, 0}, {"g kg-1", 1e-3, 0}, {"kg/kg", 1, 0}, {"0.5", 0.5, 0}, {"", 1, 0}, {"radian", 1, 0}, {"degree", D, 0}, {"degrees_north", D, 0}, {"degrees_east", D, 0}},
    {{"s", 1, 0}, {"min", 60, 0}, {"hour", 3600, 0}, {"h", 3600, 0}, {"day", 86400, 0}, {"ms", 1e-3, 0}},
    {{"seconds since 1970-01-01 00:00:00", 1, 0}, {"hours since 1970-01-02", 3600, 86400}, {"days since 1969-12-31 12:00:00", 86400, -43200}, {"minutes since 1970-01-01 06:00:00 +00:00", 60, 21600}},
    {{"kg m-2", 1, 0}, {"g m-2", 1e-3, 0}, {"kg/m2", 1, 0}},
    {{"kg m-2 s-1", 1, 0}, {"kg m-2 h-1", 1 / 3600., 0}, {"kg m-2 day-1", 1 / 86400., 0}},
    {{"J m-2", 1, 0}, {"W s m-2", 1, 0}, {"kJ m-2", 1000, 0}, {"W h m-2", 3600, 0}},
};
// logarithmic units: value in the linear unit is ref * 10^(x/per)
struct L { const char* name; const char* linear; double per; };
static const L LOGS[] = {{"0.00001 lg(re 1 mW)", "mW", 1e5}, {"lg(re 1 mW)", "mW", 1}, {"0.1 lg(re 1 mW)", "mW", 10}, {"0.1 lg(re mm^6 m^-3)", "mm^6 m^-3", 10}, {"ln(re 1 Pa)", "Pa", M_LN10}};
static const char* BAD[] = {"nonsense", "m/", "kg (", "m s-1 q", "hours after midnight", "since 1970-01-01", "@ 3"};
static bool same(double a, double b, double mag, double rel = 1e-9) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rel * (1 + mag + std::fabs(b)); }
static bool refused(std::function<void()> f)
{
    try { f(); } catch (UnitException&) { return true; }
    return false;
}
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const std::vector<U>& f = FAM[rnd(0, FAM.size() - 1)];
        const U& a = f[rnd(0, f.size() - 1)];
        const U& b = f[rnd(0, f.size() - 1)];
        const std::vector<U>& g = FAM[rnd(0, FAM.size() - 1)];
        const bool wrong = &f != &g && !((&f == &FAM[5] || &f == &FAM[6]) && (&g == &FAM[5] || &g == &FAM[6])); // udunits converts times to durations
        const U& c = g[rnd(0, g.size() - 1)];
        const bool log = rnd(0, 3) == 0;
        const L& l = LOGS[rnd(0, 4)];
        const double x = rnd(0, 3) ? rnd(-400, 400) / 4. : rnd(0, 1) ? frnd(-1e5, 1e5) : 0;
        const char* bad = BAD[rnd(0, 6)];
        ::begin(std::string("from '") + a.name + "' to '" + b.name + "', other '" + c.name + "', log " + (log ? l.name : "-") + ", bad '" + bad + "', value " + S(x));
        if (rnd(0, 199) == 0)
            CHECK(Units::unload(true) && !Units::unload(false), "unload");
        Units u, u2(u);
        u = u2;
        const double sc = a.scale / b.scale, of = (a.offset - b.offset) / b.scale, mag = std::fabs(sc * x) + std::fabs(a.offset / b.scale) + std::fabs(b.offset / b.scale);
        UnitsConverter_p uc = u.getConverter(a.name, b.name);
        CHECK(same(uc->convert(x), sc * x + of, mag), "value, got " + S(uc->convert(x)) + " want " + S(sc * x + of));
        CHECK(same(uc->convert((float)x), sc * (float)x + of, mag, 1e-6), "float value, got " + S(uc->convert((float)x)) + " want " + S(sc * x + of));
        CHECK(std::isnan(uc->convert((double)NAN)) && std::isnan(uc->convert((float)NAN)), "undefined value");
        CHECK(uc->isLinear(), "linear");
        double s = 7, o = 7;
        uc->getScaleOffset(s, o);
        CHECK(same(s, sc, 0, 1e-8) && same(o, of, mag), "scale and offset, got " + S(s) + " " + S(o) + " want " + S(sc) + " " + S(of));
        s = o = 7;
        u2.convert(a.name, b.name, s, o);
        CHECK(same(s, sc, 0, 1e-8) && same(o, of, mag), "slope and offset, got " + S(s) + " " + S(o) + " want " + S(sc) + " " + S(of));
        CHECK(u.areConvertible(a.name, b.name) && u.areConvertible(b.name, a.name), "convertible");
        CHECK(u.areConvertible(a.name, c.name) == (&f == &g), std::string("convertible to ") + c.name);
        CHECK(u.isTime(a.name) == (&f == &FAM[6]), "time");
        CHECK(!u.isTime(bad) && !u.areConvertible(bad, a.name) && !u.areConvertible(a.name, bad), "bad unit convertible");
        CHECK(refused([&] { u.getConverter(a.name, bad); }) && refused([&] { u.getConverter(bad, a.name); }) && refused([&] { double p, q; u.convert(bad, a.name, p, q); }), "bad unit accepted");
        if (wrong)
            CHECK(refused([&] { u.getConverter(a.name, c.name); }) && refused([&] { double p, q; u.convert(a.name, c.name, p, q); }), "wrong unit accepted");
        if (log) {
            UnitsConverter_p to = u.getConverter(l.name, l.linear), back = u.getConverter(l.linear, l.name);
            const double y = rnd(-40, 40) / 8. * l.per, z = std::pow(10., y / l.per);
            CHECK(same(to->convert(y), z, 0), "from logarithm, got " + S(to->convert(y)) + " want " + S(z));
            CHECK(same(back->convert(z), y, 0), "to logarithm, got " + S(back->convert(z)) + " want " + S(y));
            CHECK(same(to->convert((float)y), z, 0, 1e-5) && same(back->convert((float)z), y, 0, 1e-5), "float logarithm");
            CHECK(!to->isLinear() && !back->isLinear(), "logarithm is not linear");
            CHECK(refused([&] { double p, q; to->getScaleOffset(p, q); }) && refused([&] { double p, q; u.convert(l.linear, l.name, p, q); }), "scale of a logarithm");
            CHECK(u.areConvertible(l.name, l.linear), "logarithm convertible");
        }
        // data of a reader
        static const CDMDataType T[] = {CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_UCHAR, CDM_INT64};
        const CDMDataType t = T[rnd(0, 5)];
        const bool packed = rnd(0, 1), fill = rnd(0, 1), unlim = rnd(0, 1), mem = rnd(0, 3) == 0;
        const double ps = packed ? rnd(1, 8) / 8. : 1, po = packed ? rnd(-20, 20) / 2. : 0, fv = rnd(0, 1) ? 99 : 0;
        const size_t nx = rnd(1, 3), nt = rnd(1, 3);
        std::vector<double> v, w, wl;
        for (size_t i = 0; i < nx * nt; i++) {
            v.push_back(fill && rnd(0, 2) == 0 ? fv : rnd(1, 60));
            const bool un = fill && v[i] == fv;
            const double y = v[i] * ps + po;
            w.push_back(un ? NAN : sc * y + of);
            wl.push_back(un ? NAN : std::pow(10., y / l.per));
        }
        MemReader r;
        r.dim("x", nx);
        r.dim("t", nt, unlim);
        r.var("v", t, {"x", "t"}, v);
        if (packed) {
            r.att("v", "scale_factor", ps);
            r.att("v", "add_offset", po);
        }
        if (fill) {
            DataPtr d = createData(t, 1);
            d->setValue(0, fv);
            r.getInternalCDM().addAttribute("v", CDMAttribute("_FillValue", d));
        }
        if (*a.name || rnd(0, 1) || log)
            r.getInternalCDM().addAttribute("v", CDMAttribute("units", std::string(log ? l.name : a.name)));
        if (mem) r.inMemory("v");
        const std::string to = log ? l.linear : b.name;
        const std::vector<double>& want = log ? wl : w;
        auto eq = [&](DataPtr d, size_t at, size_t n, const std::string& what) {
            std::vector<double> h = all(d);
            CHECK(d->getDataType() == CDM_DOUBLE && h.size() == n, what + " type and size");
            for (size_t i = 0; i < n; i++)
                CHECK(same(h[i], want[at + i], mag, 1e-8), what + " in " + to + ", got " + S(h) + " want " + S(want) + " packed " + S(v) + " " + S(ps) + " " + S(po));
        };
        eq(r.getScaledDataInUnit("v", to), 0, nx * nt, "variable");
        SliceBuilder sb(r.getCDM(), "v");
        const size_t t0 = rnd(0, nt - 1), n = rnd(1, nt - t0);
        sb.setStartAndSize("t", t0, n);
        eq(r.getScaledDataSliceInUnit("v", to, sb), t0 * nx, n * nx, "part");
        if (unlim)
            eq(r.getScaledDataSliceInUnit("v", to, t0), t0 * nx, nx, "slice");
        CHECK(throws([&] { r.getScaledDataInUnit("v", bad); }), "bad unit accepted by the reader");
        if (wrong && !log)
            CHECK(throws([&] { r.getScaledDataInUnit("v", c.name); }) && throws([&] { r.getScaledDataSliceInUnit("v", c.name, sb); }), "wrong unit accepted by the reader");
    }
    return done();
}
