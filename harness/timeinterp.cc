// interpolation of a reader along its time axis
#include "harness.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/TimeUnit.h"
typedef std::string ST;
MAIN
{
    INIT
    const CDMDataType types[] = {CDM_SHORT, CDM_FLOAT, CDM_DOUBLE, CDM_INT};
    const char* units[] = {"hours since 2020-01-01 00:00:00", "seconds since 2020-01-01 00:00:00", "days since 2019-12-01 12:00:00"};
    const double secs[] = {3600, 1, 86400};
    const long off0[] = {0, 0, -(30 * 24 + 12) * 3600}; // seconds of the unit's origin since 2020-01-01 00
    for (long run = 0; run < N; run++) {
        auto r = std::make_shared<MemReader>();
        const int nt = rnd(0, 5) ? rnd(2, 6) : 1, nx = rnd(1, 4), un = rnd(0, 2);
        r->dim("x", nx);
        r->dim("t", nt, true);
        r->var("x", CDM_DOUBLE, {"x"}, std::vector<double>(nx, 1));
        std::vector<long> sec(nt);
        std::vector<double> tv(nt);
        const bool hourly = rnd(0, 3) == 0;
        const long grain = hourly ? 3600 : 1800;
        for (int i = 0; i < nt; i++) {
            sec[i] = (i ? sec[i - 1] : rnd(-5, 30) * grain) + (i ? rnd(1, 8) * grain : 0);
            tv[i] = (sec[i] - off0[un]) / secs[un];
        }
        bool whole = true;
        for (double x : tv) whole &= x == std::floor(x);
        r->var("t", whole && rnd(0, 1) ? CDM_INT : CDM_DOUBLE, {"t"}, tv);
        const bool tpacked = rnd(0, 9) == 0; // packed times
        if (tpacked) {
            for (double& x : r->values["t"]) x = x * 4 - 8;
            r->att("t", "scale_factor", .25);
            r->att("t", "add_offset", 2.);
        }
        r->att("t", "units", std::string(units[un]));
        r->att("t", "standard_name", std::string("time"));
        const double fill = -999;
        const CDMDataType ty = types[rnd(0, 3)];
        const bool packed = rnd(0, 1), mem = rnd(0, 3) == 0;
        std::vector<double> a(nt * nx), c(nx);
        for (double& x : a) x = rnd(0, 7) == 0 ? fill : rnd(-200, 200);
        for (double& x : c) x = rnd(-9, 9);
        r->var("a", ty, {"x", "t"}, a);
        r->getInternalCDM().addAttribute("a", CDMAttribute("_FillValue", createData(ty, 1, fill)));
        if (packed) {
            r->att("a", "scale_factor", .5);
            r->att("a", "add_offset", 3.);
        }
        r->var("c", CDM_FLOAT, {"x"}, c);
        if (mem) {
            DataPtr d = createData(ty, nt * nx);
            for (int i = 0; i < nt * nx; i++) d->setValue(i, a[i]);
            r->getInternalCDM().getVariable("a").setData(d);
        }
        std::set<int> gone; // steps that are not available
        if (!mem && rnd(0, 4) == 0)
            for (int i = 0; i < nt; i++) if (rnd(0, 2) == 0) { gone.insert(i); r->empty["a"].insert(i); }
        std::string goneText;
        for (int g : gone) goneText += " " + S(g);
        const bool change = rnd(0, 9) != 0;
        const int nn = rnd(1, 6);
        const bool sorted = rnd(0, 1);
        std::vector<long> ns(nn);
        for (long& x : ns) x = rnd(0, 3) ? sec[0] + rnd(-20, 40) * 600L : sec[rnd(0, nt - 1)];
        if (sorted) std::sort(ns.begin(), ns.end());
        std::string spec;
        for (long s : ns) {
            const time_t z = 1577836800 + s;
            char b[40];
            strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", gmtime(&z));
            spec += (spec.empty() ? "" : ",") + std::string(b);
        }
        const int nu = rnd(0, 2);
        spec += std::string(";unit=") + units[nu];
        if (hourly && sec[nt - 1] - sec[0] > 7200 && rnd(0, 1)) { // every hour from the first to the last time
            ns.clear();
            for (long s = sec[0]; s <= sec[nt - 1]; s += 3600) ns.push_back(s);
            spec = std::string("0,1,...,x;relativeUnit=hours since 2019-12-01 00:00:00;unit=") + units[nu];
        }
        const bool twice = rnd(0, 4) == 0;
        const int fu = rnd(0, 2);
        begin(ST(tpacked ? "packed " : "") + "times " + S(tv) + " " + units[un] + " type " + S((int)ty) + " packed " + S(packed) + " in memory " + S(mem) + " values " + S(a) + " missing steps" + goneText + (change ? " to " + spec : " unchanged") + (twice ? " after a change to " + ST(units[fu]) : ""));
        auto p = std::make_shared<CDMTimeInterpolator>(r);
        if (change && twice) p->changeTimeAxis("2020-01-01 00:00:00,2020-01-01 06:00:00,...,2020-01-02 00:00:00;unit=" + ST(units[fu]));
        if (change) p->changeTimeAxis(spec);
        const int n = change ? (int)ns.size() : nt;
        CHECK(p->getCDM().getDimension("t").getLength() == (size_t)n, "length of the time axis");
        for (int q = 0; q < 6; q++) {
            const int i = rnd(0, n - 1);
            const std::string what = " at new time " + S(i);
            if (change) {
                auto tg = p->getScaledDataSlice("t", i)->asDouble();
                CHECK(close_(tg[0], (ns[i] - off0[nu]) / secs[nu], 1e-12, 1e-7), "time is " + S(tg[0]) + what);
                CHECK(p->getCDM().getUnits("t") == units[nu] && p->getCDM().getVariable("t").getDataType() == p->getDataSlice("t", i)->getDataType(), "unit and type of the new times");
            }
            DataPtr d = p->getDataSlice("a", i);
            if (!gone.empty()) { // a missing step is replaced by the other one
                if (!change) { CHECK(d->size() == (gone.count(i) ? 0 : nx), "size" + what); continue; }
                const long s = ns[i];
                const bool exact = std::count(sec.begin(), sec.end(), s);
                if (exact || nt == 1) continue;
                int k = 0;
                while (k < nt - 2 && sec[k + 1] < s) k++;
                if (gone.count(k) || gone.count(k + 1)) {
                    const int o = gone.count(k) ? k + 1 : k;
                    CHECK(d->size() == (gone.count(o) ? 0 : nx), "size with missing steps" + what);
                    for (size_t x = 0; x < d->size(); x++)
                        CHECK(d->getDouble(x) == a[o * nx + x], "value of the step that is not missing" + what);
                    continue;
                }
            }
            CHECK(d->size() == (size_t)nx, "size" + what);
            CHECK(!change || d->getDataType() == ty, "type " + S((int)d->getDataType()) + what);
            auto got = d->asDouble();
            auto gotc = p->getDataSlice("c", 0)->asDouble();
            auto scaled = p->getScaledDataSlice("a", i)->asDouble();
            for (int x = 0; x < nx; x++) {
                CHECK(gotc[x] == c[x], "variable without time");
                double w;
                auto V = [&](int t) { return a[t * nx + x] == fill ? NAN : a[t * nx + x]; };
                if (!change) {
                    CHECK(got[x] == a[i * nx + x], "unchanged time axis: value is " + S(got[x]) + what);
                    continue;
                }
                const long s = ns[i];
                const int at = std::find(sec.begin(), sec.end(), s) - sec.begin();
                if (at < nt)
                    w = V(at);
                else if (nt == 1)
                    continue;
                else {
                    int k = 0;
                    while (k < nt - 2 && sec[k + 1] < s) k++;
                    const double f = (double)(s - sec[k]) / (sec[k + 1] - sec[k]);
                    if (std::fabs(f - 2) < 1e-6 || std::fabs(f + 1) < 1e-6)
                        continue;
                    w = f > 2 || f < -1 ? NAN : V(k) + f * (V(k + 1) - V(k));
                }
                const double g = got[x] == fill ? NAN : got[x];
                const double tol = ty == CDM_SHORT || ty == CDM_INT ? .501 : 1e-2;
                CHECK(close_(g, w, 0, tol), "value of cell " + S(x) + " is " + S(got[x]) + " instead of " + S(w) + what);
                CHECK(close_(scaled[x], packed ? w * .5 + 3 : w, 0, tol), "unpacked value of cell " + S(x) + " is " + S(scaled[x]) + what);
            }
        }
        for (int t = 0; t < nt; t++) {
            auto src = r->getDataSlice("a", t)->asDouble();
            auto st = r->getScaledDataSlice("t", t)->asDouble();
            CHECK(close_(st[0], tv[t], 1e-12), "time axis of the source changed");
            for (int x = 0; x < nx && !gone.count(t); x++) CHECK(src[x] == a[t * nx + x], "data of the source changed");
        }
    }
    return done();
}
