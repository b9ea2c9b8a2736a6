// calendar times, time units and lists of times
#include "harness.h"
#include "fimex/FimexTime.h"
#include "fimex/SpatialAxisSpec.h"
#undef TIMESPEC_H_
#include "fimex/TimeSpec.h"
#include "fimex/TimeUnit.h"
#include "fimex/TimeUtils.h"
#include "fimex/TokenizeDotted.h"
static long daysOf(int y, int m, int d) // days since 1970-01-01, counted month by month
{
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    long n = 0;
    for (int k = 1970; k < y; k++) n += leap(k) ? 366 : 365;
    for (int k = y; k < 1970; k++) n -= leap(k) ? 366 : 365;
    for (int k = 1; k < m; k++) n += len[k - 1] + (k == 2 && leap(y));
    return n + d - 1;
}
struct T { int y, mo, d, h, mi, s, ms; long long epoch_ms() const { return ((daysOf(y, mo, d) * 24 + h) * 60 + mi) * 60000LL + s * 1000 + ms; } };
static T rndtime(int lo = 1600, int hi = 2400)
{
    T t;
    t.y = rnd(0, 3) ? rnd(1970, 2040) : rnd(lo, hi);
    t.mo = rnd(1, 12);
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    t.d = rnd(0, 3) ? rnd(1, len[t.mo - 1]) : (rnd(0, 1) ? 1 : len[t.mo - 1]);
    if (t.mo == 2 && ((t.y % 4 == 0 && t.y % 100 != 0) || t.y % 400 == 0) && rnd(0, 3) == 0) t.d = 29;
    t.h = rnd(0, 2) ? rnd(0, 23) : 0;
    t.mi = rnd(0, 2) ? rnd(0, 59) : rnd(0, 1) * 59;
    t.s = rnd(0, 2) ? rnd(0, 59) : rnd(0, 1) * 59;
    t.ms = rnd(0, 2) ? 0 : rnd(0, 1) ? rnd(0, 999) : 999;
    return t;
}
static T ofSeconds(long long ms)
{
    T t;
    long long d = ms / 86400000, r = ms % 86400000;
    if (r < 0) { r += 86400000; d--; }
    t.y = 1970 + d / 366 - (d < 0);
    while (daysOf(t.y + 1, 1, 1) <= d) t.y++;
    while (daysOf(t.y, 1, 1) > d) t.y--;
    t.mo = 1;
    while (t.mo < 12 && daysOf(t.y, t.mo + 1, 1) <= d) t.mo++;
    t.d = d - daysOf(t.y, t.mo, 1) + 1;
    t.h = r / 3600000; t.mi = r / 60000 % 60; t.s = r / 1000 % 60; t.ms = r % 1000;
    return t;
}
static std::string str(const T& t, const char* sep = "T", bool ms = true)
{
    char b[64];
    int n = snprintf(b, sizeof b, "%d-%02d-%02d%s%02d:%02d:%02d", t.y, t.mo, t.d, sep, t.h, t.mi, t.s);
    if (ms && t.ms) snprintf(b + n, sizeof b - n, ".%03d", t.ms);
    return b;
}
static bool same(const FimexTime& f, const T& t) { return f.getYear() == t.y && f.getMonth() == t.mo && f.getMDay() == t.d && f.getHour() == t.h && f.getMinute() == t.mi && f.getSecond() == t.s && f.getMSecond() == t.ms; }
static FimexTime F(const T& t) { return FimexTime(t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms); }

static std::string ST(const char* c) { return c; }
MAIN
{
    INIT
    const char* units[] = {"seconds", "minutes", "hours", "days", "milliseconds"};
    const double secs[] = {1, 60, 3600, 86400, 0.001};
    for (long run = 0; run < N; run++) {
        const T t = rndtime(), u = rnd(0, 1) ? rndtime() : [&] { T x = t; x.ms = rnd(0, 999); x.s = rnd(0, 59); return x; }();
        begin("calendar " + str(t) + " other " + str(u));
        const FimexTime f = F(t);
        CHECK((f < F(u)) == (t.epoch_ms() < u.epoch_ms()), "order of times");
        CHECK((f == F(u)) == (t.epoch_ms() == u.epoch_ms()), "equality of times");
        CHECK(same(FimexTime::fromEncoded(f.toEncoded()), t), "encoded time");
        const long long es = (t.epoch_ms() - t.ms) / 1000;
        CHECK((long long)fimexTime2epochTime(f) == es, "epoch seconds " + S(fimexTime2epochTime(f)) + " instead of " + S(es));
        const T tsec = ofSeconds(es * 1000);
        CHECK(same(fromTimePoint(asTimePoint(f)), tsec), "time from time point");
        CHECK(make_time_string_extended(asTimePoint(f)) == str(t, "T", false), "time string " + make_time_string_extended(asTimePoint(f)));
        CHECK(same(fromTimePoint(make_time_from_timet(es)), tsec), "time from seconds");
        FimexTime g;
        CHECK(g.parseISO8601(str(t, rnd(0, 1) ? "T" : " ")) && same(g, t), "parsed time " + S(g));
        if (t.ms) { // the fraction of a second with fewer or more digits
            std::string f1 = str(t), f2 = f1 + std::string(rnd(1, 3), '0');
            while (f1.back() == '0') f1.pop_back();
            CHECK(g.parseISO8601(f1) && same(g, t), "parsed time " + f1 + " is " + S(g));
            CHECK(g.parseISO8601(f2) && same(g, t), "parsed time " + f2 + " is " + S(g));
        }
        {
            T day = t;
            day.h = day.mi = day.s = day.ms = 0;
            const std::string date = str(t, "T", false).substr(0, str(t, "T", false).find('T'));
            CHECK(g.parseISO8601(rnd(0, 1) ? date : " " + date + " ") && same(g, day), "parsed date " + date + " is " + S(g));
            for (const char* bad : {"2000-01", "2000", "", "2000-01-01T10:00 12", "10:00:00"}) CHECK(throws([&] { if (!FimexTime().parseISO8601(bad)) throw CDMException("no"); }), ST(bad) + " is a time");
            T minute = t;
            minute.s = minute.ms = 0;
            std::string hm = str(t, "T", false);
            hm = hm.substr(0, hm.rfind(':'));
            CHECK(g.parseISO8601(hm) && same(g, minute), "parsed time " + hm + " is " + S(g));
        }
        CHECK(S(f) == str(t), "written time " + S(f));
        CHECK(same(string2FimexTime(S(f)), t), "written and read time");

        // unit times
        const int k = rnd(0, 4);
        T base = rndtime(1800, 2100);
        base.ms = 0;
        const int tz = rnd(0, 3) == 0 ? rnd(-11, 11) : 0;
        char tzs[16];
        snprintf(tzs, sizeof tzs, " %+03d:00", tz);
        const std::string unit = std::string(units[k]) + " since " + str(base, " ") + (tz ? tzs : "");
        begin("unit " + unit + " time " + str(t));
        const TimeUnit tu(unit);
        const double since = (double)(t.epoch_ms() - (base.epoch_ms() - tz * 3600000LL)) / 1000, ut = since / secs[k];
        CHECK(same(tu.unitTime2fimexTime(ut), t), "unit time " + S(ut) + " is " + S(tu.unitTime2fimexTime(ut)));
        CHECK(std::fabs(tu.fimexTime2unitTime(f) - ut) * secs[k] < 2e-5, "unit time of the calendar time " + S(tu.fimexTime2unitTime(f)) + " instead of " + S(ut));
        CHECK(same(tu.unitTime2fimexTime(tu.fimexTime2unitTime(f)), t), "there and back " + S(tu.unitTime2fimexTime(tu.fimexTime2unitTime(f))));
        CHECK(std::fabs(tu.unitTime2epochSeconds(ut) - t.epoch_ms() / 1000.) < 2e-5, "epoch seconds of unit time " + S(tu.unitTime2epochSeconds(ut)));
        CHECK(std::fabs(tu.epochSeconds2unitTime(t.epoch_ms() / 1000.) - ut) * secs[k] < 2e-5, "unit time of epoch seconds");
        CHECK(std::isnan(tu.fimexTime2unitTime(FimexTime(2000, 13, 1))), "invalid time");
        CHECK(tu.fimexTime2unitTime(FimexTime(FimexTime::min_date_time)) < -1e300 && tu.fimexTime2unitTime(FimexTime(FimexTime::max_date_time)) > 1e300, "special times");

        // lists of numbers
        {
            const int a = rnd(-50, 50), n = rnd(1, 12), nadd = rnd(0, 2);
            int st = rnd(1, 9) * (rnd(0, 1) ? 1 : -1);
            const double q = rnd(0, 1) ? 1 : .1;
            std::vector<double> want{a * q, (a + st) * q};
            for (int i = 2; i < n + 2; i++) want.push_back((a + i * st) * q);
            std::string sp = S(a * q) + "," + S((a + st) * q) + ",...," + S(want.back());
            if (rnd(0, 3) == 0) {
                // end between two steps
                const double e = want.back() + .5 * st * q;
                sp = S(a * q) + "," + S((a + st) * q) + ",...," + S(e);
                want.push_back(e);
            }
            for (int i = 0; i < nadd; i++) { want.push_back(rnd(-90, 90)); sp += "," + S(want.back()); }
            begin("list " + sp);
            const std::vector<double> got = tokenizeDotted<double>(sp);
            CHECK(got.size() == want.size(), "list has " + S(got.size()) + " values instead of " + S(want.size()));
            for (size_t i = 0; i < got.size(); i++) CHECK(close_(got[i], want[i], 1e-9, 1e-9), "value " + S(i) + " is " + S(got[i]) + " instead of " + S(want[i]));
            SpatialAxisSpec sas(sp);
            const std::vector<double> ax = sas.getAxisSteps();
            CHECK(ax == got, "axis specification");
            CHECK(throws([] { tokenizeDotted<double>("1,...,4"); }) && throws([] { tokenizeDotted<double>("1,2,..."); }), "incomplete list accepted");
            CHECK((tokenizeDotted<double>("5,5,...,0").size() == 3), "list without step");
        }
        // numbers relative to the first and last value: steps are multiples of the distance, also of values between them
        {
            const double d = rnd(1, 20) * (rnd(0, 1) ? 1 : .5);
            const long i0 = rnd(-20, 20), n = rnd(4, 9), k = rnd(0, 1) ? 0 : rnd(-2, 2);
            const double start = (i0 + (i0 > 0 ? rnd(0, 9) * .1 : 0)) * d, end = (i0 + n + (i0 + n > 0 ? rnd(0, 9) * .1 : 0)) * d;
            std::vector<double> want;
            for (long i = i0 + k; i <= i0 + n; i++) want.push_back(i * d);
            std::string sp = S(k * d) + "," + S((k + 1) * d) + ",...,x";
            for (int i = rnd(0, 2); i > 0; i--) {
                const double e = rnd(0, 40) * .5;
                if (rnd(0, 1)) { sp += ",x+" + S(e); want.push_back((i0 + n) * d + e); } else { sp += ",x-" + S(e); want.push_back((i0 + n) * d - e); }
            }
            begin("relative numbers " + sp + " first " + S(start) + " last " + S(end));
            const bool before = rnd(0, 1);
            const std::string full = before ? "relativeStart=0;" + sp : sp + ";relativeStart=0";
            SpatialAxisSpec later(full), now(full, start, end);
            CHECK(later.requireStartEnd() && !now.requireStartEnd() && !SpatialAxisSpec("1,2").requireStartEnd(), "first and last value needed");
            CHECK(throws([&] { later.getAxisSteps(); }), "without first and last value");
            later.setStartEnd(start, end);
            for (const std::vector<double>& got : {later.getAxisSteps(), now.getAxisSteps()}) {
                CHECK(got.size() == want.size(), "list has " + S(got.size()) + " values instead of " + S(want.size()) + S(got));
                for (size_t i = 0; i < got.size(); i++) CHECK(close_(got[i], want[i], 1e-5, 1e-5), "value " + S(i) + " is " + S(got[i]) + " instead of " + S(want[i]));
            }
            for (const char* bad : {"1,2;unit=km", "1,2;foo=3", "1,2;3,4", "1;relativeStart=0", "1,2;a=b=c"}) CHECK(throws([&] { SpatialAxisSpec(bad, start, end).getAxisSteps(); }), ST(bad) + " accepted");
        }
        // lists of times
        {
            T a = rndtime(1950, 2100);
            a.ms = 0;
            const long step = rnd(0, 1) ? 3600L * rnd(1, 24) : 60L * rnd(1, 200);
            const int n = rnd(2, 12);
            const std::string un = rnd(0, 1) ? "" : ";unit=hours since " + str(rndtime(1950, 2000), " ", false);
            auto at = [&](long i) { return ofSeconds(a.epoch_ms() + i * step * 1000); };
            const std::string sp = str(a, " ") + "," + str(at(1), " ") + ",...," + str(at(n), " ") + un;
            begin("times " + sp);
            const TimeSpec ts(sp, FimexTime(), FimexTime());
            CHECK(ts.getTimeSteps().size() == (size_t)n + 1, S(ts.getTimeSteps().size()) + " times");
            for (int i = 0; i <= n; i++) CHECK(same(ts.getTimeSteps()[i], at(i)), "time " + S(i) + " is " + S(ts.getTimeSteps()[i]));
            if (!un.empty()) CHECK(ts.getUnitString() == un.substr(6), "unit " + ts.getUnitString());

            // relative to the first and last time, steps of whole hours since the time in the unit
            T b = rndtime();
            b.y = rnd(1900, 1965);
            b.d = rnd(1, 28);
            b.ms = 0;
            const int dh = rnd(1, 12), n2 = rnd(1, 8), more = rnd(0, 40);
            const double dec = rnd(0, 2) ? 0 : .5;
            T r0 = rndtime(1970, 2100);
            long long fromBase = (r0.epoch_ms() - r0.ms - b.epoch_ms()) / 1000;
            const bool secUnit = rnd(0, 1);
            const long U = secUnit ? 1 : 3600;             // seconds per unit
            const long D = (secUnit ? 3600L : 1) * dh;      // step in units
            const T start = ofSeconds(b.epoch_ms() + fromBase * 1000), end = ofSeconds(b.epoch_ms() + fromBase * 1000 + (n2 * D * U + rnd(0, D * U - 1)) * 1000LL);
            const long long first = fromBase / U / D * D, last = (end.epoch_ms() - b.epoch_ms()) / 1000 / U / D * D;
            std::string sp2 = "0," + S(D) + ",...,x";
            std::vector<double> want;
            for (long long x = first; x <= last; x += D) want.push_back(x);
            if (want.size() < 3) continue;
            if (more) {
                const int sg = rnd(0, 1) ? 1 : -1;
                sp2 += std::string(",x") + (sg > 0 ? "+" : "-") + S(more + dec);
                want.push_back(last + sg * (more + dec));
            }
            sp2 += std::string(";relativeUnit=") + (secUnit ? "seconds" : "hours") + " since " + str(b, " ");
            begin("relative times " + sp2 + " first " + str(start) + " last " + str(end));
            const TimeSpec tr(sp2, F(start), F(end));
            CHECK(tr.getTimeSteps().size() == want.size(), S(tr.getTimeSteps().size()) + " times instead of " + S(want.size()));
            for (size_t i = 0; i < want.size(); i++) {
                const T w = ofSeconds(b.epoch_ms() + (long long)std::llround(want[i] * U * 1000));
                CHECK(same(tr.getTimeSteps()[i], w), "time " + S(i) + " is " + S(tr.getTimeSteps()[i]) + " instead of " + str(w));
            }
        }
    }
    return done();
}
