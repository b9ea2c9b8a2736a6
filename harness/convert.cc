// conversion between all pairs of numeric data types, with and without unit conversion
#include "harness.h"
#include "fimex/Units.h"
#include "fimex/UnitsConverter.h"
static const CDMDataType T[] = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_INT64, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_UINT64, CDM_FLOAT, CDM_DOUBLE};
static const double LO[] = {-128, -32768, -2147483648., -9e15, 0, 0, 0, 0, -1e30, -1e300};
static const double HI[] = {127, 32767, 2147483647., 9e15, 255, 65535, 4294967295., 9e15, 1e30, 1e300};
static bool isf(int k) { return k >= 8; }
struct Sq : public UnitsConverter
{
    double convert(double x) override { return 0.5 * x * x; }
    float convert(float x) override { return 0.5f * x * x; }
    bool isLinear() override { return false; }
    void getScaleOffset(double&, double&) override { throw CDMException("not linear"); }
};
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        int a = rnd(0, 9), b = rnd(0, 9);
        size_t n = rnd(0, 5);
        std::vector<double> vals;
        double of = rnd(0, 3) ? rnd(0, 100) : NAN, nf = rnd(0, 100);
        if (isf(b) && rnd(0, 3) == 0)
            nf = NAN;
        double os = 1, oo = 0, ns = 1, no = 0;
        int mode = rnd(0, 3);
        if (mode >= 1) {
            os = rnd(0, 1) ? 0.25 : 2;
            oo = rnd(-5, 5);
            ns = rnd(0, 1) ? 0.5 : 4;
            no = rnd(-5, 5);
        } else if (rnd(0, 1))
            nf = std::isnan(of) && !isf(b) ? nf : of;
        bool unit = mode == 3;
        DataPtr d = createData(T[a], n);
        for (size_t i = 0; i < n; i++) {
            double x = rnd(0, 4) == 0 && !std::isnan(of) ? of : rnd(0, 120);
            if (rnd(0, 3) == 0)
                x = rnd(0, 1) ? LO[a] / 2 : HI[a] / 2;
            if (fabs(x) > 1e16)
                x = rnd(0, 1) ? 5e9 : -3e7;
            if (!isf(a))
                x = std::floor(x);
            if (isf(a) && rnd(0, 5) == 0)
                x = NAN;
            else if (isf(a) && rnd(0, 2) == 0)
                x += 0.25;
            d->setValue(i, x);
            if (isf(a) || fabs(x) < 2e9) {
                double y = a == 8 ? (double)(float)x : x;
                CHECK(close_(d->getDouble(i), y, 0, 0), "stored value " + S(x) + " got " + S(d->getDouble(i)) + " type " + S(a));
            }
        }
        std::vector<double> v = all(d);
        begin("from " + S(a) + " to " + S(b) + " fill " + S(of) + "->" + S(nf) + " scale " + S(os) + "," + S(oo) + "->" + S(ns) + "," + S(no) + " unit " + S(unit) + " data " + S(v));
        DataPtr r = unit ? d->convertDataType(of, os, oo, UnitsConverter_p(new Sq()), T[b], nf, ns, no) : d->convertDataType(of, os, oo, T[b], nf, ns, no);
        CHECK(r->getDataType() == T[b] && r->size() == n, "type and size");
        std::vector<double> w = all(r);
        for (size_t i = 0; i < n; i++) {
            if (std::isnan(v[i]) || v[i] == of) {
                CHECK(close_(w[i], nf) || (isf(b) && std::isnan(w[i])), "undefined value " + S(i) + " got " + S(w[i]));
                continue;
            }
            double x = v[i] * os + oo;
            if (unit)
                x = 0.5 * x * x;
            x = (x - no) / ns;
            if (isf(b)) {
                CHECK(close_(w[i], x, b == 8 ? 2e-7 : 1e-12, b == 8 ? 1e-5 : 1e-9), "value " + S(i) + " got " + S(w[i]) + " want " + S(x));
            } else if (x > LO[b] - 0.3 && x < HI[b] + 0.3) {
                CHECK(fabs(w[i] - x) <= 0.5 + 1e-9 * fabs(x) + (fabs(x) > 1e15), "value " + S(i) + " got " + S(w[i]) + " want " + S(x));
            }
        }
    }
    return done();
}
