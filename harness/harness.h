// Helpers for bounded stand-ins: programs against the public interface of libfimex.
#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H
#include "fimex/CDM.h"
#include "fimex/CDMException.h"
#include "fimex/CDMReader.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMVariable.h"
#include "fimex/CDMAttribute.h"
#include "fimex/Data.h"
#include "fimex/Logger.h"
#include "fimex/SliceBuilder.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
using namespace MetNoFimex;

static std::mt19937_64 RNG;
static long RUNS = 0;
static std::set<std::string> DISTINCT;
static std::string CASE;
static int rnd(int lo, int hi) { return lo + (int)(RNG() % (unsigned long)(hi - lo + 1)); }
static double frnd(double lo, double hi) { return lo + (hi - lo) * (RNG() % 1000003) / 1000002.0; }
[[noreturn]] static void fail(const std::string& what)
{
    printf("FAIL %s\n  case: %s\n", what.c_str(), CASE.c_str());
    fflush(stdout);
    _exit(1);
}
template <class T> std::string S(const T& t) { std::ostringstream o; o.precision(12); o << t; return o.str(); }
template <class T> std::string S(const std::vector<T>& t) { std::string r = "["; for (const auto& x : t) r += S(x) + " "; return r + "]"; }
#define CHECK(c, msg) do { if (!(c)) fail(std::string(#c) + " : " + (msg)); } while (0)
static const unsigned PATIENCE = 150; // seconds for one case, which usually takes milliseconds
static void hangs(int) { fail("does not end"); }
static void begin(const std::string& c) { CASE = c; RUNS++; DISTINCT.insert(c); alarm(PATIENCE); }
static int done() { printf("RUNS %ld %zu\n", RUNS, DISTINCT.size()); return 0; }
static bool close_(double a, double b, double rel = 1e-6, double abs = 1e-9) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

// a reader serving data from memory, slice by slice along the unlimited dimension
struct MemReader : public CDMReader
{
    std::map<std::string, std::vector<double>> values; // unpacked order, last dimension slowest
    std::map<std::string, std::set<size_t>> empty;     // slices that are not available
    void dim(const std::string& n, long len, bool unlim = false) { CDMDimension d(n, len); d.setUnlimited(unlim); getInternalCDM().addDimension(d); }
    void var(const std::string& n, CDMDataType t, const std::vector<std::string>& shape, const std::vector<double>& v)
    {
        getInternalCDM().addVariable(CDMVariable(n, t, shape));
        values[n] = v;
    }
    template <class T> void att(const std::string& v, const std::string& n, T x) { getInternalCDM().addAttribute(v, CDMAttribute(n, x)); }
    size_t count(const std::string& n)
    {
        size_t c = 1;
        for (const std::string& d : getCDM().getVariable(n).getShape())
            c *= getCDM().getDimension(d).getLength();
        return c;
    }
    // keep the values of a variable in the data model itself
    void inMemory(const std::string& n)
    {
        CDMVariable& v = getInternalCDM().getVariable(n);
        const std::vector<double>& x = values.at(n);
        DataPtr d = createData(v.getDataType(), x.size());
        for (size_t i = 0; i < x.size(); i++)
            d->setValue(i, x[i]);
        v.setData(d);
    }
    DataPtr getDataSlice(const std::string& n, size_t pos) override
    {
        const CDMVariable& v = getCDM().getVariable(n);
        if (v.hasData())
            return getDataSliceFromMemory(v, pos);
        const std::vector<double>& x = values.at(n);
        size_t a = 0, len = x.size();
        if (getCDM().hasUnlimitedDim(v)) {
            len = 1;
            for (const std::string& d : v.getShape())
                if (!getCDM().getDimension(d).isUnlimited())
                    len *= getCDM().getDimension(d).getLength();
            a = pos * len;
            if (empty[n].count(pos))
                return createData(v.getDataType(), 0);
        }
        DataPtr d = createData(v.getDataType(), len);
        for (size_t i = 0; i < len; i++)
            d->setValue(i, x.at(a + i));
        return d;
    }
    using CDMReader::getDataSlice;
};
static std::vector<double> all(DataPtr d)
{
    std::vector<double> r(d->size());
    auto p = d->asDouble();
    for (size_t i = 0; i < r.size(); i++)
        r[i] = p[i];
    return r;
}
#define MAIN int main(int argc, char** argv)
static void uncaught()
{
    std::string w = "unknown";
    try { throw; } catch (std::exception& e) { w = e.what(); } catch (...) {}
    fail("unexpected exception: " + w);
}
#define INIT signal(SIGALRM, hangs); alarm(PATIENCE); std::set_terminate(uncaught); defaultLogLevel(Logger::OFF); RNG.seed(atol(argv[1])); long N = atol(argv[2]); std::string SCRATCH = argc > 3 ? argv[3] : ".";
#endif
