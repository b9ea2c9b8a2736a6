// writing into an existing file: exactly the addressed cells change, to the values given
#include "dataset.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/FillWriter.h"
#include <fstream>
#include <unistd.h>
struct FV { CDMDataType type; VS shape; std::vector<double> val; double fill, scale, off; bool hasfill; std::string unit; };
struct World { std::map<std::string, size_t> dims; std::map<std::string, FV> v; };
static const double NOFILL = 9.9692099683868690e+36;
static size_t offset(const World& w, const FV& v, const std::map<std::string, size_t>& pos)
{
    size_t o = 0, f = 1;
    for (const auto& d : v.shape) { o += pos.at(d) * f; f *= w.dims.at(d); }
    return o;
}
static size_t count(const World& w, const FV& v) { size_t n = 1; for (auto& d : v.shape) n *= w.dims.at(d); return n; }
// all positions of the dimensions
static std::vector<std::map<std::string, size_t>> positions(const World& w, const FV& v)
{
    std::vector<std::map<std::string, size_t>> r(1);
    for (const auto& d : v.shape) {
        std::vector<std::map<std::string, size_t>> q;
        for (size_t i = 0; i < w.dims.at(d); i++) for (auto p : r) { p[d] = i; q.push_back(p); }
        r = q;
    }
    return r;
}
static double deffill(CDMDataType t) { return t == CDM_SHORT ? -32767. : t == CDM_INT ? -2147483647. : NOFILL; }
static FV mkv(const World& w, CDMDataType t, const VS& shape, bool packed)
{
    FV v;
    v.type = t; v.shape = shape;
    v.hasfill = rnd(0, 1); v.fill = v.hasfill ? -99 : deffill(t);
    v.scale = packed ? .5 : 1; v.off = packed ? 3 : 0;
    const size_t n = count(w, v);
    for (size_t i = 0; i < n; i++) v.val.push_back(rnd(0, 7) == 0 ? v.fill : rnd(-90, 90));
    return v;
}
static void put(MemReader& r, const std::string& n, const FV& v)
{
    r.var(n, v.type, v.shape, v.val);
    if (v.hasfill) r.getInternalCDM().addAttribute(n, CDMAttribute("_FillValue", createData(v.type, 1, v.fill)));
    if (v.scale != 1) r.att(n, "scale_factor", v.scale);
    if (v.off != 0) r.att(n, "add_offset", v.off);
    if (!v.unit.empty()) r.att(n, "units", v.unit);
}
static void check(const std::string& file, const World& w, const std::string& how)
{
    auto r = CDMFileReaderFactory::create("netcdf", file);
    for (const auto& v : w.v) {
        const std::vector<double> g = all(r->getData(v.first));
        CHECK(g.size() == v.second.val.size(), how + ": size of " + v.first + " is " + S(g.size()) + " not " + S(v.second.val.size()));
        for (size_t i = 0; i < g.size(); i++) CHECK(close_(g[i], v.second.val[i], 1e-6), how + ": value " + S(i) + " of " + v.first + " is " + S(g[i]) + " not " + S(v.second.val[i]) + " in " + S(g) + " expected " + S(v.second.val));
    }
    for (const auto& d : w.dims) CHECK(r->getCDM().getDimension(d.first).getLength() == d.second, how + ": length of " + d.first);
}
// the unlimited dimension gets longer
static void extend(World& w, size_t len)
{
    const size_t old = w.dims["t"];
    if (len <= old) return;
    for (auto& v : w.v)
        if (std::count(v.second.shape.begin(), v.second.shape.end(), "t")) v.second.val.resize(v.second.val.size() / old * len, v.second.fill);
    w.dims["t"] = len;
}
static std::vector<double> axis(size_t n, double a, double s) { std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(a + s * i); return v; }
MAIN
{
    INIT
    const std::string file = SCRATCH + "/fill.nc", cfg = SCRATCH + "/fill.xml";
    for (long run = 0; run < N; run++) {
        World w;
        auto r = std::make_shared<MemReader>();
        w.dims["x"] = rnd(1, 4); w.dims["k"] = rnd(1, 3); w.dims["e"] = rnd(1, 3); w.dims["t"] = rnd(1, 3); w.dims["n"] = rnd(1, 2);
        for (const auto& d : w.dims) r->dim(d.first, d.second, d.first == "t");
        const CDMDataType ty[] = {CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT};
        std::map<std::string, VS> shapes;
        for (const char* n : {"a", "b", "c"}) { for (const char* d : {"x", "k", "n", "t"}) if (rnd(0, 2)) shapes[n].push_back(d); }
        for (const char* d : {"x", "e", "t"}) if (rnd(0, 3)) shapes["en"].push_back(d);
        for (const char* n : {"a", "b", "c", "en", "s"}) shapes[n];
        for (const auto& s : shapes) { w.v[s.first] = mkv(w, ty[rnd(0, 3)], s.second, rnd(0, 2) == 0); if (rnd(0, 1)) w.v[s.first].unit = "m"; }
        auto coord = [&](const std::string& d, const std::vector<double>& v) { FV c; c.type = CDM_DOUBLE; c.shape = {d}; c.val = v; c.fill = NOFILL; c.scale = 1; c.off = 0; c.hasfill = false; return c; };
        const std::string tunit = "hours since 2000-01-01 00:00:00";
        w.v["x"] = coord("x", axis(w.dims["x"], 10, rnd(0, 1) ? 5 : -5));
        w.v["k"] = coord("k", axis(w.dims["k"], 1, 1));
        w.v["t"] = coord("t", axis(w.dims["t"], 0, 6));
        std::string desc = "dims";
        for (const auto& d : w.dims) desc += " " + d.first + S(d.second);
        for (const auto& v : w.v) { put(*r, v.first, v.second); desc += " " + v.first + ":" + datatype2string(v.second.type) + S(v.second.shape) + S(v.second.fill); }
        const char* fts[] = {"netcdf3", "netcdf4classic", "netcdf4"};
        const std::string ft = fts[rnd(0, 2)];
        unlink(file.c_str());
        for (auto it = w.dims.begin(); it != w.dims.end();) { bool u = false; for (const auto& v : w.v) u |= std::count(v.second.shape.begin(), v.second.shape.end(), it->first) > 0; if (u) ++it; else it = w.dims.erase(it); }
        if (rnd(0, 2) == 0) {
            // single writes
            ::begin("writes " + ft + " " + desc);
            CDMFileReaderFactory::createWriter(r, ft, file, std::string());
            {
                auto rw = CDMFileReaderFactory::createReaderWriter("netcdf", file, std::string());
                const VS names = {"a", "b", "c", "en", "s"};
                for (int k = rnd(1, 6); k > 0; k--) {
                    const std::string n = names[rnd(0, 4)];
                    FV& v = w.v[n];
                    const bool unl = std::count(v.shape.begin(), v.shape.end(), "t");
                    const int how = rnd(0, 5);
                    const bool slice = how < 3, scaled = how % 3 == 1, unit = how % 3 == 2 && v.unit == "m";
                    std::map<std::string, std::pair<size_t, size_t>> part;
                    size_t step = unl ? rnd(0, w.dims["t"] + 1) : 0;
                    if (rnd(0, 2)) step = std::min(step, unl ? w.dims["t"] - 1 : 0);
                    SliceBuilder sb(rw->getCDM(), n, true);
                    for (const auto& d : v.shape) {
                        const size_t L = w.dims[d];
                        part[d] = {0, L};
                        if (d == "t") part[d] = {step, 1};
                        else if (!slice) { const size_t a = rnd(0, L - 1); part[d] = {a, rnd(1, L - a)}; }
                        if (!slice) sb.setStartAndSize(d, part[d].first, part[d].second);
                    }
                    if (unl) extend(w, step + 1);
                    size_t len = 1;
                    for (const auto& p : part) len *= p.second.second;
                    // values in the order of the part; in the other unit (km) if asked for
                    DataPtr d = createData(scaled || unit ? CDM_DOUBLE : ty[rnd(0, 3)], len);
                    CASE += "\n write " + n + " step " + S(step) + (slice ? " slice" : " part") + (scaled ? " scaled" : unit ? " in km" : "");
                    for (const auto& p : part) CASE += " " + p.first + S(p.second.first) + "+" + S(p.second.second);
                    for (size_t i = 0; i < len; i++) {
                        size_t q = i;
                        std::map<std::string, size_t> pos;
                        for (const auto& dn : v.shape) { pos[dn] = part[dn].first + q % part[dn].second; q /= part[dn].second; }
                        double raw = rnd(-80, 80);
                        if ((scaled || unit) && rnd(0, 4) == 0) { raw = v.fill; d->setValue(i, NAN); }
                        else d->setValue(i, !scaled && !unit ? raw : (raw * v.scale + v.off) * (unit ? .001 : 1));
                        v.val[offset(w, v, pos)] = raw;
                    }
                    if (slice) { if (scaled) rw->putScaledDataSlice(n, step, d); else if (unit) rw->putScaledDataSliceInUnit(n, "km", step, d); else rw->putDataSlice(n, step, d); }
                    else { if (scaled) rw->putScaledDataSlice(n, sb, d); else if (unit) rw->putScaledDataSliceInUnit(n, "km", sb, d); else rw->putDataSlice(n, sb, d); }
                    if (rnd(0, 2) == 0) { rw->sync(); check(file, w, "after sync"); }
                    // seen by the writer itself
                    const std::vector<double> g = all(rw->getDataSlice(n, step));
                    const size_t sl = unl ? v.val.size() / w.dims["t"] : v.val.size();
                    CHECK(g.size() == sl, "size read by the writer");
                    for (size_t i = 0; i < sl; i++) CHECK(close_(g[i], v.val[(unl ? step * sl : 0) + i], 1e-6), "value read by the writer");
                }
            }
            check(file, w, "after writing");
            continue;
        }
        // a reader with some of the positions
        auto in = std::make_shared<MemReader>();
        World wi;
        std::map<std::string, std::vector<long>> to; // input position to output position, -1: nowhere
        bool bad = false;
        const bool translate = rnd(0, 2) == 0 && w.dims.count("e");
        const size_t eslice = translate ? rnd(0, w.dims["e"] - 1) : 0;
        const bool mdim = translate && rnd(0, 1);
        auto choose = [&](const std::string& d) {
            std::vector<long> p;
            for (size_t i = 0; i < w.dims[d]; i++) if (rnd(0, 3)) p.push_back(i);
            if (p.empty()) p.push_back(rnd(0, w.dims[d] - 1));
            if (rnd(0, 2) == 0) std::shuffle(p.begin(), p.end(), RNG);
            if (rnd(0, 2) == 0) { p.clear(); for (size_t i = 0; i < w.dims[d]; i++) p.push_back(i); }
            return p;
        };
        for (const char* d : {"x", "k", "t"}) {
            if (!w.dims.count(d)) continue;
            to[d] = choose(d);
            FV c = coord(d, {});
            for (long p : to[d]) c.val.push_back(w.v[d].val[p]);
            if (d == std::string("t")) for (int q = rnd(-2, 2), i = 0; i < q; i++) { to[d].push_back(w.dims["t"] + i); c.val.push_back(100 + i); }
            else if (rnd(0, 9) == 0) { to[d].push_back(-1); c.val.push_back(-1000); bad = true; }
            if (d == std::string("t") && rnd(0, 5) == 0) {
                // no coordinate: appended
                wi.dims[d] = rnd(1, 3);
                to[d].clear();
                for (size_t i = 0; i < wi.dims[d]; i++) to[d].push_back(w.dims[d] + i);
                continue;
            }
            wi.dims[d] = c.val.size();
            wi.v[d] = c;
        }
        if (w.dims.count("n")) { wi.dims["n"] = w.dims["n"]; for (size_t i = 0; i < w.dims["n"]; i++) to["n"].push_back(i); }
        if (w.dims.count("e")) { wi.dims["e"] = w.dims["e"]; for (size_t i = 0; i < w.dims["e"]; i++) to["e"].push_back(i); }
        size_t mslice = 0;
        if (mdim) { wi.dims["m"] = rnd(1, 3); mslice = rnd(0, wi.dims["m"] - 1); }
        const bool itunl = rnd(0, 1);
        for (const auto& d : wi.dims) if (!(translate && d.first == "e")) in->dim(d.first, d.second, itunl && d.first == "t");
        for (const char* n : {"a", "b", "c", "en", "s"}) {
            if (rnd(0, 4) == 0) continue;
            const FV& o = w.v[n];
            FV v = o;
            if (n == std::string("en") && translate) { std::replace(v.shape.begin(), v.shape.end(), std::string("e"), std::string("m")); if (!mdim) v.shape.erase(std::remove(v.shape.begin(), v.shape.end(), "m"), v.shape.end()); }
            v.val.clear();
            for (size_t i = count(wi, v); i > 0; i--) v.val.push_back(rnd(0, 7) == 0 ? v.fill : rnd(100, 200));
            wi.v[n] = v;
        }
        // other shape: left alone
        std::set<std::string> skip;
        if (wi.v.count("c") && rnd(0, 5) == 0 && w.dims.count("x")) {
            FV& c = wi.v["c"];
            if (c.shape.empty()) c.shape = {"x"}; else c.shape.erase(c.shape.begin());
            c.val.assign(count(wi, c), 55);
            skip.insert("c");
        }
        FV extra = coord("x", axis(wi.dims["x"], 1, 1));
        if (wi.dims.count("x") && rnd(0, 1)) { wi.v["unknown"] = extra; skip.insert("unknown"); }
        for (const auto& v : wi.v) put(*in, v.first, v.second);
        ::begin("fill " + ft + " " + desc + " input x" + S(to["x"]) + " k" + S(to["k"]) + " t" + S(to["t"]) + (translate ? " translate " + S(eslice) + (mdim ? " from " + S(mslice) : "") : "") + (skip.count("c") ? " c has another shape" : ""));
        std::string xml;
        if (translate) {
            xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdmFillWriter xmlns=\"http://www.met.no/schema/fimex/cdmFillWriterConfig\">\n<translate outputDimension=\"e\" outputSlices=\"" + S(eslice) + "\"";
            if (mdim) xml += " inputDimension=\"m\" inputSlices=\"" + S(mslice) + "\"";
            std::ofstream(cfg) << xml << "/>\n</cdmFillWriter>\n";
        }
        CDMFileReaderFactory::createWriter(r, ft, file, std::string());
        // what is expected
        size_t tl = w.dims.count("t") ? w.dims["t"] : 0;
        for (const auto& v : wi.v) {
            if (skip.count(v.first) || !std::count(v.second.shape.begin(), v.second.shape.end(), "t")) continue;
            bool ok = true;
            for (const auto& d : v.second.shape) if (to.count(d)) ok &= !std::count(to[d].begin(), to[d].end(), -1);
            if (ok) for (long p : to["t"]) tl = std::max(tl, size_t(p + 1));
        }
        if (w.dims.count("t")) extend(w, tl);
        for (const auto& v : wi.v) {
            if (skip.count(v.first)) continue;
            bool ok = true;
            for (const auto& d : v.second.shape) if (to.count(d)) ok &= !std::count(to[d].begin(), to[d].end(), -1);
            if (!ok) continue;
            FV& o = w.v[v.first];
            for (const auto& p : positions(wi, v.second)) {
                std::map<std::string, size_t> q;
                bool use = true;
                for (const auto& d : p) { if (d.first == "m") use &= d.second == mslice; else q[d.first] = to[d.first][d.second]; }
                if (translate && !q.count("e")) q["e"] = eslice;
                if (use) o.val[offset(w, o, q)] = v.second.val[offset(wi, v.second, p)];
            }
        }
        bool threw = false;
        try {
            FillWriter fw(in, CDMFileReaderFactory::createReaderWriter("netcdf", file, std::string()), translate ? cfg : std::string());
        } catch (CDMException&) { threw = true; }
        CHECK(threw == bad, bad ? "values that are not in the file are not reported" : "refused");
        check(file, w, "after filling");
    }
    return done();
}
