// quality extraction: exactly the cells with a flag that is not allowed become undefined
#include "harness.h"
#include "fimex/CDMQualityExtractor.h"
#include "fimex/NcmlCDMWriter.h"
#include "fimex/NcmlCDMReader.h"
#include <algorithm>
#include <fstream>
typedef std::vector<std::string> VS;
struct Var { CDMDataType type; VS shape; std::vector<double> val; double fill; bool hasfill; };
struct Rule { std::string status; bool external; int kind; std::vector<double> vals; double lim; double fill; bool hasfill; };
static double deffill(CDMDataType t) { return t == CDM_SHORT ? -32767. : t == CDM_INT ? -2147483647. : t == CDM_CHAR ? -127. : 9.9692099683868690e+36; }
static double range[2] = {NAN, NAN};
struct World { std::map<std::string, size_t> dims; std::map<std::string, Var> v; std::map<std::string, std::pair<double, double>> valid; };
static size_t slicelen(const World& w, const Var& v) { size_t n = 1; for (auto& d : v.shape) if (d != "t") n *= w.dims.at(d); return n; }
static bool timed(const Var& v) { return std::count(v.shape.begin(), v.shape.end(), "t") > 0; }
static std::vector<double> raw(const World& w, const Var& v, size_t t)
{
    const size_t n = slicelen(w, v);
    const size_t a = timed(v) ? t * n : 0;
    return std::vector<double>(v.val.begin() + a, v.val.begin() + a + n);
}
static std::map<std::string, Rule> RULES;
// the slice after the rules
static std::vector<double> expected(const World& w, const World& ext, const std::string& n, size_t t)
{
    const Var& v = w.v.at(n);
    std::vector<double> d = raw(w, v, t);
    auto r = RULES.find(n);
    if (r == RULES.end()) return d;
    const Rule& u = r->second;
    const World& ws = u.external ? ext : w;
    const Var& sv = ws.v.at(u.status);
    const std::vector<double> s = u.external ? raw(ext, sv, t) : u.status == n ? d : expected(w, ext, u.status, t);
    std::vector<bool> ok(s.size());
    std::vector<double> def;
    auto va = ws.valid.find(u.status);
    for (size_t i = 0; i < s.size(); i++) {
        if (u.kind == 0) { ok[i] = std::count(u.vals.begin(), u.vals.end(), s[i]) > 0; continue; }
        ok[i] = !std::isnan(s[i]) && s[i] != sv.fill;
        if (va != ws.valid.end()) ok[i] = ok[i] && !(s[i] < va->second.first) && !(s[i] > va->second.second);
        if (u.kind == 2) ok[i] = ok[i] && s[i] >= u.lim;
        if (u.kind == 3) ok[i] = ok[i] && s[i] <= u.lim;
        if (ok[i]) def.push_back(s[i]);
    }
    if ((u.kind == 4 || u.kind == 5) && !def.empty()) {
        const double e = u.kind == 4 ? *std::max_element(def.begin(), def.end()) : *std::min_element(def.begin(), def.end());
        for (size_t i = 0; i < s.size(); i++) ok[i] = ok[i] && s[i] == e;
    }
    const double fill = u.hasfill ? u.fill : v.fill;
    for (size_t i = 0; i < d.size(); i++)
        if (!ok[i % s.size()]) d[i] = fill;
    return d;
}
static void put(MemReader& m, World& w, const std::string& n, Var v)
{
    m.var(n, v.type, v.shape, v.val);
    if (v.hasfill) m.getInternalCDM().addAttribute(n, CDMAttribute("_FillValue", createData(v.type, 1, v.fill)));
    w.v[n] = v;
}
static Var mk(const World& w, CDMDataType t, const VS& shape, int lo, int hi, bool nan)
{
    Var v;
    v.type = t; v.shape = shape;
    v.hasfill = rnd(0, 2) > 0;
    v.fill = v.hasfill ? (rnd(0, 1) ? -99 : hi + 1) : deffill(t);
    size_t n = 1;
    for (auto& d : shape) n *= w.dims.at(d);
    for (size_t i = 0; i < n; i++) v.val.push_back(rnd(0, 9) == 0 ? v.fill : nan && rnd(0, 9) == 0 ? NAN : rnd(lo, hi));
    return v;
}
static CDMDataType type(bool any) { const CDMDataType t[] = {CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT, CDM_CHAR}; return t[rnd(0, any ? 4 : 1)]; }
static std::string num(double d) { return S(d); }
static void valid(MemReader& m, World& w, const std::string& n, int lo, int hi)
{
    const CDMDataType t = w.v.at(n).type;
    auto at = [&](const std::string& a, const std::vector<double>& x) {
        DataPtr d = createData(t, x.size());
        for (size_t i = 0; i < x.size(); i++) d->setValue(i, x[i]);
        m.getInternalCDM().addAttribute(n, CDMAttribute(a, d));
    };
    const double a = rnd(lo, hi), b = rnd(int(a), hi);
    switch (rnd(0, 5)) {
    case 0: at("valid_min", {a}); w.valid[n] = {a, INFINITY}; break;
    case 1: at("valid_max", {b}); w.valid[n] = {-INFINITY, b}; break;
    case 2: at("valid_min", {a}); at("valid_max", {b}); w.valid[n] = {a, b}; break;
    case 3: at("valid_range", {a, b}); w.valid[n] = {a, b}; break;
    default: break;
    }
}
MAIN
{
    INIT
    const std::string cfg = SCRATCH + "/quality.xml", ex = SCRATCH + "/flags.ncml";
    for (long q = 0; q < N; q++) {
        RULES.clear();
        World w, ext;
        auto m = std::make_shared<MemReader>();
        auto e = std::make_shared<MemReader>();
        const VS dn = {"x", "y", "k"};
        for (auto& d : dn) { w.dims[d] = ext.dims[d] = rnd(1, d == "x" ? 4 : 3); m->dim(d, w.dims[d]); e->dim(d, w.dims[d]); }
        w.dims["t"] = ext.dims["t"] = rnd(1, 3);
        m->dim("t", w.dims["t"], true); e->dim("t", w.dims["t"], true);
        // flags: same dimensions, or the first ones only
        const bool time = rnd(0, 3) > 0;
        const int nd = rnd(1, 3);
        VS shape(dn.begin(), dn.begin() + nd);
        VS sshape(dn.begin(), dn.begin() + rnd(1, nd));
        const bool stime = time && sshape.size() == shape.size() && rnd(0, 1);
        if (time) shape.push_back("t");
        if (stime) sshape.push_back("t");
        const int hi = rnd(1, 6);
        put(*m, w, "a", mk(w, type(true), shape, -90, 90, true));
        put(*m, w, "b", mk(w, type(true), shape, -90, 90, false));
        put(*m, w, "free", mk(w, type(true), shape, -90, 90, true));
        if (w.v["a"].type != CDM_FLOAT && w.v["a"].type != CDM_DOUBLE) for (double& x : w.v["a"].val) if (std::isnan(x)) x = 3;
        if (w.v["free"].type != CDM_FLOAT && w.v["free"].type != CDM_DOUBLE) for (double& x : w.v["free"].val) if (std::isnan(x)) x = 3;
        m->values["a"] = w.v["a"].val; m->values["free"] = w.v["free"].val;
        put(*m, w, "s", mk(w, type(true), sshape, 0, hi, false));
        put(*m, w, "s2", mk(w, type(true), sshape, 0, hi, false));
        put(*e, ext, "es", mk(ext, type(true), sshape, 0, hi, false));
        valid(*m, w, "s", 0, hi); valid(*m, w, "s2", 0, hi); valid(*e, ext, "es", 0, hi);
        std::string desc = "shape " + S(shape) + " flags " + S(sshape);
        std::string autoconf;
        const bool conf = rnd(0, 3) > 0;
        std::vector<double> fv;
        if (!conf || rnd(0, 3) == 0) {
            // CF flags: "standard_name status_flag" with the values in flag_values
            m->att("a", "standard_name", std::string("air_temperature"));
            m->att("s", "standard_name", std::string("air_temperature status_flag"));
            for (int i = 0; i <= hi; i++) if (rnd(0, 1) || i == hi) fv.push_back(i);
            DataPtr d = createData(w.v["s"].type, fv.size());
            for (size_t i = 0; i < fv.size(); i++) d->setValue(i, fv[i]);
            m->getInternalCDM().addAttribute("s", CDMAttribute("flag_values", d));
            if (rnd(0, 1)) m->att("free", "standard_name", std::string("air_temperature_anomaly"));
            Rule r;
            r.status = "s"; r.external = false; r.kind = 0; r.hasfill = false;
            switch (rnd(0, 3)) {
            case 0: autoconf = "all"; r.vals = fv; break;
            case 1: autoconf = "highest"; r.vals = {fv.back()}; break;
            case 2: autoconf = "lowest"; r.vals = {fv.front()}; break;
            default:
                autoconf = "values=0,1"; r.vals = {0, 1};
                if (hi > 2) { autoconf = "values=0,1,...," + S(hi); r.vals.clear(); for (int i = 0; i <= hi; i++) r.vals.push_back(i); }
            }
            RULES["a"] = r;
            desc += " auto " + autoconf + " of " + S(fv);
        }
        std::string xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdmQualityConfig>\n";
        if (conf) {
            auto rule = [&](const std::string& n, const std::string& st, bool external) {
                Rule r;
                r.status = st; r.external = external; r.kind = rnd(0, 5); r.hasfill = rnd(0, 3) == 0; r.fill = -77;
                if (n == "s2") r.hasfill = false;
                r.lim = rnd(0, hi) + (rnd(0, 1) ? .5 : 0);
                std::string allow;
                if (r.kind == 0) {
                    std::string tx;
                    if (rnd(0, 2) == 0 && hi > 2) {
                        tx = "1,2,...," + S(hi);
                        for (int i = 1; i <= hi; i++) r.vals.push_back(i);
                    } else {
                        for (int i = rnd(1, 4); i > 0; i--) { r.vals.push_back(rnd(0, hi)); tx += (tx.empty() ? "" : ",") + num(r.vals.back()); }
                    }
                    allow = "<allowed_values>" + tx + "</allowed_values>";
                } else {
                    const std::string use[] = {"", "all", "min:" + num(r.lim), "max:" + num(r.lim), "highest", "lowest"};
                    allow = "<allowed_values use=\"" + use[r.kind] + "\"/>";
                }
                xml += "<variable name=\"" + n + "\"" + (r.hasfill ? " fillValue=\"-77\"" : "") + ">\n <status_flag_variable name=\"" + st + "\"";
                if (external) xml += " file=\"" + ex + "\" type=\"ncml\"";
                xml += ">\n  " + allow + "\n </status_flag_variable>\n</variable>\n";
                RULES[n] = r;
            };
            const int how = rnd(0, 4);
            if (how == 0) rule("a", "es", true);
            else if (how == 1) rule("a", "a", false);
            else rule("a", "s", false);
            if (rnd(0, 1)) rule("b", "s2", false);
            if (rnd(0, 2) == 0 && RULES.count("b")) rule("s2", "s", false);
            desc += " config " + xml;
        }
        xml += "</cdmQualityConfig>\n";
        ::begin(desc);
        if (conf) { std::ofstream(cfg) << xml; std::ofstream o(ex); NcmlCDMWriter(e, o, true); }
        if (rnd(0, 2) == 0) for (const char* n : {"a", "b", "free", "s", "s2"}) if (rnd(0, 1)) { m->inMemory(n); CASE += std::string(" ") + n + " in memory"; }
        CDMQualityExtractor qe(m, autoconf, conf ? cfg : "");
        const VS names = {"a", "b", "free", "s", "s2"};
        for (int k = 0; k < 6; k++) {
            const std::string& n = names[rnd(0, 4)];
            const size_t t = rnd(0, int(w.dims["t"]) - 1);
            const std::vector<double> x = expected(w, ext, n, t);
            DataPtr d = qe.getDataSlice(n, t);
            CHECK(d->getDataType() == w.v[n].type, "type of " + n);
            const std::vector<double> g = all(d);
            CHECK(g.size() == x.size(), "size of " + n);
            for (size_t i = 0; i < g.size(); i++)
                CHECK(close_(g[i], x[i], 1e-6), n + " step " + S(t) + " cell " + S(i) + ": " + S(g[i]) + " expected " + S(x[i]) + " from " + S(raw(w, w.v[n], t)));
        }
        // parts of the whole, and the whole
        for (const std::string& n : names) {
            std::vector<double> whole;
            for (size_t t = 0; t < (timed(w.v[n]) ? w.dims["t"] : 1); t++) { auto e1 = expected(w, ext, n, t); whole.insert(whole.end(), e1.begin(), e1.end()); }
            const std::vector<double> g = all(qe.getData(n));
            CHECK(g.size() == whole.size(), "size of " + n);
            for (size_t i = 0; i < g.size(); i++) CHECK(close_(g[i], whole[i], 1e-6), "whole " + n + " cell " + S(i) + ": " + S(g[i]) + " expected " + S(whole[i]));
        }
        for (const std::string& n : names) {
            SliceBuilder sb(qe.getCDM(), n);
            const VS& sh = w.v[n].shape;
            std::vector<size_t> st(sh.size()), sz(sh.size());
            for (size_t i = 0; i < sh.size(); i++) { const int L = w.dims[sh[i]]; st[i] = rnd(0, L - 1); sz[i] = rnd(1, L - int(st[i])); sb.setStartAndSize(sh[i], st[i], sz[i]); }
            const std::vector<double> g = all(qe.getDataSlice(n, sb));
            std::vector<double> x, whole;
            for (size_t t = 0; t < (timed(w.v[n]) ? w.dims["t"] : 1); t++) { auto e1 = expected(w, ext, n, t); whole.insert(whole.end(), e1.begin(), e1.end()); }
            size_t total = 1;
            for (size_t s : sz) total *= s;
            for (size_t i = 0; i < total; i++) {
                size_t r = i, pos = 0, f = 1;
                for (size_t d = 0; d < sh.size(); d++) { pos += (st[d] + r % sz[d]) * f; r /= sz[d]; f *= w.dims[sh[d]]; }
                x.push_back(whole[pos]);
            }
            CHECK(g.size() == x.size(), "size of part of " + n);
            for (size_t i = 0; i < g.size(); i++) CHECK(close_(g[i], x[i], 1e-6), "part of " + n + " start " + S(st) + " size " + S(sz) + " cell " + S(i) + ": " + S(g[i]) + " expected " + S(x[i]));
        }
        for (const std::string& n : names)
            for (size_t t = 0; t < w.dims["t"]; t++) {
                const std::vector<double> g = all(m->getDataSlice(n, t)), x = raw(w, w.v[n], t);
                for (size_t i = 0; i < g.size(); i++) CHECK(close_(g[i], x[i], 1e-6), "source changed: " + n);
            }
    }
    return done();
}
