// the data model: random histories of changes against a reference, copies stay independent
#include "harness.h"
#include "fimex/CDMconstants.h"
#include "fimex/mifi_constants.h"
#include <algorithm>
#include <regex>
typedef std::vector<std::string> VS;
struct RV { std::string name; CDMDataType type; VS shape; };
struct RD { std::string name; size_t len; bool unl; };
struct RA { std::string name; double num; std::string str; CDMDataType type; };
struct Ref {
    std::vector<RV> vars;
    std::vector<RD> dims;
    std::map<std::string, std::vector<RA>> atts;
    RV* var(const std::string& n) { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
    RD* dim(const std::string& n) { for (auto& v : dims) if (v.name == n) return &v; return nullptr; }
    RA* att(const std::string& v, const std::string& n) { for (auto& a : atts[v]) if (a.name == n) return &a; return nullptr; }
    bool used(const std::string& d) { if (!dim(d)) return false; for (auto& v : vars) if (std::count(v.shape.begin(), v.shape.end(), d)) return true; return false; }
    void rmVar(const std::string& n) { vars.erase(std::remove_if(vars.begin(), vars.end(), [&](const RV& v) { return v.name == n; }), vars.end()); atts.erase(n); }
    void rmDim(const std::string& n) { dims.erase(std::remove_if(dims.begin(), dims.end(), [&](const RD& v) { return v.name == n; }), dims.end()); }
    void rmAtt(const std::string& v, const std::string& n) { auto& a = atts[v]; a.erase(std::remove_if(a.begin(), a.end(), [&](const RA& x) { return x.name == n; }), a.end()); }
};
static double deffill(CDMDataType t)
{
    switch (t) {
    case CDM_DOUBLE: return MIFI_FILL_DOUBLE;
    case CDM_FLOAT: return MIFI_FILL_FLOAT;
    case CDM_INT: return MIFI_FILL_INT;
    case CDM_SHORT: return MIFI_FILL_SHORT;
    case CDM_CHAR: return MIFI_FILL_CHAR;
    default: return MIFI_UNDEFINED_D;
    }
}
static void compare(const CDM& c, Ref r)
{
    CHECK(c.getVariables().size() == r.vars.size(), "number of variables " + S(c.getVariables().size()) + " not " + S(r.vars.size()));
    for (const char* n : {"a", "b", "c", "d"}) {
        RV* v = r.var(n);
        CHECK(c.hasVariable(n) == (v != nullptr), std::string("variable ") + n);
        CHECK(throws([&] { c.getVariable(n); }) == !v, std::string("access to variable ") + n);
        if (v) {
            CHECK(c.getVariable(n).getName() == n && c.getVariable(n).getDataType() == v->type && c.getVariable(n).getShape() == v->shape, std::string("content of variable ") + n);
            bool u = false;
            // the unlimited dimension is the first one that is
            for (const auto& d : r.dims) if (d.unl) { u = std::count(v->shape.begin(), v->shape.end(), d.name); break; }
            CHECK(c.hasUnlimitedDim(c.getVariable(n)) == u, std::string("unlimited dimension of ") + n);
        }
    }
    for (size_t i = 0; i < r.vars.size(); i++) CHECK(c.getVariables()[i].getName() == r.vars[i].name, "order of variables");
    CHECK(c.getDimensions().size() == r.dims.size(), "number of dimensions");
    const RD* unl = nullptr;
    for (const auto& d : r.dims) if (d.unl && !unl) unl = &d;
    CHECK((c.getUnlimitedDim() != nullptr) == (unl != nullptr), "unlimited dimension");
    if (unl) CHECK(c.getUnlimitedDim()->getName() == unl->name, "name of the unlimited dimension");
    for (const char* n : {"x", "y", "z", "t"}) {
        RD* d = r.dim(n);
        CHECK(c.hasDimension(n) == (d != nullptr), std::string("dimension ") + n);
        CHECK(c.testDimensionInUse(n) == r.used(n), std::string("use of dimension ") + n);
        if (d) CHECK(c.getDimension(n).getLength() == d->len && c.getDimension(n).isUnlimited() == d->unl, std::string("content of dimension ") + n);
        else CHECK(throws([&] { c.getDimension(n); }), std::string("access to dimension ") + n);
    }
    for (const char* v : {"a", "b", "c", "d", "_GLOBAL"}) {
        const auto as = c.getAttributes(v);
        CHECK(as.size() == r.atts[v].size(), std::string("number of attributes of ") + v + " " + S(as.size()) + " not " + S(r.atts[v].size()));
        for (const char* n : {"units", "_FillValue", "missing_value", "scale_factor", "add_offset", "valid_min", "valid_range", "valid_max", "k"}) {
            RA* a = r.att(v, n);
            CDMAttribute g;
            CHECK(c.getAttribute(v, n, g) == (a != nullptr) && c.hasAttribute(v, n) == (a != nullptr), std::string("attribute ") + n + " of " + v);
            CHECK(throws([&] { c.getAttribute(v, n); }) == !a, std::string("access to attribute ") + n + " of " + v);
            if (a) {
                CHECK(g.getName() == n && g.getDataType() == a->type, std::string("type of attribute ") + n + " of " + v);
                if (a->type == CDM_STRING) CHECK(g.getStringValue() == a->str, std::string("text of ") + n);
                else CHECK(g.getData()->getDouble(0) == a->num, std::string("value of ") + n);
            }
        }
        RV* rv = r.var(v);
        auto num = [&](const char* n, double def) { RA* a = r.att(v, n); return a ? a->num : def; };
        if (rv) {
            CHECK(c.getScaleFactor(v) == num("scale_factor", 1) && c.getAddOffset(v) == num("add_offset", 0), std::string("packing of ") + v);
            RA* u = r.att(v, "units");
            CHECK(c.getUnits(v) == (u ? u->str : ""), std::string("units of ") + v);
            RA* f = r.att(v, "_FillValue");
            if (!f) f = r.att(v, "missing_value");
            if (!f) CHECK(close_(c.getFillValue(v), deffill(rv->type)), std::string("default fill value of ") + v);
            else if (f->type != rv->type) CHECK(throws([&] { c.getFillValue(v); }), std::string("fill value of another type in ") + v);
            else CHECK(c.getFillValue(v) == f->num, std::string("fill value of ") + v);
            const double lo = num("valid_min", num("valid_range", NAN));
            CHECK(close_(c.getValidMin(v), lo), std::string("smallest value of ") + v);
            RA* rr = r.att(v, "valid_range");
            CHECK(close_(c.getValidMax(v), num("valid_max", rr ? rr->num + 1 : NAN)), std::string("largest value of ") + v);
        }
    }
    // search by attribute and dimension
    for (const char* d : {"x", "t"}) {
        std::map<std::string, std::string> q{{"units", "m.*"}};
        const VS got = c.findVariables(q, VS{d});
        VS want;
        for (auto& v : r.vars) { RA* u = r.att(v.name, "units"); if (u && u->str[0] == 'm' && std::count(v.shape.begin(), v.shape.end(), d)) want.push_back(v.name); }
        CHECK(got == want, std::string("search for m.* with ") + d + ": " + S(got) + " not " + S(want));
    }
}
MAIN
{
    INIT
    const VS vn{"a", "b", "c", "d"}, dn{"x", "y", "z", "t"};
    const CDMDataType ts[] = {CDM_DOUBLE, CDM_FLOAT, CDM_INT, CDM_SHORT, CDM_CHAR, CDM_STRING};
    for (long run = 0; run < N; run++) {
        CDM c;
        Ref r;
        CDM copy;
        Ref rcopy;
        bool copied = false;
        ::begin("history " + S(run));
        const int ops = rnd(5, 40);
        auto note = [&](const std::string& s) { CASE += "; " + s; };
        for (int op = 0; op < ops; op++) {
            const std::string v = vn[rnd(0, 3)], w = vn[rnd(0, 3)], d = dn[rnd(0, 3)], e = dn[rnd(0, 3)];
            const std::string av = rnd(0, 5) ? v : CDM::globalAttributeNS();
            switch (rnd(0, 11)) {
            case 0: case 1: {
                RV x{v, ts[rnd(0, 5)], {}};
                for (const auto& q : dn) if (rnd(0, 1) && r.dim(q)) x.shape.push_back(q);
                note("add variable " + v + datatype2string(x.type) + S(x.shape));
                const bool has = r.var(v) != nullptr;
                CHECK(throws([&] { c.addVariable(CDMVariable(x.name, x.type, x.shape)); }) == has, "adding a variable twice");
                if (!has) r.vars.push_back(x);
                break;
            }
            case 2: case 3: {
                RD x{d, (size_t)rnd(0, 5), rnd(0, 3) == 0};
                note("add dimension " + d + S(x.len) + (x.unl ? "u" : ""));
                const bool has = r.dim(d) != nullptr;
                CDMDimension cd(d, x.len);
                cd.setUnlimited(x.unl);
                CHECK(throws([&] { c.addDimension(cd); }) == has, "adding a dimension twice");
                if (!has) r.dims.push_back(x);
                break;
            }
            case 4: case 5: case 6: {
                static const char* an[] = {"units", "_FillValue", "missing_value", "scale_factor", "add_offset", "valid_min", "valid_range", "valid_max", "k"};
                const std::string n = an[rnd(0, 8)];
                RA a{n, (double)rnd(-9, 9), rnd(0, 1) ? "m s-1" : "K", n == "units" ? CDM_STRING : ts[rnd(0, 4)]};
                if (r.var(av) && r.var(av)->type != CDM_STRING && rnd(0, 2) && n != "units") a.type = r.var(av)->type;
                CDMAttribute ca = a.type == CDM_STRING ? CDMAttribute(n, a.str) : CDMAttribute(n, createData(a.type, 2, a.num));
                if (n == "valid_range") { DataPtr p = createData(a.type, 2, a.num); p->setValue(1, a.num + 1); ca = CDMAttribute(n, p); }
                const bool rep = rnd(0, 1);
                note((rep ? "replace " : "add ") + n + " " + av + " " + datatype2string(a.type) + S(a.num) + a.str);
                const bool ok = (av == CDM::globalAttributeNS() || r.var(av)) && (rep || !r.att(av, n));
                CHECK(throws([&] { if (rep) c.addOrReplaceAttribute(av, ca); else c.addAttribute(av, ca); }) == !ok, "adding an attribute");
                if (ok) { r.rmAtt(av, n); r.atts[av].push_back(a); }
                break;
            }
            case 7: {
                note("rename variable " + v + " " + w);
                const bool has = r.var(v) != nullptr;
                CHECK(c.renameVariable(v, w) == has, "result of renaming a variable");
                if (has && v != w) { r.rmVar(w); r.var(v)->name = w; r.atts[w] = r.atts[v]; r.atts.erase(v); }
                break;
            }
            case 8: {
                const bool force = rnd(0, 2) == 0;
                note("rename dimension " + d + " " + e + S(force));
                const bool has = r.dim(d) != nullptr, bad = has && d != e && r.dim(e) && !force && r.used(e);
                bool res = false;
                CHECK(throws([&] { res = c.renameDimension(d, e, force); }) == bad, "renaming a dimension");
                if (!bad) CHECK(res == has, "result of renaming a dimension");
                if (!bad && has && d != e) {
                    r.rmDim(e);
                    r.dim(d)->name = e;
                    for (auto& x : r.vars) std::replace(x.shape.begin(), x.shape.end(), d, e);
                }
                break;
            }
            case 9: {
                note("remove variable " + v);
                c.removeVariable(v);
                r.rmVar(v);
                break;
            }
            case 10: {
                const bool force = rnd(0, 3) == 0;
                note("remove dimension " + d + S(force));
                const bool has = r.dim(d) != nullptr, bad = !force && r.used(d);
                bool res = false;
                CHECK(throws([&] { res = c.removeDimension(d, force); }) == bad, "removing a dimension");
                if (!bad) { CHECK(res == has, "result of removing a dimension"); r.rmDim(d); }
                break;
            }
            default: {
                note("remove attribute units of " + av);
                c.removeAttribute(av, "units");
                r.rmAtt(av, "units");
            }
            }
            compare(c, r);
            if (!copied && rnd(0, 9) == 0) { copied = true; if (rnd(0, 1)) copy = c; else { CDM k(c); copy = k; } rcopy = r; note("copy"); }
        }
        if (copied) { CASE += " (the copy)"; compare(copy, rcopy); }
    }
    return done();
}
