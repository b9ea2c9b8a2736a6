// random datasets (dimensions, variables, attributes, values) and their comparison with a reader
#ifndef VERIF_DATASET_H
#define VERIF_DATASET_H
#include "harness.h"
#include <algorithm>
typedef std::vector<std::string> VS;
static const CDMDataType TYPES[] = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_INT64, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_UINT64, CDM_FLOAT, CDM_DOUBLE};
static const char* XTYPE[] = {"byte", "short", "int", "long", "byte", "short", "int", "long", "float", "double"};
static double lowest(CDMDataType t) { switch (t) { case CDM_CHAR: return -128; case CDM_SHORT: return -32768; case CDM_INT: return -2147483648.; case CDM_INT64: return -9e15; case CDM_FLOAT: case CDM_DOUBLE: return -1e9; default: return 0; } }
static double highest(CDMDataType t) { switch (t) { case CDM_CHAR: return 127; case CDM_SHORT: return 32767; case CDM_INT: return 2147483647.; case CDM_INT64: case CDM_UINT64: return 9e15; case CDM_UCHAR: return 255; case CDM_USHORT: return 65535; case CDM_UINT: return 4294967295.; default: return 1e9; } }
static double value(CDMDataType t)
{
    switch (rnd(0, 5)) {
    case 0: return lowest(t);
    case 1: return highest(t);
    default: break;
    }
    if (t == CDM_FLOAT) return (float)frnd(-1e3, 1e3);
    if (t == CDM_DOUBLE) return frnd(-1e3, 1e3);
    return std::floor(frnd(std::max(-300., lowest(t)), std::min(300., highest(t))));
}
static bool isflt(CDMDataType t) { return t == CDM_FLOAT || t == CDM_DOUBLE; }
static bool eqv(CDMDataType t, double a, double b) { return isflt(t) ? close_(a, b, t == CDM_FLOAT ? 6e-7 : 1e-15, 0) : a == b; }
static DataPtr mk(CDMDataType t, const std::vector<double>& v)
{
    DataPtr d = createData(t, v.size());
    for (size_t i = 0; i < v.size(); i++) {
        if (t == CDM_INT64) { long long x = v[i]; d->setValues(i, *createData(t, &x, &x + 1)); }
        else d->setValue(i, v[i]);
    }
    return d;
}
static std::string text()
{
    std::string s;
    const int n = rnd(1, 8);
    static const char cs[] = "ab<>&\"' ,;|#-1\n\t";
    for (int i = 0; i < n; i++) s += cs[rnd(0, sizeof(cs) - 2)];
    s += rnd(0, 3) ? "" : "\xc3\xa6";
    return s + "x";
}
typedef std::map<std::string, CDMAttribute> Atts;
static std::string show(const CDMAttribute& a) { return datatype2string(a.getDataType()) + ":" + a.getStringValue(); }
static bool same(const CDMAttribute& a, const CDMAttribute& b)
{
    if (a.getDataType() != b.getDataType()) return false;
    DataPtr x = a.getData(), y = b.getData();
    if (a.getDataType() == CDM_STRING) return a.getStringValue() == b.getStringValue();
    if (x->size() != y->size()) return false;
    for (size_t i = 0; i < x->size(); i++) {
        if (a.getDataType() == CDM_STRINGS ? x->asStrings()[i] != y->asStrings()[i] : !eqv(a.getDataType(), x->getDouble(i), y->getDouble(i))) return false;
    }
    return true;
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) r += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : c == '\n' ? "&#10;" : c == '\t' ? "&#9;" : std::string(1, c); return r; }
struct Var { VS str; CDMDataType type; VS shape; std::vector<double> val; std::map<std::string, CDMAttribute> att; bool mem; VS order; };
struct Model { std::map<std::string, size_t> dims; std::string udim; std::map<std::string, Var> vars; std::map<std::string, CDMAttribute> glob; };
static CDMAttribute randAtt(const std::string& n)
{
    const int k = rnd(0, 8);
    if (k < 4) return CDMAttribute(n, text());
    if (k == 4) { const int c = rnd(1, 3); shared_array<std::string> a(new std::string[c]); for (int i = 0; i < c; i++) a[i] = text(); return CDMAttribute(n, createData(c, a)); }
    static const CDMDataType ts[] = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_INT64, CDM_FLOAT, CDM_DOUBLE};
    const CDMDataType t = ts[rnd(0, 5)];
    std::vector<double> v(rnd(1, 3));
    for (auto& x : v) x = value(t);
    return CDMAttribute(n, mk(t, v));
}
static void compare(CDMReader& r, const Model& m, const std::string& how)
{
    const CDM& cdm = r.getCDM();
    CHECK(cdm.getDimensions().size() == m.dims.size(), how + ": number of dimensions");
    for (const auto& d : m.dims) {
        CHECK(cdm.hasDimension(d.first), how + ": dimension " + d.first + " lost");
        CHECK(cdm.getDimension(d.first).getLength() == d.second, how + ": length of " + d.first);
        CHECK(cdm.getDimension(d.first).isUnlimited() == (d.first == m.udim), how + ": unlimited " + d.first);
    }
    auto atts = [&](const std::string& v, const std::map<std::string, CDMAttribute>& want) {
        const auto got = cdm.getAttributes(v);
        for (const auto& a : want) {
            CDMAttribute g;
            CHECK(cdm.getAttribute(v, a.first, g), how + ": attribute " + a.first + " of " + v + " lost");
            CHECK(same(g, a.second), how + ": attribute " + a.first + " of " + v + " is " + show(g) + " not " + show(a.second));
        }
        for (const auto& g : got) CHECK(want.count(g.getName()) || g.getName() == "_Unsigned", how + ": attribute " + g.getName() + " of " + v + " appeared");
    };
    atts(CDM::globalAttributeNS(), m.glob);
    CHECK(cdm.getVariables().size() == m.vars.size(), how + ": number of variables");
    for (const auto& v : m.vars) {
        CHECK(cdm.hasVariable(v.first), how + ": variable " + v.first + " lost");
        const CDMVariable& w = cdm.getVariable(v.first);
        CHECK(w.getDataType() == v.second.type, how + ": type of " + v.first + " is " + datatype2string(w.getDataType()) + " not " + datatype2string(v.second.type));
        CHECK(w.getShape() == v.second.shape, how + ": shape of " + v.first);
        atts(v.first, v.second.att);
        DataPtr d = r.getData(v.first);
        CHECK(d && d->size() == v.second.val.size(), how + ": size of " + v.first + " is " + S(d ? d->size() : 0) + " not " + S(v.second.val.size()));
        CHECK(d->size() == 0 || d->getDataType() == v.second.type, how + ": data type of " + v.first + " is " + datatype2string(d->getDataType()) + " not " + datatype2string(v.second.type));
        if (v.second.type == CDM_STRINGS) {
            for (size_t i = 0; i < v.second.str.size(); i++) CHECK(d->asStrings()[i] == v.second.str[i], how + ": text " + S(i) + " of " + v.first + " is " + d->asStrings()[i] + " not " + v.second.str[i]);
            continue;
        }
        if (v.second.type == CDM_STRING) {
            for (size_t i = 0; i < v.second.val.size(); i++) CHECK(d->asString()[i] == char(v.second.val[i]), how + ": characters of " + v.first + " are " + d->asString());
            continue;
        }
        for (size_t i = 0; i < v.second.val.size(); i++) CHECK(eqv(v.second.type, d->getDouble(i), v.second.val[i]), how + ": value " + S(i) + " of " + v.first + " is " + S(d->getDouble(i)) + " not " + S(v.second.val[i]));
        if (cdm.hasUnlimitedDim(w)) {
            const size_t L = m.dims.at(m.udim);
            for (size_t p = 0; p < L; p++) {
                DataPtr s = r.getDataSlice(v.first, p);
                const size_t c = v.second.val.size() / L;
                CHECK(s->size() == c, how + ": size of step of " + v.first);
                for (size_t i = 0; i < c; i++) CHECK(eqv(v.second.type, s->getDouble(i), v.second.val[p * c + i]), how + ": step of " + v.first);
            }
        }
    }
}
#endif
