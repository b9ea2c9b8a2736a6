// NcML: what is written from a reader describes it completely; a NcML applied to a reader changes exactly what it says
#include "dataset.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/NcmlCDMWriter.h"
#include "fimex/XMLInputString.h"
#include "fimex/XMLInputFile.h"
#include <algorithm>
#include <fstream>
// a variable whose type and packing are changed keeps its numbers and its undefined values
static void packing()
{
    auto pickType = [] { const int k = rnd(0, 5); return k < 4 ? k : k + 4; }; // NcML has no attributes of unsigned types
    const int k1 = pickType(), k2 = pickType();
    const CDMDataType t1 = TYPES[k1], t2 = TYPES[k2];
    const bool uns1 = k1 >= 4 && k1 <= 7, uns2 = k2 >= 4 && k2 <= 7;
    auto r = std::make_shared<MemReader>();
    const int nx = rnd(1, 4), nt = rnd(1, 3);
    r->dim("x", nx); r->dim("t", nt, true);
    std::vector<double> v(nx * nt);
    const double f1 = 99, f2 = rnd(0, 1) ? 98 : 99;
    for (double& q : v) q = rnd(0, 3) == 0 ? f1 : rnd(uns1 ? 30 : -20, 60);
    r->var("a", t1, {"x", "t"}, v);
    r->getInternalCDM().addAttribute("a", CDMAttribute("_FillValue", createData(t1, 1, f1)));
    double s1 = 1, o1 = 0, s2, o2;
    if (rnd(0, 1)) { s1 = rnd(1, 2) / 2.; r->att("a", "scale_factor", s1); }
    if (rnd(0, 1)) { o1 = rnd(0, 4); r->att("a", "add_offset", o1); }
    s2 = s1; o2 = o1;
    const bool ren = rnd(0, 1);
    std::string in;
    if (f2 != f1 || t1 != t2) in += std::string("<attribute name=\"_FillValue\" type=\"") + XTYPE[k2] + "\" value=\"" + S(f2) + "\"/>";
    switch (rnd(0, 3)) {
    case 0: in += "<remove name=\"scale_factor\" type=\"attribute\"/>"; s2 = 1; break;
    case 1: s2 = .5; in += "<attribute name=\"scale_factor\" type=\"double\" value=\"0.5\"/>"; break;
    }
    switch (rnd(0, 3)) {
    case 0: in += "<remove name=\"add_offset\" type=\"attribute\"/>"; o2 = 0; break;
    case 1: o2 = 2; in += "<attribute name=\"add_offset\" type=\"double\" value=\"2\"/>"; break;
    }
    if (uns2) in += "<attribute name=\"_Unsigned\" value=\"true\"/>";
    const std::string name = ren ? "b" : "a";
    const std::string xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n<variable name=\"" + name + "\"" + (ren ? " orgName=\"a\"" : "")
        + " type=\"" + XTYPE[k2] + "\">" + in + "</variable></netcdf>\n";
    begin("packing type " + S((int)t1) + " values " + S(v) + " scale " + S(s1) + " offset " + S(o1) + "\n" + xml);
    NcmlCDMReader ch(r, XMLInputString(xml));
    CHECK(ch.getCDM().getVariable(name).getDataType() == t2, "new type");
    for (int t = 0; t < nt; t++) {
        DataPtr d = ch.getDataSlice(name, t);
        const std::vector<double> g = all(d), sc = all(ch.getScaledDataSlice(name, t));
        CHECK(g.size() == (size_t)nx && d->getDataType() == t2, "size and type");
        for (int x = 0; x < nx; x++) {
            if (t1 == t2) { CHECK(g[x] == v[t * nx + x], "same type, value is " + S(g[x])); continue; } // only the description changes
            const double o = v[t * nx + x], u = o * s1 + o1, w = (u - o2) / s2;
            if (o == f1) {
                CHECK(g[x] == f2 && std::isnan(sc[x]), "undefined value is " + S(g[x]));
                continue;
            }
            if ((uns2 && w < 0) || w > 120 || std::fabs(w - f2) < 1) continue;
            CHECK(std::fabs(sc[x] - u) <= (isflt(t2) ? 1e-4 : s2 * .501), "value " + S(u) + " is " + S(sc[x]));
        }
    }
}
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        if (run % 4 == 0) packing();
        Model m;
        auto r = std::make_shared<MemReader>();
        for (const char* d : {"x", "y", "t"}) m.dims[d] = rnd(1, 3);
        if (rnd(0, 2)) m.udim = "t";
        for (const auto& d : m.dims) r->dim(d.first, d.second, d.first == m.udim);
        const VS names{"a", "b", "c", "t", "x"};
        std::string desc = "dims " + S(m.dims["x"]) + S(m.dims["y"]) + S(m.dims["t"]) + " " + m.udim;
        for (const auto& n : names) {
            if (rnd(0, 4) == 0) continue;
            Var v;
            v.type = TYPES[rnd(0, 9)];
            if (n == "t" || n == "x") v.shape = {n};
            else for (const char* d : {"x", "y", "t"}) if (rnd(0, 1)) v.shape.push_back(d);
            size_t c = 1;
            for (const auto& d : v.shape) c *= m.dims[d];
            const bool str = n == "c" && rnd(0, 3) == 0;
            if (str) v.type = CDM_STRINGS;
            for (size_t i = 0; i < c; i++) { v.val.push_back(str ? 0 : value(v.type)); if (str) v.str.push_back(text()); }
            CDMVariable cv(n, v.type, v.shape);
            v.mem = rnd(0, 2) == 0 || v.type == CDM_INT64 || v.type == CDM_UINT64;
            if (str) { v.mem = true; shared_array<std::string> a(new std::string[c]); std::copy(v.str.begin(), v.str.end(), &a[0]); cv.setData(createData(c, a)); }
            else if (v.mem) cv.setData(mk(v.type, v.val));
            r->getInternalCDM().addVariable(cv);
            r->values[n] = v.val;
            for (const char* a : {"units", "p", "q", "s"}) if (rnd(0, 1)) { CDMAttribute at = randAtt(a); v.att[a] = at; v.order.push_back(a); }
            std::shuffle(v.order.begin(), v.order.end(), RNG);
            for (const auto& a : v.order) r->getInternalCDM().addAttribute(n, v.att[a]);
            m.vars[n] = v;
            desc += " " + n + ":" + datatype2string(v.type) + "(" + S(v.shape) + ")" + (v.mem ? "mem" : "") + S(v.order);
        }
        for (const char* a : {"g", "h", "i"}) if (rnd(0, 1)) { m.glob[a] = randAtt(a); r->getInternalCDM().addAttribute(CDM::globalAttributeNS(), m.glob[a]); }
        ::begin(desc);
        if (rnd(0, 1)) {
            if (rnd(0, 2) == 0 && !m.udim.empty()) // slices that are not available are written as undefined
                for (auto& v : m.vars) {
                    if (v.second.mem || !std::count(v.second.shape.begin(), v.second.shape.end(), m.udim) || rnd(0, 1)) continue;
                    const size_t u = rnd(0, m.dims[m.udim] - 1), per = v.second.val.size() / m.dims[m.udim];
                    r->empty[v.first].insert(u);
                    for (size_t i = 0; i < per; i++) v.second.val[u * per + i] = r->getCDM().getFillValue(v.first);
                    CASE += " without slice " + S(u) + " of " + v.first;
                }
            std::ostringstream out;
            const bool viaFile = rnd(0, 3) == 0;
            if (viaFile) {
                const std::string f = SCRATCH + "/out.ncml";
                { NcmlCDMWriter w(r, f); }
                CASE += " file";
                NcmlCDMReader back{XMLInputFile(f)};
                compare(back, m, "written and read");
                continue;
            }
            NcmlCDMWriter w(r, out, true);
            CASE += "\n" + out.str();
            NcmlCDMReader back{XMLInputString(out.str())};
            compare(back, m, "written and read");
            continue;
        }
        // changes
        std::string xml;
        std::map<std::string, std::string> body, attr; // per variable
        std::string now[5];
        std::set<std::string> gone, touched;
        // dimension renamed
        std::map<std::string, std::string> dimname;
        if (rnd(0, 2) == 0) {
            const std::string d = rnd(0, 1) ? "y" : "t", e = rnd(0, 4) ? d + "2" : d;
            xml += "<dimension name=\"" + e + "\" orgName=\"" + d + "\"/>\n";
            if (e != d) {
                m.dims[e] = m.dims[d]; m.dims.erase(d);
                if (m.udim == d) m.udim = e;
                for (auto& v : m.vars) std::replace(v.second.shape.begin(), v.second.shape.end(), d, e);
            }
        }
        if (rnd(0, 4) == 0 && std::none_of(m.vars.begin(), m.vars.end(), [](const std::pair<const std::string, Var>& v) { return std::count(v.second.shape.begin(), v.second.shape.end(), "x"); })) { // nobody uses it
            m.dims["x"] = rnd(1, 5);
            xml += "<dimension name=\"x\" length=\"" + S(m.dims["x"]) + "\"/>\n";
        }
        if (rnd(0, 3) == 0) { m.dims["n"] = 2; xml += "<dimension name=\"n\" length=\"2\"/>\n"; if (rnd(0, 1)) {
            const int k = rnd(0, 9);
            Var v; v.type = TYPES[k]; v.shape = {"n"}; v.mem = true; v.val = {value(v.type), value(v.type)};
            const bool uns = k >= 4 && k <= 7;
            std::string vals = mk(v.type, v.val)->asString(" ");
            bool none = rnd(0, 3) == 0;
            if (none) v.val.clear();
            if (!none && rnd(0, 2) == 0) { v.val = {5, 7}; vals = ""; }
            xml += "<variable name=\"new\" shape=\"n\" type=\"" + std::string(XTYPE[k]) + "\">" + (uns ? "<attribute name=\"_Unsigned\" value=\"true\"/>" : "") + (none ? "" : vals.empty() ? "<values start=\"5\" increment=\"2\"/>" : "<values>" + vals + "</values>") + "</variable>\n";
            m.vars["new"] = v; } }
        Model before = m;
        for (const auto& n : names) {
            if (!before.vars.count(n)) continue;
            if (rnd(0, 5) == 0) { xml += "<remove name=\"" + n + "\" type=\"variable\"/>\n"; m.vars.erase(n); continue; }
            if (rnd(0, 2) == 0) continue;
            Var v = before.vars[n];
            std::string name = n, head, in;
            const int ren = (n == "t" || n == "x") ? 5 : rnd(0, 5);
            if (ren == 0) { name = n + "9"; head = " orgName=\"" + n + "\""; }
            if (ren == 1) head = " orgName=\"" + n + "\""; // to its own name
            if (v.type != CDM_STRINGS && rnd(0, 2) == 0) { // another type
                const int k = rnd(0, 9);
                const bool uns = k >= 4 && k <= 7;
                const double lo = lowest(TYPES[k]), hi = highest(TYPES[k]);
                bool fits = true;
                for (double q : v.val) fits &= q >= lo && q <= hi && (isflt(TYPES[k]) || std::fabs(q) < 1e7) && (!isflt(v.type) || isflt(TYPES[k]));
                if (v.type == CDM_FLOAT || TYPES[k] == CDM_FLOAT) for (double q : v.val) fits &= (double)(float)q == q;
                // fill values of the old or new type would be translated
                for (double q : v.val) fits &= q != lowest(v.type) && q != highest(v.type) && q != lo && q != hi && std::fabs(q) != 127 && std::fabs(q) != 32767;
                if (fits) { v.type = TYPES[k]; head += std::string(" type=\"") + XTYPE[k] + "\""; if (uns) in += "<attribute name=\"_Unsigned\" value=\"true\"/>"; }
            }
            for (const char* a : {"units", "p", "q", "s"}) {
                switch (rnd(0, 6)) {
                case 0: if (v.att.count(a)) { in += std::string("<remove name=\"") + a + "\" type=\"attribute\"/>"; v.att.erase(a); touched.insert(n + a); } break;
                case 1: { const std::string s = text(); in += std::string("<attribute name=\"") + a + "\" value=\"" + esc(s) + "\"/>"; v.att[a] = CDMAttribute(a, s); touched.insert(n + a); break; }
                case 2: { in += std::string("<attribute name=\"") + a + "\" type=\"short\" value=\"3 -4\"/>"; v.att[a] = CDMAttribute(a, mk(CDM_SHORT, {3, -4})); touched.insert(n + a); break; }
                default: break;
                }
            }
            if (rnd(0, 2) == 0) { // rename an attribute, perhaps onto another
                const char* as[] = {"units", "p", "q", "s", "z"};
                const std::string a = as[rnd(0, 3)], b = as[rnd(0, 4)];
                if (!touched.count(n + a) && !touched.count(n + b) && before.vars[n].att.count(a)) {
                    in += "<attribute name=\"" + b + "\" orgName=\"" + a + "\"/>";
                    CDMAttribute at = v.att[a];
                    v.att.erase(a);
                    at.setName(b);
                    v.att[b] = at;
                }
            }
            m.vars.erase(n);
            m.vars[name] = v;
            xml += "<variable name=\"" + name + "\"" + head + ">" + in + "</variable>\n";
        }
        { // global attribute renamed, perhaps onto another, perhaps not there, or without name
            const char* as[] = {"g", "h", "i", "k"};
            const std::string a = as[rnd(0, 3)], b = as[rnd(0, 3)];
            if (rnd(0, 3) == 0) {
                xml += "<attribute name=\"" + b + "\" orgName=\"" + a + "\"/>\n";
                if (m.glob.count(a)) { CDMAttribute at = m.glob[a]; m.glob.erase(a); at.setName(b); m.glob[b] = at; }
            }
            else if (rnd(0, 19) == 0) {
                const std::string bad = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n<attribute orgName=\"" + a + "\"/>\n</netcdf>\n";
                CHECK(throws([&] { NcmlCDMReader(r, XMLInputString(bad)); }), "attribute renamed to nothing");
            }
            else for (const char* a : {"g", "h", "i"}) switch (rnd(0, 5)) {
        case 0: xml += std::string("<remove name=\"") + a + "\" type=\"attribute\"/>\n"; m.glob.erase(a); break;
        case 1: xml += std::string("<attribute name=\"") + a + "\" value=\"v v\"/>\n"; m.glob[a] = CDMAttribute(a, std::string("v v")); break;
        case 2: xml += std::string("<attribute name=\"") + a + "\" type=\"double\" separator=\";\">1.5;2</attribute>\n"; m.glob[a] = CDMAttribute(a, mk(CDM_DOUBLE, {1.5, 2})); break;
        default: break;
        }
        }
        xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n" + xml + "</netcdf>\n";
        CASE += "\n" + xml;
        NcmlCDMReader ch(r, XMLInputString(xml));
        compare(ch, m, "changed");
    }
    return done();
}
