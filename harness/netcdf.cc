// netCDF files: what is written is found in the file, by fimex and by the netCDF library itself; a configuration of the writer changes exactly what it says
#include "dataset.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include <fstream>
#include <unistd.h>
extern "C" {
#include <netcdf.h>
}
static const int NT_CLASSIC = 5;
static const CDMDataType TY[] = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64};
static double fillOf(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return NC_FILL_BYTE; case CDM_SHORT: return NC_FILL_SHORT; case CDM_INT: return NC_FILL_INT; case CDM_FLOAT: return NC_FILL_FLOAT; case CDM_DOUBLE: return NC_FILL_DOUBLE;
    case CDM_UCHAR: return NC_FILL_UBYTE; case CDM_USHORT: return NC_FILL_USHORT; case CDM_UINT: return NC_FILL_UINT; case CDM_INT64: return (double)NC_FILL_INT64; default: return (double)NC_FILL_UINT64;
    }
}
static nc_type ncOf(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return NC_BYTE; case CDM_SHORT: return NC_SHORT; case CDM_INT: return NC_INT; case CDM_FLOAT: return NC_FLOAT; case CDM_DOUBLE: return NC_DOUBLE; case CDM_STRING: return NC_CHAR; case CDM_STRINGS: return NC_STRING;
    case CDM_UCHAR: return NC_UBYTE; case CDM_USHORT: return NC_USHORT; case CDM_UINT: return NC_UINT; case CDM_INT64: return NC_INT64; default: return NC_UINT64;
    }
}
static const char* tname(CDMDataType t)
{
    static std::string s; s = datatype2string(t); return s.c_str();
}
static CDMAttribute att(const std::string& n, bool nc4)
{
    const int k = rnd(0, 8);
    if (k < 4) return CDMAttribute(n, rnd(0, 5) ? text() : std::string());
    if (k == 4 && nc4) { const int c = rnd(1, 3); shared_array<std::string> a(new std::string[c]); for (int i = 0; i < c; i++) a[i] = text(); return CDMAttribute(n, createData(c, a)); }
    const CDMDataType t = TY[rnd(0, nc4 ? 9 : 4)];
    std::vector<double> v(rnd(1, 3));
    for (auto& x : v) x = value(t);
    return CDMAttribute(n, mk(t, v));
}
struct TextReader : public MemReader // serves characters, too
{
    std::string broken; // variable and step that cannot be read
    size_t brokenAt = 0;
    DataPtr getDataSlice(const std::string& n, size_t pos) override
    {
        if (n == broken && (pos == brokenAt || !getCDM().hasUnlimitedDim(getCDM().getVariable(n)))) { if (rnd(0, 1)) throw CDMException("cannot be read"); throw 1; }
        if (getCDM().getVariable(n).getDataType() != CDM_STRING) return MemReader::getDataSlice(n, pos);
        std::string s;
        const bool u = getCDM().hasUnlimitedDim(getCDM().getVariable(n));
        const std::vector<double>& v = values.at(n);
        const size_t len = u ? v.size() / getCDM().getUnlimitedDim()->getLength() : v.size();
        for (size_t i = 0; i < len; i++) s += char(v[(u ? pos * len : 0) + i]);
        return createData(s);
    }
    using CDMReader::getDataSlice;
};
static double num(const Var& v, const char* a, double def) { auto i = v.att.find(a); return i == v.att.end() ? def : i->second.getData()->getDouble(0); }
static double fill(const Var& v) { return num(v, "_FillValue", fillOf(v.type)); }
static void oracle(const std::string& file, const Model& m, const std::string& how)
{
    int id;
    CHECK(nc_open(file.c_str(), NC_NOWRITE, &id) == NC_NOERR, how + ": file cannot be opened");
    int nv, nd, un;
    nc_inq_nvars(id, &nv); nc_inq_ndims(id, &nd); nc_inq_unlimdim(id, &un);
    CHECK(nv == int(m.vars.size()), how + ": number of variables in file");
    CHECK(nd == int(m.dims.size()), how + ": number of dimensions in file");
    for (const auto& v : m.vars) {
        int vid, ndim, dims[8];
        nc_type t;
        CHECK(nc_inq_varid(id, v.first.c_str(), &vid) == NC_NOERR, how + ": no variable " + v.first + " in file");
        nc_inq_var(id, vid, 0, &t, &ndim, dims, 0);
        CHECK(t == ncOf(v.second.type), how + ": type of " + v.first + " in file");
        CHECK(ndim == int(v.second.shape.size()), how + ": shape of " + v.first + " in file");
        for (int i = 0; i < ndim; i++) {
            char n[NC_MAX_NAME + 1]; size_t len;
            nc_inq_dim(id, dims[i], n, &len);
            CHECK(v.second.shape[ndim - 1 - i] == n && len == m.dims.at(n), how + ": dimension " + S(i) + " of " + v.first + " in file is " + n);
            CHECK((dims[i] == un) == (m.udim == n), how + ": unlimited dimension in file");
        }
        if (v.second.type == CDM_STRINGS || v.second.type == CDM_STRING) continue;
        std::vector<double> x(v.second.val.size() + 1);
        CHECK(nc_get_var_double(id, vid, &x[0]) == NC_NOERR, how + ": values of " + v.first);
        for (size_t i = 0; i < v.second.val.size(); i++) CHECK(eqv(v.second.type, x[i], v.second.val[i]), how + ": value " + S(i) + " of " + v.first + " in file is " + S(x[i]) + " not " + S(v.second.val[i]));
    }
    nc_close(id);
}
MAIN
{
    INIT
    const std::string file = SCRATCH + "/d.nc", cfg = SCRATCH + "/w.xml";
    for (long run = 0; run < N; run++) {
        Model m;
        auto r = std::make_shared<TextReader>();
        const int format = rnd(0, 3); // netcdf3, netcdf3 64 bit, netcdf4 classic, netcdf4
        const bool nc4 = format == 3;
        for (const char* d : {"x", "y", "t", "e"}) m.dims[d] = rnd(1, 4);
        if (rnd(0, 3)) m.udim = "t";
        for (const auto& d : m.dims) r->dim(d.first, d.second, d.first == m.udim);
        const VS names{"a", "b", "c", "t", "x", "p"};
        std::string desc = "format " + S(format) + " dims " + S(m.dims["x"]) + S(m.dims["y"]) + S(m.dims["t"]) + S(m.dims["e"]) + " " + m.udim;
        for (const auto& n : names) {
            if (rnd(0, 4) == 0) continue;
            Var v;
            v.type = TY[rnd(0, nc4 ? 9 : 4)];
            if (n == "t" || n == "x") v.shape = {n};
            else for (const char* d : {"x", "y", "t"}) if (rnd(0, 1)) v.shape.push_back(d);
            size_t c = 1;
            for (const auto& d : v.shape) c *= m.dims[d];
            const bool str = n == "c" && rnd(0, 2) == 0 && nc4, chr = !str && n == "c" && rnd(0, 2) == 0;
            if (str) v.type = CDM_STRINGS;
            if (chr) v.type = CDM_STRING;
            CDMVariable cv(n, v.type, v.shape);
            if (str) {
                for (size_t i = 0; i < c; i++) v.str.push_back(text());
                v.val.assign(c, 0);
                shared_array<std::string> a(new std::string[c]);
                std::copy(v.str.begin(), v.str.end(), &a[0]);
                cv.setData(createData(c, a));
            } else if (chr) {
                std::string s;
                for (size_t i = 0; i < c; i++) { s += char(rnd('a', 'z')); v.val.push_back(s.back()); }
            } else {
                if (n == "p") { // packed
                    if (rnd(0, 1)) v.att["_FillValue"] = CDMAttribute("_FillValue", mk(v.type, {99}));
                    if (rnd(0, 1)) v.att["scale_factor"] = CDMAttribute("scale_factor", rnd(0, 1) ? .5 : 2.);
                    if (rnd(0, 1)) v.att["add_offset"] = CDMAttribute("add_offset", 3.);
                }
                for (size_t i = 0; i < c; i++) v.val.push_back(n == "p" ? (rnd(0, 4) == 0 && (isflt(v.type) || std::fabs(fill(v)) < 1e18) ? fill(v) : isflt(v.type) ? rnd(0, 400) / 16. : rnd(0, 50)) : isflt(v.type) && rnd(0, 9) == 0 ? NAN : value(v.type));
                v.mem = rnd(0, 2) == 0 || v.type == CDM_INT64 || v.type == CDM_UINT64;
                if (v.mem) cv.setData(mk(v.type, v.val));
            }
            r->getInternalCDM().addVariable(cv);
            r->values[n] = v.val;
            if (n == "p") v.att["units"] = CDMAttribute("units", std::string("m"));
            for (const char* a : {"units", "p", "q", "s"}) if (!v.att.count(a) && rnd(0, 1)) v.att[a] = att(a, nc4);
            for (const auto& a : v.att) v.order.push_back(a.first);
            std::shuffle(v.order.begin(), v.order.end(), RNG);
            for (const auto& a : v.order) r->getInternalCDM().addAttribute(n, v.att[a]);
            // steps without data
            if (n != "t" && !v.mem && !str && !chr && std::count(v.shape.begin(), v.shape.end(), m.udim) && !m.udim.empty() && rnd(0, 5) == 0) {
                const size_t L = m.dims[m.udim], p = rnd(0, L - 1);
                r->empty[n].insert(p);
                for (size_t i = 0; i < c / L; i++) v.val[p * (c / L) + i] = fill(v);
                desc += " step " + S(p) + " missing:";
            }
            m.vars[n] = v;
            desc += " " + n + ":" + datatype2string(v.type) + "(" + S(v.shape) + ")" + S(v.order);
        }
        if (!m.vars.count("t")) for (auto& v : m.vars) if (r->empty[v.first].size()) { r->empty[v.first].clear(); v.second.val = r->values[v.first]; desc += " " + v.first + " complete"; }
        for (const char* a : {"g", "h", "i"}) if (rnd(0, 1)) { m.glob[a] = att(a, nc4); r->getInternalCDM().addAttribute(CDM::globalAttributeNS(), m.glob[a]); }
        const char* types[] = {"netcdf3", "", "netcdf4classic", "netcdf4"};
        std::string type = types[format], xml, in;
        const bool conf = format == 1 || rnd(0, 1);
        bool autoremove = true;
        std::map<std::string, std::string> vbody;
        std::map<std::string, double> tol;
        std::map<std::string, std::vector<double>> unpacked;
        if (conf) {
            const char* ft[] = {"netcdf3", "netcdf3_64bit", "netcdf4classic", "netcdf4"};
            std::string def;
            if (format == 1 || rnd(0, 1)) { def += std::string(" filetype=\"") + ft[format] + "\""; if (rnd(0, 1)) type = "netcdf"; }
            if (rnd(0, 1)) def += " compressionLevel=\"" + S(rnd(0, 19)) + "\"";
            if (rnd(0, 2) == 0) { autoremove = false; def += " autoRemoveUnusedDimension=\"false\""; }
            xml += "<default" + def + "/>\n";
            if (rnd(0, 2) == 0) xml += "<dimension name=\"x\" chunkSize=\"" + S(rnd(1, 5)) + "\"/>\n";
            // removals first
            for (const char* a : {"g", "h"}) if (rnd(0, 3) == 0) { xml += std::string("<remove type=\"attribute\" name=\"") + a + "\"/>\n"; m.glob.erase(a); }
            if (rnd(0, 3) == 0 && m.vars.count("b")) { xml += "<remove type=\"variable\" name=\"b\"/>\n"; m.vars.erase("b"); }
            auto used = [&](const std::string& d) { for (const auto& v : m.vars) if (std::count(v.second.shape.begin(), v.second.shape.end(), d)) return true; return false; };
            if (rnd(0, 3) == 0) { const std::string d = rnd(0, 1) ? "e" : "y"; xml += "<remove type=\"dimension\" name=\"" + d + "\"/>\n"; if (!used(d)) m.dims.erase(d); }
            if (rnd(0, 3) == 0) { m.glob["h"] = CDMAttribute("h", std::string("changed")); in += "<attribute name=\"h\" type=\"string\" value=\"changed\"/>\n"; }
            if (rnd(0, 3) == 0 && m.glob.count("i")) { CDMAttribute at = m.glob["i"]; m.glob.erase("i"); at.setName("j"); m.glob["j"] = at; in += "<attribute name=\"i\" newname=\"j\"/>\n"; }
            Model before = m;
            for (const auto& n : names) {
                if (!before.vars.count(n) || rnd(0, 1)) continue;
                Var& v = m.vars[n];
                std::string head, body;
                if (rnd(0, 2) == 0) head += " compressionLevel=\"" + S(rnd(0, 19)) + "\"";
                if (v.att.count("p") && rnd(0, 3) == 0) { body += "<remove type=\"attribute\" name=\"p\"/>"; v.att.erase("p"); }
                if (rnd(0, 3) == 0) { body += "<attribute name=\"q\" type=\"short\" value=\"7\"/>"; v.att["q"] = CDMAttribute("q", mk(CDM_SHORT, {7})); }
                if (v.att.count("s") && rnd(0, 3) == 0) { body += "<attribute name=\"s\" newname=\"z\"/>"; CDMAttribute at = v.att["s"]; v.att.erase("s"); at.setName("z"); v.att["z"] = at; }
                if (n == "p" && rnd(0, 3)) {
                    // other type, packing, unit
                    const double of = fill(v), os = num(v, "scale_factor", 1), oo = num(v, "add_offset", 0);
                    const CDMDataType ot = v.type;
                    if (rnd(0, 3)) { v.type = TY[rnd(0, nc4 ? 9 : 4)]; head += std::string(" type=\"") + tname(v.type) + "\""; }
                    if ((v.type != ot && v.att.count("_FillValue")) || rnd(0, 2) == 0) { const double f = rnd(0, 1) ? 99 : 111; v.att["_FillValue"] = CDMAttribute("_FillValue", mk(v.type, {f})); body += std::string("<attribute name=\"_FillValue\" type=\"") + tname(v.type) + "\" value=\"" + S(f) + "\"/>"; }
                    if (rnd(0, 2) == 0) { v.att["scale_factor"] = CDMAttribute("scale_factor", 4.); body += "<attribute name=\"scale_factor\" type=\"double\" value=\"4\"/>"; }
                    if (rnd(0, 2) == 0) { v.att["add_offset"] = CDMAttribute("add_offset", 1.); body += "<attribute name=\"add_offset\" type=\"double\" value=\"1\"/>"; }
                    double u = 1;
                    if (rnd(0, 2) == 0) { u = rnd(0, 1) ? .001 : 1; const std::string un = u == 1 ? "meters" : "km"; v.att["units"] = CDMAttribute("units", un); body += "<attribute name=\"units\" type=\"string\" value=\"" + un + "\"/>"; }
                    const double nf = fill(v), ns = num(v, "scale_factor", 1), no = num(v, "add_offset", 0);
                    bool ok = true;
                    for (double& q : v.val) {
                        if (q == of) { q = nf; ok &= v.type != CDM_UINT64 || nf < 1e19; continue; } // the default fill value of uint64 is no double
                        q = ((q * os + oo) * u - no) / ns;
                        if (!isflt(v.type)) { ok &= q > lowest(v.type) - .5 && q < highest(v.type) - 1 && std::fabs(q - std::floor(q) - .5) > 1e-6; q = std::round(q); }
                        ok &= !close_(q, nf, 1e-3, 1e-2);
                    }
                    if (!ok) { v = before.vars[n]; head = body = ""; }
                }
                vbody[n] = head + ">" + body;
            }
            // renaming
            std::map<std::string, std::string> vn;
            Model old = m;
            if (m.dims.count("x") && m.vars.size() && rnd(0, 3) == 0) {
                in += "<dimension name=\"x\" newname=\"xx\"/>\n";
                m.dims["xx"] = m.dims["x"]; m.dims.erase("x");
                for (auto& v : m.vars) std::replace(v.second.shape.begin(), v.second.shape.end(), std::string("x"), std::string("xx"));
                if (m.vars.count("x")) { m.vars["xx"] = m.vars["x"]; m.vars.erase("x"); }
                if (!used("x") && autoremove && 0) m.dims.erase("xx");
            }
            if (m.vars.count("a") && rnd(0, 3) == 0) { m.vars["aa"] = m.vars["a"]; m.vars.erase("a"); vn["a"] = " newname=\"aa\""; vbody.insert({"a", ">"}); }
            for (const auto& b : vbody) xml += "<variable name=\"" + b.first + "\"" + vn[b.first] + b.second + "</variable>\n";
            xml += in;
        }
        if (autoremove) {
            std::set<std::string> use;
            for (const auto& v : m.vars) use.insert(v.second.shape.begin(), v.second.shape.end());
            for (auto it = m.dims.begin(); it != m.dims.end();) { if (use.count(it->first)) ++it; else it = m.dims.erase(it); }
        }
        if (!m.udim.empty() && !m.dims.count(m.udim)) m.udim = "";
        bool grows = m.udim.empty();
        for (const auto& v : m.vars) grows |= std::count(v.second.shape.begin(), v.second.shape.end(), m.udim) > 0;
        if (!grows) m.dims[m.udim] = 0; // nothing was written along the unlimited dimension
        ::begin(desc + " type " + type + "\n" + xml);
        if (xml.find("dimension name=\"x\" newname") != std::string::npos && !m.dims.count("xx")) continue; // renaming of a dimension that is not there is refused
        if (conf) std::ofstream(cfg) << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdm_ncwriter_config>\n" << xml << "</cdm_ncwriter_config>\n";
        unlink(file.c_str());
        CDMFileReaderFactory::createWriter(r, type, file, conf ? cfg : std::string());
        oracle(file, m, "written");
        auto back = CDMFileReaderFactory::create(rnd(0, 1) ? "netcdf" : "", file);
        for (auto& v : m.vars) for (auto& x : v.second.val) if (v.second.type == CDM_FLOAT) x = (float)x;
        compare(*back, m, "written and read");
        for (const auto& v : m.vars) {
            if (v.second.type == CDM_STRINGS || v.second.shape.empty()) continue;
            SliceBuilder sb(back->getCDM(), v.first);
            const VS& sh = v.second.shape;
            std::vector<size_t> st(sh.size()), sz(sh.size());
            size_t total = 1;
            for (size_t i = 0; i < sh.size(); i++) { const int L = m.dims[sh[i]]; st[i] = rnd(0, L - 1); sz[i] = rnd(1, L - int(st[i])); sb.setStartAndSize(sh[i], st[i], sz[i]); total *= sz[i]; }
            DataPtr d = back->getDataSlice(v.first, sb);
            CHECK(d->size() == total, "size of a part of " + v.first);
            for (size_t i = 0; i < total; i++) {
                size_t q = i, pos = 0, f = 1;
                for (size_t k = 0; k < sh.size(); k++) { pos += (st[k] + q % sz[k]) * f; q /= sz[k]; f *= m.dims[sh[k]]; }
                CHECK(v.second.type == CDM_STRING ? d->asString()[i] == char(v.second.val[pos]) : eqv(v.second.type, d->getDouble(i), v.second.val[pos]), "part of " + v.first + " start " + S(st) + " size " + S(sz) + " at " + S(i));
            }
        }
        if (!conf && rnd(0, 2) == 0 && !m.vars.empty()) { // data that cannot be read is not passed over
            const std::string n = std::next(m.vars.begin(), rnd(0, (int)m.vars.size() - 1))->first;
            const CDMVariable& v = r->getCDM().getVariable(n);
            const bool u = r->getCDM().hasUnlimitedDim(v);
            if (!v.hasData() && !(u && r->getCDM().getUnlimitedDim()->getLength() == 0)) {
                r->broken = n;
                r->brokenAt = u ? rnd(0, (int)r->getCDM().getUnlimitedDim()->getLength() - 1) : 0;
                const std::string file2 = file + ".2";
                CHECK(throws([&] { CDMFileReaderFactory::createWriter(r, type, file2, std::string()); }), "no error although " + n + " cannot be read");
                unlink(file2.c_str());
            }
        }
    }
    return done();
}
