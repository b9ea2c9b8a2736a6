// the C interface against the dataset behind the handle
#include "harness.h"
#include "grid.h"
#include "fimex/c_fimex.h"
#include "fimex/mifi_cdm_reader.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMReaderUtils.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/coordSys/Projection.h"
#include <algorithm>
#include <cstring>
typedef std::vector<std::string> VS;
typedef std::vector<double> VD;
static std::string ST(const char* c) { return c; }
struct V { CDMDataType t; VS shape; VD packed; double scale, off; bool fill, temp; };
static const double FILL = -99;
static std::map<std::string, V> vars;
static std::map<std::string, size_t> len;
static double real(const V& v, double p) { return v.fill && p == FILL ? NAN : p * v.scale + v.off; }
static std::string taken(char* s) { CHECK(s, "no text"); std::string r(s); free(s); return r; }
// text copied into a buffer of any size
static void copies(const std::string& want, const std::function<int(char*, int)>& f, const std::string& what)
{
    for (int k = 0; k < 2; k++) {
        const int n = std::max(0, (int)want.size() + rnd(-2, 4));
        std::vector<char> b(n + 4, 'Q');
        const int r = f(b.data(), n);
        if ((int)want.size() + 1 > n) {
            CHECK(r == 0, what + " too long: " + S(r));
        } else {
            CHECK(r == (int)want.size() + 1, what + ": " + S(r));
            CHECK(std::string(b.data()) == want, what + ": " + b.data());
        }
        for (int i = n; i < n + 4; i++) CHECK(b[i] == 'Q', what + " beyond the buffer");
    }
}
static int called; static std::string calledFor; static size_t calledPos;
static double addend;
static int addTo(mifi_cdm_reader*, const char* n, size_t pos, double* d, size_t size)
{
    called++; calledFor = n; calledPos = pos;
    for (size_t i = 0; i < size; i++) d[i] = std::isnan(d[i]) ? -5 : d[i] + addend;
    return 0;
}
static int refuses(mifi_cdm_reader*, const char*, size_t, double*, size_t) { return 3; }
// all values of a variable in its own order of dimensions, cut to start and size by dimension
static VD cut(const V& v, const std::map<std::string, std::pair<size_t, size_t>>& sel)
{
    VD r;
    const size_t n = v.shape.size();
    std::vector<size_t> a(n, 0), z(n), p;
    for (size_t i = 0; i < n; i++) { z[i] = len[v.shape[i]]; auto it = sel.find(v.shape[i]); if (it != sel.end()) a[i] = it->second.first, z[i] = it->second.second; }
    p = a;
    for (size_t i = 0; i < n; i++) if (z[i] == 0) return r;
    while (true) {
        size_t q = 0, f = 1;
        for (size_t i = 0; i < n; i++) { q += p[i] * f; f *= len[v.shape[i]]; }
        r.push_back(real(v, v.packed[q]));
        size_t i = 0;
        for (; i < n; i++) { if (++p[i] < a[i] + z[i]) break; p[i] = a[i]; }
        if (i == n) return r;
    }
}
static void matches(const VD& g, const VD& w, const std::string& what)
{
    CHECK(g.size() == w.size(), what + " size " + S(g.size()) + " expected " + S(w.size()));
    for (size_t i = 0; i < g.size(); i++) CHECK(close_(g[i], w[i], 1e-6, 1e-6), what + " [" + S(i) + "] " + S(g[i]) + " expected " + S(w[i]));
}
MAIN
{
    INIT
    for (long it = 0; it < N; it++) {
        vars.clear(); len.clear();
        auto r = std::make_shared<MemReader>();
        const Grid g = mkgrid(rnd(0, 4));
        const int nx = rnd(1, 4), ny = rnd(1, 4), nt = rnd(0, 3);
        const VD xs = mkaxis(g.x0, g.x1, nx, rnd(0, 1) ? 1 : -1), ys = mkaxis(g.y0, g.y1, ny, rnd(0, 1) ? 1 : -1);
        addgrid(*r, g, xs, ys);
        if (nt) addtime(*r, nt);
        r->dim("z", 2);
        len[g.xn()] = nx; len[g.yn()] = ny; len["t"] = nt; len["z"] = 2;
        const int nv = rnd(1, 4);
        bool lonlat = g.kind == 4;
        for (int i = 0; i < nv; i++) {
            V v;
            v.t = rnd(0, 2) == 0 ? CDM_DOUBLE : rnd(0, 1) ? CDM_FLOAT : rnd(0, 1) ? CDM_SHORT : CDM_INT;
            const int kind = rnd(0, 4); // 0: no coordinate system
            if (kind) { v.shape = {g.xn(), g.yn()}; if (rnd(0, 3) == 0) std::swap(v.shape[0], v.shape[1]); }
            else if (rnd(0, 1)) v.shape = {"z"};
            else if (rnd(0, 1)) v.shape = {"z", g.xn()};
            if (nt && rnd(0, 2)) v.shape.push_back("t");
            v.fill = rnd(0, 1); v.temp = rnd(0, 1);
            const bool pack = rnd(0, 1);
            v.scale = pack ? .5 : 1; v.off = pack ? 10 : 0;
            size_t n = 1;
            for (auto& d : v.shape) n *= len[d];
            for (size_t k = 0; k < n; k++) v.packed.push_back(v.fill && rnd(0, 4) == 0 ? FILL : rnd(-50, 50));
            const std::string name = "v" + S(i);
            r->var(name, v.t, v.shape, v.packed);
            if (kind) r->att(name, "grid_mapping", ST("gm"));
            if (v.fill) r->getInternalCDM().addAttribute(name, CDMAttribute("_FillValue", v.t, VS{S(FILL)}));
            if (pack) { r->att(name, "scale_factor", .5); r->att(name, "add_offset", 10.); }
            r->att(name, "units", ST(v.temp ? "celsius" : "m"));
            if (rnd(0, 4) == 0) r->inMemory(name);
            vars[name] = v;
        }
        const int ref = rnd(0, 2);
        for (int i = 0; i < ref; i++) {
            r->var("ref" + S(i), CDM_DOUBLE, {}, {10. + i});
            r->att("ref" + S(i), "standard_name", ST("forecast_reference_time"));
            r->att("ref" + S(i), "units", ST("days since 1970-01-01 00:00:00"));
        }
        std::string desc = "grid " + S(g.kind) + " " + S(nx) + "x" + S(ny) + "x" + S(nt);
        for (auto& v : vars) desc += " " + v.first + S(v.second.shape) + datatype2string(v.second.t);
        ::begin(desc);
        mifi_cdm_reader* h = new mifi_cdm_reader(r);
        const CDM& cdm = r->getCDM();
        // the description
        CHECK(mifi_get_variable_number(h) == cdm.getVariables().size(), "number of variables");
        for (size_t i = 0; i < cdm.getVariables().size(); i++) {
            const CDMVariable& v = cdm.getVariables()[i];
            CHECK(v.getName() == mifi_get_variable_name(h, i), "variable " + S(i));
            CHECK((int)mifi_get_variable_type(h, v.getName().c_str()) == (int)v.getDataType(), "type of " + v.getName());
        }
        { const char* q = mifi_get_variable_name(h, cdm.getVariables().size()); CHECK(!q || !*q, "name beyond the last"); }
        CHECK(mifi_get_variable_type(h, "nosuch") == CDM_NAT, "type of nothing");
        CHECK(mifi_get_dimension_number(h) == cdm.getDimensions().size(), "number of dimensions");
        for (size_t i = 0; i < cdm.getDimensions().size(); i++) {
            const CDMDimension& d = cdm.getDimensions()[i];
            CHECK(d.getName() == mifi_get_dimension_name(h, i), "dimension " + S(i));
            CHECK(mifi_get_dimension_size(h, d.getName().c_str()) == len[d.getName()], "size of " + d.getName());
        }
        { const char* q = mifi_get_dimension_name(h, cdm.getDimensions().size()); CHECK(!q || !*q, "name beyond the last dimension"); }
        CHECK(mifi_get_dimension_size(h, "nosuch") == 0, "size of nothing");
        CHECK(std::string(mifi_get_unlimited_dimension_name(h)) == (nt ? "t" : ""), "unlimited dimension");
        const double rt = mifi_get_unique_forecast_reference_time(h, "hours since 1970-01-02 00:00:00");
        CHECK(ref == 1 ? close_(rt, 9 * 24, 1e-12) : std::isnan(rt), "reference time " + S(rt));
        CHECK(std::isnan(mifi_get_unique_forecast_reference_time(h, "m")), "reference time in metres");
        // the data
        for (auto& q : vars) {
            const std::string& n = q.first; const V& v = q.second; const char* cn = n.c_str();
            const bool grid = v.shape.size() >= 2 && v.shape[0] != "z", time = v.shape.size() && v.shape.back() == "t";
            if (grid && lonlat) {
                CHECK(taken(mifi_get_var_longitude(h, cn)) == "lon" && taken(mifi_get_var_latitude(h, cn)) == "lat", "longitude and latitude");
                copies("lon", [&](char* b, int k) { return mifi_get_var_longitude_cpy(h, cn, b, k); }, "longitude");
                copies("lat", [&](char* b, int k) { return mifi_get_var_latitude_cpy(h, cn, b, k); }, "latitude");
            }
            if (!grid || (g.kind != 4 && !lonlat)) {
                CHECK(mifi_get_var_longitude(h, cn) == 0 && mifi_get_var_latitude(h, cn) == 0, "longitude or latitude of " + n);
                char b[4] = {'Q', 'Q', 'Q', 'Q'};
                const int room = rnd(0, 3);
                CHECK(mifi_get_var_longitude_cpy(h, cn, b, room) == -1 && mifi_get_var_latitude_cpy(h, cn, b, room) == -1 && b[room] == 'Q', "longitude or latitude copied for " + n);
            }
            double* d = 0; size_t sz = 0;
            CHECK(mifi_get_double_data(h, cn, &d, &sz) == 0, "data of " + n);
            matches(VD(d, d + sz), cut(v, {}), "data of " + n);
            free(d); d = 0;
            const size_t pos = nt ? rnd(0, nt - 1) : 0;
            CHECK(mifi_get_double_dataslice(h, cn, pos, &d, &sz) == 0, "slice of " + n);
            matches(VD(d, d + sz), cut(v, time ? std::map<std::string, std::pair<size_t, size_t>>{{"t", {pos, 1}}} : std::map<std::string, std::pair<size_t, size_t>>{}), "slice " + S(pos) + " of " + n);
            free(d);
            mifi_slicebuilder* sb = mifi_new_slicebuilder(h, cn);
            CHECK(sb, "slicebuilder of " + n);
            if (grid && g.kind != 4) CHECK(mifi_slicebuilder_has_CS(sb) == 1, "coordinate system of " + n);
            CHECK(mifi_slicebuilder_has_CS(sb) == (findCompleteCoordinateSystemFor(h->csVec_, n) ? 1 : 0), "coordinate system of " + n);
            const int nd = mifi_slicebuilder_ndims(sb);
            CHECK(nd == (int)v.shape.size(), "rank of " + n);
            std::map<std::string, std::pair<size_t, size_t>> sel;
            VS names;
            for (int i = 0; i < nd; i++) {
                names.push_back(taken(const_cast<char*>(mifi_slicebuilder_dimname(sb, i))));
                copies(names.back(), [&](char* b, int k) { return mifi_slicebuilder_dimname_cpy(sb, i, b, k); }, "name of dimension");
                CHECK(names.back() == v.shape[i], "dimension " + S(i) + " of " + n + " is " + names.back());
            }
            if (mifi_slicebuilder_has_CS(sb)) {
                std::vector<int> ax(nd + 1, -7);
                const bool known = std::find(v.shape.begin(), v.shape.end(), "z") == v.shape.end();
                const int rc = mifi_slicebuilder_get_axistype(sb, ax.data());
                CHECK((rc == 0 || !known) && ax[nd] == -7, "types of axes");
                for (int i = 0; i < nd && known; i++) {
                    const std::string& m = names[i];
                    const int w = m == "t" ? CoordinateAxis::Time : m == "x" ? CoordinateAxis::GeoX : m == "y" ? CoordinateAxis::GeoY : m == "lon" ? CoordinateAxis::Lon : CoordinateAxis::Lat;
                    CHECK(ax[i] == w, "type of axis " + m + " is " + S(ax[i]));
                }
                const std::string pr = taken(const_cast<char*>(mifi_slicebuilder_get_proj4(sb)));
                auto pp = findCompleteCoordinateSystemFor(h->csVec_, n)->getProjection();
                CHECK(pr == (pp ? pp->getProj4String() : ""), "projection " + pr);
                if (grid && g.kind != 4) CHECK(pr.find("+proj=") != std::string::npos, "projection " + pr);
                copies(pr, [&](char* b, int k) { return mifi_slicebuilder_get_proj4_cpy(sb, b, k); }, "projection");
            } else {
                int none;
                CHECK(mifi_slicebuilder_get_axistype(sb, &none) != 0, "types of no axes");
                CHECK(taken(const_cast<char*>(mifi_slicebuilder_get_proj4(sb))) == "", "projection of nothing");
            }
            for (auto& m : v.shape)
                if (rnd(0, 1)) { const size_t a = rnd(0, len[m] - 1), k = rnd(1, len[m] - a); sel[m] = {a, k}; CHECK(mifi_slicebuilder_set_dim_start_size(sb, m.c_str(), a, k) == 0, "setting " + m); }
            for (auto& m : v.shape) {
                const unsigned L = len[m];
                CHECK(mifi_slicebuilder_set_dim_start_size(sb, m.c_str(), rnd(0, L), L + 1) < 0 && mifi_slicebuilder_set_dim_start_size(sb, m.c_str(), L + rnd(0, 2), 1) < 0, "outside of " + m);
            }
            CHECK(mifi_slicebuilder_set_dim_start_size(sb, "nosuch", 0, 1) < 0, "setting nothing");
            CHECK(taken(const_cast<char*>(mifi_slicebuilder_dimname(sb, nd + rnd(0, 2)))) == "" && taken(const_cast<char*>(mifi_slicebuilder_dimname(sb, -1))) == "", "name beyond the last dimension");
            std::vector<unsigned> a(nd + 1, 77), z(nd + 1, 77);
            CHECK(mifi_slicebuilder_get_start_size(sb, a.data(), z.data()) == 0 && a[nd] == 77 && z[nd] == 77, "start and size");
            for (int i = 0; i < nd; i++) {
                auto s = sel.count(v.shape[i]) ? sel[v.shape[i]] : std::pair<size_t, size_t>(0, len[v.shape[i]]);
                CHECK(a[i] == s.first && z[i] == s.second, "start and size of " + v.shape[i]);
            }
            const VD want = cut(v, sel);
            VD buf(want.size() + 3, 4321);
            const int un = rnd(0, 3); // 0: none
            const char* u = un == 0 ? "" : v.temp ? un == 1 ? "K" : "celsius" : un == 1 ? "km" : "m";
            VD w = want;
            for (double& x : w) if (un == 1) x = v.temp ? x + 273.15 : x / 1000;
            CHECK(mifi_fill_scaled_double_dataslice(h, cn, sb, u, buf.data(), &sz) == 0, "part of " + n);
            CHECK(sz <= want.size(), "more than asked for");
            CHECK(buf[want.size()] == 4321, "beyond the part");
            matches(VD(buf.begin(), buf.begin() + sz), w, "part of " + n + " in '" + u + "'");
            CHECK(mifi_fill_scaled_double_dataslice(h, cn, sb, v.temp ? "m" : "K", buf.data(), &sz) != 0, "part in a unit that does not fit");
            CHECK(mifi_fill_scaled_double_dataslice(h, cn, sb, "", 0, &sz) != 0 && sz == 0, "no room");
            CHECK(mifi_write_scaled_double_dataslice(h, cn, sb, "", buf.data(), 1) != 0, "written to a reader");
            mifi_free_slicebuilder(sb);
        }
        double* d = 0; size_t sz = 0;
        CHECK(mifi_get_double_data(h, "nosuch", &d, &sz) != 0 && mifi_get_double_dataslice(h, "nosuch", 0, &d, &sz) != 0, "data of nothing");
        CHECK(mifi_new_slicebuilder(h, "nosuch") == 0, "slicebuilder of nothing");
        // a callback changes the data of its variable and nothing else
        if (rnd(0, 1)) {
            mifi_cdm_reader* c = mifi_new_c_reader(h);
            CHECK(c, "callback reader");
            const std::string n = "v" + S(rnd(0, nv - 1));
            CHECK(mifi_set_callback_double(c, "nosuch", addTo) != 0, "callback of nothing");
            CHECK(mifi_set_callback_double(h, n.c_str(), addTo) != 0, "callback of another reader");
            const bool bad = rnd(0, 4) == 0;
            addend = rnd(-100, 100);
            CHECK(mifi_set_callback_double(c, n.c_str(), bad ? refuses : addTo) == 0, "callback");
            CHECK(mifi_get_variable_type(c, n.c_str()) == CDM_DOUBLE, "type with callback");
            for (auto& q : vars) {
                const V& v = q.second;
                const bool time = v.shape.size() && v.shape.back() == "t", mine = q.first == n;
                const size_t pos = nt ? rnd(0, nt - 1) : 0;
                called = 0;
                const int rc = mifi_get_double_dataslice(c, q.first.c_str(), pos, &d, &sz);
                if (mine && bad) { CHECK(rc != 0, "refused by the callback"); continue; }
                CHECK(rc == 0, "slice with callback of " + n + ": " + q.first);
                CHECK(called == (mine ? 1 : 0), "calls " + S(called));
                if (mine) CHECK(calledFor == n && calledPos == pos, "called for " + calledFor);
                VD w = cut(v, time ? std::map<std::string, std::pair<size_t, size_t>>{{"t", {pos, 1}}} : std::map<std::string, std::pair<size_t, size_t>>{});
                if (mine) for (double& x : w) x = std::isnan(x) ? -5 : x + addend;
                matches(VD(d, d + sz), w, "slice with callback of " + q.first);
                free(d);
                CHECK(mifi_get_double_data(c, q.first.c_str(), &d, &sz) == 0, "data with callback");
                w = cut(v, {});
                if (mine) for (double& x : w) x = std::isnan(x) ? -5 : x + addend;
                matches(VD(d, d + sz), w, "data with callback of " + q.first);
                free(d);
                matches(all(r->getScaledData(q.first)), cut(v, {}), "data below the callback");
            }
            mifi_free_cdm_reader(c);
        }
        // interpolation to places
        if (rnd(0, 2) == 0 && nx > 1 && ny > 1) {
            const int k = rnd(1, 4), m = rnd(0, 1) ? MIFI_INTERPOL_BILINEAR : MIFI_INTERPOL_NEAREST_NEIGHBOR;
            VD lo(k), la(k);
            for (int i = 0; i < k; i++) lo[i] = frnd(-40, 40), la[i] = frnd(40, 80);
            auto ip = std::make_shared<CDMInterpolator>(r);
            const bool ok = !throws([&] { ip->changeProjection(m, lo, la); });
            mifi_cdm_reader* c = mifi_new_lonlat_interpolator(h, m, k, lo.data(), la.data());
            CHECK((c != 0) == ok, "interpolator");
            if (c) {
                for (auto& q : vars) {
                    if (!ip->getCDM().hasVariable(q.first)) continue;
                    CHECK(mifi_get_double_data(c, q.first.c_str(), &d, &sz) == 0, "interpolated");
                    matches(VD(d, d + sz), all(ip->getScaledData(q.first)), "interpolated " + q.first);
                    free(d);
                }
                mifi_free_cdm_reader(c);
            }
        }
        // written, changed and read again
        if (rnd(0, 5) == 0) {
            const std::string f = SCRATCH + "/capi.nc";
            unlink(f.c_str());
            CHECK(mifi_writer(h, "nc4", f.c_str(), rnd(0, 1) ? "" : 0) == 0, "written");
            mifi_cdm_reader* c = mifi_new_io_reader("nc4+rw", f.c_str(), "");
            CHECK(c, "opened");
            const std::string n = "v" + S(rnd(0, nv - 1));
            V& v = vars[n];
            mifi_slicebuilder* sb = mifi_new_slicebuilder(c, n.c_str());
            std::map<std::string, std::pair<size_t, size_t>> sel;
            for (auto& m : v.shape) if (rnd(0, 1)) { const size_t a = rnd(0, len[m] - 1), k = rnd(1, len[m] - a); sel[m] = {a, k}; mifi_slicebuilder_set_dim_start_size(sb, m.c_str(), a, k); }
            const size_t k = cut(v, sel).size();
            const bool unit = rnd(0, 1);
            VD put(k);
            for (double& x : put) x = rnd(-20, 20);
            // the variable after writing
            V after = v;
            std::vector<size_t> where;
            { V idx = v; idx.fill = false; idx.scale = 1; idx.off = 0; for (size_t i = 0; i < idx.packed.size(); i++) idx.packed[i] = i; for (double x : cut(idx, sel)) where.push_back(x); }
            for (size_t i = 0; i < k; i++) after.packed[where[i]] = (put[i] - v.off) / v.scale;
            VD sent = put;
            if (unit) for (double& x : sent) x = v.temp ? x + 273.15 : x / 1000;
            CHECK(mifi_write_scaled_double_dataslice(c, n.c_str(), sb, unit ? (v.temp ? "K" : "km") : v.temp ? "celsius" : "m", sent.data(), k) == 0, "written part");
            CHECK(mifi_write_scaled_double_dataslice(c, n.c_str(), sb, "m", 0, k) != 0 && mifi_write_scaled_double_dataslice(c, n.c_str(), sb, "m", 0, 0) == 0, "nothing to write");
            mifi_free_slicebuilder(sb);
            mifi_free_cdm_reader(c);
            c = mifi_new_io_reader("nc4", f.c_str(), "");
            CHECK(c, "opened again");
            for (auto& q : vars) {
                CHECK(mifi_get_double_data(c, q.first.c_str(), &d, &sz) == 0, "read again");
                matches(VD(d, d + sz), cut(q.first == n ? after : q.second, {}), "read again " + q.first);
                free(d);
            }
            mifi_free_cdm_reader(c);
            unlink(f.c_str());
        }
        CHECK(mifi_new_io_reader("nc4", (SCRATCH + "/nosuch.nc").c_str(), "") == 0, "opened nothing");
        mifi_free_cdm_reader(h);
    }
    return done();
}
