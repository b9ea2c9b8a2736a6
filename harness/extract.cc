// extraction: parts of dimensions by position, time, vertical coordinate and bounding box; selection of variables
#include "harness.h"
#include "grid.h"
#include "fimex/CDMExtractor.h"
#include "fimex/FimexTime.h"
#include "fimex/TimeUnit.h"
#include "fimex/mifi_constants.h"
#include "fimex/reproject.h"
#include <algorithm>
typedef std::vector<size_t> V;
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        auto r = std::make_shared<MemReader>();
        const int kind = rnd(0, 4);
        Grid g = mkgrid(kind);
        const int nx = rnd(1, 7), ny = rnd(1, 7), nz = rnd(1, 5), nt = rnd(1, 5);
        if (kind == 4) g.x0 = rnd(0, 1) ? -40 : 150, g.x1 = g.x0 + 80; // also east of 180
        std::vector<double> xs = mkaxis(g.x0, g.x1, nx, rnd(0, 1) ? 1 : -1, 40), ys = mkaxis(g.y0, g.y1, ny, rnd(0, 1) ? 1 : -1, 40);
        addgrid(*r, g, xs, ys);
        const std::string X = g.xn(), Y = g.yn();
        const bool down = rnd(0, 1);
        std::vector<double> zs(nz);
        for (int i = 0; i < nz; i++) zs[i] = 1000 - 100 * (down ? i : nz - i);
        r->dim("z", nz);
        r->var("z", CDM_DOUBLE, {"z"}, zs);
        r->att("z", "units", std::string("hPa"));
        r->att("z", "standard_name", std::string("air_pressure"));
        const double t0 = rnd(-30, 30), dt = rnd(1, 6);
        addtime(*r, nt, "hours since 2020-01-01 00:00:00", t0, dt);
        // variables of several shapes; values tell the position
        struct Var { std::string n; std::vector<std::string> shape; };
        std::vector<Var> vars{{"a", {X, Y, "z", "t"}}, {"b", {X, Y}}, {"c", {"z", "t"}}, {"d", {X}}, {"e", {Y, X, "t"}}, {"f", {}}};
        std::map<std::string, size_t> len{{X, (size_t)nx}, {Y, (size_t)ny}, {"z", (size_t)nz}, {"t", (size_t)nt}};
        for (const Var& v : vars) {
            size_t n = 1;
            for (const auto& d : v.shape) n *= len[d];
            std::vector<double> val(n);
            for (size_t i = 0; i < n; i++) val[i] = i + 1;
            r->var(v.n, CDM_INT, v.shape, val);
            if (v.shape.size() >= 2) {
                r->att(v.n, "grid_mapping", std::string("gm"));
            }
            if (rnd(0, 3) == 0) {
                DataPtr d = createData(CDM_INT, n);
                for (size_t i = 0; i < n; i++) d->setValue(i, val[i]);
                r->getInternalCDM().getVariable(v.n).setData(d);
            }
        }
        std::string desc = "kind " + S(kind) + " sizes " + S(nx) + " " + S(ny) + " " + S(nz) + " " + S(nt) + " x " + S(xs) + " y " + S(ys) + " t0 " + S(t0) + " dt " + S(dt) + " z " + S(zs);
        ::begin(desc);
        auto e = std::make_shared<CDMExtractor>(r);
        std::map<std::string, V> keep;
        for (const auto& l : len) {
            V all;
            for (size_t i = 0; i < l.second; i++) all.push_back(i);
            keep[l.first] = all;
        }
        std::set<std::string> reduced;
        auto note = [&](const std::string& s) { desc += "; " + s; CASE = desc; };
        const int nops = rnd(1, 4);
        for (int op = 0; op < nops; op++) {
            const std::string dims[] = {X, Y, "z", "t"};
            const std::string d = dims[rnd(0, 3)];
            switch (rnd(0, 5)) {
            case 0: { // any positions
                std::set<size_t> s;
                const int k = rnd(0, 4);
                for (int i = 0; i < k; i++) s.insert(rnd(0, (int)len[d] - 1));
                const bool bad = rnd(0, 5) == 0;
                if (bad) s.insert(len[d] + (rnd(0, 1) ? 0 : rnd(1, 3)));
                note("positions of " + d + " " + S(V(s.begin(), s.end())));
                const bool thrown = throws([&] { e->reduceDimension(d, s); });
                CHECK(thrown == bad, bad ? "position outside accepted" : "positions rejected");
                if (!bad) { keep[d] = V(s.begin(), s.end()); reduced.insert(d); }
                break;
            }
            case 1: { // start and size
                const size_t a = rnd(0, (int)len[d]), n = rnd(0, (int)len[d] + 1);
                note("start,size of " + d + " " + S(a) + "," + S(n));
                const bool bad = a + n > len[d];
                const bool thrown = throws([&] { e->reduceDimension(d, a, n); });
                CHECK(thrown == bad, bad ? "range outside accepted" : "range rejected");
                if (!bad) { keep[d].clear(); for (size_t i = 0; i < n; i++) keep[d].push_back(a + i); reduced.insert(d); }
                break;
            }
            case 2: { // start and end, negative from the end
                const int L = len[d], a = rnd(0, L), z = rnd(-L - 1, L);
                note("start,end of " + d + " " + S(a) + "," + S(z));
                if (reduced.count(d)) break; // counted from the end of what is left
                const long last = z > 0 ? z : L - 1 + z;
                const bool bad = a > last + 1 || last > L - 1;
                const bool thrown = throws([&] { e->reduceDimensionStartEnd(d, a, z); });
                CHECK(thrown == bad, bad ? "range outside accepted" : "range rejected");
                if (!bad) { keep[d].clear(); for (long i = a; i <= last; i++) keep[d].push_back(i); reduced.insert(d); }
                break;
            }
            case 3: { // time
                const double a = t0 + rnd(-2, 6 * nt) * .5, b = a + rnd(-1, 20) * .5;
                auto T = [](double h) { TimeUnit tu("hours since 2020-01-01 00:00:00"); return tu.unitTime2fimexTime(h); };
                const bool openA = rnd(0, 4) == 0, openB = rnd(0, 4) == 0;
                note("time " + S(a) + " " + S(b) + " open " + S(openA) + S(openB));
                e->reduceTime(openA ? FimexTime(FimexTime::min_date_time) : T(a), openB ? FimexTime(FimexTime::max_date_time) : T(b));
                if (reduced.insert("t").second) {
                    keep["t"].clear();
                    for (int i = 0; i < nt; i++)
                        if ((openA || t0 + i * dt >= a - .001) && (openB || t0 + i * dt <= b + .001)) keep["t"].push_back(i);
                }
                break;
            }
            case 4: { // vertical
                const double a = rnd(3, 10) * 100 + rnd(0, 1) * 50, b = a + rnd(-1, 5) * 100;
                note("vertical " + S(a) + " " + S(b));
                e->reduceVerticalAxis("Pa", a * 100, b * 100);
                if (reduced.insert("z").second) {
                    keep["z"].clear();
                    for (int i = 0; i < nz; i++)
                        if (zs[i] >= a - .1 && zs[i] <= b + .1) keep["z"].push_back(i);
                }
                break;
            }
            default: { // bounding box
                // around some cell
                const int cx = rnd(0, nx - 1), cy = rnd(0, ny - 1);
                std::vector<double> lon, lat;
                for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) { lon.push_back(xs[x]); lat.push_back(ys[y]); }
                if (kind != 4) reproject::reproject_values(g.p, MIFI_WGS84_LATLON_PROJ4, lon.data(), lat.data(), lon.size());
                auto wrap = [](double l) { while (l > 180) l -= 360; while (l < -180) l += 360; return l; };
                const double clon = wrap(lon[cx + cy * nx]), clat = lat[cx + cy * nx];
                double s = std::max(-90., clat - frnd(.1, 9)), n = std::min(90., clat + frnd(.1, 9)), w = wrap(clon - frnd(.1, 40)), ea = wrap(clon + frnd(.1, 40));
                bool edge = false, exact = kind == 4 && rnd(0, 1) && std::fabs(lon[0]) < 180 && std::fabs(lon.back()) < 180; // box through the cells
                if (exact) {
                    s = clat, n = lat[rnd(0, nx * ny - 1)], w = clon, ea = lon[rnd(0, nx * ny - 1)];
                    if (s > n) std::swap(s, n);
                    if (rnd(0, 1) && w > ea) std::swap(w, ea);
                }
                std::set<size_t> kx, ky;
                for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) {
                    const double lo = wrap(lon[x + y * nx]), la = lat[x + y * nx];
                    for (double q : {lo - w, lo - ea, la - s, la - n}) edge |= std::fabs(q) < 1e-5 || std::fabs(std::fabs(q) - 360) < 1e-5;
                    if (la < s || la > n) continue;
                    if (w <= ea ? (lo < w || lo > ea) : (lo > ea && lo < w)) continue;
                    kx.insert(x); ky.insert(y);
                }
                if ((edge && !exact) || std::fabs(clat) > 89.9) break;
                note("box " + S(s) + " " + S(n) + " " + S(w) + " " + S(ea));
                e->reduceLatLonBoundingBox(s, n, w, ea);
                keep[X] = V(kx.begin(), kx.end()); keep[Y] = V(ky.begin(), ky.end());
                reduced.insert(X); reduced.insert(Y);
            }
            }
        }
        for (const auto& k : keep)
            CHECK(e->getCDM().getDimension(k.first).getLength() == k.second.size(), "length of " + k.first + " is " + S(e->getCDM().getDimension(k.first).getLength()) + " instead of " + S(k.second));
        // coordinates and data
        auto read = [&](const std::string& n, const std::vector<std::string>& shape, const std::vector<double>& src) {
            std::vector<double> want;
            std::function<void(int, size_t)> rec = [&](int k, size_t base) {
                if (k < 0) { want.push_back(src.at(base)); return; }
                size_t stride = 1;
                for (int q = 0; q < k; q++) stride *= len[shape[q]];
                for (size_t i : keep[shape[k]]) rec(k - 1, base + i * stride);
            };
            rec((int)shape.size() - 1, 0);
            DataPtr d = e->getData(n);
            CHECK(d->size() == want.size(), "whole " + n + ": size " + S(d->size()) + " instead of " + S(want.size()));
            auto v = d->asDouble();
            for (size_t i = 0; i < want.size(); i++) CHECK(close_(v[i], want[i], 1e-12), "whole " + n + ": value " + S(i) + " is " + S(v[i]) + " instead of " + S(want[i]));
            // by unlimited position
            if (!shape.empty() && shape.back() == "t") {
                const size_t nk = keep["t"].size(), per = nk ? want.size() / nk : 0;
                for (size_t t = 0; t < nk; t++) {
                    DataPtr q = e->getDataSlice(n, t);
                    CHECK(q->size() == per, "step " + S(t) + " of " + n + ": size " + S(q->size()));
                    auto w = q->asDouble();
                    for (size_t i = 0; i < per; i++) CHECK(close_(w[i], want[t * per + i], 1e-12), "step " + S(t) + " of " + n + ": value " + S(i) + " is " + S(w[i]));
                }
            }
            // any part
            SliceBuilder sb(e->getCDM(), n);
            V st, sz, ln;
            std::string part;
            bool ok = true;
            for (const auto& dn : shape) {
                const size_t L = keep[dn].size();
                if (!L) { ok = false; break; }
                st.push_back(rnd(0, (int)L - 1));
                sz.push_back(rnd(1, (int)(L - st.back())));
                ln.push_back(L);
                sb.setStartAndSize(dn, st.back(), sz.back());
                part += " " + dn + ":" + S(st.back()) + "+" + S(sz.back());
            }
            if (ok) {
                std::vector<double> w;
                std::function<void(int, size_t)> rec2 = [&](int k, size_t base) {
                    if (k < 0) { w.push_back(want.at(base)); return; }
                    size_t stride = 1;
                    for (int q = 0; q < k; q++) stride *= ln[q];
                    for (size_t i = 0; i < sz[k]; i++) rec2(k - 1, base + (st[k] + i) * stride);
                };
                rec2((int)shape.size() - 1, 0);
                DataPtr q = e->getDataSlice(n, sb);
                CHECK(q->size() == w.size(), "part" + part + " of " + n + ": size " + S(q->size()));
                auto a = q->asDouble();
                for (size_t i = 0; i < w.size(); i++) CHECK(close_(a[i], w[i], 1e-12), "part" + part + " of " + n + ": value " + S(i) + " is " + S(a[i]) + " instead of " + S(w[i]));
            }
        };
        for (const Var& v : vars) {
            size_t n = 1;
            for (const auto& d : v.shape) n *= len[d];
            std::vector<double> val(n);
            for (size_t i = 0; i < n; i++) val[i] = i + 1;
            read(v.n, v.shape, val);
        }
        read(X, {X}, xs);
        read(Y, {Y}, ys);
        read("z", {"z"}, zs);
        // selection
        std::set<std::string> sel{"a", X, "nosuch"};
        if (rnd(0, 1)) sel.insert("e");
        e->selectVariables(sel, false);
        for (const Var& v : vars) CHECK(e->getCDM().hasVariable(v.n) == (sel.count(v.n) > 0), "selection of " + v.n);
        CHECK(e->getCDM().hasVariable(X), "selected axis");
        for (const Var& v : vars) CHECK(r->getCDM().hasVariable(v.n) && r->getData(v.n)->size() == r->count(v.n), "source changed");
        CHECK(r->getCDM().getDimension("t").getLength() == (size_t)nt, "source changed");
    }
    return done();
}
