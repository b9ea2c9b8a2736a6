// merging of an inner and an outer grid: smoothed border, overlay, target grid
#include "grid.h"
#include "fimex/CDMBorderSmoothing.h"
#include "fimex/CDMBorderSmoothing_Linear.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
struct Pack { CDMDataType t; double scale, off, fill; bool hasfill; std::string units; };
struct Src { std::shared_ptr<MemReader> r; Grid g; std::vector<double> x, y; std::map<std::string, Pack> p; };
static double deffill(const Pack& p) { return p.hasfill ? p.fill : p.t == CDM_SHORT ? -32767. : 9.9692099683868690e+36; }
static double unpack(const Pack& p, double raw) { return std::isnan(raw) || close_(raw, deffill(p), 1e-6) ? NAN : raw * p.scale + p.off; }
// value in the first unit given in the second one
static double conv(const std::string& from, const std::string& to, double v) { return from == to || from.empty() || to.empty() ? v : from == "K" ? v - 273.15 : v + 273.15; }
static void addvar(Src& s, const std::string& n, const Pack& p, const std::vector<std::string>& shape, bool grid)
{
    size_t len = 1;
    for (auto& d : shape) len *= s.r->getCDM().getDimension(d).getLength();
    std::vector<double> v(len);
    for (double& e : v) e = rnd(0, 9) == 0 ? deffill(p) : p.t == CDM_SHORT ? rnd(-300, 300) : rnd(-3000, 3000) / 8.;
    s.r->var(n, p.t, shape, v);
    if (p.hasfill) s.r->getInternalCDM().addAttribute(n, CDMAttribute("_FillValue", createData(p.t, 1, p.fill)));
    if (p.scale != 1) s.r->att(n, "scale_factor", p.scale);
    if (p.off != 0) s.r->att(n, "add_offset", p.off);
    if (!p.units.empty()) s.r->att(n, "units", p.units);
    if (grid) s.r->att(n, "grid_mapping", std::string("gm"));
    s.p[n] = p;
}
static Pack mkpack(bool units)
{
    Pack p;
    const CDMDataType ty[] = {CDM_FLOAT, CDM_DOUBLE, CDM_SHORT};
    p.t = ty[rnd(0, 2)];
    const bool pk = rnd(0, 2) == 0;
    p.scale = pk ? .5 : 1;
    p.off = pk ? rnd(-1, 1) * 4 : 0;
    p.hasfill = rnd(0, 3) > 0;
    p.fill = -9999; // no packed value comes near
    p.units = !units ? "" : rnd(0, 2) ? "K" : "degC";
    return p;
}
// weight of the outer value: one at the edge, falling to zero over the transition
static double weight(long x, long y, long nx, long ny, long tr, long bo)
{
    auto d = [&](long i, long n) { return i < bo + tr ? double(bo + tr - i) : i >= n - bo - tr ? double(i - (n - bo - tr)) : 0; };
    if (x < bo || y < bo || x >= nx - bo || y >= ny - bo) return 1;
    return std::min(1., std::hypot(d(x, nx), d(y, ny)) / tr);
}
static Src mksrc(const Grid& g, const std::vector<double>& x, const std::vector<double>& y, int nk, int nt)
{
    Src s;
    s.r = std::make_shared<MemReader>();
    s.g = g; s.x = x; s.y = y;
    addgrid(*s.r, g, x, y);
    s.r->dim("k", nk);
    std::vector<double> kv(nk);
    for (int i = 0; i < nk; i++) kv[i] = 10 * i + 1;
    s.r->var("k", CDM_DOUBLE, {"k"}, kv);
    s.r->att("k", "units", std::string("m")); s.r->att("k", "standard_name", std::string("height"));
    addtime(*s.r, nt);
    return s;
}
static double tolof(const Pack& p, double v) { return p.t == CDM_SHORT ? .51 * p.scale + 1e-4 * std::fabs(v) : p.t == CDM_FLOAT ? 1e-3 + 1e-6 * std::fabs(v) : 1e-3 + 1e-6 * std::fabs(v); }
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const Grid g = mkgrid(rnd(0, 4)), go = rnd(0, 2) ? g : mkgrid(g.kind);
        const int nx = rnd(2, 9), ny = rnd(2, 9), nk = rnd(1, 2), nt = rnd(1, 2);
        const double w = g.x1 - g.x0, h = g.y1 - g.y0;
        const bool aligned = g.p == go.p && rnd(0, 3) == 0; // the edges of the outer grid are on the extended inner grid
        const double unit = g.deg ? .125 : 1024;
        auto al = [&](double v) { return aligned ? std::round(v / unit) * unit : v; };
        const double sx = al(w / 60), sy = al(h / 60);
        std::vector<double> x(nx), y(ny), X, Y;
        const double x0 = al(g.x0 + w * .4 + frnd(0, w * .05)), y0 = al(g.y0 + h * .4 + frnd(0, h * .05));
        const int dx = rnd(0, 3) ? 1 : -1, dy = rnd(0, 3) ? 1 : -1;
        for (int i = 0; i < nx; i++) x[i] = x0 + sx * (dx > 0 ? i : nx - 1 - i);
        for (int i = 0; i < ny; i++) y[i] = y0 + sy * (dy > 0 ? i : ny - 1 - i);
        const int NX = rnd(5, 9), NY = rnd(5, 9);
        auto margin = [&] { return aligned ? rnd(0, 3) : frnd(.1, 3); };
        const double ox = x0 - margin() * sx, oy = y0 - margin() * sy, ex = x0 + (nx - 1 + margin()) * sx, ey = y0 + (ny - 1 + margin()) * sy;
        X.resize(NX); Y.resize(NY);
        const int Dx = rnd(0, 3) ? 1 : -1, Dy = rnd(0, 3) ? 1 : -1;
        for (int i = 0; i < NX; i++) X[i] = ox + (ex - ox) * (Dx > 0 ? i : NX - 1 - i) / (NX - 1);
        for (int i = 0; i < NY; i++) Y[i] = oy + (ey - oy) * (Dy > 0 ? i : NY - 1 - i) / (NY - 1);
        Src I = mksrc(g, x, y, nk, nt), O = mksrc(go, X, Y, nk, nt);
        const std::string xn = g.xn(), yn = g.yn();
        const bool km = !g.deg && !aligned && rnd(0, 2) == 0, kmy = !g.deg && !aligned && rnd(0, 2) == 0;
        auto rescale = [&](const std::string& n) {
            I.r->getInternalCDM().addOrReplaceAttribute(n, CDMAttribute("units", "km"));
            for (double& v : I.r->values[n]) v /= 1000;
        };
        if (km) rescale(xn);
        if (kmy) rescale(yn);
        const bool units = rnd(0, 1), useOuter = rnd(0, 1), keep = rnd(0, 1);
        const std::vector<std::string> full = {xn, yn, "k", "t"};
        const bool samep = rnd(0, 1), flat = rnd(0, 2) == 0;
        for (const char* n : {"a", "a2"}) {
            const Pack p = mkpack(units);
            addvar(I, n, p, full, true);
            Pack q = samep ? p : mkpack(units && rnd(0, 9));
            addvar(O, n, q, full, true);
        }
        const Pack pf = mkpack(false);
        if (flat) { addvar(I, "flat", pf, {xn, yn}, true); addvar(O, "flat", pf, {xn, yn}, true); }
        // a variable of shapes that may or may not fit: levels, realizations or order of the axes differ
        const int variant = rnd(0, 4), eI = rnd(1, 3), eO = rnd(0, 1) ? eI : rnd(1, 3);
        const Pack po = mkpack(false);
        bool fits = true;
        {
            std::vector<std::string> si = {xn, yn}, so = {xn, yn};
            auto ens = [&](Src& s, const std::string& n, int len) {
                s.r->dim(n, len);
                std::vector<double> v(len);
                for (int i = 0; i < len; i++) v[i] = i;
                s.r->var(n, CDM_INT, {n}, v);
                s.r->att(n, "standard_name", std::string("realization")); s.r->att(n, "units", std::string("1"));
            };
            switch (variant) {
            case 0: si.push_back("k"); fits = nk == 1; break;
            case 1: so.push_back("k"); fits = nk == 1; break;
            case 2: ens(I, "e", eI); ens(O, rnd(0, 1) ? "e" : "member", eO); si.push_back("e"); so.push_back(O.r->getCDM().hasDimension("e") ? "e" : "member"); fits = eI == eO; break;
            case 3: std::swap(so[0], so[1]); fits = false; break;
            default: ens(I, "e", eI); si.insert(si.begin() + rnd(0, 2), "e"); fits = eI == 1;
            }
            if (rnd(0, 1)) { si.push_back("t"); so.push_back("t"); }
            addvar(I, "odd", po, si, true);
            addvar(O, "odd", po, so, true);
        }
        // and one without axes, of equal or different length
        const int bI = rnd(1, 4), bO = rnd(0, 2) ? bI : rnd(1, 4);
        const Pack pl = mkpack(false);
        I.r->dim("b", bI); O.r->dim("b", bO);
        addvar(I, "loose", pl, {"b"}, false); addvar(O, "loose", pl, {"b"}, false);
        addvar(I, "in", mkpack(false), full, true);
        addvar(O, "out", mkpack(false), full, true);
        const Pack pp = mkpack(false);
        const bool prof = rnd(0, 1);
        if (prof) { addvar(I, "prof", pp, {"k"}, false); addvar(O, "prof", pp, {"k"}, false); addvar(I, "series", pp, {"t"}, false); addvar(O, "series", pp, {"t"}, false); addvar(I, "s0", pp, {}, false); addvar(O, "s0", pp, {}, false); }
        const int methods[] = {MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_NEAREST_NEIGHBOR};
        const int m = methods[rnd(0, 1)];
        const int tr = rnd(1, 4), bo = rnd(0, 2);
        std::string desc = (aligned ? "aligned kind " : "kind ") + S(g.kind) + " km " + S(km) + S(kmy) + " x " + S(x) + " y " + S(y) + " X " + S(X) + " Y " + S(Y) + " method " + S(m) + " tr " + S(tr) + " bo " + S(bo) + " same " + S(samep) + " units " + S(units) + " useOuter " + S(useOuter) + " keep " + S(keep) + " prof " + S(prof) + " " + go.p + " odd " + S(variant) + S(eI) + S(eO) + S(I.r->getCDM().getVariable("odd").getShape()) + S(O.r->getCDM().getVariable("odd").getShape()) + " nk " + S(nk) + " loose " + S(bI) + S(bO);
        for (auto& e : I.p) desc += " I:" + e.first + " t" + S((int)e.second.t) + " " + S(e.second.scale) + "," + S(e.second.off) + "," + S(e.second.hasfill) + e.second.units;
        for (auto& e : O.p) desc += " O:" + e.first + " t" + S((int)e.second.t) + " " + S(e.second.scale) + "," + S(e.second.off) + "," + S(e.second.hasfill) + e.second.units;
        ::begin(desc);
        if (rnd(0, 2) == 0) for (Src* s : {&I, &O}) for (const auto& e : s->p) if (rnd(0, 1)) { s->r->inMemory(e.first); CASE += " " + e.first + " in memory"; }
        const std::map<std::string, std::vector<double>> before = I.r->values, beforeO = O.r->values;
        const std::string ux = g.deg ? I.r->getCDM().getUnits(xn) : "m", uy = g.deg ? I.r->getCDM().getUnits(yn) : "m";
        std::string proj = g.p;
        auto grid = [&](CDMReader_p r, const std::vector<double>& ax, const std::vector<double>& ay, int method) {
            auto ip = std::make_shared<CDMInterpolator>(r);
            ip->changeProjection(method, proj, ax, ay, ux, uy);
            return ip;
        };
        auto fac = createSmoothingFactory("LINEAR(" + S(tr) + "," + S(bo) + ")");
        std::vector<std::string> common = {"a", "a2"};
        if (flat) common.push_back("flat");
        if (fits) common.push_back("odd");
        // border smoothing
        auto sm = std::make_shared<CDMBorderSmoothing>(I.r, O.r, m);
        sm->setSmoothing(fac);
        sm->setUseOuterIfInnerUndefined(useOuter);
        CHECK(!sm->getCDM().hasVariable("in") && !sm->getCDM().hasVariable("out"), "variables of one source in the smoothed data");
        proj = findCompleteCoordinateSystemFor(listCoordinateSystems(I.r), "a")->getProjection()->getProj4String();
        auto onI = grid(O.r, x, y, m);
        proj = g.p;
        auto plain = [&](CDMReader& r, const std::string& what) {
            if (!prof) return;
            for (const char* n : {"prof", "series", "s0"}) {
                if (!r.getCDM().hasVariable(n)) continue;
                DataPtr d = r.getData(n);
                const std::vector<double>& e = I.r->values[n];
                CHECK(d->getDataType() == pp.t, what + ": type of " + n);
                CHECK(d->size() == e.size(), what + ": size of " + n);
                const std::vector<double> v = all(d);
                for (size_t i = 0; i < e.size(); i++) {
                    if ((useOuter || what == "merging") && std::isnan(unpack(pp, e[i]))) continue;
                    CHECK(close_(v[i], e[i]) || (std::isnan(unpack(pp, e[i])) && std::isnan(unpack(pp, v[i]))), what + ": value of " + n);
                }
            }
        };
        std::map<std::string, std::vector<double>> smraw;
        for (const auto& n : common) {
            CHECK(sm->getCDM().hasVariable(n), "smoothed " + n);
            const Pack &p = I.p[n], &q = O.p[n];
            const std::vector<double> a = I.r->values[n];
            std::vector<double> b, c;
            const bool ul = sm->getCDM().hasUnlimitedDim(sm->getCDM().getVariable(n));
            for (int t = 0; t < (ul ? nt : 1); t++) {
                for (double v : all(onI->getDataSlice(n, t))) b.push_back(v);
                DataPtr d = sm->getDataSlice(n, t);
                CHECK(d->getDataType() == p.t, "type of smoothed " + n);
                for (double v : all(d)) c.push_back(v);
            }
            CHECK(c.size() == a.size() && b.size() == a.size(), "size of smoothed " + n);
            for (size_t i = 0; i < a.size(); i++) {
                const double vi = unpack(p, a[i]), vo = conv(q.units, p.units, unpack(q, b[i]));
                const double al = weight(i % nx, i / nx % ny, nx, ny, tr, bo);
                const double e = std::isnan(vi) ? (useOuter ? vo : NAN) : std::isnan(vo) ? vi : vi + al * (vo - vi);
                const double got = unpack(p, c[i]);
                CHECK(std::isnan(e) == std::isnan(got) && (std::isnan(e) || std::fabs(e - got) < tolof(p, e)), "smoothed " + n + " at " + S(i) + ": " + S(got) + " instead of " + S(e) + " inner " + S(vi) + " outer " + S(vo));
            }
            const std::vector<double> w = all(sm->getData(n));
            CHECK(w.size() == c.size(), "whole data of smoothed " + n);
            for (size_t i = 0; i < w.size(); i++) CHECK(close_(w[i], c[i]), "whole data of smoothed " + n + " at " + S(i));
            smraw[n] = c;
        }
        CHECK(sm->getCDM().hasVariable("odd") == fits, "smoothed variable that does not fit, or missing one that does");
        CHECK(sm->getCDM().hasVariable("loose") == (bI == bO), "smoothed variable of other length");
        if (bI == bO) CHECK(all(sm->getData("loose")) == I.r->values["loose"], "smoothed variable without grid");
        plain(*sm, "smoothing");
        for (const auto& n : {xn, yn}) CHECK(all(sm->getData(n)) == I.r->values[n], "axis of smoothed data");

        // the smoothed data and the outer data on the target grid
        std::vector<double> tx, ty;
        const bool fromInner = g.p == go.p && (aligned || rnd(0, 1));
        CDMMerger mg(I.r, O.r);
        if (rnd(0, 1)) { mg.setSmoothing(fac); mg.setUseOuterIfInnerUndefined(useOuter); mg.setKeepOuterVariables(keep); mg.setGridInterpolationMethod(m); }
        else { mg.setGridInterpolationMethod(m); mg.setKeepOuterVariables(keep); mg.setUseOuterIfInnerUndefined(useOuter); mg.setSmoothing(fac); }
        CHECK(throws([&] { mg.getDataSlice("a", 0); }), "data without a target grid");
        if (fromInner) {
            mg.setTargetGridFromInner();
            auto ext = [](const std::vector<double>& a, const std::vector<double>& A) {
                const double st = a[1] - a[0], lo = std::min(A[0], A.back()), hi = std::max(A[0], A.back());
                std::vector<double> r;
                for (int i = 50; i > 0; i--) { const double v = a[0] - i * st; if (v >= lo && v <= hi) r.push_back(v); }
                r.insert(r.end(), a.begin(), a.end());
                for (int i = 1; i < 50; i++) { const double v = a.back() + i * st; if (v >= lo && v <= hi) r.push_back(v); }
                return r;
            };
            tx = ext(x, X);
            ty = ext(y, Y);
            const std::vector<std::string> sh = mg.getCDM().getVariable("a").getShape();
            const std::vector<double> ax = all(mg.getScaledDataInUnit(sh[0], ux)), ay = all(mg.getScaledDataInUnit(sh[1], uy));
            CHECK(ax.size() == tx.size() && ay.size() == ty.size(), "extended axes " + S(ax) + S(ay) + " instead of " + S(tx) + S(ty));
            for (size_t i = 0; i < ax.size(); i++) CHECK(close_(ax[i], tx[i], 1e-9, 1e-9), "extended x axis");
            for (size_t i = 0; i < ay.size(); i++) CHECK(close_(ay[i], ty[i], 1e-9, 1e-9), "extended y axis");
            if (aligned) continue; // cells on the very edge are inside or outside by rounding
            tx = ax;
            ty = ay;
            proj = findCompleteCoordinateSystemFor(listCoordinateSystems(I.r), "a")->getProjection()->getProj4String();
        } else {
            const int n1 = rnd(2, 12), n2 = rnd(2, 12);
            const double a = X[0] + frnd(-.2, .6) * (X.back() - X[0]), b = Y[0] + frnd(-.2, .6) * (Y.back() - Y[0]), s = (rnd(0, 1) ? 1 : -1) * frnd(.3, 1.2);
            for (int i = 0; i < n1; i++) tx.push_back(a + i * s * sx);
            for (int i = 0; i < n2; i++) ty.push_back(b + i * s * sy);
            if (rnd(0, 1))
                mg.setTargetGrid(g.p, tx, ty, ux, uy, CDM_DOUBLE, CDM_DOUBLE);
            else {
                auto join = [](const std::vector<double>& a) { std::string r; for (double v : a) { std::ostringstream o; o.precision(17); o << v; r += (r.empty() ? "" : ",") + o.str(); } return r; };
                mg.setTargetGrid(g.p, join(tx), join(ty), ux, uy, "double", "double");
            }
        }
        // smoothing within the merger is always bilinear
        std::shared_ptr<CDMBorderSmoothing> s2 = sm;
        if (m != MIFI_INTERPOL_BILINEAR) { s2 = std::make_shared<CDMBorderSmoothing>(I.r, O.r); s2->setSmoothing(fac); s2->setUseOuterIfInnerUndefined(useOuter); }
        auto T = grid(s2, tx, ty, m), B = grid(O.r, tx, ty, m);
        CHECK(!mg.getCDM().hasVariable("in") && mg.getCDM().hasVariable("out") == keep, "variables of one source in the merged data");
        for (const auto& n : common) {
            CHECK(mg.getCDM().hasVariable(n), "merged " + n);
            const Pack &p = I.p[n], &q = O.p[n];
            std::vector<double> a, b, c;
            const bool ul = mg.getCDM().hasUnlimitedDim(mg.getCDM().getVariable(n));
            for (int t = 0; t < (ul ? nt : 1); t++) {
                for (double v : all(T->getDataSlice(n, t))) a.push_back(v);
                for (double v : all(B->getDataSlice(n, t))) b.push_back(v);
                DataPtr d = mg.getDataSlice(n, t);
                CHECK(d->getDataType() == p.t, "type of merged " + n);
                for (double v : all(d)) c.push_back(v);
            }
            CHECK(c.size() == a.size() && b.size() == a.size(), "size of merged " + n);
            for (size_t i = 0; i < a.size(); i++) {
                const double vt = unpack(p, a[i]), vb = conv(q.units, p.units, unpack(q, b[i]));
                const double e = std::isnan(vt) ? vb : vt, got = unpack(p, c[i]);
                CHECK(std::isnan(e) == std::isnan(got) && (std::isnan(e) || std::fabs(e - got) < tolof(p, e)), "merged " + n + " at " + S(i) + ": " + S(got) + " instead of " + S(e) + " top " + S(vt) + " base " + S(vb));
            }
            const std::vector<double> w = all(mg.getData(n));
            CHECK(w.size() == c.size(), "whole data of " + n);
            for (size_t i = 0; i < w.size(); i++) CHECK(close_(w[i], c[i]), "whole data of " + n + " at " + S(i));
        }
        CHECK(mg.getCDM().hasVariable("odd") == (fits || keep), "merged variable that does not fit, or missing one that does");
        if (keep) {
            for (int t = 0; t < nt; t++) {
                const std::vector<double> a = all(B->getDataSlice("out", t)), b = all(mg.getDataSlice("out", t));
                CHECK(a.size() == b.size(), "size of kept variable");
                for (size_t i = 0; i < a.size(); i++) CHECK(close_(a[i], b[i]), "kept variable at " + S(i));
            }
            for (const auto& at : B->getCDM().getAttributes("out")) { CDMAttribute o; CHECK(mg.getCDM().getAttribute("out", at.getName(), o) && o.getStringValue() == at.getStringValue(), "attribute of kept variable " + at.getName()); }
        }
        plain(mg, "merging");
        const std::vector<std::string> ms = mg.getCDM().getVariable("a").getShape();
        CHECK(ms.size() == 4, "shape");
        for (int d = 0; d < 2; d++) {
            const std::vector<double> v = all(mg.getScaledDataInUnit(ms[d], d ? uy : ux)), &e = d ? ty : tx;
            CHECK(v.size() == e.size(), "length of target axis " + S(v) + " instead of " + S(e));
            for (size_t i = 0; i < v.size(); i++) CHECK(close_(v[i], e[i], 1e-9, 1e-9), "target axis");
        }
        for (auto& e : before) CHECK(I.r->values[e.first] == e.second, "inner data");
        for (auto& e : beforeO) CHECK(O.r->values[e.first] == e.second, "outer data");
        // overlay alone: top where defined, else base on the grid of top
        CDMOverlay ov(O.r, I.r, m, keep);
        CHECK(ov.getCDM().hasVariable("loose") == (bI == bO), "overlay of variable of other length");
        if (bI == bO) {
            const std::vector<double> v = all(ov.getData("loose")), a = I.r->values["loose"], b = O.r->values["loose"];
            CHECK(v.size() == a.size(), "size of overlay without grid");
            for (size_t i = 0; i < a.size(); i++) {
                const double va = unpack(pl, a[i]), vb = unpack(pl, b[i]), e = std::isnan(va) ? vb : va, got = unpack(pl, v[i]);
                CHECK(std::isnan(e) == std::isnan(got) && (std::isnan(e) || std::fabs(e - got) < tolof(pl, e)), "overlay without grid");
            }
        }
        for (const auto& n : common) {
            const Pack &p = I.p[n], &q = O.p[n];
            for (int t = 0; t < (I.r->getCDM().hasUnlimitedDim(I.r->getCDM().getVariable(n)) ? nt : 1); t++) {
                const std::vector<double> b = all(onI->getDataSlice(n, t)), c = all(ov.getDataSlice(n, t)), a = all(I.r->getDataSlice(n, t));
                CHECK(a.size() == c.size() && a.size() == b.size(), "size of overlay");
                for (size_t i = 0; i < a.size(); i++) {
                    const double vt = unpack(p, a[i]), vb = conv(q.units, p.units, unpack(q, b[i])), e = std::isnan(vt) ? vb : vt, got = unpack(p, c[i]);
                    CHECK(std::isnan(e) == std::isnan(got) && (std::isnan(e) || std::fabs(e - got) < tolof(p, e)), "overlay of " + n + " at " + S(i) + ": " + S(got) + " instead of " + S(e) + " top " + S(vt) + " base " + S(vb));
                }
            }
        }
    }
    return done();
}
