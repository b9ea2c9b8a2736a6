// aggregation of several sources: joinExisting, joinNew and union, read as a whole, by position and by sub-blocks
#include "harness.h"
#include "fimex/AggregationReader.h"
#include "fimex/StringUtils.h"
#include <algorithm>
typedef std::vector<size_t> V;
typedef std::vector<std::string> VS;
static std::string join_(const VS& v) { std::string r; for (const auto& s : v) r += (r.empty() ? "" : ",") + s; return r; }
struct Var { CDMDataType type; VS shape; std::vector<double> val; double fill; };
struct Src { std::map<std::string, size_t> dims; std::string udim; std::map<std::string, Var> vars; VS order; std::shared_ptr<MemReader> r; std::string coord; };
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const char* types[] = {"joinExisting", "joinNew", "union"};
        const int type = rnd(0, 2);
        const int n = rnd(1, 4);
        std::string desc = types[type];
        std::map<std::string, size_t> common{{"x", rnd(1, 3)}, {"y", rnd(1, 3)}, {"z", rnd(1, 3)}};
        const VS names{"a", "b", "c", "d", "t", "x"};
        const bool stable = rnd(0, 3) != 0; // all sources agree on the lengths
        const size_t ut = rnd(1, 3);
        std::vector<Src> src(n);
        const std::string T = "t";
        const bool coords = type == 1 ? rnd(0, 3) != 0 : rnd(0, 1);
        double value = 1;
        bool unl = rnd(0, 3) != 0;
        for (int k = 0; k < n; k++) {
            Src& s = src[k];
            s.r = std::make_shared<MemReader>();
            if (rnd(0, 9) == 0) unl = !unl;
            s.udim = unl ? (rnd(0, 14) ? T : "u") : "";
            for (const auto& c : common) if (c.first == "x" || rnd(0, 4)) s.dims[c.first] = stable || rnd(0, 2) ? c.second : rnd(1, 3);
            if (!s.udim.empty()) s.dims[s.udim] = type == 2 ? (stable ? ut : rnd(1, 3)) : rnd(0, 3);
            desc += " | " + s.udim;
            for (const auto& d : s.dims) {
                s.r->dim(d.first, d.second, d.first == s.udim);
                desc += " " + d.first + "=" + S(d.second);
            }
            VS todo = names;
            std::shuffle(todo.begin(), todo.end(), RNG);
            for (const auto& v : todo) {
                if (rnd(0, 3) == 0) continue;
                Var w;
                w.type = rnd(0, 1) ? CDM_INT : CDM_DOUBLE;
                if (v == "a") w.shape = {"x", "y"};
                if (v == "b") w.shape = {"z"};
                if (v == "c") w.shape = {"x"};
                if (v == "d" || v == "t") w.shape = {};
                if (v == "x") w.shape = {"x"};
                if (v == "t" && s.udim.empty()) continue;
                if (!s.udim.empty() && (v == "t" || (v == "a" || v == "d" ? rnd(0, 9) != 0 : v == "x" ? false : rnd(0, 9) == 0))) w.shape.push_back(s.udim);
                if (std::any_of(w.shape.begin(), w.shape.end(), [&](const std::string& d) { return !s.dims.count(d); })) continue;
                w.type = v == "b" || v == "t" ? CDM_DOUBLE : CDM_INT;
                w.fill = -99;
                size_t c = 1;
                for (const auto& d : w.shape) c *= s.dims[d];
                w.val.resize(c);
                for (auto& q : w.val) q = value++;
                s.r->var(v, w.type, w.shape, w.val);
                if (w.type == CDM_INT) s.r->att(v, "_FillValue", -99); else s.r->att(v, "_FillValue", -99.);
                if (rnd(0, 3) == 0) {
                    DataPtr d = createData(w.type, c);
                    for (size_t i = 0; i < c; i++) d->setValue(i, w.val[i]);
                    s.r->getInternalCDM().getVariable(v).setData(d);
                    desc += " mem";
                }
                desc += " " + v + "(" + join_(w.shape) + ")";
                s.vars[v] = w;
                s.order.push_back(v);
            }
            const size_t cn = type == 1 ? 1 : type == 0 && s.udim == T ? s.dims[T] : 0;
            if (coords) for (size_t i = 0; i < cn; i++) s.coord += (i ? " " : "") + S(1000 * (k + 1) + (int)i);
            desc += " coord " + s.coord;
        }
        // the aggregation
        std::set<std::string> jn;
        const std::string J = "j";
        if (type == 1) {
            for (const auto& v : {"a", "b", "d"}) if (rnd(0, 1)) jn.insert(v);
            desc += " new for " + join_(VS(jn.begin(), jn.end()));
        }
        ::begin(desc);
        // the unlimited dimension of a joined aggregation is the first that is seen
        std::string U;
        if (type == 1) U = J;
        else for (const Src& s : src) if (U.empty()) U = s.udim;
        AggregationReader agg(types[type]);
        if (type == 1) agg.joinNewVars(J, jn);
        size_t total = 0;
        V starts, lens;
        bool mixed = false; // a dimension that is unlimited in one source only cannot be aggregated
        for (const Src& s : src) for (const Src& q : src) for (const auto& d : s.dims) if (q.dims.count(d.first) && (q.udim == d.first) != (s.udim == d.first)) mixed = true;
        if (mixed) continue;
        for (int k = 0; k < n; k++) {
            const Src& s = src[k];
            size_t l = type == 1 ? 1 : type == 0 && s.udim == U && !U.empty() ? s.dims.at(U) : 0;
            starts.push_back(total);
            lens.push_back(l);
            total += l;
            agg.addReader(s.r, rnd(0, 1) ? "r" + S(k) : "", type == 0 && s.udim != U ? "" : s.coord);
        }
        agg.initAggregation();
        const CDM& cdm = agg.getCDM();
        if (type != 2 && !U.empty()) {
            CHECK(cdm.getUnlimitedDim() && cdm.getUnlimitedDim()->getName() == U, "unlimited dimension");
            CHECK(cdm.getUnlimitedDim()->getLength() == total, "length of the joined dimension " + S(cdm.getUnlimitedDim()->getLength()) + " not " + S(total));
        }
        auto same = [&](const Src& s, const VS& shape) { // lengths as in the aggregation
            for (const auto& d : shape) if (d != U || type == 2) if (!cdm.hasDimension(d) || cdm.getDimension(d).getLength() != s.dims.at(d)) return false;
            return true;
        };
        for (const auto& v : names) {
            // the first source with the variable
            int first = -1;
            for (int k = n - 1; k >= 0; k--) if (src[k].vars.count(v)) first = k;
            if (first < 0) { CHECK(!cdm.hasVariable(v), v + " appeared"); continue; }
            const bool hasv = cdm.hasVariable(v);
            const Var& fv = src[first].vars[v];
            const bool joined = type == 0 ? std::count(fv.shape.begin(), fv.shape.end(), U) && src[first].udim == U : type == 1 ? jn.count(v) > 0 : false;
            if (stable && first == 0) CHECK(hasv, v + " disappeared");
            if (stable && type == 0 && joined) CHECK(hasv, v + " disappeared");
            if (stable && type == 1 && !std::count(fv.shape.begin(), fv.shape.end(), src[first].udim)) CHECK(hasv, v + " disappeared");
            if (stable && type == 2 && src[first].udim != "u" && src[0].udim != "u") { bool u = false; for (auto& s : src) u |= s.udim == "u"; if (!u) CHECK(hasv, v + " disappeared"); }
            if (!hasv) continue;
            const VS shape = cdm.getVariable(v).getShape();
            for (const auto& d : shape) CHECK(cdm.hasDimension(d), "dimension " + d + " of " + v + " missing");
            std::vector<double> want;
            if (type != 2 && (joined || type == 0) && std::count(shape.begin(), shape.end(), U)) {
                VS rest = shape;
                CHECK(rest.back() == U, "joined dimension is the slowest");
                size_t slice = 1;
                for (const auto& d : rest) if (d != U) slice *= cdm.getDimension(d).getLength();
                for (int k = 0; k < n; k++) {
                    for (size_t p = 0; p < lens[k]; p++) {
                        VS sh = shape;
                        if (type == 1) sh.pop_back();
                        const auto it = src[k].vars.find(v);
                        const bool ok = it != src[k].vars.end() && it->second.shape == sh && same(src[k], sh);
                        for (size_t i = 0; i < slice; i++) want.push_back(ok ? it->second.val.at(p * slice + i) : -99);
                    }
                }
                if (v == U && coords && type == 0) {
                    want.clear();
                    for (int k = 0; k < n; k++) for (size_t p = 0; p < lens[k]; p++) want.push_back(1000 * (k + 1) + (int)p);
                }
            } else {
                // from the first source whose dimensions agree
                int k = first;
                if (first != 0) { k = -1; for (int q = n - 1; q >= 0; q--) if (src[q].vars.count(v) && src[q].vars[v].shape == shape && same(src[q], shape)) k = q; }
                CHECK(k >= 0, v + " in no source");
                CHECK(src[k].vars[v].shape == shape, "shape of " + v);
                want = src[k].vars[v].val;
                if (v == U && coords && type == 0) continue;
            }
            size_t cnt = 1;
            for (const auto& d : shape) cnt *= cdm.getDimension(d).getLength();
            CHECK(want.size() == cnt, v + " has " + S(cnt) + " values, not " + S(want.size()));
            auto eq = [&](DataPtr d, const std::vector<double>& w, const std::string& how) {
                CHECK(d, v + " not read " + how);
                CHECK(d->size() == w.size(), v + " " + how + ": " + S(d->size()) + " values, not " + S(w.size()));
                const std::vector<double> g = all(d);
                for (size_t i = 0; i < w.size(); i++) CHECK(g[i] == w[i], v + " " + how + " at " + S(i) + ": " + S(g) + " not " + S(w));
            };
            eq(agg.getData(v), want, "as a whole");
            const bool ul = cdm.hasUnlimitedDim(cdm.getVariable(v));
            if (ul) {
                const size_t L = cdm.getUnlimitedDim()->getLength();
                for (size_t p = 0; p < L; p++) eq(agg.getDataSlice(v, p), std::vector<double>(want.begin() + p * (cnt / L), want.begin() + (p + 1) * (cnt / L)), "at position " + S(p));
            } else
                eq(agg.getDataSlice(v, 0), want, "by position");
            SliceBuilder sb(cdm, v);
            V st, sz;
            for (const auto& d : shape) {
                const size_t L = cdm.getDimension(d).getLength();
                st.push_back(L ? rnd(0, L - 1) : 0);
                sz.push_back(L ? rnd(1, L - st.back()) : 0);
                sb.setStartAndSize(d, st.back(), sz.back());
            }
            std::vector<double> part;
            for (size_t i = 0; i < cnt; i++) {
                size_t q = i;
                bool in = true;
                for (size_t j = 0; j < shape.size(); j++) {
                    const size_t L = cdm.getDimension(shape[j]).getLength();
                    in &= q % L >= st[j] && q % L < st[j] + sz[j];
                    q /= L;
                }
                if (in) part.push_back(want[i]);
            }
            eq(agg.getDataSlice(v, sb), part, "part " + S(st) + S(sz));
        }
        if (type == 1 && coords) {
            CHECK(cdm.hasVariable(J), "coordinate of the new dimension");
            const std::vector<double> c = all(agg.getData(J));
            CHECK((int)c.size() == n, "size of the new coordinate");
            for (int k = 0; k < n; k++) CHECK(c[k] == 1000 * (k + 1), "new coordinate");
        }
    }
    return done();
}
