// accumulation and deaccumulation along the unlimited dimension, in any order of access
#include "harness.h"
#include "fimex/CDMProcessor.h"
MAIN
{
    INIT
    const CDMDataType types[] = {CDM_SHORT, CDM_FLOAT, CDM_DOUBLE, CDM_INT};
    for (long run = 0; run < N; run++) {
        auto r = std::make_shared<MemReader>();
        const int nt = rnd(1, 6), nx = rnd(1, 4);
        r->dim("x", nx);
        r->dim("t", nt, true);
        const bool packed = rnd(0, 1), isVoid = rnd(0, 4) == 0, withFill = !isVoid && rnd(0, 1);
        const double scale = packed ? (rnd(0, 1) ? .5 : 2) : 1, off = packed ? rnd(-4, 4) : 0, fill = -999;
        const char* names[] = {"a", "b"};
        std::vector<double> v[2];
        std::string desc = "nt " + S(nt) + " nx " + S(nx) + " scale " + S(scale) + " offset " + S(off) + " fill " + S(withFill);
        for (int k = 0; k < 2; k++) {
            const CDMDataType t = types[rnd(0, 3)];
            for (int i = 0; i < nt * nx; i++)
                v[k].push_back(withFill && rnd(0, 7) == 0 ? fill : rnd(-40, 40));
            r->var(names[k], t, {"x", "t"}, v[k]);
            r->getInternalCDM().addAttribute(names[k], CDMAttribute("_FillValue", createData(t, 1, fill)));
            if (packed) {
                r->att(names[k], "scale_factor", scale);
                r->att(names[k], "add_offset", off);
            }
            if (isVoid)
                r->empty[names[k]].insert(rnd(0, nt - 1));
            if (!isVoid && rnd(0, 2) == 0) {
                DataPtr d = createData(t, nt * nx);
                for (int i = 0; i < nt * nx; i++)
                    d->setValue(i, v[k][i]);
                r->getInternalCDM().getVariable(names[k]).setData(d);
            }
            desc += std::string(" ") + names[k] + " type " + S((int)t) + " " + S(v[k]);
        }
        const bool acc = rnd(0, 1);
        begin(desc + (acc ? " accumulate" : " deaccumulate") + (isVoid ? " missing slice" : ""));
        auto p = std::make_shared<CDMProcessor>(r);
        for (int k = 0; k < 2; k++) {
            if (acc) p->accumulate(names[k]);
            else p->deAccumulate(names[k]);
        }
        auto un = [&](double x) { return x == fill ? NAN : x * scale + off; };
        std::vector<double> want[2];
        std::vector<bool> avail[2];
        for (int k = 0; k < 2; k++) {
            want[k].assign(nt * nx, NAN);
            avail[k].assign(nt, true);
            for (int t = 0; t < nt; t++) {
                const std::set<size_t>& e = r->empty[names[k]];
                for (int x = 0; x < nx; x++) {
                    double s = 0;
                    if (acc) {
                        if (t == 0)
                            s = un(v[k][x]);
                        else
                            for (int u = 0; u <= t; u++) {
                                if (e.count(u)) continue;
                                const double y = un(v[k][u * nx + x]);
                                s += u == 0 && std::isnan(y) ? 0 : y;
                            }
                    } else {
                        s = un(v[k][t * nx + x]);
                        if (t > 0 && !e.count(t - 1)) {
                            const double y = un(v[k][(t - 1) * nx + x]);
                            s -= t == 1 && std::isnan(y) ? 0 : y;
                        }
                    }
                    want[k][t * nx + x] = s;
                }
                if (acc) {
                    bool any = false;
                    for (int u = 0; u <= t; u++)
                        any |= !e.count(u);
                    avail[k][t] = any;
                    // undefined values of the first step count as 0 only when added to another step
                    for (int x = 0; t > 0 && x < nx; x++) {
                        int n = 0;
                        for (int u = 1; u <= t; u++)
                            n += !e.count(u);
                        if (n == 0)
                            want[k][t * nx + x] = un(v[k][x]);
                    }
                } else
                    avail[k][t] = !e.count(t);
            }
        }
        for (int q = 0; q < 8; q++) {
            const int k = rnd(0, 1), t = rnd(0, nt - 1);
            CASE += " read " + std::string(names[k]) + S(t);
            DataPtr d = rnd(0, 1) ? p->getScaledDataSlice(names[k], t) : nullptr;
            std::vector<double> g;
            if (d)
                g = all(d);
            else {
                g = all(p->getDataSlice(names[k], t));
                for (double& x : g)
                    x = un(x);
            }
            CHECK(g.size() == (avail[k][t] ? nx : 0), "size " + S(g.size()));
            for (size_t x = 0; x < g.size(); x++)
                CHECK(close_(g[x], want[k][t * nx + x]), "element " + S(x) + " is " + S(g[x]) + ", not " + S(want[k][t * nx + x]));
        }
        // all steps, or some of them
        for (int k = 0; k < 2; k++) {
            const int lo = rnd(0, nt - 1), len = rnd(1, nt - lo);
            const CDMDataType ty = p->getCDM().getVariable(names[k]).getDataType();
            const double half = ty == CDM_FLOAT || ty == CDM_DOUBLE ? 1e-5 : .5001 * scale; // rounded to the type of the variable
            SliceBuilder sb(p->getCDM(), names[k]);
            sb.setStartAndSize("t", lo, len);
            sb.setAll("x");
            const std::vector<double> g = all(p->getData(names[k])), h = all(p->getDataSlice(names[k], sb));
            CHECK(g.size() == size_t(nt * nx) && h.size() == size_t(len * nx), "size of all steps");
            for (int i = 0; i < nt * nx; i++) {
                const double w = avail[k][i / nx] ? want[k][i] : NAN;
                CHECK(close_(un(g[i]), w, 1e-9, half), "all steps, element " + S(i) + " is " + S(un(g[i])) + ", not " + S(w));
                if (i / nx >= lo && i / nx < lo + len) CHECK(close_(un(h[i - lo * nx]), w, 1e-9, half), "steps from " + S(lo) + ", element " + S(i) + " is " + S(un(h[i - lo * nx])) + ", not " + S(w));
            }
        }
        for (int k = 0; k < 2; k++)
            for (int t = 0; t < nt; t++) {
                if (r->empty[names[k]].count(t)) continue;
                CHECK(all(r->getDataSlice(names[k], t)) == std::vector<double>(v[k].begin() + t * nx, v[k].begin() + (t + 1) * nx), "the reader's own data changed");
            }
        if (!isVoid && !withFill) {
            // one undoes the other
            auto q = std::make_shared<CDMProcessor>(p);
            for (int k = 0; k < 2; k++) {
                if (acc) q->deAccumulate(names[k]);
                else q->accumulate(names[k]);
                for (int i = 0; i < nt; i++) {
                    const int t = rnd(0, nt - 1);
                    const std::vector<double> g = all(q->getDataSlice(names[k], t));
                    CASE += " back " + std::string(names[k]) + S(t);
                    for (int x = 0; x < nx; x++)
                        CHECK(close_(g.at(x), v[k][t * nx + x]), "deaccumulation undoes accumulation: " + S(g.at(x)) + " " + S(v[k][t * nx + x]));
                }
            }
        }
    }
    return done();
}
