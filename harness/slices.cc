// regions of variables read through a CDMReader, and validation of requests by SliceBuilder
#include "harness.h"
#include "fimex/MathUtils.h"
struct Exposed : public MemReader { using CDMReader::getDataSliceFromMemory; };
MAIN
{
    INIT
    const CDMDataType types[] = {CDM_SHORT, CDM_FLOAT, CDM_DOUBLE, CDM_INT, CDM_UCHAR};
    const struct { const char *from, *to; double scale, offset; } units[] = {{"km", "m", 1000, 0}, {"degF", "K", 5. / 9, 273.15 - 32 * 5. / 9}, {"celsius", "K", 1, 273.15}, {"hPa", "Pa", 100, 0}, {"K", "degF", 1.8, -459.67}};
    for (long run = 0; run < N; run++) {
        Exposed r;
        int rank = rnd(1, 4);
        bool unlim = rnd(0, 1);
        std::vector<std::string> shape;
        std::vector<size_t> len;
        size_t total = 1;
        for (int d = 0; d < rank; d++) {
            len.push_back(rnd(1, 4));
            total *= len[d];
            shape.push_back("d" + S(rnd(0, 3)) + S(d));
            r.dim(shape[d], len[d], unlim && d == rank - 1);
        }
        CDMDataType t = types[rnd(0, 4)];
        std::vector<double> v(total);
        for (auto& x : v)
            x = rnd(0, 120);
        r.var("v", t, shape, v);
        double fill = 7, scale = 1, off = 0;
        bool sc = rnd(0, 1);
        const int ui = rnd(0, 4);
        if (sc) {
            scale = rnd(0, 1) ? 0.5 : 3;
            off = rnd(-3, 9);
            r.getInternalCDM().addAttribute("v", CDMAttribute("_FillValue", createData(t, 1, 7.0)));
            r.getInternalCDM().addAttribute("v", CDMAttribute("scale_factor", S(scale)[0] == '0' ? 0.5 : 3.0));
            r.getInternalCDM().addAttribute("v", CDMAttribute("add_offset", off));
            r.getInternalCDM().addAttribute("v", CDMAttribute("units", units[ui].from));
        }
        bool inmem = rnd(0, 3) == 0;
        if (inmem) {
            DataPtr d = createData(t, total);
            for (size_t i = 0; i < total; i++)
                d->setValue(i, v[i]);
            r.getInternalCDM().getVariable("v").setData(d);
        }
        std::string gone;
        std::set<size_t> away;
        if (unlim && sc && !inmem && rnd(0, 2) == 0) {
            // slices that are not available are undefined
            const size_t u = rnd(0, len[rank - 1] - 1), per = total / len[rank - 1];
            away.insert(u);
            r.empty["v"].insert(u);
            std::fill(v.begin() + u * per, v.begin() + (u + 1) * per, fill);
            gone = " without slice " + S(u);
        }
        begin("shape " + S(len) + " type " + S((int)t) + " unlimited " + S(unlim) + " memory " + S(inmem) + " packed " + S(sc) + gone);
        CHECK(all(r.getData("v")) == v, "whole variable");
        SliceBuilder sb(r.getCDM(), "v");
        std::vector<size_t> start(rank, 0), size = len;
        std::set<std::string> unset(shape.begin(), shape.end());
        CHECK(r.getDims("v") == len, "sizes of the dimensions " + S(r.getDims("v")));
        for (int k = rnd(0, 5); k > 0; k--) {
            int d = rnd(0, rank - 1);
            size_t s = rnd(0, len[d]), z = rnd(0, len[d]);
            switch (rnd(0, 9)) {
            case 0: s = (size_t)-1 - rnd(0, 2); break;
            case 1: z = (size_t)-1 - rnd(0, 2); break;
            case 2: s = (size_t)-1; z = rnd(1, 3); break;
            case 3: s = len[d] + 1; z = 0; break;
            }
            bool ok = s <= len[d] && z <= len[d] - s;
            CASE += " set " + shape[d] + " " + S(s) + "," + S(z);
            if (ok) {
                sb.setStartAndSize(shape[d], s, z);
                start[d] = s;
                size[d] = z;
                unset.erase(shape[d]);
            } else
                CHECK(throws([&]() { sb.setStartAndSize(shape[d], s, z); }), "a request outside the dimension is rejected");
            if (rnd(0, 6) == 0) {
                sb.setAll(shape[d]);
                start[d] = 0;
                size[d] = len[d];
                unset.erase(shape[d]);
                CASE += " all " + shape[d];
            }
        }
        CHECK(throws([&]() { sb.setStartAndSize("nodim", 0, 1); }), "an unknown dimension is rejected");
        CHECK(sb.getDimensionStartPositions() == start && sb.getDimensionSizes() == size && sb.getMaxDimensionSizes() == len, "the builder holds the last accepted request of each dimension");
        CHECK(sb.getDimensionNames() == shape, "dimension order");
        const std::vector<std::string> un = sb.getUnsetDimensionNames();
        CHECK(un.size() == unset.size() && std::set<std::string>(un.begin(), un.end()) == unset, "dimensions not set " + S(un));
        for (int d = 0; d < rank; d++) {
            size_t s0, z0;
            sb.getStartAndSize(shape[d], s0, z0);
            CHECK(s0 == start[d] && z0 == size[d], "start and size of " + shape[d]);
        }
        std::vector<double> want;
        size_t m = 1;
        for (size_t z : size)
            m *= z;
        for (size_t i = 0; i < m; i++) {
            size_t q = i, p = 0, st = 1;
            for (int d = 0; d < rank; d++) {
                p += (start[d] + q % size[d]) * st;
                q /= size[d];
                st *= len[d];
            }
            want.push_back(v[p]);
        }
        CHECK(all(r.getDataSlice("v", sb)) == want, "region, got " + S(all(r.getDataSlice("v", sb))) + " want " + S(want));
        if (inmem) CHECK(all(r.getDataSliceFromMemory(r.getCDM().getVariable("v"), sb)) == want, "region of data in memory");
        CHECK(m == 0 || r.getDataSlice("v", sb)->getDataType() == t, "type of the region");
        std::vector<double> ws = want, wk;
        for (double& x : ws)
            x = sc && x == fill ? NAN : x * scale + off;
        for (double x : ws)
            wk.push_back(x * units[ui].scale + units[ui].offset);
        auto cmp = [](const std::vector<double>& a, const std::vector<double>& b) {
            if (a.size() != b.size())
                return false;
            for (size_t i = 0; i < a.size(); i++)
                if (!close_(a[i], b[i]))
                    return false;
            return true;
        };
        CHECK(cmp(all(r.getScaledDataSlice("v", sb)), ws), "unpacked region, got " + S(all(r.getScaledDataSlice("v", sb))) + " want " + S(ws));
        if (sc) {
            const std::string to = units[ui].to;
            CHECK(cmp(all(r.getScaledDataSliceInUnit("v", to, sb)), wk), "region in unit " + to + ", got " + S(all(r.getScaledDataSliceInUnit("v", to, sb))) + " want " + S(wk));
            std::vector<double> wa;
            for (double x : v) wa.push_back(x == fill ? NAN : (x * scale + off) * units[ui].scale + units[ui].offset);
            CHECK(cmp(all(r.getScaledDataInUnit("v", to)), wa), "variable in unit " + to + ", got " + S(all(r.getScaledDataInUnit("v", to))) + " want " + S(wa));
            if (unlim) {
                const size_t per = total / len[rank - 1], u = rnd(0, len[rank - 1] - 1);
                if (!away.count(u)) CHECK(cmp(all(r.getScaledDataSliceInUnit("v", to, u)), std::vector<double>(wa.begin() + u * per, wa.begin() + (u + 1) * per)), "slice in unit " + to);
            }
        }
        {
            std::vector<double> wa;
            for (double x : v) wa.push_back(sc && x == fill ? NAN : x * scale + off);
            CHECK(cmp(all(r.getScaledData("v")), wa), "unpacked variable");
            if (unlim) {
                const size_t per = total / len[rank - 1], u = rnd(0, len[rank - 1] - 1);
                if (!away.count(u)) CHECK(cmp(all(r.getScaledDataSlice("v", u)), std::vector<double>(wa.begin() + u * per, wa.begin() + (u + 1) * per)), "unpacked slice " + S(u));
            }
        }
        if (unlim) {
            size_t per = total / len[rank - 1], u = rnd(0, len[rank - 1] - 1);
            if (away.count(u)) CHECK(r.getDataSlice("v", u)->size() == 0, "slice that is not available");
            else CHECK(all(r.getDataSlice("v", u)) == std::vector<double>(v.begin() + u * per, v.begin() + (u + 1) * per), "slice " + S(u) + " along the unlimited dimension");
        }
    }
    return done();
}
