// the sources of an aggregation: files selected by pattern, aggregations described in NcML
#include "harness.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/FileUtils.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
namespace fs = std::filesystem;
typedef std::vector<std::string> VS;
static bool glob(const char* p, const char* s)
{
    if (!*p) return !*s;
    if (p[0] == '*' && p[1] == '*') return glob(p + 2, s) || (*s && glob(p, s + 1));
    if (*p == '*') return glob(p + 1, s) || (*s && *s != '/' && glob(p, s + 1));
    return *s && (*p == '?' ? *s != '/' : *p == *s) && glob(p + 1, s + 1);
}
static void tree(const fs::path& d, int depth, VS& files, const std::string& rel)
{
    fs::create_directories(d);
    for (const char* n : {"a.nc", "b.nc", "a+b.nc", "ab.ncml", "[a]", "c"})
        if (rnd(0, 2) == 0) { std::ofstream(d / n) << "x"; files.push_back(rel + n); }
    if (depth > 0)
        for (const char* n : {"a", "ab", "b.nc.d", "d"})
            if (rnd(0, 2) == 0) tree(d / n, depth - 1, files, rel + n + "/");
}
static std::string ncmlFile(const VS& vars, int id)
{
    std::string s = "<?xml version=\"1.0\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n<dimension name=\"x\" length=\"2\"/>\n";
    for (const auto& v : vars) s += "<variable name=\"" + v + "\" type=\"int\" shape=\"x\"><attribute name=\"_FillValue\" type=\"int\" value=\"-99\"/><values>" + S(id * 10) + " " + S(id * 10 + 1) + "</values></variable>\n";
    return s + "</netcdf>\n";
}
MAIN
{
    INIT
    for (long run = 0; run < N; run++) {
        const fs::path base = fs::path(SCRATCH) / "files";
        fs::remove_all(base);
        if (run % 4) {
            VS files;
            tree(base, rnd(0, 3), files, "");
            // a pattern
            std::string p;
            const int c = rnd(1, 3);
            static const char* parts[] = {"a", "ab", "*", "**", "?", "a*", "*.nc", "*.d", "a+b.nc", "?.nc", "[a]", "**.nc", "**/a.nc"};
            for (int i = 0; i < c; i++) p += (i ? "/" : "") + std::string(parts[rnd(0, 12)]);
            begin("files " + S(files) + " pattern " + p);
            std::string lit = p.substr(0, p.find_first_of("*?"));
            lit = lit.find('/') == std::string::npos ? "" : lit.substr(0, lit.rfind('/'));
            if (fs::exists(base / lit) && fs::is_directory(base / lit)) {
                std::vector<fs::path> want;
                for (const auto& f : files) if (glob(p.c_str(), f.c_str())) want.push_back(base / f);
                std::sort(want.begin(), want.end());
                VS got;
                globFiles(got, (base / p).string());
                for (const auto& f : want) CHECK(std::count(got.begin(), got.end(), f.string()) == 1, "missing " + f.string() + " in " + S(got));
                CHECK(got.size() == want.size(), "found too many: " + S(got));
                for (size_t i = 0; i < want.size(); i++) CHECK(fs::path(got[i]) == want[i], "order " + S(got));
            }
            // regular expression
            const int depth = rnd(-1, 2);
            const bool only = rnd(0, 1);
            { // the parts of a path
                const std::string dir = rnd(0, 1) ? "" : rnd(0, 1) ? "a/b.c/" : "/", name = rnd(0, 1) ? "file" : "f.x", ext = rnd(0, 1) ? "nc" : "";
                const std::string full = dir + name + (ext.empty() ? "" : "." + std::string(rnd(0, 1) ? "NC" : "nc"));
                CHECK(getExtension(full) == (ext.empty() ? name == "f.x" ? "x" : dir == "a/b.c/" ? getExtension(full) : "" : ext), "extension of " + full);
                CHECK(extractFilename(full) == full.substr(dir.size()) && removeFilename(full) == dir && replaceFilename(full, "g") == dir + "g", "parts of " + full);
                CHECK(joinFilename(dir, "g") == dir + "g" && joinFilename("d", "g") == "d/g", "joined path");
            }
            CASE += " depth " + S(depth) + " file name only " + S(only);
            std::vector<fs::path> want;
            for (const auto& f : files) {
                if (depth >= 0 && std::count(f.begin(), f.end(), '/') > depth) continue;
                const std::string m = only ? fs::path(f).filename().string() : f;
                if (m.size() > 3 && m[0] == 'a' && m.substr(m.size() - 3) == ".nc") want.push_back(base / f);
            }
            std::sort(want.begin(), want.end());
            VS got;
            scanFiles(got, base.string() + (rnd(0, 1) ? "/" : ""), depth, std::regex("a.*\\.nc"), only);
            for (const auto& f : want) CHECK(std::count(got.begin(), got.end(), f.string()) == 1, "missing " + f.string() + " in " + S(got));
            CHECK(got.size() == want.size(), "found too many: " + S(got));
            for (size_t i = 0; i < want.size(); i++) CHECK(fs::path(got[i]) == want[i], "order " + S(got));
            continue;
        }
        // aggregation by NcML
        fs::create_directories(base / "scan" / "sub");
        const int nlist = rnd(0, 2), nscan = rnd(0, 3);
        const bool subdirs = rnd(0, 1);
        std::string desc, xml;
        struct F { std::string path; VS vars; int id; std::string coord; };
        std::vector<F> src;
        const bool coords = nscan == 0 && rnd(0, 1);
        auto some = [&] { VS v; for (const char* n : {"p", "q", "r"}) if (rnd(0, 3)) v.push_back(n); return v; };
        int id = 1;
        std::string agg;
        for (int i = 0; i < nlist; i++) {
            F f{(base / ("l" + S(i) + ".ncml")).string(), some(), id++, coords ? S(100 + 3 * i) : ""};
            std::ofstream(f.path) << ncmlFile(f.vars, f.id);
            agg += "<netcdf location=\"" + f.path + " ncml\"" + (coords ? " coordValue=\"" + f.coord + "\"" : "") + "/>\n";
            src.push_back(f);
        }
        std::vector<F> scanned;
        for (int i = 0; i < nscan; i++) {
            const bool sub = rnd(0, 2) == 0, other = rnd(0, 4) == 0;
            F f{(base / "scan" / (sub ? "sub" : "") / ("s" + S(rnd(0, 9)) + S(i) + (other ? ".txt" : ".ncml"))).string(), some(), id++, ""};
            std::ofstream(f.path) << ncmlFile(f.vars, f.id);
            if (!other && (subdirs || !sub)) scanned.push_back(f);
        }
        std::sort(scanned.begin(), scanned.end(), [](const F& a, const F& b) { return fs::path(a.path) < fs::path(b.path); });
        src.insert(src.end(), scanned.begin(), scanned.end());
        if (nscan) agg += "<scan location=\"" + (base / "scan").string() + " ncml\" suffix=\".ncml\" subdirs=\"" + (subdirs ? "true" : "false") + "\"/>\n";
        const bool joinNew = rnd(0, 1);
        xml = "<?xml version=\"1.0\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n<aggregation " + std::string(joinNew ? "type=\"joinNew\" dimName=\"j\"" : "type=\"union\"") + ">\n" + (joinNew ? "<variableAgg name=\"p\"/><variableAgg name=\"q\"/>" : "") + agg + "</aggregation>\n</netcdf>\n";
        std::string d2 = xml;
        for (const F& f : src) d2 += " " + S(f.vars);
        ::begin(d2);
        std::ofstream(base / "agg.ncml") << xml;
        if (src.empty()) continue;
        CDMReader_p r = CDMFileReaderFactory::create("ncml", (base / "agg.ncml").string());
        const CDM& cdm = r->getCDM();
        for (const char* v : {"p", "q", "r"}) {
            std::vector<double> want;
            bool any = false;
            for (const F& f : src) {
                const bool has = std::count(f.vars.begin(), f.vars.end(), v);
                if (joinNew && *v != 'r') for (int i = 0; i < 2; i++) want.push_back(has ? f.id * 10 + i : -99);
                else if (has && !any) for (int i = 0; i < 2; i++) want.push_back(f.id * 10 + i);
                any |= has;
            }
            CHECK(cdm.hasVariable(v) == any, std::string(v) + " exists");
            if (!any) continue;
            const auto got = all(r->getData(v));
            CHECK(got == want, std::string(v) + ": " + S(got) + " not " + S(want));
        }
        if (joinNew) {
            CHECK(cdm.hasVariable("j") && cdm.getDimension("j").getLength() == src.size(), "new dimension");
            DataPtr d = r->getData("j");
            CHECK(d->size() == src.size(), "size of the new coordinate");
            std::set<std::string> seen;
            for (size_t i = 0; i < src.size(); i++) {
                if (coords) CHECK(d->getDouble(i) == 100 + 3. * i, "new coordinate");
                else if (d->getDataType() == CDM_STRINGS) seen.insert(d->asStrings()[i]);
            }
            if (!coords) CHECK(seen.size() == src.size(), "the values of the new coordinate are not distinct");
        }
    }
    return done();
}
