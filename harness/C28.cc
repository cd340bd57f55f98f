// C28: files are opened as what they contain, written as what is asked for, and file patterns find the files they describe
// LINK: libfimex-io-netcdf libfimex-io-grib -lproj -lnetcdf -leccodes -lprotobuf
#include "gribmsg.h"
#include "noprojdb.h"

#include "GribCDMIndexer.h"
#include "GribFileIndex.h"
#include "GribProtobufIndexWriter.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/ChunkReaderFactory.h"
#include "fimex/FileUtils.h"
#include "fimex/XMLInputString.h"

#include <filesystem>
#include <fstream>
#include <netcdf.h>
#include <set>
#include <unistd.h>

namespace fsys = std::filesystem;
using namespace gribm;
using namespace pbt;

namespace {
struct Dir
{
    std::string p;
    explicit Dir(Case& c)
    {
        p = c.tmpdir() + "/d" + std::to_string(c.serial());
        fsys::create_directories(p);
    }
    ~Dir()
    {
        std::error_code e;
        fsys::remove_all(p, e);
    }
};
struct Cwd
{
    fsys::path old = fsys::current_path();
    explicit Cwd(const std::string& d) { fsys::current_path(d); }
    ~Cwd() { fsys::current_path(old); }
};

// ---------------------------------------------------------------- names and patterns
std::string word(Case& c, bool xmlToo = true)
{
    static const std::vector<std::string> pieces = {"a", "b", "ab", "nc", "1", "2", "10", ".", "+", "(", ")", "[", "]", "{", "}", "^", "$", "|", "-", "_", " ", "&", "<", ">", "'", "\"", "%", "#", "=", "\xc3\xa6", ":"};
    std::string s;
    do {
        s = c.picks({"a", "b", "ab", "f1", "B"}); // never a hidden file
        int n = c.w({3, 3, 2, 1});
        for (int i = 0; i < n; ++i) {
            if (c.b(0.6))
                s += pieces[c.idx(8)];
            else {
                const std::string p = c.pick(pieces);
                if (xmlToo || (p != "&" && p != "<" && p != ">" && p != "'" && p != "\""))
                    s += p;
            }
        }
    } while (s.empty());
    return s;
}
//! the meaning of a pattern as documented, character by character
bool globMatch(const char* p, const char* s)
{
    if (!*p)
        return !*s;
    if (p[0] == '*' && p[1] == '*') {
        for (const char* q = s;; ++q) {
            if (globMatch(p + 2, q))
                return true;
            if (!*q)
                return false;
        }
    }
    if (*p == '*') {
        for (const char* q = s;; ++q) {
            if (globMatch(p + 1, q))
                return true;
            if (!*q || *q == '/')
                return false;
        }
    }
    if (!*s || (*p == '?' ? *s == '/' : *p != *s))
        return false;
    return globMatch(p + 1, s + 1);
}
struct Tree
{
    std::vector<std::string> files, dirs; // relative
};
Tree genTree(Case& c, const std::string& root)
{
    Tree t;
    t.dirs.push_back("");
    const int nd = c.i(0, 5);
    for (int i = 0; i < nd; ++i) {
        std::string parent = t.dirs[c.idx(t.dirs.size())];
        std::string d = parent + word(c) + "/";
        if (std::find(t.dirs.begin(), t.dirs.end(), d) == t.dirs.end()) {
            fsys::create_directory(root + "/" + d);
            t.dirs.push_back(d);
        }
    }
    std::set<std::string> fs;
    std::vector<std::string> pool;
    for (int i = 0; i < 3; ++i)
        pool.push_back(word(c));
    const int nf = c.i(1, 12);
    for (int i = 0; i < nf; ++i) {
        std::string f = t.dirs[c.idx(t.dirs.size())] + (c.b() ? c.pick(pool) : word(c)) + c.picks({"", ".nc", ".nc", ".nc4"});
        if (std::find(t.dirs.begin(), t.dirs.end(), f + "/") != t.dirs.end())
            continue;
        if (fs.insert(f).second)
            std::ofstream(root + "/" + f) << f;
    }
    t.files.assign(fs.begin(), fs.end());
    return t;
}
//! a pattern made from an existing path: some of its pieces replaced with wildcards
std::string generalise(Case& c, const std::string& path)
{
    if (c.b(0.1))
        return "**";
    std::string r;
    for (size_t i = 0; i < path.size();) {
        switch (path[i] == '/' ? c.w({8, 0, 0, 1}) : c.w({6, 1, 2, 1})) {
        case 0: r += path[i++]; break;
        case 1:
            if (static_cast<unsigned char>(path[i]) < 128) {
                r += '?', ++i;
            } else {
                r += path[i++];
            }
            break;
        case 2: {
            r += '*';
            size_t n = c.i(0, 4);
            while (n-- && i < path.size() && path[i] != '/')
                ++i;
            break;
        }
        default: {
            r += "**";
            size_t n = c.i(0, 8);
            while (n-- && i < path.size())
                ++i;
            // three stars in a row have no defined meaning
        }
        }
        if (r.size() > 2 && r.find("***") != std::string::npos)
            r.resize(r.find("***") + 2);
    }
    return r;
}
std::set<std::string> asSet(const std::vector<std::string>& v) { return std::set<std::string>(v.begin(), v.end()); }
std::string list(const std::set<std::string>& v)
{
    std::string s;
    for (auto& x : v)
        s += " '" + x + "'";
    return s.empty() ? " nothing" : s;
}
std::string norm(const std::string& p) { return fsys::path(p).lexically_normal().string(); }
void checkOrder(Case& c, const std::vector<std::string>& got)
{
    std::map<std::string, std::string> last;
    for (auto& f : got) {
        const size_t sl = f.find_last_of('/');
        const std::string d = sl == std::string::npos ? "" : f.substr(0, sl), n = sl == std::string::npos ? f : f.substr(sl + 1);
        auto it = last.find(d);
        c.check(it == last.end() || it->second < n, "the files of directory '" + d + "' are not in alphabetical order: '" + n + "' follows '" + (it == last.end() ? "" : it->second) + "'");
        last[d] = n;
    }
}
void globbing(Case& c)
{
    Dir dir(c);
    Tree t = genTree(c, dir.p);
    if (t.files.empty())
        c.assume(false);
    std::string pat = generalise(c, t.files[c.idx(t.files.size())]);
    // how the pattern is anchored
    const int anchor = c.w({3, 2, 1});
    std::unique_ptr<Cwd> cwd;
    std::string full, base;
    if (anchor == 0) {
        full = dir.p + "/" + pat;
        base = dir.p + "/";
    } else {
        cwd.reset(new Cwd(dir.p));
        full = anchor == 1 ? pat : "./" + pat;
    }
    std::set<std::string> want;
    int deep = 0;
    for (auto& f : t.files)
        if (globMatch(pat.c_str(), f.c_str())) {
            want.insert(norm(base + f));
            deep += f.find('/') != std::string::npos;
        }
    c.show() << "pattern '" << full.substr(anchor ? 0 : dir.p.size() + 1) << "' among" << list(asSet(t.files));
    c.label(want.empty() ? "nothing" : want.size() == 1 ? "one" : "several");
    if (deep > 1)
        c.label("subdirectories");
    c.nontrivial(want.size() > 1 && want.size() < t.files.size());
    std::vector<std::string> got;
    globFiles(got, full);
    std::set<std::string> g;
    for (auto& f : got)
        c.check(g.insert(norm(f)).second, "file found twice: " + f);
    checkOrder(c, got);
    for (auto& f : g)
        c.check(want.count(f), "the pattern finds '" + f + "', which does not match it");
    for (auto& f : want)
        c.check(g.count(f), "the pattern does not find '" + f + "', which matches it");
}
void scanning(Case& c)
{
    Dir dir(c);
    Tree t = genTree(c, dir.p);
    const int depth = c.i(-1, 3);
    const bool only = c.b();
    // (pattern, same as a predicate)
    const int k = c.i(0, 3);
    const char* re[] = {".*", ".*\\.nc", "[^/]*/?a[^/]*", "[^/]*/[^/]*"};
    auto pred = [&](const std::string& s) {
        switch (k) {
        case 0: return true;
        case 1: return s.size() >= 3 && s.compare(s.size() - 3, 3, ".nc") == 0;
        case 2: {
            // a slash at most, and then (or anywhere in a plain name) an a
            const size_t sl = s.find('/');
            if (sl != std::string::npos && s.find('/', sl + 1) != std::string::npos)
                return false;
            if (sl == std::string::npos)
                return s.find('a') != std::string::npos;
            return s.size() > sl + 1 && s[sl + 1] == 'a';
        }
        default: return std::count(s.begin(), s.end(), '/') == 1;
        }
    };
    std::set<std::string> want;
    for (auto& f : t.files) {
        const int d = std::count(f.begin(), f.end(), '/');
        if ((depth < 0 || d <= depth) && pred(only ? f.substr(f.find_last_of('/') + 1) : f))
            want.insert(norm(dir.p + "/" + f));
    }
    c.show() << "expression " << re[k] << (only ? " for names" : " for paths") << ", depth " << depth << ", among" << list(asSet(t.files));
    c.nontrivial(!want.empty() && want.size() < t.files.size());
    std::vector<std::string> got;
    scanFiles(got, dir.p + (c.b() ? "/" : ""), depth, std::regex(re[k]), only);
    std::set<std::string> g;
    for (auto& f : got)
        c.check(g.insert(norm(f)).second, "file found twice: " + f);
    checkOrder(c, got);
    for (auto& f : g)
        c.check(want.count(f), "the scan finds '" + f + "', which does not match");
    for (auto& f : want)
        c.check(g.count(f), "the scan does not find '" + f + "'");
}

// ---------------------------------------------------------------- files of all kinds
void nck(int e, const char* what)
{
    if (e)
        throw Fail{std::string("harness: netcdf ") + what + ": " + nc_strerror(e)};
}
const int ncFlags[] = {0, NC_64BIT_OFFSET, NC_64BIT_DATA, NC_NETCDF4, NC_NETCDF4 | NC_CLASSIC_MODEL};
const char* ncNames[] = {"classic", "64-bit offset", "64-bit data", "netCDF-4", "netCDF-4 classic model"};
//! times t.. with values base + time
void writeNc(const std::string& file, int kind, const dvec& times, double base)
{
    int id, td, xd, tv, v;
    nck(nc_create(file.c_str(), NC_CLOBBER | ncFlags[kind], &id), "create");
    nck(nc_def_dim(id, "time", NC_UNLIMITED, &td), "dim");
    nck(nc_def_dim(id, "x", 2, &xd), "dim");
    nck(nc_def_var(id, "time", NC_DOUBLE, 1, &td, &tv), "var");
    nck(nc_put_att_text(id, tv, "units", 30, "hours since 2020-01-01 00:00:00"), "att");
    int ds[2] = {td, xd};
    nck(nc_def_var(id, "T", NC_DOUBLE, 2, ds, &v), "var");
    nck(nc_enddef(id), "enddef");
    for (size_t i = 0; i < times.size(); ++i) {
        size_t st[2] = {i, 0}, n[2] = {1, 2};
        double d[2] = {base + times[i], base + times[i] + 0.5};
        nck(nc_put_vara_double(id, tv, st, n, &times[i]), "put");
        nck(nc_put_vara_double(id, v, st, n, d), "put");
    }
    nck(nc_close(id), "close");
}
Grid smallGrid(int edition)
{
    Grid g;
    g.edition = edition;
    g.ni = 3;
    g.nj = 2;
    g.lat1 = 60;
    g.lon1 = 10;
    return g;
}
void writeGrib(const std::string& file, int edition, const dvec& times, double base)
{
    std::ofstream o(file, std::ios::binary);
    for (double t : times) {
        Msg m;
        m.edition = edition;
        if (edition == 2)
            m.id[0] = 0, m.id[1] = 0, m.id[2] = 0;
        m.level = 500;
        m.refDate = 20200101;
        m.end = std::lround(t);
        m.values.assign(6, base + t);
        o << encode(m, smallGrid(edition));
    }
}
std::string gribConfig()
{
    return "<?xml version=\"1.0\"?>\n<cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">\n"
           "<processOptions><option name=\"selectParameters\" value=\"definedOnly\"/></processOptions>\n<overrule></overrule>\n"
           "<global_attributes><attribute name=\"Conventions\" value=\"CF-1.0\" type=\"string\"/></global_attributes>\n<axes>\n"
           "<time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"units\" value=\"hours since 2020-01-01 00:00:00\" type=\"string\"/></time>\n"
           "<spatial_axis typeOfGrid=\"regular_ll\" id=\"x\" name=\"longitude\" type=\"double\"><attribute name=\"units\" value=\"degrees_east\" type=\"string\"/></spatial_axis>\n"
           "<spatial_axis typeOfGrid=\"regular_ll\" id=\"y\" name=\"latitude\" type=\"double\"><attribute name=\"units\" value=\"degrees_north\" type=\"string\"/></spatial_axis>\n"
           "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>\n"
           "<vertical_axis id=\"p1\" name=\"p\" grib1_id=\"100\" type=\"double\"></vertical_axis>\n<vertical_axis id=\"p2\" name=\"p\" grib2_id=\"100\" type=\"double\"></vertical_axis>\n"
           "</axes>\n<variables>\n"
           "<parameter name=\"T\" type=\"double\"><grib1 indicatorOfParameter=\"11\" gribTablesVersionNo=\"2\"/><grib2 parameterNumber=\"0\" parameterCategory=\"0\" discipline=\"0\"/></parameter>\n"
           "</variables>\n</cdmGribReaderConfig>\n";
}
void checkContents(Case& c, CDMReader_p r, const dvec& times, double base, bool grib)
{
    c.check(r.get() != nullptr, "no reader");
    c.check(r->getCDM().hasVariable("T"), "the file's variable is not found");
    const dvec t = rawValues(r->getData("time"));
    c.check(t == times, "times " + vec(t) + " instead of " + vec(times));
    for (size_t i = 0; i < times.size(); ++i) {
        const dvec v = rawValues(r->getDataSlice("T", i));
        c.check(v.size() == (grib ? 6u : 2u), "slice of " + std::to_string(v.size()) + " values");
        for (size_t j = 0; j < v.size(); ++j)
            c.check(pbt::close(v[j], base + times[i] + (grib ? 0 : j * 0.5), 1e-4, 1e-4), "value " + num(v[j]) + " instead of " + num(base + times[i]) + " at time " + num(times[i]));
    }
}
dvec someTimes(Case& c, int from, int nmax = 3)
{
    dvec t;
    int n = c.i(1, nmax), v = from;
    for (int i = 0; i < n; ++i)
        t.push_back(v), v += c.i(1, 2);
    return t;
}
std::string upper(std::string s)
{
    for (auto& x : s)
        x = static_cast<char>(std::toupper(x));
    return s;
}
void reading(Case& c)
{
    Dir dir(c);
    const int kind = c.w({3, 3, 3, 2, 2, 3, 3, 2, 2, 2}); // five netCDF formats, grib 1, 2, grib index, ncml, garbage
    const dvec times = someTimes(c, c.i(0, 20));
    const double base = c.i(0, 50);
    const std::string name = word(c);
    std::string ext, type;
    static const char* what[] = {"classic", "64-bit offset", "64-bit data", "netCDF-4", "netCDF-4 classic", "GRIB1", "GRIB2", "GRIB index", "NcML", "other"};
    const bool nc = kind < 5, grib = kind == 5 || kind == 6;
    // the name says the truth, nothing or something else; for NcML there is nothing but the name and the type
    const int nameKind = kind == 8 ? 0 : c.w({2, 2, 2});
    if (nameKind == 0)
        ext = nc ? c.picks({".nc", ".nc4"}) : grib ? c.picks({".grb", ".grib", ".grb1", ".grib2"}) : kind == 7 ? ".grbfp" : kind == 8 ? ".ncml" : c.picks({"", ".txt"});
    else if (nameKind == 1)
        ext = c.picks({"", ".bin", ".x", ".2020", ".nc.tmp", ".grb.part"});
    else
        ext = nc ? c.picks({".grb", ".grib2", ".dat", ".ncml", ".felt"}) : kind == 9 ? c.picks({"", ".x", ".2020"}) : c.picks({".nc", ".dat", ".nc4"});
    if (c.b(0.2))
        ext = upper(ext);
    bool typed = false;
    switch (c.w({3, 2, 1})) {
    case 0: break;
    case 1:
        typed = true;
        type = nc ? c.picks({"nc", "nc4", "netcdf", "netcdf4", "nc3", "cdf", "netcdf3", "nc4c", "nc4classic", "netcdf4classic"})
               : grib ? c.picks({"grb", "grib", "grb1", "grib1", "grb2", "grib2"}) : kind == 7 ? "grbfp" : kind == 8 ? "ncml" : "";
        break;
    default: type = c.picks({"unknown", "x", "xnc", "ncc"}); break;
    }
    if (kind == 8 && typed && c.b())
        ext = c.picks({"", ".xml", ".nc"});
    std::string file = dir.p + "/" + name + ext;
    if (nc)
        writeNc(file, kind, times, base);
    else if (grib)
        writeGrib(file, kind - 4, times, base);
    else if (kind == 7) {
        const std::string data = dir.p + "/0data";
        writeGrib(data, 1, times, base);
        XMLInputString cfg(gribConfig());
        GribCDMIndexer ix(cfg, std::vector<std::pair<std::string, std::string>>(), createDefaultChunkReaderFactory());
        ix.load(std::vector<std::string>{data});
        auto cdm = std::make_shared<CDM>();
        auto gi = std::make_shared<GribCDMIndexer::grib_indexed>();
        ix.build(cdm, gi);
        GribProtobufIndexWriter().write(*cdm, *gi, file);
    } else if (kind == 8) {
        const std::string data = dir.p + "/0data.nc";
        writeNc(data, c.i(0, 4), times, base);
        std::ofstream(file) << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\" location=\"" << data << "\"/>\n";
    } else {
        std::ofstream o(file, std::ios::binary);
        const int n = c.w({1, 4}) ? c.i(0, 60) : 0;
        // beginnings which are close to known ones
        o << c.picks({"", "CDF", "CDF\003", "cdf\001", "GRI", "GRIb", "\211HDF\r\n", "HDF", "%PDF-1.4"});
        for (int i = 0; i < n; ++i)
            o << static_cast<char>(c.i(32, 126));
    }
    c.show() << what[kind] << " file '" << name << ext << "' opened as type '" << type << "'" << (nc || grib ? " with " + std::to_string(times.size()) + " times" : "");
    c.label(what[kind]);
    c.label(nameKind == 0 ? "name right" : nameKind == 1 ? "name says nothing" : "name misleads");
    c.label(typed ? "typed" : type.empty() ? "no type" : "unknown type");
    c.nontrivial(nameKind != 0 || (!typed && kind != 8));
    if (kind == 9) {
        bool opened = true;
        try {
            CDMFileReaderFactory::create(type, file, XMLInputString(gribConfig()));
        } catch (std::exception&) {
            opened = false;
        }
        c.check(!opened, "a file which is none of the known formats is opened without error");
        return;
    }
    CDMReader_p r = grib || kind == 7 ? CDMFileReaderFactory::create(type, file, XMLInputString(gribConfig())) : CDMFileReaderFactory::create(type, file);
    checkContents(c, r, times, base, grib || kind == 7);
    if ((grib && c.b(0.3)) || (nc && c.b(0.1))) {
        // the type is what the user says, also when it is wrong
        const std::string wrong = nc || c.b() ? "ncml" : c.picks({"nc", "nc4", "nc3", "netcdf"});
        bool opened = true;
        try {
            CDMFileReaderFactory::create(wrong, file);
        } catch (std::exception&) {
            opened = false;
        }
        c.check(!opened, "opened as " + wrong + " without error");
    }
    if (nc && nameKind == 0 && c.b(0.5)) {
        c.label("file: prefix");
        checkContents(c, CDMFileReaderFactory::create(typed ? type : "", "file:" + file), times, base, false);
    }
    if (nc && c.b(0.4)) {
        // opened for writing, under the same rules
        c.label("read-write");
        const bool pre = nameKind == 0 && c.b();
        const bool plus = typed && c.b(); // the type asks for it
        CDMReaderWriter_p rw;
        r.reset(); // HDF5 does not open a file for reading and writing at the same time
        if (plus)
            rw = std::dynamic_pointer_cast<CDMReaderWriter>(CDMFileReaderFactory::create(type + "+rw", (pre ? "file:" : "") + file));
        else
            rw = CDMFileReaderFactory::createReaderWriter(typed ? type : "", (pre ? "file:" : "") + file);
        c.check(rw.get() != nullptr, "not opened for writing");
        rw->putDataSlice("T", 0, mkData(CDM_DOUBLE, {-1, -2}));
        rw->sync();
        rw.reset();
        CDMReader_p again = CDMFileReaderFactory::create("nc", file);
        const dvec v = rawValues(again->getDataSlice("T", 0));
        c.check(v == dvec({-1, -2}), "values written in place read back as " + vec(v));
    }
}

// ---------------------------------------------------------------- several files at once
void many(Case& c)
{
    Dir dir(c);
    const bool grib = c.b(0.5);
    const int n = c.i(1, 4), edition = c.i(1, 2);
    // names in alphabetical order have times in order; others are not part of the pattern
    std::set<std::string> names;
    while (static_cast<int>(names.size()) < n)
        names.insert(word(c) + (grib ? ".grb" : ".nc"));
    const std::string sub = c.b(0.3) ? "/" + word(c) : "";
    if (!sub.empty())
        fsys::create_directory(dir.p + sub);
    std::vector<std::string> files;
    dvec all;
    int from = c.i(0, 5);
    const double base = c.i(0, 40);
    for (auto& x : names) {
        const std::string f = dir.p + sub + "/" + x;
        dvec t = someTimes(c, from, 2);
        if (grib)
            writeGrib(f, edition, t, base);
        else
            writeNc(f, c.i(0, 4), t, base);
        files.push_back(f);
        all.insert(all.end(), t.begin(), t.end());
        from = t.back() + c.i(1, 3);
    }
    for (int i = c.i(0, 2); i > 0; --i) {
        const std::string f = dir.p + (c.b() ? "" : sub) + "/z" + word(c) + c.picks({".other", ".grc", "xnc", "_"});
        if (grib)
            writeGrib(f, edition, {99. + i}, base);
        else
            writeNc(f, 0, {99. + i}, base);
    }
    const std::string type = grib ? c.picks({"grb", "grib", "grib2"}) : c.picks({"nc", "nc4", "netcdf", "nc3"});
    std::string file;
    std::vector<std::string> args;
    bool needType = true;
    const int way = grib ? c.w({3, 3, 3, 2}) : 0;
    switch (way) {
    case 0:
        file = "glob:" + dir.p + (sub.empty() ? "/" : c.b() ? "/*/" : "/**/") + (grib ? "*.grb" : "*.nc");
        needType = false;
        break;
    case 1: {
        // a separator none of the names has
        const std::string sep = c.picks({",", ";", "!", "@", "~"});
        file = "many:" + sep;
        for (size_t i = 0; i < files.size(); ++i)
            file += (i ? sep : "") + files[i];
        break;
    }
    case 2: {
        std::ofstream o(dir.p + "/0list.txt");
        for (auto& f : files)
            o << f << "\n";
        file = "list:" + dir.p + "/0list.txt";
        break;
    }
    default:
        file = files[0];
        args.assign(files.begin() + 1, files.end());
    }
    static const char* ways[] = {"pattern", "many:", "list:", "arguments"};
    const std::string ty = needType || c.b() ? type : "";
    c.show() << (grib ? "GRIB" : "netCDF") << " files" << list(names) << (sub.empty() ? "" : " in " + sub) << " with times " << vec(all) << " opened by " << ways[way] << ", type '" << ty << "'";
    c.label(ways[way]);
    c.nontrivial(n > 1);
    CDMReader_p r = CDMFileReaderFactory::create(ty, file, grib ? XMLInputString(gribConfig()) : XMLInputString(""), args);
    checkContents(c, r, all, base, grib);
}

// ---------------------------------------------------------------- writing
void writing(Case& c)
{
    Dir dir(c);
    const dvec times = someTimes(c, c.i(0, 20));
    const double base = c.i(0, 50);
    auto m = std::make_shared<MemReader>();
    m->cdm().addDimension(CDMDimension("x", 2));
    CDMDimension td("time", times.size());
    td.setUnlimited(true);
    m->cdm().addDimension(td);
    m->cdm().addVariable(CDMVariable("time", CDM_DOUBLE, {"time"}));
    m->cdm().addAttribute("time", CDMAttribute("units", "hours since 2020-01-01 00:00:00"));
    m->cdm().addVariable(CDMVariable("T", CDM_DOUBLE, {"x", "time"}));
    dvec v;
    for (double t : times)
        v.push_back(base + t), v.push_back(base + t + 0.5);
    m->data["time"] = mkData(CDM_DOUBLE, times);
    m->data["T"] = mkData(CDM_DOUBLE, v);

    enum { NC3, NC4C, NC4, NCML, NONE };
    static const std::map<std::string, int> known = {{"nc3", NC3}, {"cdf", NC3}, {"netcdf3", NC3}, {"nc4c", NC4C}, {"nc4classic", NC4C}, {"netcdf4classic", NC4C}, {"nc", NC4}, {"nc4", NC4},
                                                     {"netcdf", NC4}, {"netcdf4", NC4}, {"ncml", NCML}, {"felt", NONE}, {"dat", NONE}, {"flt", NONE}, {"grbml", NONE}};
    static const std::map<std::string, int> knownExt = {{".nc", NC4}, {".nc4", NC4}, {".ncml", NCML}, {".NC", NC4}, {".Nc4", NC4}, {".NCML", NCML}, {"", NONE}, {".x", NONE}, {".dat", NONE}, {".grbml", NONE}, {"nc", NONE}, {".nc_", NONE}};
    std::vector<std::string> types, exts;
    for (auto& k : known)
        types.push_back(k.first);
    for (auto& k : knownExt)
        exts.push_back(k.first);
    const bool typed = c.b(0.6);
    const std::string type = typed ? c.pick(types) : c.picks({"", "", "unknown", "nc5", "xnc"});
    std::string name;
    do
        name = word(c);
    while (name.find('.') != std::string::npos); // the extension is what follows
    const std::string ext = c.pick(exts), file = dir.p + "/" + name + ext;
    const int want = typed ? known.at(type) : knownExt.at(ext);
    static const char* wn[] = {"netCDF-3", "netCDF-4 classic", "netCDF-4", "NcML", "nothing"};
    c.show() << "type '" << type << "' and file '" << name << ext << "': " << wn[want];
    c.label(wn[want]);
    c.label(typed ? "typed" : "by name");
    c.nontrivial(typed ? knownExt.at(ext) != want : want != NONE);
    bool refused = false;
    std::string why;
    try {
        CDMFileReaderFactory::createWriter(m, type, file);
    } catch (std::exception& ex) {
        refused = true;
        why = ex.what();
    }
    if (want == NONE) {
        c.check(refused, "nothing says which format to write, or it cannot be written, but there is no error");
        c.check(!fsys::exists(file), "an output which is refused leaves a file behind");
        return;
    }
    c.check(!refused, "not written: " + why);
    c.check(fsys::is_regular_file(file), "there is no file of that name");
    if (want == NCML) {
        std::ifstream i(file);
        std::string l;
        std::getline(i, l);
        c.check(l.compare(0, 5, "<?xml") == 0, "the NcML file starts with " + l.substr(0, 20));
        CDMReader_p r = CDMFileReaderFactory::create("ncml", file);
        c.check(r->getCDM().hasVariable("T") && r->getCDM().getDimension("time").getLength() == times.size(), "the NcML file does not describe the data");
        return;
    }
    int id, fmt;
    nck(nc_open(file.c_str(), NC_NOWRITE, &id), "open");
    nc_inq_format(id, &fmt);
    nc_close(id);
    const bool ok = want == NC3 ? fmt == NC_FORMAT_CLASSIC || fmt == NC_FORMAT_64BIT_OFFSET || fmt == NC_FORMAT_CDF5 : fmt == (want == NC4C ? NC_FORMAT_NETCDF4_CLASSIC : NC_FORMAT_NETCDF4);
    c.check(ok, "the file is of netCDF format " + std::to_string(fmt) + ", wanted " + wn[want]);
    checkContents(c, CDMFileReaderFactory::create("", file), times, base, false);
}
} // namespace

int main(int argc, char** argv)
{
    noProjDatabase();
    samples();
    Runner r("C28", "a pattern or expression that selects some of several files; a file whose name does not tell its format; several files opened at once; a type that differs from the name");
    r.init(fx::quiet);
    r.sub("glob", globbing, 12000, 200000);
    r.sub("scan", scanning, 6000, 60000);
    r.sub("read", reading, 4000, 40000);
    r.sub("many", many, 2000, 20000);
    r.sub("write", writing, 2000, 20000);
    return r.main(argc, argv);
}
