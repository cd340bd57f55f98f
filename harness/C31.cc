// C31: the Fortran interface delivers, stores and interpolates the same data as the library
// LINK: libfimex-io-netcdf -lproj -lnetcdf -lgfortran
// FORTRAN
#include "cf.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/Logger.h"
#include "fimex/XMLInput.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/interpolation.h"
#include "noprojdb.h"
#include <dirent.h>
#include <cstring>
#include <time.h>
#include <unistd.h>
using namespace fx;
using namespace cf;
using namespace pbt;
typedef CoordinateAxis CA;
typedef std::vector<std::string> strs;

extern "C" {
void c31_silence();
int c31_const(int);
int c31_open(int, const char*, const char*, const char*, const char*);
int c31_interpolate(int, int, int, const char*, const char*, const char*, int);
int c31_lonlat(int, int, int, int, const double*, int, const double*);
int c31_close(int);
long long c31_dimensions_size(int);
void c31_file_dimname(int, int, char*);
long long c31_dimsize(int, const char*);
void c31_ulim(int, char*);
double c31_reftime(int, const char*);
long long c31_variables_size(int);
void c31_varname(int, int, char*);
long long c31_vartype(int, const char*);
int c31_dimensions(int, const char*);
void c31_dimname(int, int, char*);
void c31_proj4(int, char*);
void c31_longitude(int, const char*, char*);
void c31_latitude(int, const char*, char*);
int c31_start_size(int, int, int*, int*);
int c31_axistypes(int, int, int*);
int c31_reduce(int, const char*, int, int);
int c31_read(int, const char*, int, double*, const char*);
int c31_write(int, const char*, int, double*, const char*);
int c31_dtg(double);
void c31_read_dimension(int, int, const char*, double*, const char*);
void c31_get_dimensions2(int, const char*, int, int*, char*, char*, char*, char*, char*, double*);
void c31_read_field(int, const char*, int, int, double*, int, int, int, double*, double*, const char*, int);
void c31_write_field(int, const char*, int, int, const double*, int, int, int, const char*, int);
struct FortranAbort {};
//! FI_ERROR ends the program
void _gfortran_abort() { throw FortranAbort(); }
}
namespace {
struct Text
{
    char b[1101];
    Text() { memset(b, '#', sizeof b), b[1100] = 0; }
    operator char*() { return b; }
    std::string s() const { return b; }
};
struct Closer
{
    ~Closer()
    {
        for (int k = 1; k <= 4; ++k)
            c31_close(k);
    }
};
//! does the program end with an error?
template <class F> bool aborts(F f)
{
    try {
        f();
    } catch (FortranAbort&) {
        return true;
    }
    return false;
}
struct Var
{
    std::string name;
    strs shape;
    svec dims;
    CDMDataType type;
    double scale = 1, off = 0, fill = NAN;
    bool cs = true, hpa = false;
    dvec raw, phys;
};
struct World
{
    Dataset ds;
    std::vector<Var> vars;
    std::map<std::string, size_t> len;
    std::map<std::string, int> axis;
    std::string X, Y, unlim, z, r, file;
    bool hasTime = false, refTime = false;
    double refHours = 0;
    dvec times; // hours since 2020
    std::string lonName, latName;
};
const double EPOCH2020 = 1577836800;
//! a unit of time, and how it counts from 1970
struct TimeUnit
{
    std::string text;
    double epoch, step;
};
TimeUnit genTimeUnit(Case& c)
{
    struct { const char* name; double step; } const us[] = {{"seconds", 1}, {"minutes", 60}, {"hours", 3600}, {"days", 86400}};
    struct { const char* name; double epoch; } const es[] = {{"1970-01-01", 0}, {"2000-01-01", 946684800}, {"2020-01-02", EPOCH2020 + 86400}, {"2019-12-31", EPOCH2020 - 86400}};
    struct { const char* name; double shift; } const zs[] = {{"", 0}, {" +00:00", 0}, {" +0000", 0}, {" +02:00", 7200}, {" -03:30", -12600}, {" +01:00", 3600}};
    const auto& u = us[c.idx(4)];
    const auto& e = es[c.idx(4)];
    const auto& z = zs[c.idx(6)];
    const int h = c.i(0, 23), m = c.i(0, 59);
    char hm[32];
    snprintf(hm, sizeof(hm), " %02d:%02d:00", h, m);
    const TimeUnit t{std::string(u.name) + " since " + e.name + hm + z.name, e.epoch + 3600 * h + 60 * m - z.shift, u.step};
    c.show() << "unit " << t.text << "\n";
    return t;
}
World gen(Case& c, bool permute)
{
    World w;
    w.ds.r = std::make_shared<MemReader>();
    Proj p = genProj(c, LATLON | LATLON | STERE | ROT | LCC);
    const size_t nx = c.i(2, 4), ny = c.i(2, 4), nz = c.i(1, 3), nt = c.i(1, 3), nr = c.i(1, 3);
    addGrid(w.ds, p, genAxis(c, p.cx, p.half, nx), genAxis(c, p.cy, p.half, ny));
    w.X = w.ds.x.name, w.Y = w.ds.y.name;
    w.len[w.X] = nx;
    w.len[w.Y] = ny;
    const bool ll = p.kind == "latitude_longitude";
    w.axis[w.X] = ll ? CA::Lon : CA::GeoX;
    w.axis[w.Y] = ll ? CA::Lat : CA::GeoY;
    if (ll)
        w.lonName = w.X, w.latName = w.Y;
    if (c.b(0.6)) {
        const int kind = c.w({3, 2, 2, 2});
        dvec v;
        for (size_t k = 0; k < nz; ++k)
            v.push_back(kind == 0 ? 1000 - 100. * k : 10. * k);
        w.z = c.picks({"lev", "k", "vertical"});
        addAxis(w.ds, {w.z, v, kind == 0 ? "hPa" : kind == 3 ? "1" : "m"}, false);
        if (kind == 3)
            attr(w.ds, w.z, "axis", "Z");
        else
            attr(w.ds, w.z, "standard_name", kind == 0 ? "air_pressure" : kind == 1 ? "height" : "depth");
        if (kind == 1 || kind == 2)
            attr(w.ds, w.z, "positive", kind == 1 ? "up" : "down");
        w.len[w.z] = nz;
        w.axis[w.z] = kind == 0 ? CA::Pressure : kind == 1 ? CA::Height : kind == 2 ? CA::Depth : CA::GeoZ;
        c.label(kind == 2 ? "depth" : kind == 3 ? "levels" : "vertical");
    }
    if (c.b(0.4)) {
        dvec v;
        for (size_t k = 0; k < nr; ++k)
            v.push_back(k);
        w.r = c.picks({"ens", "member"});
        addAxis(w.ds, {w.r, v, "1"}, false);
        attr(w.ds, w.r, "standard_name", "realization");
        w.len[w.r] = nr;
        w.axis[w.r] = CA::Realization;
    }
    bool unlim = false;
    if (c.b(0.7)) {
        double t = c.i(0, 100);
        for (size_t k = 0; k < nt; ++k)
            w.times.push_back(t), t += c.i(1, 12);
        unlim = c.b(0.6);
        addAxis(w.ds, {"time", w.times, "hours since 2020-01-01 00:00:00"}, unlim);
        attr(w.ds, "time", "standard_name", "time");
        w.len["time"] = nt;
        w.axis["time"] = CA::Time;
        w.hasTime = true;
        if (unlim)
            w.unlim = "time";
    }
    const size_t n = c.i(1, 4);
    const bool per = permute && c.b(0.4);
    for (size_t k = 0; k < n; ++k) {
        Var v;
        v.name = c.b(0.2) ? "a_rather_long_name_of_a_variable_" + std::to_string(k) : "v" + std::to_string(k);
        v.shape = {w.X, w.Y};
        for (auto& m : {w.z, w.r})
            if (!m.empty() && c.b(0.8))
                v.shape.push_back(m);
        if (w.hasTime && !unlim && c.b(0.8))
            v.shape.push_back("time");
        if (per) {
            strs s;
            for (size_t q : c.perm(v.shape.size()))
                s.push_back(v.shape[q]);
            v.shape = s;
            c.label("permuted");
        }
        if (unlim && c.b(0.8))
            v.shape.push_back("time");
        if (c.b(0.1)) {
            v.shape = {w.X};
            v.cs = false;
        } else if (c.b(0.05)) {
            v.shape.clear();
            v.cs = false;
        }
        for (auto& s : v.shape)
            v.dims.push_back(w.len[s]);
        v.type = c.pick({CDM_DOUBLE, CDM_FLOAT, CDM_SHORT, CDM_INT});
        const size_t sz = prod(v.dims);
        if (!isFloat(v.type) && c.b(0.7)) {
            v.scale = c.pick({0.5, 0.25, 2.});
            v.off = c.pick({0., 100., -7.5});
        }
        if (c.b(0.5))
            v.fill = c.pick({-100., -50., 32000., 20.});
        for (size_t q = 0; q < sz; ++q) {
            v.raw.push_back(c.i(-200, 200));
            if (!std::isnan(v.fill) && c.b(0.1))
                v.raw.back() = v.fill;
            v.phys.push_back(v.raw[q] == v.fill ? NAN : v.raw[q] * v.scale + v.off);
        }
        v.hpa = c.b();
        addVar(w.ds, v.name, v.type, v.shape, v.raw, v.shape.size() > 1);
        CDM& cdm = w.ds.r->cdm();
        if (v.hpa)
            attr(w.ds, v.name, "units", "hPa");
        if (v.scale != 1)
            cdm.addAttribute(v.name, CDMAttribute("scale_factor", v.scale));
        if (v.off != 0)
            cdm.addAttribute(v.name, CDMAttribute("add_offset", v.off));
        if (!std::isnan(v.fill))
            cdm.addAttribute(v.name, CDMAttribute("_FillValue", mkData(v.type, {v.fill})));
        w.vars.push_back(v);
        c.show() << tname(v.type) << " " << v.name << "(";
        for (size_t q = 0; q < v.shape.size(); ++q)
            c.show() << v.shape[q] << "=" << v.dims[q] << " ";
        c.show() << ") scale=" << v.scale << " offset=" << v.off << " fill=" << pbt::num(v.fill) << (v.hpa ? " hPa" : "") << " " << vec(v.raw) << "\n";
    }
    if (c.b(0.5)) {
        w.refTime = true;
        w.refHours = c.i(-1000, 1000);
        CDM& cdm = w.ds.r->cdm();
        cdm.addVariable(CDMVariable("forecast_reference_time", CDM_DOUBLE, strs()));
        attr(w.ds, "forecast_reference_time", "standard_name", "forecast_reference_time");
        attr(w.ds, "forecast_reference_time", "units", "hours since 2020-01-01 00:00:00");
        w.ds.r->data["forecast_reference_time"] = mkData(CDM_DOUBLE, {w.refHours});
    }
    w.file = c.tmpdir() + "/f" + std::to_string(c.serial()) + ".nc";
    CDMFileReaderFactory::createWriter(w.ds.r, "netcdf", w.file, std::string());
    c.show() << p.kind << " x=" << nx << " y=" << ny << " z=" << w.z << " unlimited='" << w.unlim << "'\n";
    return w;
}
std::string pad(Case& c, const std::string& s) { return c.b(0.3) ? s + "   " : s; } // Fortran texts end with blanks
void open(Case& c, int k, const World& w, const std::string& type = "netcdf")
{
    const int r = c31_open(k, pad(c, w.file).c_str(), pad(c, "").c_str(), pad(c, type).c_str(), 0);
    c.check(r == 0, "open returns " + std::to_string(r));
}
template <class F> std::string text(F f)
{
    Text t;
    f(t.b);
    return t.s();
}
size_t fds()
{
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}
// ---------------------------------------------------------------- what is in the file
void inventory(Case& c)
{
    Closer closer;
    World w = gen(c, true);
    c.nontrivial(w.vars.size() > 1);
    if (c.b(0.5)) { // not open
        if (c.b()) {
            open(c, 1, w);
            c31_close(1);
        }
        c.check(c31_dimensions_size(1) == 0 && c31_variables_size(1) == 0, "a closed file has dimensions or variables");
        c.check(c31_vartype(1, w.vars[0].name.c_str()) == 0 && c31_dimsize(1, w.X.c_str()) == 0, "a closed file has types");
        c.check(std::isnan(c31_reftime(1, 0)), "a closed file has a reference time");
        c.check(c31_dimensions(1, w.vars[0].name.c_str()) < 0, "a closed file has a variable");
        double d[2] = {5, 5};
        c.check(c31_read(1, w.vars[0].name.c_str(), 2, d, 0) != 0 && c31_reduce(1, w.X.c_str(), 0, 1) != 0, "reading a closed file does not fail");
        c.check(text([&](char* t) { c31_ulim(1, t); }).empty() && text([&](char* t) { c31_file_dimname(1, 1, t); }).empty() && text([&](char* t) { c31_varname(1, 1, t); }).empty() &&
                    text([&](char* t) { c31_longitude(1, "v0", t); }).empty() && text([&](char* t) { c31_latitude(1, "v0", t); }).empty() && text([&](char* t) { c31_dimname(1, 1, t); }).empty() && text([&](char* t) { c31_proj4(1, t); }).empty(),
                "a closed file has names");
        c.label("closed");
    }
    c.check(c31_open(2, (w.file + "x").c_str(), "", "netcdf", 0) < 0, "a file that is not there is opened");
    const size_t before = fds();
    open(c, 1, w);
    if (c.b(0.2)) {
        const size_t one = fds();
        for (int k = c.i(1, 3); k > 0; --k)
            open(c, 1, w);
        c.check(fds() == one, "files stay open when a handle is used again");
        c.label("reopened");
    }
    const CDM& cdm = w.ds.r->getCDM();
    const size_t nv = cdm.getVariables().size(), nd = w.len.size();
    c.check(c31_variables_size(1) == (long long)nv, "number of variables is " + std::to_string(c31_variables_size(1)));
    c.check(c31_dimensions_size(1) == (long long)nd, "number of dimensions is " + std::to_string(c31_dimensions_size(1)));
    std::set<std::string> names, dn;
    for (size_t k = 1; k <= nv; ++k) {
        const std::string n = text([&](char* t) { c31_varname(1, k, t); });
        c.check(cdm.hasVariable(n), "no variable " + n);
        names.insert(n);
        c.check(c31_vartype(1, pad(c, n).c_str()) == cdm.getVariable(n).getDataType(), "type of " + n + " is " + std::to_string(c31_vartype(1, n.c_str())));
    }
    c.check(names.size() == nv, "names of variables");
    for (size_t k = 1; k <= nd; ++k) {
        const std::string n = text([&](char* t) { c31_file_dimname(1, k, t); });
        c.check(w.len.count(n), "no dimension " + n);
        dn.insert(n);
        c.check(c31_dimsize(1, pad(c, n).c_str()) == (long long)w.len[n], "size of " + n);
    }
    c.check(dn.size() == nd, "names of dimensions");
    c.check(text([&](char* t) { c31_ulim(1, t); }) == w.unlim, "unlimited dimension");
    // what is not there
    const int no = c.pick({0, -1, 100});
    c.check(text([&](char* t) { c31_varname(1, no, t); }).empty() && text([&](char* t) { c31_file_dimname(1, no, t); }).empty(), "names of what is not there");
    c.check(c31_vartype(1, "nono") == 0 && c31_dimsize(1, "nono") == 0 && c31_dimensions(1, "nono") < 0, "there is what is not there");
    c.check(text([&](char* t) { c31_longitude(1, "nono", t); }).empty(), "longitude of what is not there");
    double ft = c31_reftime(1, 0);
    if (w.refTime) {
        c.check(std::abs(ft - EPOCH2020 - 3600 * w.refHours) < 1e-3, "reference time is " + pbt::num(ft));
        ft = c31_reftime(1, "hours since 2020-01-02 00:00:00");
        c.check(std::abs(ft - w.refHours + 24) < 1e-6, "reference time in hours is " + pbt::num(ft));
        const TimeUnit u = genTimeUnit(c);
        ft = c31_reftime(1, pad(c, u.text).c_str());
        c.check(std::abs(ft * u.step + u.epoch - EPOCH2020 - 3600 * w.refHours) < 1e-2, "reference time is " + pbt::num(ft) + " " + u.text);
    } else
        c.check(std::isnan(ft), "reference time of a file without");
    for (auto& v : w.vars) {
        if (c.b(0.7)) {
            const int r = c31_dimensions(1, pad(c, v.name).c_str());
            c.check(r == (int)v.shape.size(), v.name + " has " + std::to_string(r) + " dimensions");
        } else {
            const int r = c31_open(1, w.file.c_str(), "", "netcdf", pad(c, v.name).c_str());
            c.check(r == (int)v.shape.size(), "open gives " + std::to_string(r) + " dimensions of " + v.name);
        }
        const int n = v.shape.size();
        std::vector<int> st(n, -7), sz(n, -7), at(n, -7);
        c.check(c31_start_size(1, n, st.data(), sz.data()) == 0, "start and size fail");
        for (int k = 0; k < n; ++k) {
            c.check(text([&](char* t) { c31_dimname(1, k + 1, t); }) == v.shape[k], "name of dimension " + std::to_string(k + 1) + " of " + v.name);
            c.check(st[k] == 0 && sz[k] == (int)v.dims[k], "start or size of dimension " + std::to_string(k + 1) + " of " + v.name);
        }
        c.check(text([&](char* t) { c31_dimname(1, c.pick({0, -1, n + 1}), t); }).empty(), "name of a dimension that is not there");
        const int r = c31_axistypes(1, n, at.data());
        const std::string p4 = text([&](char* t) { c31_proj4(1, t); });
        if (v.cs) {
            c.check(r == 0, "types of axes fail");
            for (int k = 0; k < n; ++k)
                c.check(at[k] == w.axis[v.shape[k]], "type of axis " + v.shape[k] + " is " + std::to_string(at[k]));
            if (w.ds.proj.kind != "latitude_longitude") {
                c.check(p4.find("+proj=") != std::string::npos, "projection is '" + p4 + "'");
                Pj a(p4, w.ds.proj.latlong()), b(w.ds.proj.proj4, w.ds.proj.latlong());
                double x = w.ds.x.v[0], y = w.ds.y.v[0], x2 = x, y2 = y;
                const bool oa = a.fwd(x, y), ob = b.fwd(x2, y2);
                c.check(oa == ob && (!oa || (std::fabs(x - x2) < 1e-5 && std::fabs(y - y2) < 1e-5)), "projection is '" + p4 + "', expected '" + w.ds.proj.proj4 + "'");
            }
            c.check(text([&](char* t) { c31_longitude(1, pad(c, v.name).c_str(), t); }) == w.lonName, "longitude of " + v.name);
            c.check(text([&](char* t) { c31_latitude(1, pad(c, v.name).c_str(), t); }) == w.latName, "latitude of " + v.name);
        }
    }
    c31_close(1);
    c.check(fds() == before, "a closed file stays open");
}
//! the part of v
dvec part(const Var& v, const dvec& all, const svec& start, const svec& size)
{
    dvec r;
    if (v.dims.empty())
        return all;
    svec p(v.dims.size(), 0);
    for (;;) {
        size_t at = 0, m = 1;
        for (size_t k = 0; k < p.size(); ++k)
            at += (start[k] + p[k]) * m, m *= v.dims[k];
        r.push_back(all[at]);
        size_t k = 0;
        while (k < p.size() && ++p[k] == size[k])
            p[k++] = 0;
        if (k == p.size())
            return r;
    }
}
void restrict(Case& c, int k, const Var& v, svec& start, svec& size)
{
    start.assign(v.dims.size(), 0);
    size = v.dims;
    for (size_t q = 0; q < v.dims.size(); ++q) {
        if (c.b(0.6)) {
            start[q] = c.idx(v.dims[q]);
            size[q] = c.i(1, v.dims[q] - start[q]);
            c.check(c31_reduce(k, pad(c, v.shape[q]).c_str(), start[q], size[q]) == 0, "reduce " + v.shape[q] + " fails");
        }
        if (c.b(0.1))
            c.check(c31_reduce(k, v.shape[q].c_str(), 1, v.dims[q]) != 0, "more than there is of " + v.shape[q]);
    }
}
// ---------------------------------------------------------------- reading
void reading(Case& c)
{
    Closer closer;
    World w = gen(c, true);
    open(c, 1, w);
    for (int rep = c.i(1, 4); rep > 0; --rep) {
        const Var& v = w.vars[c.idx(w.vars.size())];
        c.check(c31_dimensions(1, v.name.c_str()) == (int)v.shape.size(), "number of dimensions");
        svec start, size;
        restrict(c, 1, v, start, size);
        c.nontrivial(size != v.dims);
        const int n = prod(size);
        dvec want = part(v, v.phys, start, size);
        const bool pa = v.hpa && c.b();
        if (pa)
            for (auto& x : want)
                x *= 100;
        dvec d(n, 4711.);
        c.show() << v.name << " from " << vec(start) << " size " << vec(size) << (pa ? " in Pa" : "") << "\n";
        const int r = c31_read(1, pad(c, v.name).c_str(), n, d.data(), pa ? "Pa" : c.b() ? "" : 0);
        c.check(r == 0, "read returns " + std::to_string(r));
        same(c, v.name, d, want, 1e-12, 1e-12);
        if (c.b(0.3)) {
            dvec e(n + c.i(1, 3), 4711.);
            c.check(c31_read(1, v.name.c_str(), e.size(), e.data(), 0) != 0, "read into a field of another size does not fail");
            c.check(v.hpa ? c31_read(1, v.name.c_str(), n, d.data(), "K") != 0 : true, "read of hPa in K does not fail");
        }
    }
    // coordinates
    if (w.hasTime) {
        dvec t(w.times.size(), 4711.);
        c31_read_dimension(1, t.size(), pad(c, "time").c_str(), t.data(), "seconds since 1970-01-01 00:00:00 +00:00");
        for (size_t k = 0; k < t.size(); ++k)
            c.check(std::abs(t[k] - EPOCH2020 - 3600 * w.times[k]) < 1e-3, "time " + std::to_string(k) + " is " + pbt::num(t[k]));
        for (int how = 0; how < 2; ++how) {
            const TimeUnit u = genTimeUnit(c);
            t.assign(t.size(), 4711.);
            if (how == 0)
                c31_read_dimension(1, t.size(), "time", t.data(), pad(c, u.text).c_str());
            else
                c.check(c31_dimensions(1, "time") == 1 && c31_read(1, "time", t.size(), t.data(), pad(c, u.text).c_str()) == 0, "time is not read in " + u.text);
            for (size_t k = 0; k < t.size(); ++k)
                c.check(std::abs(t[k] * u.step + u.epoch - EPOCH2020 - 3600 * w.times[k]) < 1e-2,
                        "time " + std::to_string(k) + " is " + pbt::num(t[k]) + " " + u.text);
        }
    }
    dvec x(w.ds.x.v.size(), 4711.);
    c31_read_dimension(1, x.size(), w.X.c_str(), x.data(), 0);
    same(c, "x axis", x, w.ds.x.v, 1e-12);
    dvec y(x.size() + 1, 4711.);
    c.check(aborts([&] { c31_read_dimension(1, y.size(), w.X.c_str(), y.data(), 0); }), "a dimension of another size is read");
    c.check(aborts([&] { c31_read_dimension(1, x.size(), "nono", x.data(), 0); }), "a dimension that is not there is read");
}
int size(const World& w, const Var& v, const std::string& d)
{
    return std::count(v.shape.begin(), v.shape.end(), d) ? (int)w.len.at(d) : -1;
}
//! the field at the given positions, x first
dvec field(const World& w, const Var& v, const std::map<std::string, size_t>& at, std::vector<size_t>& pos)
{
    dvec r;
    pos.clear();
    for (size_t j = 0; j < w.len.at(w.Y); ++j)
        for (size_t i = 0; i < w.len.at(w.X); ++i) {
            size_t p = 0, m = 1;
            for (size_t k = 0; k < v.shape.size(); ++k) {
                const std::string& d = v.shape[k];
                p += m * (d == w.X ? i : d == w.Y ? j : at.count(d) ? at.at(d) : 0);
                m *= v.dims[k];
            }
            pos.push_back(p);
            r.push_back(v.phys[p]);
        }
    return r;
}
struct At
{
    int step = -1, rel = -1, level = -1;
    std::map<std::string, size_t> at;
};
At positions(Case& c, const World& w, const Var& v)
{
    At a;
    auto one = [&](const std::string& d, int& p) {
        if (!d.empty() && size(w, v, d) > 0 && c.b(0.7))
            p = a.at[d] = c.idx(size(w, v, d));
    };
    one("time", a.step);
    one(w.r, a.rel);
    one(w.z, a.level);
    c.show() << v.name << " step " << a.step << " member " << a.rel << " level " << a.level << "\n";
    return a;
}
// ---------------------------------------------------------------- 2-dimensional fields
void fields(Case& c)
{
    Closer closer;
    World w = gen(c, true);
    open(c, 1, w);
    for (int rep = c.i(1, 3); rep > 0; --rep) {
        const Var& v = w.vars[c.idx(w.vars.size())];
        c.assume(v.cs);
        c.nontrivial(v.shape.size() > 2);
        const int want = c.i(0, 2047);
        int n[5] = {-1, -1, -1, -1, -1};
        double bt = -5;
        Text sx, sy, sz, st, sr;
        const bool hasT = size(w, v, "time") > 0;
        c31_get_dimensions2(1, pad(c, v.name).c_str(), want, n, sx, sy, sz, st, sr, &bt);
        const std::string d[5] = {w.X, w.Y, w.z, w.r, "time"};
        for (int k = 0; k < 5; ++k)
            if ((want >> k & 1) && size(w, v, d[k]) > 0)
                c.check(n[k] == size(w, v, d[k]), "size of " + d[k] + " is " + std::to_string(n[k]));
        if ((want & 32) && hasT)
            c.check(std::abs(bt - EPOCH2020 - 3600 * w.times[0]) < 1e-3, "base time is " + pbt::num(bt));
        auto nm = [&](int bit, const Text& t, const std::string& dim) {
            if (want & bit)
                c.check(t.s() == (size(w, v, dim) > 0 ? dim : "NA"), "name of dimension is '" + t.s() + "' instead of " + dim);
        };
        if (!w.lonName.empty()) {
            nm(64, sx, w.X);
            nm(128, sy, w.Y);
        }
        nm(256, sz, w.z);
        nm(512, st, "time");
        nm(1024, sr, w.r);
        const At a = positions(c, w, v);
        std::vector<size_t> pos;
        dvec val = field(w, v, a.at, pos);
        const bool pa = v.hpa && c.b();
        if (pa)
            for (auto& x : val)
                x *= 100;
        const int nx = w.len[w.X], ny = w.len[w.Y];
        dvec f(nx * ny, 4711.);
        double time = -5, base = -5;
        double *pt = c.b() ? &time : 0, *pb = c.b() ? &base : 0;
        c31_read_field(1, pad(c, v.name).c_str(), nx, ny, f.data(), a.step, a.rel, a.level, pt, pb, pa ? "Pa" : 0, c.i(-1, 3));
        same(c, "field of " + v.name, f, val, 1e-12, 1e-12);
        if (pt)
            c.check(hasT ? std::abs(time - EPOCH2020 - 3600 * w.times[std::max(0, a.step)]) < 1e-3 : time == -1, "time is " + pbt::num(time));
        if (pb)
            c.check(hasT ? std::abs(base - EPOCH2020 - 3600 * w.times[0]) < 1e-3 : base == -1, "base time is " + pbt::num(base));
        if (c.b(0.3)) {
            dvec g(nx * ny + nx + ny + 1);
            c.check(aborts([&] { c31_read_field(1, v.name.c_str(), nx + 1, ny, g.data(), a.step, a.rel, a.level, 0, 0, 0, -1); }), "a field of another size is read");
            if (size(w, v, w.z) > 0)
                c.check(aborts([&] { c31_read_field(1, v.name.c_str(), nx, ny, g.data(), a.step, a.rel, size(w, v, w.z), 0, 0, 0, -1); }), "a level that is not there is read");
            else
                c.check(aborts([&] { c31_read_field(1, v.name.c_str(), nx, ny, g.data(), a.step, a.rel, 0, 0, 0, 0, -1); }), "a level of a field without is read");
            if (hasT)
                c.check(aborts([&] { c31_read_field(1, v.name.c_str(), nx, ny, g.data(), size(w, v, "time"), a.rel, a.level, 0, 0, 0, -1); }), "a time that is not there is read");
            if (!w.r.empty() && size(w, v, w.r) > 0)
                c.check(aborts([&] { c31_read_field(1, v.name.c_str(), nx, ny, g.data(), a.step, size(w, v, w.r) + c.i(0, 2), a.level, 0, 0, 0, -1); }), "a member that is not there is read");
            c.check(aborts([&] { c31_read_field(1, "nono", nx, ny, g.data(), a.step, a.rel, a.level, 0, 0, 0, -1); }), "a variable that is not there is read");
            if (v.hpa)
                c.check(aborts([&] { c31_read_field(1, v.name.c_str(), nx, ny, g.data(), a.step, a.rel, a.level, 0, 0, "K", -1); }), "hPa are read in K");
        }
    }
}
// ---------------------------------------------------------------- writing
void writing(Case& c)
{
    Closer closer;
    World w = gen(c, true);
    open(c, 1, w, "netcdf+rw");
    std::map<std::string, dvec> all;
    for (auto& v : w.vars)
        all[v.name] = v.raw;
    for (int rep = c.i(1, 4); rep > 0; --rep) {
        const Var& v = w.vars[c.idx(w.vars.size())];
        const bool pa = v.hpa && c.b();
        auto value = [&](double& raw) {
            do
                raw = c.i(-200, 200);
            while (raw == v.fill);
            return (raw * v.scale + v.off) * (pa ? 100 : 1);
        };
        dvec f;
        std::vector<size_t> pos;
        if (v.cs && c.b()) {
            const At a = positions(c, w, v);
            field(w, v, a.at, pos);
            for (size_t p : pos)
                f.push_back(value(all[v.name][p]));
            const int nx = w.len[w.X], ny = w.len[w.Y];
            if (nx != ny && c.b(0.2))
                c.check(aborts([&] { c31_write_field(1, v.name.c_str(), ny, nx, f.data(), a.step, a.rel, a.level, 0, -1); }), "a field of another shape is written");
            if (c.b(0.4)) { // nothing is written where there is nothing
                dvec g(f.size(), 1.);
                const int more = c.i(0, 2);
                if (size(w, v, "time") > 0)
                    c.check(aborts([&] { c31_write_field(1, v.name.c_str(), nx, ny, g.data(), size(w, v, "time") + more, a.rel, a.level, 0, -1); }), "a time that is not there is written");
                if (!w.r.empty() && size(w, v, w.r) > 0)
                    c.check(aborts([&] { c31_write_field(1, v.name.c_str(), nx, ny, g.data(), a.step, size(w, v, w.r) + more, a.level, 0, -1); }), "a member that is not there is written");
                const bool hasZ = !w.z.empty() && size(w, v, w.z) > 0;
                c.check(aborts([&] { c31_write_field(1, v.name.c_str(), nx, ny, g.data(), a.step, a.rel, (hasZ ? size(w, v, w.z) : 0) + more, 0, -1); }), "a level that is not there is written");
                c.check(aborts([&] { c31_write_field(1, "nono", nx, ny, g.data(), a.step, a.rel, a.level, 0, -1); }), "a variable that is not there is written");
                if (v.hpa)
                    c.check(aborts([&] { c31_write_field(1, v.name.c_str(), nx, ny, g.data(), a.step, a.rel, a.level, "K", -1); }), "K are written as hPa");
            }
            c31_write_field(1, pad(c, v.name).c_str(), nx, ny, f.data(), a.step, a.rel, a.level, pa ? "Pa" : 0, c.i(-1, 3));
            c.label("field");
        } else {
            c.check(c31_dimensions(1, v.name.c_str()) == (int)v.shape.size(), "number of dimensions");
            svec start, size;
            restrict(c, 1, v, start, size);
            c.show() << v.name << " from " << vec(start) << " size " << vec(size) << "\n";
            dvec index(v.raw.size());
            for (size_t k = 0; k < index.size(); ++k)
                index[k] = k;
            for (double p : part(v, index, start, size))
                f.push_back(value(all[v.name][size_t(p)]));
            if (c.b(0.3)) {
                dvec g(f.size() + 1, 1.);
                c.check(c31_write(1, v.name.c_str(), g.size(), g.data(), 0) != 0, "a field of another size is written");
            }
            const int r = c31_write(1, pad(c, v.name).c_str(), f.size(), f.data(), pa ? "Pa" : c.b() ? "" : 0);
            c.check(r == 0, "write returns " + std::to_string(r));
        }
        c.nontrivial(f.size() != v.raw.size());
        if (c.b(0.5)) { // read again
            c.check(c31_dimensions(1, v.name.c_str()) == (int)v.shape.size(), "number of dimensions");
            dvec d(v.raw.size(), 4711.), wv;
            c.check(c31_read(1, v.name.c_str(), d.size(), d.data(), 0) == 0, "reading what was written fails");
            for (double x : all[v.name])
                wv.push_back(x == v.fill ? NAN : x * v.scale + v.off);
            same(c, "what was written to " + v.name, d, wv, 1e-12, 1e-9);
        }
    }
    c31_close(1);
    auto r = CDMFileReaderFactory::create("netcdf", w.file);
    for (auto& v : w.vars)
        same(c, v.name + " in the file", rawValues(r->getData(v.name)), all[v.name]);
    if (c.b(0.3)) {
        open(c, 2, w, "netcdf");
        const Var& v = w.vars[0];
        c31_dimensions(2, v.name.c_str());
        dvec d(v.raw.size(), 1.);
        c.check(c31_write(2, v.name.c_str(), d.size(), d.data(), 0) != 0, "a file opened for reading is written");
    }
}
// ---------------------------------------------------------------- interpolation
void interpolation(Case& c)
{
    Closer closer;
    World w = gen(c, false);
    open(c, 1, w);
    auto in = CDMFileReaderFactory::create("netcdf", w.file);
    auto ip = std::make_shared<CDMInterpolator>(in);
    const int method = c.pick({MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD, MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_MEAN,
                               MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_MIN});
    // around the first grid point
    double lon = w.ds.x.v[0], lat = w.ds.y.v[0];
    int rc = 0, rw = 0;
    bool bad = false;
    if (c.b()) {
        const bool deg = w.ds.proj.degree;
        auto axis = [&](const dvec& v) {
            bad = c.b(0.05);
            if (bad)
                return std::string("abc,,def");
            const double a = v.front(), b = v.back(), s = (b - a) / 4;
            std::ostringstream o;
            o.precision(15);
            o << a << "," << a + s << ",...," << b;
            return o.str();
        };
        const std::string ax = axis(w.ds.x.v);
        const bool badX = bad;
        const std::string ay = axis(w.ds.y.v);
        bad = bad || badX;
        c.show() << "method " << method << " axes " << ax << " " << ay << "\n";
        std::string err;
        try {
            ip->changeProjection(method, w.ds.proj.proj4, ax, ay, deg ? "degree" : "m", deg ? "degree" : "m");
        } catch (std::exception& ex) {
            rw = -1;
        }
        rc = c31_interpolate(2, 1, method, pad(c, w.ds.proj.proj4).c_str(), pad(c, ax).c_str(), pad(c, ay).c_str(), deg);
        c.label("grid");
    } else {
        Pj p(w.ds.proj.proj4, w.ds.proj.latlong());
        dvec lons, lats;
        for (int k = c.i(1, 4); k > 0; --k) {
            double x = w.ds.x.v[c.idx(w.ds.x.v.size())], y = w.ds.y.v[c.idx(w.ds.y.v.size())];
            c.assume(p.fwd(x, y));
            lons.push_back(x);
            lats.push_back(y);
        }
        c.show() << "method " << method << " points " << vec(lons) << " " << vec(lats) << "\n";
        try {
            ip->changeProjection(method, lons, lats);
        } catch (std::exception& ex) {
            rw = -1;
        }
        rc = c31_lonlat(2, 1, method, lons.size(), lons.data(), lats.size(), lats.data());
        if (c.b(0.2))
            c.check(c31_lonlat(3, 1, method, lons.size() - 1, lons.data(), lats.size(), lats.data()) < 0, "more latitudes than longitudes are accepted");
        c.label("points");
    }
    c.check((rc < 0) == (rw < 0), "interpolation returns " + std::to_string(rc) + ", in C++ it " + (rw < 0 ? "fails" : "works"));
    c.check(c31_lonlat(3, 4, method, 1, &lon, 1, &lat) < 0 && c31_interpolate(3, 4, method, w.ds.proj.proj4.c_str(), "1,2", "1,2", 1) < 0, "what is not open is interpolated");
    if (rw < 0)
        return;
    c.nontrivial();
    if (c.b(0.3))
        c31_close(1); // the new one goes on
    const CDM& cdm = ip->getCDM();
    c.check(c31_variables_size(2) == (long long)cdm.getVariables().size() && c31_dimensions_size(2) == (long long)cdm.getDimensions().size(), "number of variables or dimensions");
    for (auto& v : w.vars) {
        if (!cdm.hasVariable(v.name)) {
            c.check(c31_dimensions(2, v.name.c_str()) < 0 && c31_vartype(2, v.name.c_str()) == 0, "a variable removed from the result is there");
            continue;
        }
        DataPtr d = ip->getScaledData(v.name);
        auto shape = cdm.getVariable(v.name).getShape();
        c.check(c31_dimensions(2, v.name.c_str()) == (int)shape.size(), "number of dimensions of " + v.name);
        for (size_t k = 0; k < shape.size(); ++k)
            c.check(text([&](char* t) { c31_dimname(2, k + 1, t); }) == shape[k], "dimension of " + v.name);
        dvec f(d->size(), 4711.);
        c.check(c31_read(2, v.name.c_str(), f.size(), f.data(), 0) == 0, "reading " + v.name + " fails");
        same(c, v.name, f, rawValues(d), 1e-12, 1e-12);
    }
}
// ---------------------------------------------------------------- constants and dates
void dates(Case& c)
{
    static const int want[] = {CA::Undefined, CA::GeoX, CA::GeoY, CA::GeoZ, CA::Time, CA::Lon, CA::Lat, CA::Pressure, CA::Height, CA::Depth, CA::ReferenceTime, CA::Realization, MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD, MIFI_INTERPOL_FORWARD_SUM,
                               MIFI_INTERPOL_FORWARD_MEAN, MIFI_INTERPOL_FORWARD_MEDIAN, MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_MIN, CDM_NAT, CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_STRING, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, Logger::FATAL, Logger::ERROR, Logger::WARN, Logger::INFO, Logger::DEBUG};
    const int k = c.idx(sizeof want / sizeof *want);
    c.check(c31_const(k) == want[k], "constant " + std::to_string(k) + " is " + std::to_string(c31_const(k)) + " instead of " + std::to_string(want[k]));
    // years 1900 to 2146
    const long long t = 86400LL * c.i(-25567, 64600) + c.i(0, 86399);
    c.show() << t << " s";
    c.nontrivial(t % 3600);
    const time_t tt = t;
    struct tm q;
    gmtime_r(&tt, &q);
    const int dtg = (q.tm_year + 1900) * 1000000 + (q.tm_mon + 1) * 10000 + q.tm_mday * 100 + q.tm_hour;
    const double x = t;
    c.check(c31_dtg(x) == dtg, "DTG is " + std::to_string(c31_dtg(x)) + " instead of " + std::to_string(dtg));
}
} // namespace

int main(int argc, char** argv)
{
    noProjDatabase();
    Runner r("C31", "several variables, a part of a variable, more than two dimensions, an interpolation");
    r.init([] { fx::quiet(); c31_silence(); });
    r.sub("inventory", inventory, 1500, 20000);
    r.sub("reading", reading, 2000, 30000);
    r.sub("fields", fields, 2500, 40000);
    r.sub("writing", writing, 2000, 30000);
    r.sub("interpolation", interpolation, 1500, 20000);
    r.sub("dates", dates, 3000, 30000);
    return r.main(argc, argv);
}
