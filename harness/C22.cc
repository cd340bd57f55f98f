// C22: the C interface delivers, and stores, the same data as there are; errors become return codes
// LINK: libfimex-io-netcdf -lproj -lnetcdf
#include "cf.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/XMLInput.h"
#include "fimex/c_fimex.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/mifi_cdm_reader.h"
#include "noprojdb.h"
#include <cmath>
#include <cstring>
#include <unistd.h>
using namespace fx;
using namespace cf;
using namespace pbt;

struct Var
{
    std::string name;
    std::vector<std::string> shape;
    svec dims;
    CDMDataType type;
    double scale = 1, off = 0, fill = NAN;
    bool unlim = false, cs = true, pa = false;
    dvec raw, phys;
};
//! hands out its own buffers
class KeepReader : public MemReader
{
public:
    std::map<std::pair<std::string, size_t>, DataPtr> kept;
    using MemReader::getDataSlice;
    DataPtr getDataSlice(const std::string& varName, size_t pos) override
    {
        DataPtr& d = kept[std::make_pair(varName, pos)];
        if (!d)
            d = MemReader::getDataSlice(varName, pos);
        return d;
    }
};
struct World
{
    Dataset ds;
    std::vector<Var> vars;
    std::map<std::string, size_t> len;
    std::string unlim;
    int refTime = 0; // 1: scalar, 2: none
    double refHours = 0;
};

static World gen(Case& c, bool nc)
{
    World w;
    if (!nc && c.b(0.3))
        w.ds.r = std::make_shared<KeepReader>();
    else
        w.ds.r = std::make_shared<MemReader>();
    Proj p = genProj(c, LATLON | STERE | ROT | LCC);
    const size_t nx = c.i(2, 4), ny = c.i(2, 4), nz = c.i(1, 3), nt = c.i(1, 3);
    addGrid(w.ds, p, genAxis(c, p.cx, p.half, nx), genAxis(c, p.cy, p.half, ny));
    const std::string X = w.ds.x.name, Y = w.ds.y.name;
    w.len[X] = nx;
    w.len[Y] = ny;
    std::vector<std::string> more;
    if (c.b(0.6)) {
        dvec v;
        for (size_t k = 0; k < nz; ++k)
            v.push_back(1000 - 100. * k);
        addAxis(w.ds, {"lev", v, "hPa"}, false);
        w.len["lev"] = nz;
        more.push_back("lev");
    }
    std::string time;
    bool unlim = false;
    if (c.b(0.7)) {
        dvec v;
        for (size_t k = 0; k < nt; ++k)
            v.push_back(6. * k);
        unlim = c.b(0.6);
        addAxis(w.ds, {"time", v, "hours since 2020-01-01 00:00:00"}, unlim);
        attr(w.ds, "time", "standard_name", "time");
        w.len["time"] = nt;
        time = "time";
        if (unlim)
            w.unlim = "time";
    }
    const size_t n = c.i(1, 4);
    const bool permute = c.b(0.4);
    for (size_t k = 0; k < n; ++k) {
        Var v;
        v.name = "v" + std::to_string(k);
        v.shape = {X, Y};
        for (auto& m : more)
            if (c.b(0.8))
                v.shape.push_back(m);
        if (!time.empty() && !unlim && c.b(0.8))
            v.shape.push_back(time);
        if (permute) {
            std::vector<std::string> s;
            for (size_t q : c.perm(v.shape.size()))
                s.push_back(v.shape[q]);
            v.shape = s;
        }
        if (unlim && c.b(0.8)) {
            v.shape.push_back(time);
            v.unlim = true;
        }
        if (c.b(0.1)) {
            v.shape = {X};
            v.unlim = false;
            v.cs = false;
        }
        for (auto& s : v.shape)
            v.dims.push_back(w.len[s]);
        v.type = c.pick({CDM_DOUBLE, CDM_FLOAT, CDM_SHORT, CDM_INT});
        const size_t sz = prod(v.dims);
        if (!isFloat(v.type) && c.b(0.7)) {
            v.scale = c.pick({0.5, 0.25, 2.});
            v.off = c.pick({0., 100., -7.5});
        }
        if (c.b(0.5))
            v.fill = c.pick({-100., -50., 32000., 20.});
        for (size_t q = 0; q < sz; ++q) {
            v.raw.push_back(c.i(-200, 200));
            if (!std::isnan(v.fill) && c.b(0.1))
                v.raw.back() = v.fill;
            v.phys.push_back(v.raw[q] == v.fill ? NAN : v.raw[q] * v.scale + v.off);
        }
        v.pa = c.b();
        addVar(w.ds, v.name, v.type, v.shape, v.raw, v.shape.size() > 1, !nc && c.b(0.15));
        CDM& cdm = w.ds.r->cdm();
        if (v.pa)
            attr(w.ds, v.name, "units", "hPa");
        if (v.scale != 1)
            cdm.addAttribute(v.name, CDMAttribute("scale_factor", v.scale));
        if (v.off != 0)
            cdm.addAttribute(v.name, CDMAttribute("add_offset", v.off));
        if (!std::isnan(v.fill))
            cdm.addAttribute(v.name, CDMAttribute("_FillValue", mkData(v.type, {v.fill})));
        w.vars.push_back(v);
        c.show() << tname(v.type) << " " << v.name << "(";
        for (size_t q = 0; q < v.shape.size(); ++q)
            c.show() << v.shape[q] << "=" << v.dims[q] << " ";
        c.show() << ") scale=" << v.scale << " offset=" << v.off << " fill=" << pbt::num(v.fill) << (v.pa ? " hPa" : "") << " " << vec(v.raw) << (cdm.getVariable(v.name).hasData() ? " in memory" : "") << "\n";
    }
    if (c.b(0.5)) {
        w.refTime = 1;
        w.refHours = c.i(-1000, 1000);
        CDM& cdm = w.ds.r->cdm();
        cdm.addVariable(CDMVariable("forecast_reference_time", CDM_DOUBLE, std::vector<std::string>()));
        attr(w.ds, "forecast_reference_time", "standard_name", "forecast_reference_time");
        attr(w.ds, "forecast_reference_time", "units", "hours since 2020-01-01 00:00:00");
        w.ds.r->data["forecast_reference_time"] = mkData(CDM_DOUBLE, {w.refHours});
    }
    c.show() << p.kind << " x=" << nx << " y=" << ny << " unlimited='" << w.unlim << "'\n";
    return w;
}

struct Reader
{
    mifi_cdm_reader* r;
    ~Reader() { mifi_free_cdm_reader(r); }
};
struct Slice
{
    mifi_slicebuilder* sb;
    ~Slice() { mifi_free_slicebuilder(sb); }
};
//! a call which has to return, whatever it is given
template <class F> static auto noThrow(Case& c, const std::string& what, F f) -> decltype(f())
{
    try {
        return f();
    } catch (Fail&) {
        throw;
    } catch (std::exception& ex) {
        c.fail(what + ": an exception left the C interface: " + ex.what());
    }
}
static std::string freed(char* s)
{
    std::string r = s ? s : "";
    free(s);
    return r;
}
static void doubles(Case& c, const std::string& what, int rc, double* d, size_t n, const dvec& want)
{
    c.check(rc == 0, what + " returns " + std::to_string(rc));
    dvec got(d, d + n);
    free(d);
    same(c, what, got, want, 1e-12, 1e-12);
}

//! restrict the slice at random; returns start and size per dimension
static void restrict(Case& c, mifi_slicebuilder* sb, const Var& v, svec& start, svec& size)
{
    start.assign(v.dims.size(), 0);
    size = v.dims;
    for (size_t k = 0; k < v.dims.size(); ++k)
        if (c.b(0.6)) {
            start[k] = c.idx(v.dims[k]);
            size[k] = c.i(1, v.dims[k] - start[k]);
            int rc = noThrow(c, "set_dim_start_size", [&] { return mifi_slicebuilder_set_dim_start_size(sb, v.shape[k].c_str(), start[k], size[k]); });
            c.check(rc == 0, "set_dim_start_size of " + v.shape[k] + " returns " + std::to_string(rc));
        }
}
static void checkSliceBuilder(Case& c, mifi_slicebuilder* sb, const World& w, const Var& v)
{
    c.check(sb != 0, "no slice builder for " + v.name);
    c.check(mifi_slicebuilder_ndims(sb) == (int)v.shape.size(), v.name + ": number of dimensions of the slice builder is " + std::to_string(mifi_slicebuilder_ndims(sb)));
    for (size_t k = 0; k < v.shape.size(); ++k) {
        std::string n = freed((char*)mifi_slicebuilder_dimname(sb, k));
        c.check(n == v.shape[k], v.name + ": dimension " + std::to_string(k) + " of the slice builder is " + n + ", that of the variable " + v.shape[k]);
        char buf[8];
        memset(buf, 'z', sizeof buf);
        const int cap = c.i(1, 8);
        int rc = mifi_slicebuilder_dimname_cpy(sb, k, buf, cap);
        if ((int)n.size() + 1 > cap)
            c.check(rc == 0, "dimname_cpy into " + std::to_string(cap) + " characters returns " + std::to_string(rc));
        else
            c.check(rc == (int)n.size() + 1 && n == buf, "dimname_cpy gives '" + std::string(buf, strnlen(buf, 8)) + "' " + std::to_string(rc));
        for (int q = cap; q < 8; ++q)
            c.check(buf[q] == 'z', "dimname_cpy writes behind the end");
    }
    std::vector<unsigned> st(v.shape.size()), sz(v.shape.size());
    c.check(mifi_slicebuilder_get_start_size(sb, st.data(), sz.data()) == 0, "get_start_size fails");
    for (size_t k = 0; k < st.size(); ++k)
        c.check(st[k] == 0 && sz[k] == v.dims[k], v.name + ": a new slice builder does not comprise everything");
    if (v.cs)
        c.check(mifi_slicebuilder_has_CS(sb) == 1, v.name + ": has_CS is " + std::to_string(mifi_slicebuilder_has_CS(sb)));
    if (v.cs) {
        std::vector<int> ax(v.shape.size(), -1);
        int rc = noThrow(c, "get_axistype", [&] { return mifi_slicebuilder_get_axistype(sb, ax.data()); });
        c.check(rc == 0, "get_axistype returns " + std::to_string(rc));
        for (size_t k = 0; k < ax.size(); ++k) {
            const std::string& s = v.shape[k];
            int want = s == "time" ? CoordinateAxis::Time : s == "lev" ? CoordinateAxis::Pressure : s == "lon" ? CoordinateAxis::Lon : s == "lat" ? CoordinateAxis::Lat : s == w.ds.x.name ? CoordinateAxis::GeoX : CoordinateAxis::GeoY;
            c.check(ax[k] == want, v.name + ": type of axis " + s + " is " + std::to_string(ax[k]) + ", expected " + std::to_string(want));
        }
        std::string p4 = freed((char*)mifi_slicebuilder_get_proj4(sb));
        if (w.ds.proj.kind != "latitude_longitude") {
            c.check(p4.find("+proj=") != std::string::npos, "projection is '" + p4 + "'");
            // same projection: both transform the corners to the same place
            Pj a(p4, w.ds.proj.latlong()), b(w.ds.proj.proj4, w.ds.proj.latlong());
            double s = w.ds.proj.degree ? 180 / M_PI : 1;
            (void)s;
            double x = w.ds.x.v[0], y = w.ds.y.v[0], x2 = x, y2 = y;
            bool oa = a.fwd(x, y), ob = b.fwd(x2, y2);
            c.check(oa == ob && (!oa || (std::fabs(x - x2) < 1e-5 && std::fabs(y - y2) < 1e-5)), "projection is '" + p4 + "', expected '" + w.ds.proj.proj4 + "'");
        }
        std::vector<char> buf(200, 'z');
        int rc2 = mifi_slicebuilder_get_proj4_cpy(sb, buf.data(), (int)p4.size());
        c.check(rc2 == 0, "get_proj4_cpy into too few characters returns " + std::to_string(rc2));
        c.check(buf[p4.size()] == 'z', "get_proj4_cpy writes behind the end");
        std::vector<char> buf2(p4.size() + 2, 'z');
        rc2 = mifi_slicebuilder_get_proj4_cpy(sb, buf2.data(), (int)p4.size() + 1);
        c.check(rc2 == (int)p4.size() + 1 && p4 == buf2.data() && buf2.back() == 'z', "get_proj4_cpy gives " + std::to_string(rc2));
    }
}
static dvec scaled(dvec v, double f)
{
    for (auto& x : v)
        x *= f;
    return v;
}

static void reading(Case& c)
{
    World w = gen(c, false);
    Reader R{new mifi_cdm_reader(w.ds.r)};
    const CDM& cdm = w.ds.r->getCDM();
    // inventory
    const size_t nv = cdm.getVariables().size(), nd = w.len.size();
    c.check(mifi_get_variable_number(R.r) == nv, "number of variables");
    std::set<std::string> names;
    for (size_t k = 0; k < nv; ++k)
        names.insert(mifi_get_variable_name(R.r, k));
    c.check(names.size() == nv, "names of variables are not distinct");
    for (auto& v : w.vars) {
        c.check(names.count(v.name) == 1, v.name + " is not listed");
        c.check(mifi_get_variable_type(R.r, v.name.c_str()) == (unsigned)v.type, "type of " + v.name);
    }
    c.check(mifi_get_dimension_number(R.r) == nd, "number of dimensions");
    std::set<std::string> dn;
    for (size_t k = 0; k < nd; ++k) {
        std::string n = mifi_get_dimension_name(R.r, k);
        dn.insert(n);
        c.check(w.len.count(n) && mifi_get_dimension_size(R.r, n.c_str()) == w.len[n], "size of dimension " + n);
    }
    c.check(dn.size() == nd, "names of dimensions are not distinct");
    c.check(w.unlim == mifi_get_unlimited_dimension_name(R.r), "unlimited dimension");
    // what is not there
    auto none = [&](const char* s, const std::string& what) { if (s && *s) c.fail(what + " is " + s); };
    noThrow(c, "get_variable_name", [&] { none(mifi_get_variable_name(R.r, nv + c.i(0, 3)), "name of a variable not there"); return 0; });
    noThrow(c, "get_dimension_name", [&] { none(mifi_get_dimension_name(R.r, nd + c.i(0, 3)), "name of a dimension not there"); return 0; });
    c.check(noThrow(c, "get_variable_type", [&] { return mifi_get_variable_type(R.r, "nono"); }) == 0, "type of a variable not there");
    c.check(noThrow(c, "get_dimension_size", [&] { return mifi_get_dimension_size(R.r, "nono"); }) == 0, "size of a dimension not there");
    c.check(noThrow(c, "new_slicebuilder", [&] { return mifi_new_slicebuilder(R.r, "nono"); }) == 0, "slice builder of a variable not there");
    double* d = 0;
    size_t sz = 0;
    c.check(noThrow(c, "get_double_data", [&] { return mifi_get_double_data(R.r, "nono", &d, &sz); }) != 0, "data of a variable not there");
    c.check(noThrow(c, "get_double_dataslice", [&] { return mifi_get_double_dataslice(R.r, "nono", 0, &d, &sz); }) != 0, "data of a variable not there");
    noThrow(c, "get_var_longitude", [&] { std::string l = freed(mifi_get_var_longitude(R.r, "nono")); c.check(l.empty(), "longitude of a variable not there is " + l); return 0; });
    double ft = noThrow(c, "forecast_reference_time", [&] { return mifi_get_unique_forecast_reference_time(R.r, "hours since 2020-01-02 00:00:00"); });
    if (w.refTime)
        c.check(close(ft, w.refHours - 24, 1e-9, 1e-6), "forecast reference time is " + pbt::num(ft) + ", expected " + pbt::num(w.refHours - 24));
    else
        c.check(std::isnan(ft), "forecast reference time is " + pbt::num(ft) + " in a file without");
    ft = noThrow(c, "forecast_reference_time", [&] { return mifi_get_unique_forecast_reference_time(R.r, "nonsense since"); });
    c.check(std::isnan(ft), "forecast reference time in a unit which is none is " + pbt::num(ft));

    for (auto& v : w.vars) {
        // longitude, latitude
        const bool ll = v.cs && w.ds.proj.kind == "latitude_longitude";
        std::string lon = freed(mifi_get_var_longitude(R.r, v.name.c_str())), lat = freed(mifi_get_var_latitude(R.r, v.name.c_str()));
        c.check(lon == (ll ? "lon" : "") && lat == (ll ? "lat" : ""), "longitude and latitude of " + v.name + " are '" + lon + "' '" + lat + "'");
        char buf[8] = "zzzzzzz";
        int rc = mifi_get_var_longitude_cpy(R.r, v.name.c_str(), buf, 8);
        if (ll)
            c.check(rc == 4 && std::string(buf) == "lon", "longitude_cpy: " + std::to_string(rc));
        else
            c.check(rc == -1, "longitude_cpy returns " + std::to_string(rc) + " if there is none, documented is -1");
        rc = mifi_get_var_latitude_cpy(R.r, v.name.c_str(), buf, 8);
        if (ll)
            c.check(rc == 4 && std::string(buf) == "lat", "latitude_cpy: " + std::to_string(rc));
        else
            c.check(rc == -1, "latitude_cpy returns " + std::to_string(rc) + " if there is none, documented is -1");
        // all data
        rc = mifi_get_double_data(R.r, v.name.c_str(), &d, &sz);
        doubles(c, "get_double_data of " + v.name, rc, d, sz, v.phys);
        const size_t recs = v.unlim ? v.dims.back() : 1, rec = v.phys.size() / recs, t = c.idx(recs);
        rc = mifi_get_double_dataslice(R.r, v.name.c_str(), t, &d, &sz);
        doubles(c, "get_double_dataslice of " + v.name, rc, d, sz, dvec(v.phys.begin() + t * rec, v.phys.begin() + (t + 1) * rec));
        // slices
        Slice S{noThrow(c, "new_slicebuilder", [&] { return mifi_new_slicebuilder(R.r, v.name.c_str()); })};
        checkSliceBuilder(c, S.sb, w, v);
        svec start, size;
        restrict(c, S.sb, v, start, size);
        if (c.b(0.2)) { // too much
            size_t k = c.idx(v.dims.size());
            int e = noThrow(c, "set_dim_start_size", [&] { return mifi_slicebuilder_set_dim_start_size(S.sb, v.shape[k].c_str(), c.i(0, 3), v.dims[k] + 1); });
            c.check(e < 0, "too large a slice is accepted");
        }
        if (c.b(0.1)) {
            int e = noThrow(c, "set_dim_start_size", [&] { return mifi_slicebuilder_set_dim_start_size(S.sb, "nono", 0, 1); });
            c.check(e < 0, "a slice of a dimension not there is accepted");
            noThrow(c, "slicebuilder_dimname", [&] { std::string s = freed((char*)mifi_slicebuilder_dimname(S.sb, v.dims.size() + 1)); c.check(s.empty(), "name of a dimension not there"); return 0; });
        }
        dvec want = hyperslab(v.phys, v.dims, start, size);
        const bool unit = v.pa && c.b();
        dvec got(want.size() + 1, -12345);
        sz = 0;
        c.show() << "slice of " << v.name << " " << (unit ? "in Pa " : "") << "\n";
        rc = noThrow(c, "fill_scaled_double_dataslice", [&] { return mifi_fill_scaled_double_dataslice(R.r, v.name.c_str(), S.sb, unit ? "Pa" : "", got.data(), &sz); });
        c.check(rc == 0, "fill_scaled_double_dataslice of " + v.name + " returns " + std::to_string(rc));
        c.check(sz == want.size(), "fill_scaled_double_dataslice of " + v.name + ": size " + std::to_string(sz) + ", expected " + std::to_string(want.size()));
        c.check(got.back() == -12345, "fill_scaled_double_dataslice writes behind the end");
        got.pop_back();
        same(c, "slice of " + v.name, got, unit ? scaled(want, 100) : want, 1e-12, 1e-9);
        if (want.size() > 1)
            c.nontrivial();
    }
}

static int g_fail = 0, g_calls = 0;
static std::map<std::string, dvec> g_seen;
static int twicePlusOne(mifi_cdm_reader*, const char* name, size_t, double* data, size_t n)
{
    g_calls++;
    g_seen[name] = dvec(data, data + n);
    for (size_t k = 0; k < n; ++k)
        data[k] = 2 * data[k] + 1;
    return g_fail;
}
static void callbacks(Case& c)
{
    World w = gen(c, false);
    Reader R{new mifi_cdm_reader(w.ds.r)};
    int rc = noThrow(c, "set_callback_double", [&] { return mifi_set_callback_double(R.r, w.vars[0].name.c_str(), twicePlusOne); });
    c.check(rc != 0, "a callback for a reader which does not know of callbacks is accepted");
    Reader C{mifi_new_c_reader(R.r)};
    c.check(C.r != 0, "no C reader");
    std::set<std::string> on;
    for (auto& v : w.vars)
        if (c.b(0.7)) {
            rc = noThrow(c, "set_callback_double", [&] { return mifi_set_callback_double(C.r, v.name.c_str(), twicePlusOne); });
            c.check(rc == 0, "set_callback_double returns " + std::to_string(rc));
            on.insert(v.name);
            c.show() << "callback for " << v.name << "\n";
        }
    rc = noThrow(c, "set_callback_double", [&] { return mifi_set_callback_double(C.r, "nono", twicePlusOne); });
    c.check(rc != 0, "a callback for a variable not there is accepted");
    for (int round = 0; round < 2; ++round)
        for (auto& v : w.vars) {
            const bool cb = on.count(v.name);
            dvec want = v.phys;
            if (cb) {
                c.check(mifi_get_variable_type(C.r, v.name.c_str()) == CDM_DOUBLE, "type of " + v.name + " is not double");
                for (auto& x : want)
                    x = 2 * x + 1;
                c.nontrivial();
            }
            double* d = 0;
            size_t sz = 0;
            g_fail = 0;
            g_seen.clear();
            rc = mifi_get_double_data(C.r, v.name.c_str(), &d, &sz);
            doubles(c, std::string("get_double_data of ") + v.name + (cb ? " by callback" : ""), rc, d, sz, want);
            const size_t recs = v.unlim ? v.dims.back() : 1, rec = v.phys.size() / recs, t = c.idx(recs);
            rc = mifi_get_double_dataslice(C.r, v.name.c_str(), t, &d, &sz);
            doubles(c, "get_double_dataslice of " + v.name, rc, d, sz, dvec(want.begin() + t * rec, want.begin() + (t + 1) * rec));
            if (cb)
                same(c, "what the callback is given for " + v.name, g_seen[v.name], dvec(v.phys.begin() + t * rec, v.phys.begin() + (t + 1) * rec), 1e-12, 1e-12);
            Slice S{mifi_new_slicebuilder(C.r, v.name.c_str())};
            c.check(S.sb != 0, "no slice builder");
            svec start, size;
            restrict(c, S.sb, v, start, size);
            dvec part = hyperslab(want, v.dims, start, size), got(part.size());
            rc = mifi_fill_scaled_double_dataslice(C.r, v.name.c_str(), S.sb, "", got.data(), &sz);
            c.check(rc == 0 && sz == part.size(), "fill_scaled_double_dataslice returns " + std::to_string(rc));
            same(c, "slice of " + v.name, got, part, 1e-12, 1e-12);
            if (cb) {
                g_fail = c.i(1, 3);
                rc = noThrow(c, "get_double_dataslice", [&] { return mifi_get_double_dataslice(C.r, v.name.c_str(), 0, &d, &sz); });
                g_fail = 0;
                c.check(rc != 0, "the error of the callback is lost");
            }
            // the source of the data is as before
            rc = mifi_get_double_data(R.r, v.name.c_str(), &d, &sz);
            doubles(c, "source after the callback, " + v.name, rc, d, sz, v.phys);
        }
}

static void writing(Case& c)
{
    World w = gen(c, true);
    const std::string file = c.tmpdir() + "/c22_" + std::to_string(c.serial()) + ".nc";
    {
        Reader R{new mifi_cdm_reader(w.ds.r)};
        int rc = mifi_writer(R.r, c.b() ? "nc" : "nc3", file.c_str(), c.b() ? "" : 0);
        c.check(rc == 0, "mifi_writer returns " + std::to_string(rc));
    }
    {
        Reader RO{mifi_new_io_reader("nc", file.c_str(), "")};
        c.check(RO.r != 0, "file cannot be read");
        Slice S{mifi_new_slicebuilder(RO.r, w.vars[0].name.c_str())};
        double x = 1;
        c.check(noThrow(c, "write", [&] { return mifi_write_scaled_double_dataslice(RO.r, w.vars[0].name.c_str(), S.sb, "", &x, 1); }) < 0, "writing to a read-only file is accepted");
    }
    c.check(noThrow(c, "mifi_new_netcdf_reader", [&] { return mifi_new_io_reader("nc", (file + ".not").c_str(), ""); }) == 0, "a file not there can be read");
    {
        Reader W{mifi_new_io_reader("netcdf+rw", file.c_str(), "")};
        c.check(W.r != 0, "file cannot be opened for writing");
        const size_t n = c.i(1, 4);
        for (size_t k = 0; k < n; ++k) {
            Var& v = w.vars[c.idx(w.vars.size())];
            Slice S{mifi_new_slicebuilder(W.r, v.name.c_str())};
            checkSliceBuilder(c, S.sb, w, v);
            svec start, size;
            restrict(c, S.sb, v, start, size);
            const bool unit = v.pa && c.b();
            dvec nv(prod(size));
            for (auto& x : nv) {
                x = c.b(0.1) && !std::isnan(v.fill) ? NAN : c.i(-50, 50) * v.scale + v.off;
                if (x == v.fill * v.scale + v.off)
                    x += v.scale;
            }
            dvec put = unit ? scaled(nv, 100) : nv;
            c.show() << "write " << vec(put) << " to " << v.name << (unit ? " in Pa" : "") << " start " << vec(dvec(start.begin(), start.end())) << " size " << vec(dvec(size.begin(), size.end())) << "\n";
            int rc = noThrow(c, "write", [&] { return mifi_write_scaled_double_dataslice(W.r, v.name.c_str(), S.sb, unit ? "Pa" : "", put.data(), put.size()); });
            c.check(rc == 0, "write_scaled_double_dataslice of " + v.name + " returns " + std::to_string(rc));
            size_t at = 0;
            svec ix(size.size(), 0);
            for (; at < nv.size(); ++at) {
                size_t off = 0, st = 1, rem = at;
                for (size_t q = 0; q < size.size(); ++q) {
                    off += (start[q] + rem % size[q]) * st;
                    rem /= size[q];
                    st *= v.dims[q];
                }
                v.phys[off] = nv[at];
            }
            if (nv.size() > 1)
                c.nontrivial();
        }
    }
    Reader R{mifi_new_io_reader("nc", file.c_str(), "")};
    c.check(R.r != 0, "file cannot be read");
    for (auto& v : w.vars) {
        double* d = 0;
        size_t sz = 0;
        int rc = mifi_get_double_data(R.r, v.name.c_str(), &d, &sz);
        doubles(c, "data of " + v.name + " after writing", rc, d, sz, v.phys);
    }
    ::unlink(file.c_str());
}

int main(int argc, char** argv)
{
    noProjDatabase();
    Runner r("C22", "a slice of more than one value, a callback, or a write of more than one value");
    r.init(quiet);
    r.sub("reading", reading, 10000, 300000);
    r.sub("callbacks", callbacks, 6000, 150000);
    r.sub("writing", writing, 4000, 80000);
    return r.main(argc, argv);
}
