// C24: a GRIB file holds one message per variable, level and time, with the values, position, level and time of the source
// LINK: libfimex-io-grib -lproj -leccodes
#include "gribmsg.h"
#include "ncmodel.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/XMLInputString.h"

#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace gribm;
using namespace pbt;

namespace {
enum LK { NONE, PRES, HEIGHT, SIGMA, HYBRID, NLK };
struct Lev
{
    LK kind = NONE;
    std::string axis;
    dvec v;       // in units of the config (hPa, m, 1)
    dvec ap, b;   // hybrid
    long id = 0;  // type of level
    double value = 0; // NONE: from the config
};
struct Par
{
    long id[3];
    bool process = false;
    long proc = 0;
};
struct WV
{
    std::string name, stdName, unit, gunit;
    double slope = 1, uoff = 0;
    int lev = 0;
    bool time = false, yFast = false, configured = true;
    std::vector<std::string> shape;
    CDMDataType type;
    double scale = 1, off = 0, fill = -999;
    bool hasFill = false, packed = false;
    dvec v; // canonical, x fastest, then y, z, t; NAN undefined; in config units
    std::map<size_t, Par> perLevel; // by position; otherwise -1
    Par par;
    bool byLevel = false;
};
struct Want
{
    std::string key;
    const WV* w;
    size_t z, t;
};
struct Src
{
    int ed = 1;
    Grid g;
    cf::Dataset ds;
    std::vector<Lev> levs;
    std::vector<WV> vars;
    std::vector<int64_t> times; // epoch seconds; for several reference times those of the first, the next, ...
    std::vector<int64_t> refs;  // several reference times
    size_t nt = 0;              // number of times per reference time
    bool hasTime = false, hasRef = false;
    int64_t ref = 0;
    bool omit = true;
    std::string config;
    long globalProc = -1;
};
struct UC
{
    const char *src, *dst;
    double slope, off;
};
std::string ymd(int64_t epoch)
{
    return cal::fromEpochMs(epoch * 1000).iso();
}
double fix(double v, CDMDataType t)
{
    return t == CDM_FLOAT ? (double)(float)v : v;
}
std::string key(int ed, const long id[3], long levtype, double lev, const std::string& ref, const std::string& valid)
{
    std::ostringstream o;
    o.precision(7);
    o << "param " << id[0] << "/" << id[1];
    if (ed == 2)
        o << "/" << id[2];
    o << " level " << levtype << ":" << lev << " ref " << ref << " valid " << valid;
    return o.str();
}

Src gen(Case& c)
{
    Src s;
    s.ed = c.i(1, 2);
    do
        s.g = genGrid(c, s.ed);
    while (s.g.type == MERC);
    Grid& g = s.g;
    g.jCons = g.alt = false;
    g.incrGiven = true;
    g.earthCode = s.ed == 1 ? 0 : 6;
    g.earth = s.ed == 1 ? Earth{6367470, 6367470} : Earth{6371229, 6371229};
    if (g.type == STERE && s.ed == 2 && c.b(0.3))
        g.lad = 90;
    s.ds.r = std::make_shared<MemReader>();
    MemReader& r = *s.ds.r;
    CDM& cdm = r.cdm();
    dvec lon, lat;
    g.lonLat(lon, lat);
    // horizontal
    cf::Axis ax, ay;
    cdm.addVariable(CDMVariable("crs", CDM_INT, std::vector<std::string>()));
    r.data["crs"] = mkData(CDM_INT, {0});
    auto crs = [&](const CDMAttribute& a) { cdm.addAttribute("crs", a); };
    const double dx = (g.iNeg ? -1 : 1) * g.di, dy = (g.jPos ? 1 : -1) * g.dj;
    double x1 = g.lon1, y1 = g.lat1;
    std::string ux = "degrees_east", uy = "degrees_north", sx = "longitude", sy = "latitude";
    double ku = 1;
    if (g.type == LL) {
        ax.name = "lon";
        ay.name = "lat";
        crs(CDMAttribute("grid_mapping_name", "latitude_longitude"));
        x1 += c.pick({0, 0, -360, 0});
    } else if (g.type == ROT) {
        ax.name = "rlon";
        ay.name = "rlat";
        ux = uy = "degrees";
        sx = "grid_longitude";
        sy = "grid_latitude";
        crs(CDMAttribute("grid_mapping_name", "rotated_latitude_longitude"));
        crs(cf::num("grid_north_pole_latitude", -g.spLat));
        crs(cf::num("grid_north_pole_longitude", g.spLon > 0 ? g.spLon - 180 : g.spLon + 180));
    } else {
        ax.name = "x";
        ay.name = "y";
        ux = uy = c.b(0.3) ? "km" : "m";
        ku = ux == "km" ? 1e-3 : 1;
        sx = "projection_x_coordinate";
        sy = "projection_y_coordinate";
        cf::Pj fw("+proj=latlong " + g.earth.proj(), g.proj());
        if (!fw.fwd(x1, y1))
            throw pbt::Fail{"harness: first point"};
        if (g.type == STERE) {
            if (c.b(0.6)) {
                crs(CDMAttribute("grid_mapping_name", "polar_stereographic"));
                crs(cf::num("straight_vertical_longitude_from_pole", g.lov));
                if (c.b(0.7))
                    crs(cf::num("standard_parallel", g.south ? -g.lad : g.lad));
                else
                    crs(cf::num("scale_factor_at_projection_origin", (1 + std::sin(g.lad * M_PI / 180)) / 2));
            } else {
                crs(CDMAttribute("grid_mapping_name", "stereographic"));
                crs(cf::num("longitude_of_projection_origin", g.lov));
                crs(cf::num("scale_factor_at_projection_origin", (1 + std::sin(g.lad * M_PI / 180)) / 2));
            }
            crs(cf::num("latitude_of_projection_origin", g.south ? -90 : 90));
        } else {
            crs(CDMAttribute("grid_mapping_name", "lambert_conformal_conic"));
            if (g.latin1 == g.latin2 && c.b())
                crs(cf::num("standard_parallel", g.latin1));
            else
                crs(CDMAttribute("standard_parallel", mkData(CDM_DOUBLE, dvec{g.latin1, g.latin2})));
            crs(cf::num("longitude_of_central_meridian", g.lov));
            crs(cf::num("latitude_of_projection_origin", g.latin1));
        }
    }
    crs(cf::num("earth_radius", g.earth.a));
    for (long i = 0; i < g.ni; ++i)
        ax.v.push_back((x1 + i * dx) * ku);
    for (long j = 0; j < g.nj; ++j)
        ay.v.push_back((y1 + j * dy) * ku);
    ax.units = ux;
    ay.units = uy;
    cf::addAxis(s.ds, ax, false);
    cf::addAxis(s.ds, ay, false);
    cf::attr(s.ds, ax.name, "standard_name", sx);
    cf::attr(s.ds, ay.name, "standard_name", sy);
    s.ds.x = ax;
    s.ds.y = ay;
    std::string coords;
    if (g.type != LL) {
        coords = "lon lat";
        const bool pack = c.b(0.2);
        for (int k = 0; k < 2; ++k) {
            const std::string n = k ? "lat" : "lon";
            dvec v = k ? lat : lon;
            if (k == 0)
                for (double& l : v)
                    l = l > 180 ? l - 360 : l;
            CDMDataType t = pack ? CDM_INT : CDM_DOUBLE;
            if (pack)
                for (double& x : v)
                    x = std::round(x * 1e6);
            cdm.addVariable(CDMVariable(n, t, {ax.name, ay.name}));
            r.data[n] = mkData(t, v);
            cf::attr(s.ds, n, "units", k ? "degrees_north" : "degrees_east");
            cf::attr(s.ds, n, "standard_name", k ? "latitude" : "longitude");
            if (pack)
                cdm.addAttribute(n, cf::num("scale_factor", 1e-6));
        }
    }
    // time
    s.hasRef = c.b(0.7);
    const int64_t res = s.ed == 1 ? 60 : c.pick({60, 60, 1});
    const int64_t base = ((int64_t)c.i(-300000, 500000) * 3600) + (c.b(0.3) ? c.i(0, 59) * 60 : 0) + (res == 1 ? c.i(0, 59) : 0);
    s.ref = base;
    s.hasTime = c.b(0.85);
    if (s.hasTime) {
        const int nt = c.i(1, 4);
        const int64_t su = c.pick<int>({3600, 3600, 10800, 21600, 86400, 60, 900, s.ed == 2 && (res == 1 || s.hasRef) ? 1 : 60});
        const bool far = c.b(0.1) && su >= 3600;
        // ecCodes writes wrong units for more than 255 minutes in GRIB1
        const int most = s.ed == 1 && su < 3600 ? 255 * 60 / su / 5 : 24;
        int64_t t = base + su * c.i(0, std::min(10, most));
        for (int k = 0; k < nt; ++k) {
            s.times.push_back(t);
            t += su * (far ? c.i(1, 3000) : c.i(1, most));
        }
        struct TU
        {
            const char* n;
            int sec;
        };
        const TU tu = c.pick<TU>({{"seconds", 1}, {"minutes", 60}, {"hours", 3600}, {"days", 86400}});
        const int64_t origin = c.pick<int64_t>({0, base - base % 3600, -86400LL * 25567});
        cf::Axis at;
        at.name = "time";
        at.units = std::string(tu.n) + " since " + ymd(origin) + " +00:00";
        bool exact = true;
        for (auto x : s.times) {
            at.v.push_back((x - origin) / (double)tu.sec);
            exact = exact && (x - origin) % tu.sec == 0 && std::fabs(at.v.back()) < 2e9;
        }
        s.nt = nt;
        const CDMDataType ttype = exact && c.b() ? CDM_INT : CDM_DOUBLE;
        if (s.hasRef && c.b(0.2)) {
            // several reference times, time(reftime, step)
            const int nr = c.i(1, 3);
            dvec rv, tv = at.v;
            const int64_t shift = c.pick<int>({6, 12, 24}) * 3600;
            for (int k = 0; k < nr; ++k) {
                s.refs.push_back(base + k * shift);
                rv.push_back(s.refs.back());
                if (k > 0)
                    for (int q = 0; q < nt; ++q) {
                        s.times.push_back(s.times[q] + k * shift);
                        tv.push_back((s.times.back() - origin) / (double)tu.sec);
                    }
            }
            cf::Axis ar;
            ar.name = "reftime";
            ar.units = "seconds since 1970-01-01 00:00:00 +00:00";
            ar.v = rv;
            cdm.addDimension(CDMDimension("step", nt));
            cf::addAxis(s.ds, ar, c.b());
            cf::attr(s.ds, "reftime", "standard_name", "forecast_reference_time");
            cdm.addVariable(CDMVariable("time", CDM_DOUBLE, {"step", "reftime"}));
            cf::attr(s.ds, "time", "units", at.units);
            r.data["time"] = mkData(CDM_DOUBLE, tv);
            coords += (coords.empty() ? "" : " ") + std::string("time");
            c.label("several reference times");
        } else
            cf::addAxis(s.ds, at, c.b(0.6), ttype);
        cf::attr(s.ds, "time", "standard_name", "time");
    }
    if (s.hasRef && s.refs.empty()) {
        cdm.addVariable(CDMVariable("forecast_reference_time", CDM_DOUBLE, std::vector<std::string>()));
        const bool h = base % 3600 == 0 && c.b();
        r.data["forecast_reference_time"] = mkData(CDM_DOUBLE, {h ? base / 3600. : (double)base});
        cf::attr(s.ds, "forecast_reference_time", "units", h ? "hours since 1970-01-01 00:00:00 +00:00" : "seconds since 1970-01-01 00:00:00 +00:00");
        cf::attr(s.ds, "forecast_reference_time", "standard_name", "forecast_reference_time");
    }
    // levels
    std::ostringstream axes;
    const int nl = c.i(1, 3);
    std::set<int> usedKinds;
    for (int k = 0; k < nl; ++k) {
        Lev l;
        l.kind = static_cast<LK>(c.w({3, 3, 2, 1, s.ed == 2 ? 2u : 0u}));
        if (!usedKinds.insert(l.kind).second)
            continue;
        l.axis = std::string("lev") + std::to_string(k);
        const std::string G = "grib" + std::to_string(s.ed);
        const int n = c.i(1, 4);
        cf::Axis a;
        a.name = l.axis;
        std::string std;
        CDMDataType type = c.pick({CDM_DOUBLE, CDM_FLOAT});
        double step = 1;
        switch (l.kind) {
        case NONE:
            l.id = s.ed == 1 ? 105 : 103;
            l.value = c.pick({0, 2, 10});
            l.v = {l.value};
            axes << "<vertical_axis standard_name=\"\"><" << G << " id=\"" << l.id << "\" value=\"" << l.value << "\"/></vertical_axis>\n";
            break;
        case PRES:
        case HEIGHT: {
            const bool p = l.kind == PRES;
            l.id = p ? 100 : s.ed == 1 ? 105 : 103;
            double v = p ? c.i(1, 300) : c.i(0, 300);
            const double frac = s.ed == 2 && !p && c.b(0.3) ? 0.5 : 0;
            for (int i = 0; i < n; ++i) {
                l.v.push_back(v + frac);
                v += c.i(1, 200);
            }
            if (c.b())
                std::reverse(l.v.begin(), l.v.end());
            a.units = p ? c.picks({"hPa", "Pa", "mbar"}) : c.picks({"m", "km"});
            step = p ? (a.units == "Pa" ? 100 : 1) : (a.units == "km" ? 1e-3 : 1);
            std = c.b() ? (p ? "air_pressure" : "height") : "";
            axes << "<vertical_axis " << (std.empty() ? "unitCompatibleTo=\"" + std::string(p ? "Pa" : "m") : "standard_name=\"" + std) << "\"><" << G << " id=\"" << l.id << "\" units=\""
                 << (p ? "hPa" : "m") << "\"/></vertical_axis>\n";
            break;
        }
        case SIGMA: {
            l.id = s.ed == 1 ? 107 : 104;
            double v = c.i(1, 200);
            for (int i = 0; i < n; ++i) {
                l.v.push_back(v / 1000);
                v += c.i(1, 200);
            }
            a.units = "1";
            std = "atmosphere_sigma_coordinate";
            axes << "<vertical_axis standard_name=\"" << std << "\"><" << G << " id=\"" << l.id << "\"" << (s.ed == 1 ? " scale_factor=\"1e-4\" add_offset=\"0\"" : "")
                 << "/></vertical_axis>\n";
            break;
        }
        case HYBRID: {
            l.id = 105;
            double b = 0.98, ap = 10;
            for (int i = 0; i < n; ++i) {
                l.v.push_back(i + 1);
                l.b.push_back(b);
                l.ap.push_back(ap);
                b *= c.i(30, 90) / 100.;
                ap += c.i(10, 3000);
            }
            if (c.b()) {
                std::reverse(l.b.begin(), l.b.end());
                std::reverse(l.ap.begin(), l.ap.end());
            }
            a.units = "1";
            std = "atmosphere_hybrid_sigma_pressure_coordinate";
            axes << "<vertical_axis standard_name=\"" << std << "\"><" << G << " id=\"105\"/></vertical_axis>\n";
            break;
        }
        default: break;
        }
        if (l.kind != NONE) {
            for (double v : l.v)
                a.v.push_back(fix(v * step, type));
            bool whole = true;
            for (double v : a.v)
                whole = whole && v == std::floor(v);
            if (whole && c.b(0.3))
                type = CDM_INT;
            cf::addAxis(s.ds, a, false, type);
            if (!std.empty())
                cf::attr(s.ds, a.name, "standard_name", std);
            cf::attr(s.ds, a.name, "positive", l.kind == HEIGHT ? "up" : "down");
            if (l.kind == PRES && c.b(0.2) && type == CDM_DOUBLE) { // packed
                cdm.addAttribute(a.name, cf::num("scale_factor", 10));
                for (double& v : a.v)
                    v /= 10;
                r.data[a.name] = mkData(CDM_DOUBLE, a.v);
            }
            if (l.kind == HYBRID) {
                cf::attr(s.ds, a.name, "formula_terms", "ap: ap b: b ps: ps");
                const bool h = c.b(0.3);
                dvec ap = l.ap;
                if (h)
                    for (double& v : ap)
                        v /= 100;
                for (int q = 0; q < 2; ++q) {
                    cdm.addVariable(CDMVariable(q ? "b" : "ap", CDM_DOUBLE, {a.name}));
                    r.data[q ? "b" : "ap"] = mkData(CDM_DOUBLE, q ? l.b : ap);
                    cf::attr(s.ds, q ? "b" : "ap", "units", q ? "1" : h ? "hPa" : "Pa");
                }
                std::vector<std::string> sh = {ax.name, ay.name};
                cf::addVar(s.ds, "ps", CDM_DOUBLE, sh, dvec(g.ni * g.nj, 1e5));
                cf::attr(s.ds, "ps", "units", "Pa");
                cf::attr(s.ds, "ps", "standard_name", "surface_air_pressure");
            }
        }
        s.levs.push_back(l);
    }
    // variables
    std::ostringstream pars;
    const int nv = c.i(1, 4);
    auto attrXml = [&](const Par& p) {
        return p.process ? "<attribute name=\"generatingProcessIdentifier\" value=\"" + std::to_string(p.proc) + "\" type=\"long\"/>" : std::string();
    };
    auto parXml = [&](const WV& w, const Par& p) {
        std::ostringstream o;
        if (s.ed == 1)
            o << "<grib1 parameterNumber=\"" << p.id[0] << "\" codeTable=\"" << p.id[1] << "\"";
        else
            o << "<grib2 parameterNumber=\"" << p.id[0] << "\" parameterCategory=\"" << p.id[1] << "\" discipline=\"" << p.id[2] << "\"";
        if (!w.gunit.empty())
            o << " units=\"" << w.gunit << "\"";
        const std::string at = attrXml(p);
        if (at.empty())
            o << "/>";
        else
            o << ">" << at << "</grib" << s.ed << ">";
        return o.str();
    };
    int next = c.i(1, 20);
    for (int k = 0; k < nv; ++k) {
        WV w;
        w.name = std::string("var") + char('a' + k);
        w.lev = c.idx(s.levs.size());
        const Lev& l = s.levs[w.lev];
        w.time = s.hasTime && (!s.refs.empty() || c.b(0.85));
        w.configured = c.b(0.92);
        w.yFast = c.b(0.15);
        const size_t nz = l.v.size(), nt = w.time ? s.times.size() : 1, nh = g.ni * g.nj;
        w.shape = {ax.name, ay.name};
        if (w.yFast)
            std::swap(w.shape[0], w.shape[1]);
        if (l.kind != NONE)
            w.shape.push_back(l.axis);
        if (w.time)
            for (auto n : s.refs.empty() ? std::vector<std::string>{"time"} : std::vector<std::string>{"step", "reftime"})
                w.shape.push_back(n);
        const UC u = c.pick<UC>({{"K", "K", 1, 0}, {"K", "", 1, 0}, {"Celsius", "K", 1, 273.15}, {"g/kg", "1", 1e-3, 0}, {"", "", 1, 0}, {"hPa", "Pa", 100, 0}});
        w.unit = u.src;
        w.gunit = u.dst;
        w.slope = u.slope;
        w.uoff = u.off;
        w.packed = c.b(0.35);
        w.type = w.packed ? c.pick({CDM_SHORT, CDM_INT, CDM_SHORT}) : c.pick({CDM_FLOAT, CDM_DOUBLE, CDM_FLOAT, CDM_INT, CDM_SHORT});
        if (w.packed) {
            w.scale = c.pick({0.01, 0.5, 0.125, 2.});
            w.off = c.pick({0., 10., -100.});
        }
        w.hasFill = c.b(0.6);
        const bool isf = isFloat(w.type);
        w.fill = isf ? c.pick({-999., 1e20, 0., (double)NAN}) : c.pick({-32767., 0., 273.});
        if (isf && w.fill == 1e20)
            w.fill = fix(1e20, w.type);
        const double up = w.hasFill ? c.pick({0., 0.2, 0.6}) : 0;
        const double np = isf ? c.pick({0., 0., 0.1}) : 0;
        dvec raw(nh * nz * nt);
        w.v.resize(raw.size());
        const bool wide = c.b();
        for (size_t t = 0; t < nt; ++t)
            for (size_t z = 0; z < nz; ++z) {
                const int empty = w.hasFill && c.b(0.1) ? 1 : isf && c.b(0.03) ? 2 : 0;
                for (size_t j = 0; j < (size_t)g.nj; ++j)
                    for (size_t i = 0; i < (size_t)g.ni; ++i) {
                        const size_t q = ((t * nz + z) * g.nj + j) * g.ni + i;
                        const size_t p = (t * nz + z) * nh + (w.yFast ? i * g.nj + j : j * g.ni + i);
                        double x = isf ? fix(wide ? c.dfine(-1000, 1000) : c.dfine(250, 300), w.type) : c.i(-300, 300);
                        if (w.hasFill && x == w.fill)
                            x += 1;
                        w.v[q] = (x * w.scale + w.off) * w.slope + w.uoff;
                        if (empty == 1 || (up > 0 && c.b(up))) {
                            x = w.fill;
                            w.v[q] = NAN;
                        } else if (empty == 2 || (np > 0 && c.b(np))) {
                            x = NAN;
                            w.v[q] = NAN;
                        }
                        raw[p] = x;
                    }
            }
        cf::addVar(s.ds, w.name, w.type, w.shape, raw, true, c.b(0.1));
        if (!coords.empty())
            cf::attr(s.ds, w.name, "coordinates", coords);
        if (!w.unit.empty())
            cf::attr(s.ds, w.name, "units", w.unit);
        if (w.packed) {
            cdm.addAttribute(w.name, cf::num("scale_factor", w.scale));
            cdm.addAttribute(w.name, cf::num("add_offset", w.off));
        }
        if (w.hasFill)
            cdm.addAttribute(w.name, CDMAttribute("_FillValue", mkData(w.type, {w.fill})));
        auto par = [&]() {
            Par p;
            next += c.i(1, 5);
            p.id[0] = next;
            p.id[1] = s.ed == 1 ? c.pick({1, 2, 3}) : c.i(0, 5);
            p.id[2] = c.pick({0, 10});
            p.process = c.b(0.2);
            p.proc = c.i(1, 200);
            return p;
        };
        const bool byStd = c.b(0.4);
        if (byStd) {
            w.stdName = "standard_name_" + std::to_string(k);
            cf::attr(s.ds, w.name, "standard_name", w.stdName);
        }
        const std::string who = byStd ? "standard_name=\"" + w.stdName + "\"" : "name=\"" + w.name + "\"";
        w.byLevel = l.kind != NONE && l.kind != HYBRID && l.kind != SIGMA && c.b(0.3);
        if (w.configured) {
            if (w.byLevel) {
                for (size_t z = 0; z < nz; ++z)
                    if (c.b(0.8)) {
                        w.perLevel[z] = par();
                        pars << "<parameter " << who << " level=\"" << num(l.v[z]) << "\">" << parXml(w, w.perLevel[z]) << "</parameter>\n";
                    }
                if (w.perLevel.empty())
                    w.configured = false;
            } else {
                w.par = par();
                pars << "<parameter " << who << ">" << parXml(w, w.par) << "</parameter>\n";
            }
        }
        c.show() << w.name << " " << tname(w.type) << "(" << vec(w.shape) << ") " << (w.configured ? "" : "not configured ") << (w.byLevel ? "by level " : "") << w.unit << "->" << w.gunit
                 << (w.hasFill ? " fill " + num(w.fill) : "") << (w.packed ? " packed" : "") << "\n";
        s.vars.push_back(w);
    }
    std::ostringstream x;
    x << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdm_gribwriter_config>\n";
    s.omit = !c.b(0.3);
    if (!s.omit || c.b(0.3))
        x << "<processing_options><omitEmptyFields>" << (s.omit ? c.picks({"true", "1", "yes"}) : c.picks({"false", "0", "no"})) << "</omitEmptyFields></processing_options>\n";
    x << "@APPEND@<global_attributes>\n";
    if (c.b(0.3)) {
        s.globalProc = c.i(1, 200);
        x << "<attribute name=\"generatingProcessIdentifier\" value=\"" << s.globalProc << "\" type=\"long\"/>\n";
    }
    if (s.ed == 2 || c.b(0.5))
        x << "<g2attribute name=\"shapeOfTheEarth\" value=\"6\" type=\"long\"/>\n";
    x << "</global_attributes>\n<axes>\n" << axes.str() << "</axes>\n<variables>\n" << pars.str() << "</variables>\n</cdm_gribwriter_config>\n";
    s.config = x.str();
    c.show() << str(g) << "\n";
    c.show() << (s.hasRef ? "ref " + ymd(s.ref) : "no ref") << " times:";
    for (auto t : s.times)
        c.show() << " " << ymd(t);
    c.show() << "\n" << s.config;
    c.label(std::string("grib") + std::to_string(s.ed) + " " + g.gridType());
    return s;
}

std::vector<Want> expected(const Src& s)
{
    std::vector<Want> r;
    const size_t nh = s.g.ni * s.g.nj;
    for (auto& w : s.vars) {
        if (!w.configured)
            continue;
        const Lev& l = s.levs[w.lev];
        const size_t nz = l.v.size(), nt = w.time ? s.times.size() : 1;
        for (size_t t = 0; t < nt; ++t)
            for (size_t z = 0; z < nz; ++z) {
                if (w.byLevel && !w.perLevel.count(z))
                    continue;
                bool empty = true;
                for (size_t q = 0; q < nh; ++q)
                    empty = empty && std::isnan(w.v[(t * nz + z) * nh + q]);
                if (empty && s.omit)
                    continue;
                const Par& p = w.byLevel ? w.perLevel.at(z) : w.par;
                std::string ref, valid;
                if (w.time) {
                    valid = ymd(s.times[t]);
                    ref = !s.refs.empty() ? ymd(s.refs[t / s.nt]) : s.hasRef ? ymd(s.ref) : valid;
                } else if (s.hasRef) {
                    ref = valid = ymd(s.ref);
                } else {
                    ref = valid = "none";
                }
                double lev = l.v[z];
                if (l.kind == PRES && s.ed == 2)
                    lev *= 100;
                if (l.kind == SIGMA && s.ed == 1)
                    lev *= 10000;
                if (std::fabs(lev - std::round(lev)) < 1e-7)
                    lev = std::round(lev);
                r.push_back({key(s.ed, p.id, l.id, lev, ref, valid), &w, z, t});
            }
    }
    return r;
}

std::vector<std::string> readMessages(Case& c, const std::string& file)
{
    std::ifstream in(file, std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    std::vector<std::string> r;
    size_t p = 0;
    auto u = [&](size_t at, int n) {
        uint64_t v = 0;
        for (int k = 0; k < n; ++k)
            v = v << 8 | (unsigned char)all[at + k];
        return v;
    };
    while (p < all.size()) {
        c.check(all.size() - p >= 16 && all.compare(p, 4, "GRIB") == 0, "the file has something else than GRIB messages");
        const uint64_t n = all[p + 7] == 2 ? u(p + 8, 8) : u(p + 4, 3);
        c.check(n >= 20 && n <= all.size() - p && all.compare(p + n - 4, 4, "7777") == 0, "truncated message");
        r.push_back(all.substr(p, n));
        p += n;
    }
    return r;
}
int64_t unitSeconds(int ed, long u)
{
    switch (u) {
    case 0: return 60;
    case 1: return 3600;
    case 2: return 86400;
    case 10: return 3 * 3600;
    case 11: return 6 * 3600;
    case 12: return 12 * 3600;
    case 13: return ed == 1 ? 900 : 1;
    case 14: return ed == 1 ? 1800 : 0;
    case 254: return 1;
    }
    throw pbt::Fail{"unexpected unit of time " + std::to_string(u)};
}

void verify(Case& c, const Src& s, const std::string& file, int copies)
{
    std::map<std::string, std::vector<Want>> want;
    auto list = expected(s);
    for (auto& w : list)
        want[w.key].push_back(w);
    const auto msgs = readMessages(c, file);
    std::map<std::string, int> seen;
    const Grid& g = s.g;
    dvec lon, lat;
    g.lonLat(lon, lat);
    for (auto& m : msgs) {
        H h(m.data(), m.size());
        c.check(h.h, "ecCodes cannot read the message");
        const int ed = h.gl("edition");
        c.check(ed == s.ed, "edition " + std::to_string(ed));
        Grid f;
        f.edition = ed;
        const std::string gt = h.gs("gridType");
        c.check(gt == g.gridType(), "type of grid " + gt);
        f.type = g.type;
        f.earth = g.earth;
        if (ed == 2)
            c.check(h.gl("shapeOfTheEarth") == 6, "shape of the earth not as configured");
        const bool xy = !f.degree();
        f.ni = h.gl(xy ? "Nx" : "Ni");
        f.nj = h.gl(xy ? "Ny" : "Nj");
        f.iNeg = h.gl("iScansNegatively");
        f.jPos = h.gl("jScansPositively");
        f.jCons = h.gl("jPointsAreConsecutive");
        f.alt = ed == 2 && h.gl("alternativeRowScanning");
        f.lon1 = h.gd("longitudeOfFirstGridPointInDegrees");
        f.lat1 = h.gd("latitudeOfFirstGridPointInDegrees");
        c.check(f.ni == g.ni && f.nj == g.nj, "size of the grid");
        if (f.degree()) {
            f.di = h.gd("iDirectionIncrementInDegrees");
            f.dj = h.gd("jDirectionIncrementInDegrees");
            const double lat2 = h.gd("latitudeOfLastGridPointInDegrees"), lon2 = h.gd("longitudeOfLastGridPointInDegrees");
            c.check(std::fabs(lat2 - (g.lat1 + (g.jPos ? 1 : -1) * g.dj * (g.nj - 1))) < 2e-3, "latitude of the last point " + num(lat2));
            c.check(std::fabs(std::remainder(lon2 - (g.lon1 + (g.iNeg ? -1 : 1) * g.di * (g.ni - 1)), 360)) < 2e-3, "longitude of the last point " + num(lon2));
        } else {
            f.di = ed == 1 ? h.gl("DxInMetres") : h.gl("Dx") / 1000.;
            f.dj = ed == 1 ? h.gl("DyInMetres") : h.gl("Dy") / 1000.;
        }
        if (f.type == ROT) {
            f.spLat = h.gd("latitudeOfSouthernPoleInDegrees");
            f.spLon = h.gd("longitudeOfSouthernPoleInDegrees");
            c.check(h.gd("angleOfRotation") == 0, "angle of rotation");
        } else if (f.type == LCC) {
            f.lov = h.gd("LoVInDegrees");
            f.latin1 = h.gd("Latin1InDegrees");
            f.latin2 = h.gd("Latin2InDegrees");
            c.check((h.gl("projectionCentreFlag") & 128) == (g.latin1 < 0 ? 128 : 0), "pole on the projection plane");
            if (ed == 2)
                c.check(std::fabs(h.gd("LaDInDegrees") - g.latin1) < 1e-5, "LaD " + num(h.gd("LaDInDegrees")));
        } else if (f.type == STERE) {
            f.lov = h.gd("orientationOfTheGridInDegrees");
            f.south = h.gl("projectionCentreFlag") & 128;
            f.lad = ed == 1 ? 60 : std::fabs(h.gd("LaDInDegrees"));
            if (ed == 2)
                c.check((h.gd("LaDInDegrees") < 0) == f.south, "hemisphere of LaD");
            c.check(f.south == g.south, "hemisphere of the projection");
        }
        dvec flon, flat;
        f.lonLat(flon, flat);
        const double tol = ed == 1 ? 400 : 2;
        for (size_t k = 0; k < lon.size(); ++k) {
            const double r = M_PI / 180, R = 6371000;
            const double d = R * std::sqrt(std::pow(cos(lat[k] * r) * cos(lon[k] * r) - cos(flat[k] * r) * cos(flon[k] * r), 2) +
                                           std::pow(cos(lat[k] * r) * sin(lon[k] * r) - cos(flat[k] * r) * sin(flon[k] * r), 2) + std::pow(sin(lat[k] * r) - sin(flat[k] * r), 2));
            c.check(d <= tol, "point " + std::to_string(k) + " is " + num(d) + " m away: " + str(f));
        }
        // parameter, level, time
        long id[3] = {0, 0, 0};
        long levtype;
        double lev;
        int64_t unit, step;
        if (ed == 1) {
            id[0] = h.gl("indicatorOfParameter");
            id[1] = h.gl("table2Version");
            levtype = h.gl("indicatorOfTypeOfLevel");
            lev = h.gl("level");
            unit = unitSeconds(1, h.gl("unitOfTimeRange"));
            const long tri = h.gl("timeRangeIndicator");
            c.check(tri == 0 || tri == 1 || tri == 10, "time range indicator " + std::to_string(tri));
            step = tri == 0 ? h.gl("P1") : tri == 1 ? 0 : h.gl("P1") * 256 + h.gl("P2");
            if (tri == 10) { // the two octets, 19 and 20 of section 1
                const unsigned char* o = reinterpret_cast<const unsigned char*>(m.data()) + 8 + 18;
                step = o[0] * 256 + o[1];
            }
        } else {
            id[0] = h.gl("parameterNumber");
            id[1] = h.gl("parameterCategory");
            id[2] = h.gl("discipline");
            levtype = h.gl("typeOfFirstFixedSurface");
            lev = h.gl("scaledValueOfFirstFixedSurface") * std::pow(10., -h.gl("scaleFactorOfFirstFixedSurface"));
            if (std::fabs(lev - std::round(lev)) < 1e-7)
                lev = std::round(lev);
            unit = unitSeconds(2, h.gl("indicatorOfUnitOfTimeRange"));
            step = h.gl("forecastTime");
            c.check(h.gl("typeOfSecondFixedSurface") == 255, "second surface");
        }
        cal::T rt;
        const long dd = h.gl("dataDate"), tt = h.gl("dataTime");
        rt.y = dd / 10000, rt.mo = dd / 100 % 100, rt.d = dd % 100, rt.h = tt / 100, rt.mi = tt % 100;
        rt.s = ed == 2 ? h.gl("second") : 0;
        const int64_t ref = rt.epochMs() / 1000;
        std::string k = key(ed, id, levtype, lev, ymd(ref), ymd(ref + step * unit));
        if (!want.count(k))
            k = key(ed, id, levtype, lev, "none", "none");
        if (!want.count(k))
            k = key(ed, id, levtype, lev, ymd(ref), ymd(ref + step * unit));
        if (!want.count(k)) {
            std::string all;
            for (auto& w : want)
                all += "\n   " + w.first;
            c.fail("unexpected message " + k + "; expected:" + all);
        }
        const auto& ws = want.at(k);
        seen[k]++;
        c.check(ws.size() == 1, "harness: ambiguous key");
        const Want& w = ws[0];
        const Lev& l = s.levs[w.w->lev];
        const Par& p = w.w->byLevel ? w.w->perLevel.at(w.z) : w.w->par;
        if (p.process || s.globalProc >= 0)
            c.check(h.gl("generatingProcessIdentifier") == (p.process ? p.proc : s.globalProc), k + ": generatingProcessIdentifier " + std::to_string(h.gl("generatingProcessIdentifier")));
        else {
            H def(sample(ed, 0).data(), sample(ed, 0).size());
            c.check(h.gl("generatingProcessIdentifier") == def.gl("generatingProcessIdentifier"), k + ": generatingProcessIdentifier of another parameter");
        }
        const bool pv = ed == 2 && h.gl("PVPresent");
        c.check(pv == (l.kind == HYBRID), k + ": vertical coordinates");
        if (pv) {
            size_t n = 0;
            ck(codes_get_size(h.h, "pv", &n), "pv");
            dvec v(n);
            ck(codes_get_double_array(h.h, "pv", v.data(), &n), "pv");
            c.check(n == 2 * (l.v.size() + 1), k + ": number of vertical coordinates");
            for (size_t i = 0; i < l.v.size(); ++i) {
                const double ap = (v[i] + v[i + 1]) / 2, b = (v[n / 2 + i] + v[n / 2 + i + 1]) / 2;
                c.check(std::fabs(ap - l.ap[i]) < 1e-5 * (1e4 + std::fabs(l.ap[i])) && std::fabs(b - l.b[i]) < 1e-5, k + ": ap, b of level " + std::to_string(i) + ": " + num(ap) + ", " + num(b));
            }
        }
        const dvec v = h.values(1e35);
        const size_t nh = g.ni * g.nj, nz = l.v.size();
        c.check(v.size() == nh, k + ": number of values");
        double lo = 1e300, hi = -1e300;
        for (size_t q = 0; q < nh; ++q) {
            const double x = w.w->v[(w.t * nz + w.z) * nh + q];
            if (!std::isnan(x)) {
                lo = std::min(lo, x);
                hi = std::max(hi, x);
            }
        }
        const double eps = (hi - lo) * 1e-5 + 4e-6 * std::max(std::fabs(lo), std::fabs(hi));
        for (long j = 0; j < g.nj; ++j)
            for (long i = 0; i < g.ni; ++i) {
                const double x = w.w->v[((w.t * nz + w.z) * g.nj + j) * g.ni + i], y = v[f.at(i, j)];
                if (std::isnan(x))
                    c.check(y == 1e35, k + " (" + w.w->name + "): undefined value at " + std::to_string(i) + "," + std::to_string(j) + " is " + num(y));
                else
                    c.check(std::fabs(x - y) <= eps, k + " (" + w.w->name + "): value at " + std::to_string(i) + "," + std::to_string(j) + " is " + num(y) + " instead of " + num(x));
            }
    }
    for (auto& w : want)
        c.check(seen[w.first] == copies * (int)w.second.size(), std::to_string(seen[w.first]) + " messages " + w.first);
    if (list.size() > 1)
        c.nontrivial();
    c.label("messages " + std::to_string(std::min<size_t>(list.size(), 10)));
}

struct Dir
{
    std::string p;
    explicit Dir(Case& c)
    {
        static int n = 0;
        p = c.tmpdir() + "/w" + std::to_string(getpid()) + "_" + std::to_string(n++);
        std::filesystem::create_directories(p);
    }
    ~Dir() { std::filesystem::remove_all(p); }
};
std::string replaced(std::string s, const std::string& a, const std::string& b)
{
    s.replace(s.find(a), a.size(), b);
    return s;
}
} // namespace

int main(int argc, char** argv)
{
    samples();
    pbt::Runner r("C24", "at least two messages expected");
    r.init(quiet);
    r.sub("write", [](Case& c) {
        Src s = gen(c);
        Dir d(c);
        const int copies = c.b(0.1) ? 2 : 1;
        const std::string cfg = replaced(s.config, "@APPEND@", copies > 1 ? "<output_file type=\"append\"/>" : c.b(0.1) ? "<output_file type=\"overwrite\"/>" : "");
        const std::string type = s.ed == 1 ? c.picks({"grib1", "grb1", "grib", "grb"}) : c.picks({"grib2", "grb2"});
        const bool byName = c.b(0.2); // no type, only the extension
        const std::string file = d.p + "/" + (byName ? (s.ed == 1 ? c.picks({"o.grb", "o.grib1", "o.grb1", "o.GRB", "o.x.grib"}) : c.picks({"o.grb2", "o.grib2", "o.GRIB2"})) : s.ed == 1 ? (type.back() == '1' ? c.picks({"o.grb", "o.grib1", "o.grib2", "o"}) : c.picks({"o.grb", "o"})) : c.picks({"o.grb2", "o.grib1", "o"}));
        if (copies == 1 && c.b(0.2))
            std::ofstream(file) << "something old";
        for (int k = 0; k < copies; ++k) {
            if (c.b()) {
                CDMFileReaderFactory::createWriter(s.ds.r, byName ? "" : type, file, XMLInputString(cfg));
            } else {
                std::ofstream(d.p + "/c.xml") << cfg;
                CDMFileReaderFactory::createWriter(s.ds.r, byName ? "" : type, file, d.p + "/c.xml");
            }
        }
        verify(c, s, file, copies);
    }, 2400, 200000);
    r.sub("refused", [](Case& c) { // grids which GRIB cannot store
        Src s = gen(c);
        CDM& cdm = s.ds.r->cdm();
        auto set = [&](const CDMAttribute& a) { cdm.addOrReplaceAttribute("crs", a); };
        switch (c.i(0, 3)) {
        case 0: {
            const bool x = s.g.ni > 2 && (s.g.nj < 3 || c.b());
            const cf::Axis& a = x ? s.ds.x : s.ds.y;
            c.assume(a.v.size() > 2);
            dvec v = a.v;
            v[c.i(1, v.size() - 1)] += (v[1] - v[0]) * c.pick({0.4, 0.1, -0.25});
            s.ds.r->data[a.name] = mkData(CDM_DOUBLE, v);
            c.label("irregular axis");
            break;
        }
        case 1:
            c.assume(s.g.type == ROT);
            set(cf::num("north_pole_grid_longitude", c.pick({10., -5.})));
            c.label("rotation around the pole");
            break;
        case 2: {
            c.assume(s.g.type == STERE);
            set(CDMAttribute("grid_mapping_name", "stereographic"));
            set(cf::num("latitude_of_projection_origin", c.pick({60., 45., -30.})));
            set(cf::num("longitude_of_projection_origin", 0));
            c.label("not polar");
            break;
        }
        default:
            c.assume(s.g.type == STERE && s.ed == 1);
            cdm.removeAttribute("crs", "standard_parallel");
            cdm.removeAttribute("crs", "scale_factor_at_projection_origin");
            set(CDMAttribute("grid_mapping_name", "polar_stereographic"));
            set(cf::num("straight_vertical_longitude_from_pole", s.g.lov));
            if (c.b())
                set(cf::num("standard_parallel", c.pick({70., 75., 90.}) * (s.g.south ? -1 : 1)));
            else
                set(cf::num("scale_factor_at_projection_origin", c.pick({0.97, 1., 0.9})));
            c.label("other true latitude");
        }
        c.assume(!expected(s).empty());
        c.nontrivial();
        Dir d(c);
        const std::string file = d.p + "/o.grb";
        bool thrown = false;
        try {
            CDMFileReaderFactory::createWriter(s.ds.r, s.ed == 1 ? "grib1" : "grib2", file, XMLInputString(replaced(s.config, "@APPEND@", "")));
        } catch (std::exception& e) {
            thrown = true;
        }
        c.check(thrown || readMessages(c, file).empty(), "messages for a grid which GRIB cannot store");
    }, 500, 10000);
    r.sub("shipped", [](Case& c) { // the shipped configuration
        const char* repo = getenv("VERIF_REPO");
        const std::string cfg = std::string(repo ? repo : "/repo") + "/share/etc/cdmGribWriterConfig.xml";
        const int ed = c.i(1, 2);
        auto r = std::make_shared<MemReader>();
        cf::Dataset ds;
        ds.r = r;
        const dvec hpa = c.pick<dvec>({{500, 850}, {1000}, {300, 700, 925}, {10, 50}});
        const std::string pu = c.picks({"hPa", "Pa"});
        dvec pv = hpa;
        for (double& p : pv)
            p *= pu == "Pa" ? 100 : 1;
        cf::addAxis(ds, {"lon", {10, 11, 12}, "degrees_east"}, false);
        cf::addAxis(ds, {"lat", {50, 51}, "degrees_north"}, false);
        cf::addAxis(ds, {"p", pv, pu}, false);
        cf::addAxis(ds, {"time", {0, 6}, "hours since 2020-01-01 00:00:00 +00:00"}, true);
        if (c.b())
            cf::attr(ds, "p", "standard_name", "air_pressure");
        cf::attr(ds, "p", "positive", "down");
        const bool celsius = c.b();
        dvec v;
        for (size_t k = 0; k < 12 * hpa.size(); ++k)
            v.push_back(c.i(200, 300));
        cf::addVar(ds, "air_temperature_pl", CDM_FLOAT, {"lon", "lat", "p", "time"}, v, false);
        cf::attr(ds, "air_temperature_pl", "units", celsius ? "Celsius" : "K");
        cf::attr(ds, "air_temperature_pl", "standard_name", "air_temperature");
        c.show() << cfg << " grib" << ed << " " << pu << vec(hpa) << (celsius ? " Celsius" : " K");
        Dir d(c);
        const std::string file = d.p + "/o.grb";
        CDMFileReaderFactory::createWriter(r, ed == 1 ? "grib1" : "grib2", file, cfg);
        auto msgs = readMessages(c, file);
        c.check(msgs.size() == 2 * hpa.size(), std::to_string(msgs.size()) + " messages");
        c.nontrivial();
        std::set<std::pair<double, int64_t>> seen;
        for (auto& m : msgs) {
            H h(m.data(), m.size());
            const double lev = ed == 1 ? h.gl("level") : h.gl("scaledValueOfFirstFixedSurface") * std::pow(10., -h.gl("scaleFactorOfFirstFixedSurface")) / 100;
            c.check(h.gl(ed == 1 ? "indicatorOfTypeOfLevel" : "typeOfFirstFixedSurface") == 100, "type of level");
            size_t z = 0;
            while (z < hpa.size() && std::fabs(hpa[z] - lev) > 1e-6)
                ++z;
            c.check(z < hpa.size(), "level of " + num(lev) + " hPa");
            const std::string vt = std::to_string(h.gl("validityDate")) + " " + std::to_string(h.gl("validityTime"));
            const int t = vt == "20200101 0" ? 0 : vt == "20200101 600" ? 1 : -1;
            c.check(t >= 0, "time " + vt);
            c.check(seen.insert(std::make_pair(lev, t)).second, "message twice");
            const dvec got = h.values();
            c.check(got.size() == 6, "number of values");
            for (size_t k = 0; k < 6; ++k)
                c.check(std::fabs(got[k] - v[(t * hpa.size() + z) * 6 + k] - (celsius ? 273.15 : 0)) < 0.01, "value " + num(got[k]) + " at level " + num(lev) + " time " + vt);
        }
    }, 60, 500);
    r.sub("no space", [](Case& c) {
        Src s = gen(c);
        const std::string cfg = replaced(s.config, "@APPEND@", "");
        c.assume(!expected(s).empty());
        c.nontrivial();
        bool thrown = false;
        try {
            CDMFileReaderFactory::createWriter(s.ds.r, s.ed == 1 ? "grib1" : "grib2", "/dev/full", XMLInputString(cfg));
        } catch (std::exception& e) {
            thrown = true;
        }
        c.check(thrown, "no error though the device is full");
    }, 200, 2000);
    return r.main(argc, argv);
}
