// C25: the coordinate systems of a dataset are recognised from its CF metadata alone
// LINK: -lproj
#include "cf.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/verticalTransform/AtmosphereHybridHeight.h"
#include "fimex/coordSys/verticalTransform/AtmosphereSigma.h"
#include "fimex/coordSys/verticalTransform/Depth.h"
#include "fimex/coordSys/verticalTransform/Height.h"
#include "fimex/coordSys/verticalTransform/HybridSigmaPressure1.h"
#include "fimex/coordSys/verticalTransform/HybridSigmaPressure2.h"
#include "fimex/coordSys/verticalTransform/LnPressure.h"
#include "fimex/coordSys/verticalTransform/OceanSG1.h"
#include "fimex/coordSys/verticalTransform/OceanSG2.h"
#include "fimex/coordSys/verticalTransform/Pressure.h"
#include "fimex/CoordinateSystemSliceBuilder.h"
#include "noprojdb.h"
using namespace fx;
using namespace cf;
using namespace pbt;
typedef CoordinateAxis CA;
typedef std::vector<std::string> strs;
typedef std::set<std::string> sset;
typedef std::map<std::string, std::string> smap;

//! a coordinate variable, or a dimension without one
struct Ax
{
    std::string name;
    strs shape;
    CA::AxisType type = CA::Undefined;
    bool hasVar = true;
    std::string bounds;
};
struct Vert
{
    std::string axis;
    std::string kind; // name of the vertical transformation, empty: none
    smap terms;       // formula terms: term -> variable
};
struct Grid
{
    strs dims;             // horizontal dimensions
    std::string x, y;      // axis names (GeoX or Lon, GeoY or Lat)
    strs aux;              // auxiliary coordinates lat, lon
    std::string lat, lon;
    std::string gridMapping, kind;
    bool implicit = false; // latlon without grid_mapping
    bool simple = false;
};
struct DV
{
    std::string name;
    strs shape, coords;
    int grid = -1;
    int vert = -1;
    bool partial = false; // not all dimensions of the grid
    std::string time;
};
struct World
{
    std::shared_ptr<MemReader> r = std::make_shared<MemReader>();
    std::map<std::string, Ax> ax;
    std::map<std::string, size_t> len;
    std::vector<Grid> grids;
    std::vector<Vert> verts;
    std::vector<DV> vars;
    sset names;
    std::vector<std::pair<CDMVariable, std::vector<CDMAttribute>>> todo; // variables in the order of creation
    std::vector<CDMDimension> dims;

    void add(const std::string& n, CDMDataType t, const strs& shape, const smap& atts)
    {
        std::vector<CDMAttribute> a;
        for (auto& p : atts)
            a.push_back(CDMAttribute(p.first, p.second));
        todo.push_back(std::make_pair(CDMVariable(n, t, shape), a));
    }
};

static std::string nm(Case& c, World& w, const std::string& base)
{
    std::string n = c.picks({"", "a_", "z", "Q", "m_"}) + base;
    while (w.names.count(n))
        n += c.picks({"1", "2", "b", "_x"});
    w.names.insert(n);
    return n;
}
static void dim(Case& c, World& w, const std::string& n, bool one = false)
{
    w.len[n] = one || c.b(0.15) ? 1 : c.i(2, 4);
    w.dims.push_back(CDMDimension(n, w.len[n]));
}
static std::string cased(Case& c, const std::string& s)
{
    std::string r = s;
    switch (c.w({4, 1, 1})) {
    case 1:
        for (auto& ch : r)
            ch = toupper(ch);
        break;
    case 2:
        r[0] = toupper(r[0]);
        break;
    }
    return r;
}
static smap lonlatAtts(Case& c, bool lon)
{
    smap a;
    const int s = c.w({2, 1, 1});
    if (s != 1)
        a["units"] = lon ? c.picks({"degrees_east", "degree_east", "degrees_E", "degree_E", "degreesE", "degreeE"})
                         : c.picks({"degrees_north", "degree_north", "degrees_N", "degree_N", "degreesN", "degreeN"});
    if (s != 2)
        a["standard_name"] = lon ? "longitude" : "latitude";
    return a;
}
static void axis(Case& c, World& w, const std::string& name, const strs& shape, CA::AxisType type, smap atts)
{
    Ax a;
    a.name = name;
    a.shape = shape;
    a.type = type;
    if (shape.size() == 1 && shape[0] == name && c.b(0.2)) {
        a.bounds = nm(c, w, "bnds");
        const std::string nv = nm(c, w, "nv");
        w.len[nv] = 2;
        w.dims.push_back(CDMDimension(nv, 2));
        Ax v;
        v.name = nv;
        v.shape = strs(1, nv);
        v.hasVar = false;
        w.ax[nv] = v;
        atts["bounds"] = a.bounds;
        w.add(a.bounds, CDM_DOUBLE, {nv, name}, smap());
    }
    if (c.b(0.3))
        atts["long_name"] = c.picks({"longitude", "height", "time", "something"});
    w.ax[name] = a;
    w.add(name, c.pick({CDM_DOUBLE, CDM_FLOAT, CDM_INT}), shape, atts);
}

static Grid genGrid(Case& c, World& w)
{
    Grid g;
    const int kind = c.w({3, 4, 2, 1, 1});
    const char* kinds[] = {"latlon", "projected", "curvilinear", "stations", "projected, no mapping"};
    g.kind = kinds[kind];
    c.label("grid:" + g.kind);
    auto latlon = [&](const strs& shape) {
        g.lat = nm(c, w, "lat");
        g.lon = nm(c, w, "lon");
        smap la = lonlatAtts(c, false), lo = lonlatAtts(c, true);
        axis(c, w, g.lat, shape, CA::Lat, la);
        axis(c, w, g.lon, shape, CA::Lon, lo);
        g.aux = {g.lat, g.lon};
    };
    if (kind == 0) {
        g.lat = nm(c, w, "lat");
        g.lon = nm(c, w, "lon");
        dim(c, w, g.lat);
        dim(c, w, g.lon);
        smap la = lonlatAtts(c, false), lo = lonlatAtts(c, true);
        if (c.b(0.3)) {
            la["axis"] = cased(c, "y");
            lo["axis"] = cased(c, "x");
        }
        axis(c, w, g.lat, {g.lat}, CA::Lat, la);
        axis(c, w, g.lon, {g.lon}, CA::Lon, lo);
        g.x = g.lon;
        g.y = g.lat;
        g.dims = {g.lon, g.lat};
        g.simple = true;
        if (c.b(0.4)) {
            Proj p = genProj(c, LATLON);
            g.gridMapping = nm(c, w, "crs");
            w.todo.push_back(std::make_pair(CDMVariable(g.gridMapping, CDM_INT, strs()), p.attrs));
        } else
            g.implicit = true;
    } else if (kind == 1 || kind == 4) {
        g.x = nm(c, w, "x");
        g.y = nm(c, w, "y");
        dim(c, w, g.x);
        dim(c, w, g.y);
        Proj p = genProj(c, STERE | ROT | LCC | MERC | TMERC | LAEA);
        smap ax, ay;
        const int s = c.w({2, 1, 1});
        if (s != 1) {
            ax["standard_name"] = p.degree ? "grid_longitude" : "projection_x_coordinate";
            ay["standard_name"] = p.degree ? "grid_latitude" : "projection_y_coordinate";
        }
        if (s != 0) {
            ax["axis"] = cased(c, "x");
            ay["axis"] = cased(c, "y");
        }
        if (c.b(0.8)) {
            ax["units"] = p.degree ? "degrees" : c.picks({"m", "km"});
            ay["units"] = ax["units"];
        }
        axis(c, w, g.x, {g.x}, CA::GeoX, ax);
        axis(c, w, g.y, {g.y}, CA::GeoY, ay);
        g.dims = {g.x, g.y};
        g.simple = true;
        if (c.b(0.5))
            latlon(c.b(0.8) ? strs{g.x, g.y} : strs{g.y, g.x});
        if (kind == 1) {
            g.gridMapping = nm(c, w, "proj");
            w.todo.push_back(std::make_pair(CDMVariable(g.gridMapping, CDM_INT, strs()), p.attrs));
        }
    } else if (kind == 2) {
        const std::string i = nm(c, w, "i"), j = nm(c, w, "j");
        for (auto& n : {i, j}) {
            dim(c, w, n);
            if (c.b(0.5))
                axis(c, w, n, {n}, CA::Undefined, smap());
            else {
                Ax v;
                v.name = n;
                v.shape = {n};
                v.hasVar = false;
                w.ax[n] = v;
            }
        }
        g.dims = {i, j};
        latlon({i, j});
        g.x = g.lon;
        g.y = g.lat;
    } else {
        const std::string s = nm(c, w, "station");
        dim(c, w, s);
        Ax v;
        v.name = s;
        v.shape = {s};
        v.hasVar = false;
        w.ax[s] = v;
        g.dims = {s};
        latlon({s});
        g.x = g.lon;
        g.y = g.lat;
    }
    return g;
}

static Vert genVert(Case& c, World& w, const Grid* g, const std::string& time)
{
    Vert v;
    const int kind = c.w({2, 2, 1, 2, 1, 1, 1, 1, 2, 1, 1});
    v.axis = nm(c, w, kind < 5 ? "lev" : "k");
    dim(c, w, v.axis);
    smap a;
    CA::AxisType t = CA::GeoZ;
    auto term = [&](const std::string& n, const strs& shape) {
        const std::string name = nm(c, w, "f" + n);
        smap at;
        if (g && !g->gridMapping.empty() && shape.size() > 1)
            at["grid_mapping"] = g->gridMapping;
        w.add(name, CDM_FLOAT, shape, at);
        v.terms[n] = name;
    };
    strs surf = g ? g->dims : strs();
    strs surft = surf;
    if (!time.empty() && c.b(0.6))
        surft.push_back(time);
    const strs K{v.axis};
    const std::string dl = c.picks({"1", "", "level"});
    switch (kind) {
    case 0:
        v.kind = Pressure::NAME();
        t = CA::Pressure;
        a["units"] = c.picks({"hPa", "Pa", "mbar", "bar"});
        if (c.b())
            a["positive"] = cased(c, "down");
        if (c.b(0.3))
            a["standard_name"] = "air_pressure";
        if (c.b(0.3))
            a["axis"] = cased(c, "z");
        break;
    case 1:
    case 2: {
        v.kind = kind == 1 ? "height" : "altitude";
        t = CA::Height;
        a["units"] = c.picks({"m", "km", "ft"});
        const int s = c.w({2, 1, 1});
        if (s != 1)
            a["positive"] = cased(c, "up");
        if (s != 0)
            a["axis"] = cased(c, "z");
        if (kind == 2)
            a["standard_name"] = c.picks({"altitude", "height_above_mean_sea_level", "height_above_reference_ellipsoid", "height_above_geopotential_datum"});
        else if (c.b())
            a["standard_name"] = "height";
    } break;
    case 3:
        v.kind = Depth::NAME();
        t = CA::Depth;
        a["units"] = c.picks({"m", "km"});
        a["positive"] = cased(c, "down");
        if (c.b())
            a["standard_name"] = "depth";
        if (c.b(0.3))
            a["axis"] = cased(c, "z");
        break;
    case 4:
        switch (c.w({1, 1, 1, 1})) {
        case 0:
            a["units"] = c.picks({"level", "layer", "sigma_level"});
            break;
        case 1:
            a["axis"] = cased(c, "z");
            break;
        case 2:
            a["positive"] = cased(c, c.picks({"up", "down"}));
            break;
        case 3:
            a["axis"] = "Z";
            a["units"] = "1";
        }
        break;
    case 5:
        a["standard_name"] = "atmosphere_hybrid_sigma_pressure_coordinate";
        v.kind = HybridSigmaPressure1::NAME();
        term("ap", K);
        term("b", K);
        term("ps", surft);
        break;
    case 6:
        a["standard_name"] = "atmosphere_hybrid_sigma_pressure_coordinate";
        v.kind = HybridSigmaPressure2::NAME();
        term("a", K);
        term("b", K);
        term("ps", surft);
        term("p0", {});
        break;
    case 7:
        a["standard_name"] = v.kind = AtmosphereSigma::NAME();
        term("sigma", K);
        term("ps", surft);
        term("ptop", {});
        break;
    case 8:
        a["standard_name"] = v.kind = c.b() ? OceanSG1::NAME() : OceanSG2::NAME();
        term("s", K);
        term("C", K);
        term("depth", surf);
        term("depth_c", {});
        term("eta", surft);
        break;
    case 9:
        a["standard_name"] = v.kind = LnPressure::NAME();
        a["positive"] = cased(c, "down");
        if (c.b())
            a["axis"] = "Z";
        term("lev", K);
        term("p0", {});
        break;
    case 10:
        a["standard_name"] = v.kind = AtmosphereHybridHeight::NAME();
        term("a", K);
        term("b", K);
        term("orog", surf);
        break;
    }
    if (kind >= 5) {
        if (!dl.empty())
            a["units"] = dl;
        std::vector<std::string> parts;
        for (auto& p : v.terms)
            parts.push_back(p.first + (c.b(0.2) ? " : " : c.b(0.2) ? ":" : ": ") + p.second);
        std::string f;
        for (size_t k : c.perm(parts.size()))
            f += (f.empty() ? "" : c.picks({" ", "  "})) + parts[k];
        a["formula_terms"] = f;
    }
    c.label("vertical:" + (v.kind.empty() ? std::string("levels") : v.kind));
    axis(c, w, v.axis, K, t, a);
    return v;
}

static World gen(Case& c)
{
    World w;
    // names that must not be used by accident
    std::vector<std::string> times;
    const size_t nt = c.w({1, 4, 1});
    for (size_t k = 0; k < nt; ++k) {
        const std::string t = nm(c, w, "time");
        dim(c, w, t);
        smap a;
        a["units"] = c.picks({"hours since 2000-01-01 00:00:00", "days since 1970-01-01", "seconds since 1970-01-01 00:00:00 +00:00", "minutes since 2010-02-28 12:00"});
        if (c.b(0.4))
            a["standard_name"] = "time";
        if (c.b(0.4))
            a["axis"] = cased(c, "t");
        axis(c, w, t, {t}, CA::Time, a);
        times.push_back(t);
    }
    const size_t ng = c.w({1, 4, 2});
    for (size_t k = 0; k < ng; ++k)
        w.grids.push_back(genGrid(c, w));
    const size_t nv = c.w({1, 4, 2});
    std::vector<int> vertGrid; // the grid of the formula terms
    std::vector<std::string> vertTime;
    for (size_t k = 0; k < nv; ++k) {
        const int gi = w.grids.empty() ? -1 : (int)c.idx(w.grids.size());
        const std::string t = times.empty() ? "" : times[c.idx(times.size())];
        w.verts.push_back(genVert(c, w, gi < 0 ? 0 : &w.grids[gi], t));
        vertGrid.push_back(gi);
        vertTime.push_back(t);
    }
    strs others; // further dimensions
    if (c.b(0.3)) {
        const std::string n = nm(c, w, "ens");
        dim(c, w, n);
        axis(c, w, n, {n}, CA::Realization, smap{{"standard_name", "realization"}});
        others.push_back(n);
    }
    if (c.b(0.3)) {
        const std::string n = nm(c, w, "band");
        dim(c, w, n);
        if (c.b())
            axis(c, w, n, {n}, CA::Undefined, c.b() ? smap{{"units", "1"}} : smap{{"units", "m"}, {"long_name", "wavelength"}});
        else {
            Ax v;
            v.name = n;
            v.shape = {n};
            v.hasVar = false;
            w.ax[n] = v;
        }
        others.push_back(n);
    }
    std::string ref;
    if (c.b(0.3)) {
        ref = nm(c, w, "reftime");
        const bool d = c.b(0.3);
        if (d)
            dim(c, w, ref);
        axis(c, w, ref, d ? strs{ref} : strs(), CA::ReferenceTime, smap{{"standard_name", "forecast_reference_time"}, {"units", "hours since 2000-01-01 00:00:00"}});
    }
    std::string scalarTime, scalarHeight;
    if (c.b(0.2)) {
        scalarTime = nm(c, w, "tscalar");
        axis(c, w, scalarTime, {}, CA::Time, smap{{"units", "hours since 2000-01-01 00:00:00"}});
    }
    if (c.b(0.3)) {
        scalarHeight = nm(c, w, "hscalar");
        axis(c, w, scalarHeight, {}, CA::Height, smap{{"units", "m"}, {"positive", cased(c, "up")}});
        Vert v;
        v.axis = scalarHeight;
        v.kind = "height";
        w.verts.push_back(v);
        vertGrid.push_back(-1);
        vertTime.push_back("");
    }
    smap validTime; // time -> auxiliary valid time
    std::string period;
    if (!times.empty() && c.b(0.35)) {
        const std::string t = times[c.idx(times.size())];
        const std::string n = nm(c, w, "valid");
        axis(c, w, n, {t}, CA::Time, smap{{"units", "hours since 2000-01-01 00:00:00"}});
        validTime[t] = n;
    }
    if (!times.empty() && c.b(0.2)) {
        const std::string t = times[0];
        period = nm(c, w, "lead");
        axis(c, w, period, {t}, CA::Undefined, smap{{"units", "hours"}, {"standard_name", "forecast_period"}});
    }
    const size_t n = c.i(1, 5);
    std::set<strs> auxOf;
    std::map<int, bool> useAux; // the auxiliary coordinates of a grid are given for all or none of its variables
    for (size_t k = 0; k < n; ++k) {
        DV v;
        v.name = nm(c, w, c.picks({"v", "temp", "b", "w"}));
        if (!w.grids.empty() && c.b(0.85)) {
            v.grid = c.idx(w.grids.size());
            Grid& g = w.grids[v.grid];
            v.shape = g.dims;
            if (g.dims.size() > 1 && c.b(0.1)) {
                v.partial = true;
                v.shape.erase(v.shape.begin() + c.idx(2));
            } else if (!g.aux.empty()) {
                if (g.kind == "curvilinear" || g.kind == "stations" || c.b(0.7))
                    v.coords = g.aux;
            }
        }
        if (!w.verts.empty() && c.b(0.6)) {
            // prefer a vertical axis whose formula terms are on the grid of the variable
            v.vert = c.idx(w.verts.size());
            if (c.b(0.7))
                for (size_t q = 0; q < w.verts.size(); ++q)
                    if (vertGrid[q] == v.grid)
                        v.vert = q;
            if (w.len.count(w.verts[v.vert].axis))
                v.shape.push_back(w.verts[v.vert].axis);
            else
                v.coords.push_back(w.verts[v.vert].axis);
        }
        if (!times.empty() && c.b(0.75)) {
            v.time = times[c.idx(times.size())];
            if (v.vert >= 0 && !vertTime[v.vert].empty() && c.b(0.7))
                v.time = vertTime[v.vert];
            v.shape.push_back(v.time);
            if (validTime.count(v.time) && c.b(0.7))
                v.coords.push_back(validTime[v.time]);
            if (v.time == times[0] && !period.empty() && c.b())
                v.coords.push_back(period);
        } else if (!scalarTime.empty() && c.b()) {
            v.time = scalarTime;
            v.coords.push_back(scalarTime);
        }
        for (auto& o : others)
            if (c.b(0.3))
                v.shape.push_back(o);
        if (!ref.empty() && c.b(0.6)) {
            if (w.len.count(ref))
                v.shape.push_back(ref);
            else
                v.coords.push_back(ref);
        }
        if (c.b(0.4)) { // another order of the dimensions
            strs s;
            for (size_t q : c.perm(v.shape.size()))
                s.push_back(v.shape[q]);
            v.shape = s;
        }
        if (c.b(0.1) && !v.shape.empty()) { // dimensions may be repeated in the coordinates
            const std::string d = v.shape[c.idx(v.shape.size())];
            if (w.ax[d].hasVar)
                v.coords.push_back(d);
        }
        smap a;
        if (!v.coords.empty()) {
            std::string s;
            for (size_t q : c.perm(v.coords.size()))
                s += (s.empty() ? "" : " ") + v.coords[q];
            a["coordinates"] = s;
        }
        if (v.grid >= 0 && !v.partial && !w.grids[v.grid].gridMapping.empty())
            a["grid_mapping"] = w.grids[v.grid].gridMapping;
        if (c.b(0.3)) // attributes of data say nothing about coordinates
            a["units"] = c.picks({"degrees_east", "hPa", "hours since 2000-01-01", "K", "m"});
        if (c.b(0.2))
            a["standard_name"] = c.picks({"longitude", "air_pressure", "air_temperature", "height"});
        w.add(v.name, c.pick({CDM_FLOAT, CDM_SHORT}), v.shape, a);
        w.vars.push_back(v);
    }
    // a variable with two axes of one type has no coordinate system, but does not disturb the others
    if (c.b(0.4)) {
        strs odd;
        if (times.size() > 1)
            odd = times;
        for (size_t k = 1; k < w.grids.size(); ++k)
            if (w.ax[w.grids[0].dims[0]].type != CA::Undefined && w.ax[w.grids[0].dims[0]].type == w.ax[w.grids[k].dims[0]].type)
                odd = {w.grids[0].dims[0], w.grids[k].dims[0]};
        if (!odd.empty()) {
            w.add(nm(c, w, "odd"), CDM_FLOAT, odd, smap());
            c.label("two axes of one type");
        }
    }
    return w;
}

static void build(Case& c, World& w, CDM& cdm)
{
    for (size_t k : c.perm(w.dims.size()))
        cdm.addDimension(w.dims[k]);
    for (size_t k : c.perm(w.todo.size())) {
        cdm.addVariable(w.todo[k].first);
        for (size_t q : c.perm(w.todo[k].second.size()))
            cdm.addAttribute(w.todo[k].first.getName(), w.todo[k].second[q]);
    }
    switch (c.w({4, 1, 1, 1})) {
    case 0:
        cdm.addAttribute(cdm.globalAttributeNS(), CDMAttribute("Conventions", c.picks({"CF-1.0", "CF-1.6", "ACDD-1.3, CF-1.8"})));
        break;
    case 1:
        cdm.addAttribute(cdm.globalAttributeNS(), CDMAttribute("conventions", "cf-1.4"));
        break;
    case 2:
        cdm.addAttribute(cdm.globalAttributeNS(), CDMAttribute("Conventions", "COARDS"));
        break;
    }
}

static std::string join(const strs& s)
{
    std::string r;
    for (auto& x : s)
        r += (r.empty() ? "" : ",") + x;
    return r;
}
static std::string join(const sset& s)
{
    return join(strs(s.begin(), s.end()));
}
static std::string nameOf(const CoordinateAxis_cp& a)
{
    return a ? a->getName() : "";
}

struct Expect
{
    sset must, may; // axes
    std::string x, y, z, t, lat, lon;
    bool simple = false;
    std::string proj;    // grid mapping variable, or "implicit"
    std::string vtrans;
    sset deps;
};

static Expect expectFor(World& w, const DV& v)
{
    Expect e;
    sset all(v.shape.begin(), v.shape.end());
    sset shape = all;
    all.insert(v.coords.begin(), v.coords.end());
    for (auto& n : all) {
        const Ax& a = w.ax.at(n);
        bool dropped = false;
        if (!shape.count(n) && a.type != CA::Undefined)
            for (auto& o : shape)
                if (w.ax.at(o).type == a.type)
                    dropped = true;
        (dropped ? e.may : e.must).insert(n);
        if (!a.bounds.empty() && !dropped)
            e.deps.insert(a.bounds);
        if (a.hasVar && !dropped)
            e.deps.insert(n);
    }
    if (v.grid >= 0) {
        const Grid& g = w.grids[v.grid];
        for (auto& n : {g.x, g.y})
            if (all.count(n))
                (n == g.x ? e.x : e.y) = n;
        const bool noaux = !g.aux.empty() && !all.count(g.lat);
        if (!noaux && all.count(g.lat))
            e.lat = g.lat;
        if (!noaux && all.count(g.lon))
            e.lon = g.lon;
        e.simple = g.simple && !v.partial;
        if (!v.partial) {
            if (!g.gridMapping.empty()) {
                e.proj = g.gridMapping;
                e.deps.insert(e.proj);
            } else if (g.implicit)
                e.proj = "implicit";
        }
    }
    e.t = v.time;
    if (v.vert >= 0) {
        const Vert& z = w.verts[v.vert];
        e.z = z.axis;
        e.vtrans = z.kind;
        // formula terms with dimensions which the variable does not have do not apply
        for (auto& t : z.terms) {
            e.deps.insert(t.second);
            for (auto& td : w.todo)
                if (td.first.getName() == t.second)
                    for (auto& d : td.first.getShape())
                        if (w.len[d] > 1 && !all.count(d))
                            e.vtrans = "";
        }
    }
    return e;
}

static void checkVertical(Case& c, const Vert& z, const VerticalTransformation_cp& vt, const std::string& m)
{
    auto T = [&](const std::string& n) {
        auto it = z.terms.find(n);
        return it == z.terms.end() ? std::string() : it->second;
    };
    c.check(vt->getName() == z.kind, m + "vertical transformation is " + vt->getName() + ", not " + z.kind);
    bool ok = true;
    if (auto* p = dynamic_cast<const HybridSigmaPressure1*>(vt.get()))
        ok = p->ap == T("ap") && p->b == T("b") && p->ps == T("ps") && p->p0 == T("p0");
    else if (auto* p = dynamic_cast<const HybridSigmaPressure2*>(vt.get()))
        ok = p->a == T("a") && p->b == T("b") && p->ps == T("ps") && p->p0 == T("p0");
    else if (auto* p = dynamic_cast<const OceanSG1*>(vt.get()))
        ok = p->vars.s == T("s") && p->vars.C == T("C") && p->vars.depth == T("depth") && p->vars.depth_c == T("depth_c") && p->vars.eta == T("eta");
    else if (auto* p = dynamic_cast<const OceanSG2*>(vt.get()))
        ok = p->vars.s == T("s") && p->vars.C == T("C") && p->vars.depth == T("depth") && p->vars.depth_c == T("depth_c") && p->vars.eta == T("eta");
    else if (auto* p = dynamic_cast<const LnPressure*>(vt.get()))
        ok = p->lev == T("lev") && p->p0 == T("p0");
    else if (auto* p = dynamic_cast<const AtmosphereHybridHeight*>(vt.get()))
        ok = p->a == T("a") && p->b == T("b") && p->orog == T("orog");
    c.check(ok, m + "formula terms of " + z.axis + " are mixed up: " + vt->getParameterString());
    c.check(vt->isComplete() || !z.terms.size(), m + "the vertical transformation says it is not complete: " + vt->getParameterString());
}

static void checkVar(Case& c, World& w, const CoordinateSystem_cp_v& css, const CDM& cdm, const DV& v, const std::string& how)
{
    const Expect e = expectFor(w, v);
    const std::string m = how + ": " + v.name + "(" + join(v.shape) + ") coordinates='" + join(v.coords) + "': ";
    CoordinateSystem_cp cs;
    size_t count = 0;
    for (auto& s : css)
        if (s->isCSAndCompleteFor(v.name)) {
            count++;
            cs = s;
        }
    if (e.must.empty() && e.may.empty()) {
        c.check(count == 0, m + "scalar with a coordinate system");
        return;
    }
    c.check(count == 1, m + std::to_string(count) + " complete coordinate systems");
    c.check(findCompleteCoordinateSystemFor(css, v.name) == cs, m + "findCompleteCoordinateSystemFor");
    sset got;
    for (auto& a : cs->getAxes()) {
        got.insert(a->getName());
        c.check(w.ax.count(a->getName()) && a->getAxisType() == w.ax.at(a->getName()).type,
                m + "axis " + a->getName() + " is of type " + a->getAxisTypeStr() + ", not " +
                    (w.ax.count(a->getName()) ? CA::type2string(w.ax.at(a->getName()).type) : std::string("an axis")));
        c.check(a->isExplicit() == (w.len.count(a->getName()) > 0), m + "axis " + a->getName() + " is explicit or not");
    }
    for (auto& n : e.must)
        c.check(got.count(n), m + "axis " + n + " is missing in " + join(got));
    for (auto& n : got)
        c.check(e.must.count(n) || e.may.count(n), m + "has also axis " + n);
    c.check(nameOf(cs->getGeoXAxis()) == e.x, m + "x axis is '" + nameOf(cs->getGeoXAxis()) + "', not '" + e.x + "'");
    c.check(nameOf(cs->getGeoYAxis()) == e.y, m + "y axis is '" + nameOf(cs->getGeoYAxis()) + "', not '" + e.y + "'");
    c.check(nameOf(cs->getGeoZAxis()) == e.z, m + "z axis is '" + nameOf(cs->getGeoZAxis()) + "', not '" + e.z + "'");
    c.check(nameOf(cs->getTimeAxis()) == e.t, m + "time axis is '" + nameOf(cs->getTimeAxis()) + "', not '" + e.t + "'");
    c.check(nameOf(cs->findAxisOfType(CA::Lat)) == e.lat && nameOf(cs->findAxisOfType(CA::Lon)) == e.lon, m + "latitude, longitude are '" +
                nameOf(cs->findAxisOfType(CA::Lat)) + "', '" + nameOf(cs->findAxisOfType(CA::Lon)) + "'");
    c.check(cs->isSimpleSpatialGridded() == e.simple, m + (e.simple ? "no simple spatial grid" : "a simple spatial grid"));
    c.check(cs->hasProjection() == !e.proj.empty(), m + (e.proj.empty() ? "has a projection" : "has no projection"));
    if (!e.proj.empty()) {
        std::string want = "+proj=latlong";
        if (e.proj != "implicit")
            want = Projection::create(cdm.getAttributes(e.proj))->getProj4String();
        const std::string got = cs->getProjection()->getProj4String();
        c.check(e.proj == "implicit" ? got.find("longlat") != std::string::npos || got.find("latlong") != std::string::npos : got == want, m + "projection is " + got + ", not " + want);
    }
    c.check(cs->hasVerticalTransformation() == !e.vtrans.empty(), m + (e.vtrans.empty() ? "has a vertical transformation" : "has no vertical transformation " + e.vtrans));
    if (!e.vtrans.empty())
        checkVertical(c, w.verts[v.vert], cs->getVerticalTransformation(), m);
    const sset deps = cs->getDependencyVariables();
    for (auto& n : e.deps)
        c.check(deps.count(n), m + "does not depend on " + n + ", only on " + join(deps));
}

static void checkCdm(Case& c, World& w, const CDM& cdm, const DV& v, const std::string& how)
{
    const Expect e = expectFor(w, v);
    if (e.must.empty() && e.may.empty())
        return;
    const std::string m = how + ": CDM: " + v.name + "(" + join(v.shape) + ") coordinates='" + join(v.coords) + "': ";
    c.check(cdm.getHorizontalXAxis(v.name) == e.x, m + "x axis is '" + cdm.getHorizontalXAxis(v.name) + "', not '" + e.x + "'");
    c.check(cdm.getHorizontalYAxis(v.name) == e.y, m + "y axis is '" + cdm.getHorizontalYAxis(v.name) + "', not '" + e.y + "'");
    c.check(cdm.getVerticalAxis(v.name) == e.z, m + "vertical axis is '" + cdm.getVerticalAxis(v.name) + "', not '" + e.z + "'");
    c.check(cdm.getTimeAxis(v.name) == e.t, m + "time axis is '" + cdm.getTimeAxis(v.name) + "', not '" + e.t + "'");
    c.check((cdm.getProjectionOf(v.name) != 0) == !e.proj.empty(), m + (e.proj.empty() ? "has a projection" : "has no projection"));
    std::string la, lo;
    const bool ll = cdm.getLatitudeLongitude(v.name, la, lo);
    c.check(ll == (!e.lat.empty() && !e.lon.empty()), m + (ll ? "has" : "has not") + " latitude and longitude");
    if (ll)
        c.check(la == e.lat && lo == e.lon, m + "latitude, longitude are " + la + ", " + lo);
}

static void describe(Case& c, const World& w)
{
    for (auto& t : w.todo) {
        c.show() << t.first.getName() << "(" << join(t.first.getShape()) << ")";
        for (auto& a : t.second)
            c.show() << " " << a.getName() << "='" << a.getStringValue() << "'";
        c.show() << "; ";
    }
}

static void systems(Case& c)
{
    World w = gen(c);
    CDM& cdm = w.r->cdm();
    build(c, w, cdm);
    describe(c, w);
    size_t rich = 0;
    for (auto& v : w.vars)
        rich += v.grid >= 0 && v.shape.size() + v.coords.size() >= 4;
    if (rich)
        c.nontrivial();
    const auto css = listCoordinateSystems(w.r);
    for (auto& v : w.vars)
        checkVar(c, w, css, cdm, v, "reader");
    for (auto& v : w.vars)
        checkCdm(c, w, cdm, v, "reader");
    // the same information in another order, read from the CDM alone
    CDM other;
    build(c, w, other);
    for (auto& v : w.vars)
        checkCdm(c, w, other, v, "other order");
    const auto css2 = listCoordinateSystems(static_cast<const CDM&>(other));
    for (auto& v : w.vars)
        checkVar(c, w, css2, other, v, "other order");
    c.check(css.size() == css2.size(), "the number of coordinate systems depends on the order");
}

static void horizontal(Case& c)
{
    World w = gen(c);
    CDM& cdm = w.r->cdm();
    build(c, w, cdm);
    describe(c, w);
    for (int withProj = 0; withProj < 2; ++withProj) {
        std::map<std::string, CoordinateSystem_cp> sys;
        smap vars;
        strs bad;
        const int n = findBestHorizontalCoordinateSystems(withProj, w.r, sys, vars, bad);
        const std::string how = withProj ? "with projection: " : "without projection: ";
        c.check(n == (int)sys.size(), how + "number of systems");
        sset want, horiz; // names of the horizontal systems; horizontal dimensions of them
        smap wantVars;
        std::map<std::string, int> gridOf;
        for (auto& v : w.vars) {
            const Expect e = expectFor(w, v);
            if (withProj ? e.simple && !e.proj.empty() : !e.lat.empty() && !e.lon.empty()) {
                want.insert(e.x + "," + e.y);
                gridOf[e.x + "," + e.y] = v.grid;
            }
        }
        // surface fields used as formula terms are variables like all others
        for (auto& z : w.verts)
            for (auto& t : z.terms)
                for (auto& td : w.todo)
                    if (td.first.getName() == t.second)
                        for (size_t g = 0; g < w.grids.size(); ++g) {
                            const Grid& gr = w.grids[g];
                            size_t have = 0;
                            for (auto& d : td.first.getShape())
                                have += std::count(gr.dims.begin(), gr.dims.end(), d);
                            if (have == 2 && gr.simple && (withProj ? !gr.gridMapping.empty() || gr.implicit : gr.aux.empty() && !gr.lat.empty())) {
                                want.insert(gr.x + "," + gr.y);
                                gridOf[gr.x + "," + gr.y] = g;
                            }
                        }
        sset got;
        for (auto& s : sys)
            got.insert(s.first);
        c.check(got == want, how + "horizontal systems are " + join(got) + ", not " + join(want));
        for (auto& s : sys) {
            c.check(s.second->horizontalId() == s.first, how + "id of " + s.first);
            const Grid& g = w.grids[gridOf[s.first]];
            c.check(nameOf(s.second->getGeoXAxis()) == g.x && nameOf(s.second->getGeoYAxis()) == g.y, how + "axes of " + s.first);
            for (auto& d : g.dims)
                horiz.insert(d);
            if (withProj && !g.gridMapping.empty())
                c.check(s.second->hasProjection() && s.second->getProjection()->getProj4String() == Projection::create(cdm.getAttributes(g.gridMapping))->getProj4String(),
                        how + "projection of " + s.first);
        }
        for (auto& v : w.vars) {
            const Expect e = expectFor(w, v);
            if (e.must.empty() && e.may.empty())
                continue;
            const std::string id = e.x.empty() ? e.y : e.y.empty() ? e.x : e.x + "," + e.y;
            const bool in = !id.empty() && want.count(id);
            c.check(vars.count(v.name) == in, how + v.name + (in ? " is missing" : " is listed"));
            if (in) {
                c.check(vars[v.name] == id, how + v.name + " is in " + vars[v.name] + ", not " + id);
                c.check(sys[id]->isCSFor(v.name), how + id + " does not know " + v.name);
            }
            bool touches = false;
            for (auto& d : v.shape)
                touches |= horiz.count(d) > 0;
            const bool listed = std::find(bad.begin(), bad.end(), v.name) != bad.end();
            c.check(listed == (!in && touches), how + v.name + (listed ? " is" : " is not") + " incompatible");
            if (touches)
                c.nontrivial();
        }
        for (auto& b : w.ax)
            if (!b.second.bounds.empty() && horiz.count(b.first))
                c.check(std::count(bad.begin(), bad.end(), b.second.bounds) > 0, how + "bounds " + b.second.bounds + " of a horizontal axis are not incompatible");
    }
}

//! queries, edits and queries again
static void edits(Case& c)
{
    World w = gen(c);
    CDM& cdm0 = w.r->cdm();
    build(c, w, cdm0);
    describe(c, w);
    CDM copy(cdm0);
    const bool before = c.b(0.8);
    auto query = [&](const CDM& cdm, const std::string& how) {
        for (auto& v : w.vars)
            checkCdm(c, w, cdm, v, how);
    };
    if (before)
        query(cdm0, "before");
    const bool useCopy = c.b();
    CDM copied(cdm0);
    CDM& cdm = useCopy ? copied : cdm0;
    const size_t n = c.i(1, 3);
    for (size_t k = 0; k < n; ++k) {
        DV& v = w.vars[c.idx(w.vars.size())];
        const std::string old = v.name;
        switch (c.w({2, 2, 2, 2})) {
        case 0: { // a variable gets a new name
            v.name = nm(c, w, "renamed");
            c.show() << " rename " << old << " " << v.name;
            c.check(cdm.renameVariable(old, v.name), "cannot rename " + old);
        } break;
        case 1: { // a further variable
            DV u = v;
            u.name = nm(c, w, "further");
            c.show() << " add " << u.name << " like " << old;
            CDMVariable cv = cdm.getVariable(old);
            auto atts = cdm.getAttributes(old);
            CDMVariable nv(u.name, cv.getDataType(), cv.getShape());
            cdm.addVariable(nv);
            for (auto& a : atts)
                cdm.addAttribute(u.name, a);
            w.vars.push_back(u);
        } break;
        case 2: { // auxiliary coordinates vanish
            if (!v.coords.empty() && (v.grid < 0 || w.grids[v.grid].simple)) {
                c.show() << " no coordinates " << old;
                cdm.removeAttribute(old, "coordinates");
                for (auto& x : v.coords) {
                    if (x == v.time && !w.len.count(x))
                        v.time = "";
                    if (v.vert >= 0 && x == w.verts[v.vert].axis && !w.len.count(x))
                        v.vert = -1;
                }
                v.coords.clear();
            }
        } break;
        case 3: { // a variable is removed
            if (w.vars.size() > 1) {
                c.show() << " remove " << old;
                cdm.removeVariable(old);
                w.vars.erase(w.vars.begin() + (&v - &w.vars[0]));
            }
        } break;
        }
        if (c.b(0.7))
            query(cdm, "after edit " + std::to_string(k));
    }
    query(cdm, "at the end");
    if (before && n > 1)
        c.nontrivial();
}

static void vectors(Case& c)
{
    static const std::vector<std::vector<std::string>> pairs = {
        {"x_wind", "y_wind", "x"}, {"grid_eastward_wind", "grid_northward_wind", "x"}, {"sea_water_x_velocity", "sea_water_y_velocity", "x"},
        {"x_sea_water_velocity", "y_sea_water_velocity", "x"}, {"barotropic_sea_water_x_velocity", "barotropic_sea_water_y_velocity", "x"},
        {"sea_ice_x_velocity", "sea_ice_y_velocity", "x"}, {"sea_surface_wave_stokes_drift_x_velocity", "sea_surface_wave_stokes_drift_y_velocity", "x"},
        {"ocean_heat_x_transport", "ocean_heat_y_transport", "x"},
        {"eastward_wind", "northward_wind", "lon"}, {"eastward_wind_shear", "northward_wind_shear", "lon"}, {"geostrophic_eastward_wind", "geostrophic_northward_wind", "lon"},
        {"eastward_sea_water_velocity", "northward_sea_water_velocity", "lon"}, {"eastward_sea_water_velocity_assuming_no_tide", "northward_sea_water_velocity_assuming_no_tide", "lon"},
        {"surface_downward_eastward_stress", "surface_downward_northward_stress", "lon"}, {"tendency_of_eastward_wind", "tendency_of_northward_wind", "lon"},
        {"tendency_of_eastward_wind_due_to_advection", "tendency_of_northward_wind_due_to_advection", "lon"},
        {"tendency_of_eastward_wind_due_to_convection", "tendency_of_northward_wind_due_to_convection", "lon"},
        {"eastward_water_vapor_flux", "northward_water_vapor_flux", "lon"}, {"eastward_water_vapor_flux_in_air", "northward_water_vapor_flux_in_air", "lon"},
        {"downward_eastward_momentum_flux_in_air", "downward_northward_momentum_flux_in_air", "lon"},
        {"downward_eastward_momentum_flux_in_air_due_to_diffusion", "downward_northward_momentum_flux_in_air_due_to_diffusion", "lon"}};
    auto r = std::make_shared<MemReader>();
    CDM& cdm = r->cdm();
    for (auto& d : {"x", "y", "x2", "z", "t"})
        cdm.addDimension(CDMDimension(d, 2));
    const std::vector<strs> shapes = {{"x", "y"}, {"x", "y", "t"}, {"x2", "y", "t"}, {"x", "y", "z", "t"}, {"x2", "y"}};
    struct V
    {
        std::string name, sn, mate, dir;
        strs shape;
        bool marked = false;
    };
    std::vector<V> vs;
    std::set<std::pair<std::string, strs>> used;
    const size_t n = c.i(1, 5);
    const size_t start = c.idx(pairs.size());
    size_t full = 0;
    for (size_t k = 0; k < n; ++k) {
        const auto& p = pairs[c.b(0.6) ? (start + c.i(0, 2)) % pairs.size() : c.idx(pairs.size())];
        const strs sh = shapes[c.idx(c.b() ? 2 : shapes.size())];
        if (!used.insert(std::make_pair(p[0], sh)).second)
            continue;
        const std::string id = std::to_string(k);
        V a, b;
        a.name = c.picks({"u", "q", "e"}) + id;
        b.name = c.picks({"v", "A", "n"}) + id;
        a.sn = p[0];
        b.sn = p[1];
        a.shape = b.shape = sh;
        a.mate = b.name;
        b.mate = a.name;
        a.dir = p[2];
        b.dir = p[2] == "x" ? "y" : "lat";
        const int kind = c.w({5, 1, 1});
        if (kind == 0) {
            if (c.b(0.15)) // a user has already said so
                a.marked = b.marked = true;
            vs.push_back(a);
            vs.push_back(b);
            full++;
        } else { // a component alone
            V& s = kind == 1 ? a : b;
            s.mate = "";
            vs.push_back(s);
        }
    }
    std::vector<V> order;
    for (size_t k : c.perm(vs.size()))
        order.push_back(vs[k]);
    if (c.b()) {
        V t;
        t.name = "temp";
        t.sn = c.picks({"air_temperature", "wind_speed", "tendency_of_x_wind_speed", "upward_air_velocity", "y_component"});
        t.shape = shapes[0];
        order.push_back(t);
    }
    for (auto& v : order) {
        cdm.addVariable(CDMVariable(v.name, CDM_FLOAT, v.shape));
        cdm.addAttribute(v.name, CDMAttribute("standard_name", v.sn));
        c.show() << v.name << "(" << join(v.shape) << ") " << v.sn << (v.marked ? " marked" : "") << "; ";
    }
    for (auto& v : order)
        if (v.marked)
            cdm.getVariable(v.name).setAsSpatialVector(v.mate, CDMVariable::vectorDirectionFromString(v.dir));
    if (c.b())
        cdm.addAttribute(cdm.globalAttributeNS(), CDMAttribute("Conventions", "CF-1.6"));
    const int times = c.i(1, 2);
    for (int k = 0; k < times; ++k)
        enhanceVectorProperties(r);
    for (auto& v : order) {
        const CDMVariable& cv = cdm.getVariable(v.name);
        c.check(cv.isSpatialVector() == !v.mate.empty(), v.name + (v.mate.empty() ? " became a vector with " + cv.getSpatialVectorCounterpart() : " is no vector"));
        if (!v.mate.empty()) {
            c.check(cv.getSpatialVectorCounterpart() == v.mate, v.name + " is paired with " + cv.getSpatialVectorCounterpart() + ", not " + v.mate);
            c.check(cv.getSpatialVectorDirection() == CDMVariable::vectorDirectionFromString(v.dir), v.name + " has another direction than " + v.dir);
        }
    }
    if (full > 1)
        c.nontrivial();
}

//! slices by axis type, also for times depending on the reference time
static void slices(Case& c)
{
    Dataset ds;
    ds.r = std::make_shared<MemReader>();
    Proj p = genProj(c, LATLON | STERE);
    auto ax = [&](size_t n, double st, double s) {
        dvec v;
        for (size_t k = 0; k < n; ++k)
            v.push_back(st + s * k);
        return v;
    };
    const bool ll = p.kind == "latitude_longitude";
    std::map<std::string, size_t> len;
    const size_t nx = c.i(1, 3), ny = c.i(1, 3);
    addGrid(ds, p, ll ? ax(nx, 5, 1) : ax(nx, p.cx, 1000), ll ? ax(ny, 50, 1) : ax(ny, p.cy, 1000));
    const std::string X = ds.x.name, Y = ds.y.name;
    len[X] = nx;
    len[Y] = ny;
    std::map<std::string, CA::AxisType> type = {{X, ll ? CA::Lon : CA::GeoX}, {Y, ll ? CA::Lat : CA::GeoY}};
    strs shape = {X, Y};
    std::string coords;
    if (c.b()) {
        len["lev"] = c.i(1, 3);
        addAxis(ds, {"lev", ax(len["lev"], 100, 100), "hPa"}, false);
        attr(ds, "lev", "standard_name", "air_pressure");
        type["lev"] = CA::Pressure;
        shape.push_back("lev");
    }
    if (c.b(0.3)) {
        len["ens"] = c.i(1, 3);
        addAxis(ds, {"ens", ax(len["ens"], 0, 1), "1"}, false);
        attr(ds, "ens", "standard_name", "realization");
        type["ens"] = CA::Realization;
        shape.push_back("ens");
    }
    // times: 0 none, 1 one-dimensional, 2 the same with a reference time, 3 per reference time, 4 scalar reference time
    const int kind = c.w({1, 2, 2, 4, 1});
    const std::string R = c.picks({"reftime", "a_ref", "zref"}), T = c.picks({"time", "a_time", "zt"}), O = c.picks({"offset", "a_off", "zoff"});
    std::string tdim;
    strs tshape;
    const char* unit = "hours since 2000-01-01 00:00:00";
    bool twoD = false;
    if (kind == 2 || kind == 3) {
        len[R] = c.i(1, 3);
        addAxis(ds, {R, ax(len[R], 0, 6), unit}, false);
        attr(ds, R, "standard_name", "forecast_reference_time");
        type[R] = CA::ReferenceTime;
        shape.push_back(R);
    } else if (kind == 4) {
        addVar(ds, R, CDM_DOUBLE, {}, {6}, false);
        attr(ds, R, "units", unit);
        attr(ds, R, "standard_name", "forecast_reference_time");
        coords = R;
    }
    const bool unlim = c.b(0.3);
    if (kind == 3) {
        twoD = true;
        tdim = O;
        len[O] = c.i(1, 4);
        addAxis(ds, {O, ax(len[O], 0, 3), "hours"}, unlim);
        if (c.b())
            attr(ds, O, "standard_name", "forecast_period");
        tshape = c.b() ? strs{O, R} : strs{R, O};
        if (unlim)
            tshape = {R, O};
        dvec tv;
        for (size_t k = 0; k < len[O] * len[R]; ++k) {
            const size_t r = tshape[0] == R ? k % len[R] : k / len[O], o = tshape[0] == R ? k / len[R] : k % len[O];
            tv.push_back(6. * r + 3. * o + 0.25 * r * o);
        }
        addVar(ds, T, CDM_DOUBLE, tshape, tv, false);
        attr(ds, T, "units", unit);
        attr(ds, T, "standard_name", "time");
        coords = T;
        shape.push_back(O);
    } else if (kind) {
        tdim = T;
        len[T] = c.i(1, 4);
        addAxis(ds, {T, ax(len[T], 0, 3), unit}, unlim);
        attr(ds, T, "standard_name", "time");
        type[T] = CA::Time;
        tshape = {T};
        shape.push_back(T);
    }
    if (c.b(0.4)) { // another order of the dimensions
        strs s;
        for (size_t k : c.perm(shape.size()))
            s.push_back(shape[k]);
        if (unlim && !tdim.empty()) {
            s.erase(std::find(s.begin(), s.end(), tdim));
            s.push_back(tdim);
        }
        shape = s;
    }
    size_t n = 1;
    svec sizes;
    for (auto& s : shape) {
        sizes.push_back(len[s]);
        n *= len[s];
    }
    addVar(ds, "v", CDM_DOUBLE, shape, ax(n, 0, 1), true);
    if (!coords.empty())
        attr(ds, "v", "coordinates", coords);
    c.show() << p.kind << " v" << vec(shape) << vec(sizes) << " time " << vec(tshape) << " coordinates '" << coords << "'";
    auto css = listCoordinateSystems(ds.r);
    auto cs = findCompleteCoordinateSystemFor(css, "v");
    c.check(!!cs, "no coordinate system");
    CoordinateSystemSliceBuilder sb(ds.r->getCDM(), cs, "v");
    if (!twoD || c.b()) // types of all dimensions
        for (size_t k = 0; k < shape.size(); ++k)
            if (type.count(shape[k]))
                c.check(sb.getAxisTypes().at(k) == type[shape[k]], "type of dimension " + shape[k]);
    svec start(shape.size(), 0), size = sizes;
    auto idx = [&](const std::string& d) { return (size_t)(std::find(shape.begin(), shape.end(), d) - shape.begin()); };
    if (type.count(R))
        size[idx(R)] = 1; // the first reference time
    const int ops = c.i(0, 5);
    for (int k = 0; k < ops; ++k) {
        std::string d = c.pick(shape);
        const size_t st = c.i(0, len[d] - 1), sz = c.i(1, len[d] - st);
        c.show() << " " << d << "@" << st << "+" << sz;
        start[idx(d)] = st;
        size[idx(d)] = d == R ? 1 : sz;
        if (d == R) {
            if (c.b())
                sb.setReferenceTimePos(st);
            else
                sb.setAxisStartAndSize(CA::ReferenceTime, st, sz);
        } else if (d == tdim) {
            if (c.b())
                sb.setTimeStartAndSize(st, sz);
            else
                sb.setAxisStartAndSize(CA::Time, st, sz);
        } else if (c.b()) {
            sb.setAxisStartAndSize(type[d], st, sz);
        } else {
            sb.setStartAndSize(d, st, sz);
        }
    }
    for (size_t k = 0; k < shape.size(); ++k)
        c.check(sb.getDimensionStartPositions()[k] == start[k] && sb.getDimensionSizes()[k] == size[k],
                "slice in " + shape[k] + ": " + std::to_string(sb.getDimensionStartPositions()[k]) + "+" + std::to_string(sb.getDimensionSizes()[k]) + " expected " +
                    std::to_string(start[k]) + "+" + std::to_string(size[k]));
    same(c, "data of the slice", rawValues(ds.r->getDataSlice("v", sb)), hyperslab(ax(n, 0, 1), sizes, start, size));
    if (!tshape.empty()) {
        svec ts, tst, tsz;
        for (auto& d : tshape) {
            ts.push_back(len[d]);
            tst.push_back(start[idx(d)]);
            tsz.push_back(size[idx(d)]);
        }
        c.check(cs->getTimeAxis() && cs->getTimeAxis()->getName() == T, "time axis");
        same(c, "times of the slice", rawValues(ds.r->getDataSlice(T, sb.getTimeVariableSliceBuilder())), hyperslab(rawValues(ds.r->getData(T)), ts, tst, tsz));
    }
    c.label(twoD ? "time per reference time" : kind ? "time" : "no time");
    c.nontrivial(ops > 0 && n > 1);
}

int main(int argc, char** argv)
{
    noProjDatabase();
    Runner r("C25", "systems, horizontal: a gridded variable with at least four axes (touching a horizontal system); edits: queried before, two or more edits; vectors: two or more pairs");
    r.init(quiet);
    r.sub("systems", systems, 6000, 200000);
    r.sub("horizontal", horizontal, 4000, 120000);
    r.sub("slices", slices, 4000, 100000);
    r.sub("edits", edits, 3000, 100000);
    r.sub("vectors", vectors, 3000, 100000);
    return r.main(argc, argv);
}
