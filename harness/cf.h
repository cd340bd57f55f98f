// CF-convention dataset generator shared by the harnesses: projections, axes, grid variables.
#pragma once
#include "fx.h"
#include <proj.h>

namespace cf {
using namespace fx;

//! direct use of PROJ, the oracle for coordinate conversions
struct Pj
{
    PJ* p = nullptr;
    Pj(const std::string& from, const std::string& to)
    {
        static PJ_CONTEXT* ctx = nullptr;
        if (!ctx) {
            ctx = proj_context_create();
            proj_log_level(ctx, PJ_LOG_NONE);
        }
        p = proj_create_crs_to_crs(ctx, from.c_str(), to.c_str(), 0);
        if (!p)
            throw pbt::Fail{"harness: PROJ refuses " + from + " -> " + to};
    }
    ~Pj()
    {
        if (p)
            proj_destroy(p);
    }
    Pj(const Pj&) = delete;
    bool fwd(double& x, double& y) const
    {
        PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(x, y, 0, 0));
        x = c.xy.x;
        y = c.xy.y;
        return std::isfinite(x) && std::isfinite(y);
    }
};

inline std::string g17(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}

struct Proj
{
    std::string kind;                 // CF grid_mapping_name
    std::string proj4;                // harness' own translation
    std::string earth;                // earth part of proj4
    std::vector<CDMAttribute> attrs;  // CF attributes
    bool degree = false;
    double cx = 0, cy = 0;            // a sensible centre in projection coordinates
    double half = 1e6;                // half extent that is well inside the domain
    std::string latlong() const { return "+proj=latlong " + earth + " +no_defs"; }
};

inline CDMAttribute num(const std::string& n, double v)
{
    return CDMAttribute(n, mkData(CDM_DOUBLE, dvec(1, v)));
}

//! earth figure: sphere or ellipsoid, written as CF attributes
inline void genEarth(pbt::Case& c, Proj& p, bool sphereOnly = false)
{
    switch (sphereOnly ? c.w({1, 1}) : c.w({2, 2, 1, 1})) {
    case 0: // default sphere: earth_radius not given
        p.earth = "+a=6371000 +e=0";
        break;
    case 1: {
        double r = c.pick<double>({6371229., 6367470., 6370997.});
        p.attrs.push_back(num("earth_radius", r));
        p.earth = "+a=" + g17(r) + " +e=0";
        break;
    }
    case 2:
        p.attrs.push_back(num("semi_major_axis", 6378137.));
        p.attrs.push_back(num("semi_minor_axis", 6356752.3142));
        p.earth = "+a=6378137 +b=6356752.3142";
        break;
    case 3:
        p.attrs.push_back(num("semi_major_axis", 6377397.155));
        p.attrs.push_back(num("inverse_flattening", 299.1528128));
        p.earth = "+a=6377397.155 +rf=299.1528128";
        break;
    }
}

enum { LATLON = 1, ROT = 2, STERE = 4, LCC = 8, MERC = 16, TMERC = 32, LAEA = 64, ALL = 127 };

inline Proj genProj(pbt::Case& c, int mask = ALL, bool sphereOnly = false)
{
    Proj p;
    std::vector<int> ks;
    for (int k = 1; k <= 64; k *= 2)
        if (mask & k)
            ks.push_back(k);
    int k = c.pick(ks);
    auto s = [&](const std::string& n, const std::string& v) { p.attrs.push_back(CDMAttribute(n, v)); };
    double lon0 = c.i(-17, 17) * 10 + (c.b(0.3) ? 0.12345678 : 0.);
    double lat0;
    std::string part;
    switch (k) {
    case LATLON:
        p.kind = "latitude_longitude";
        p.degree = true;
        p.cx = c.i(-15, 15) * 10;
        p.cy = c.i(-6, 6) * 10;
        p.half = 20;
        part = "+proj=latlong";
        break;
    case ROT: {
        p.kind = "rotated_latitude_longitude";
        p.degree = true;
        double plon = c.i(-17, 17) * 10 + (c.b(0.3) ? 0.123456789 : 0.), plat = c.pick<double>({25., 39.25, 65., 90., 33.123456789});
        p.attrs.push_back(num("grid_north_pole_longitude", plon));
        p.attrs.push_back(num("grid_north_pole_latitude", plat));
        p.half = 15;
        part = "+proj=ob_tran +o_proj=longlat +lon_0=" + g17(plon - 180) + " +o_lat_p=" + g17(plat);
        break;
    }
    case STERE: {
        bool south = c.b(0.3);
        double ts = (south ? -1 : 1) * c.pick<double>({60., 70., 90.});
        p.kind = "polar_stereographic";
        p.attrs.push_back(num("straight_vertical_longitude_from_pole", lon0));
        p.attrs.push_back(num("latitude_of_projection_origin", south ? -90 : 90));
        p.attrs.push_back(num("standard_parallel", ts));
        part = std::string("+proj=stere +lat_0=") + (south ? "-90" : "90") + " +lon_0=" + g17(lon0) + " +lat_ts=" + g17(ts);
        p.cy = (south ? 1 : -1) * 2.2e6;
        p.cx = 3e5;
        p.half = 8e5;
        break;
    }
    case LCC: {
        p.kind = "lambert_conformal_conic";
        double l1 = c.pick<double>({60., 47.5, 63.3, -45.});
        lat0 = l1;
        part = "+proj=lcc";
        if (c.b()) {
            double l2 = l1 > 0 ? l1 + 7.5 : l1 - 10;
            p.attrs.push_back(CDMAttribute("standard_parallel", mkData(CDM_DOUBLE, dvec{l1, l2})));
            part += " +lat_1=" + g17(l1) + " +lat_2=" + g17(l2);
        } else {
            p.attrs.push_back(num("standard_parallel", l1));
            part += " +lat_1=" + g17(l1) + " +lat_2=" + g17(l1);
        }
        p.attrs.push_back(num("longitude_of_central_meridian", lon0));
        p.attrs.push_back(num("latitude_of_projection_origin", lat0));
        part += " +lon_0=" + g17(lon0) + " +lat_0=" + g17(lat0);
        p.half = 8e5;
        break;
    }
    case MERC: {
        p.kind = "mercator";
        p.attrs.push_back(num("longitude_of_projection_origin", lon0));
        double ts = c.pick<double>({0., 20., 45.});
        p.attrs.push_back(num("standard_parallel", ts));
        part = "+proj=merc +lon_0=" + g17(lon0) + " +lat_ts=" + g17(ts);
        p.cy = 2e6;
        p.half = 1e6;
        break;
    }
    case TMERC: {
        p.kind = "transverse_mercator";
        p.attrs.push_back(num("longitude_of_central_meridian", lon0));
        lat0 = c.pick<double>({0., 50.});
        p.attrs.push_back(num("latitude_of_projection_origin", lat0));
        p.attrs.push_back(num("scale_factor_at_central_meridian", 0.9996));
        part = "+proj=tmerc +lon_0=" + g17(lon0) + " +lat_0=" + g17(lat0) + " +k_0=0.9996";
        p.cy = 5e5;
        p.half = 2e5;
        break;
    }
    case LAEA: {
        p.kind = "lambert_azimuthal_equal_area";
        lat0 = c.pick<double>({0., 52., 80., -60.});
        p.attrs.push_back(num("longitude_of_projection_origin", lon0));
        p.attrs.push_back(num("latitude_of_projection_origin", lat0));
        part = "+proj=laea +lon_0=" + g17(lon0) + " +lat_0=" + g17(lat0);
        p.half = 6e5;
        break;
    }
    }
    if (!p.degree && c.b(0.3)) {
        double fe = c.i(-5, 5) * 1e5, fn = c.i(-5, 5) * 1e5;
        p.attrs.push_back(num("false_easting", fe));
        p.attrs.push_back(num("false_northing", fn));
        part += " +x_0=" + g17(fe) + " +y_0=" + g17(fn);
        p.cx += fe;
        p.cy += fn;
    }
    s("grid_mapping_name", p.kind);
    genEarth(c, p, sphereOnly);
    p.proj4 = part + " " + p.earth + " +no_defs";
    return p;
}

//! regular axis inside the domain of p; may be descending
inline dvec genAxis(pbt::Case& c, double centre, double half, size_t n, bool allowDown = true)
{
    double step = half * c.pick<double>({0.02, 0.05, 0.1}) ;
    double start = centre - step * (n - 1) / 2. + half * 0.3 * c.i(-2, 2) / 2.;
    dvec a(n);
    bool down = allowDown && c.b(0.3);
    for (size_t k = 0; k < n; ++k)
        a[k] = start + step * (down ? n - 1 - k : k);
    return a;
}

struct Axis
{
    std::string name;
    dvec v;
    std::string units;
};

struct Dataset
{
    MemReader_p r;
    Proj proj;
    Axis x, y, z, t; // empty v: not present
    bool unlim = false;
    svec dims(const std::string& var) const { return r->dimsOf(var); }
};

inline void addAxis(Dataset& ds, const Axis& a, bool unlimited, CDMDataType type = CDM_DOUBLE)
{
    CDM& cdm = ds.r->cdm();
    CDMDimension d(a.name, a.v.size());
    if (unlimited)
        d.setUnlimited(true);
    cdm.addDimension(d);
    cdm.addVariable(CDMVariable(a.name, type, std::vector<std::string>(1, a.name)));
    cdm.addAttribute(a.name, CDMAttribute("units", a.units));
    ds.r->data[a.name] = mkData(type, a.v);
}
inline void attr(Dataset& ds, const std::string& var, const std::string& n, const std::string& v)
{
    ds.r->cdm().addAttribute(var, CDMAttribute(n, v));
}

//! x/y grid of the projection with the CF metadata
inline void addGrid(Dataset& ds, const Proj& p, const dvec& xv, const dvec& yv)
{
    ds.proj = p;
    CDM& cdm = ds.r->cdm();
    ds.r->cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.6"));
    if (p.kind == "latitude_longitude") {
        ds.x = {"lon", xv, "degrees_east"};
        ds.y = {"lat", yv, "degrees_north"};
    } else if (p.kind == "rotated_latitude_longitude") {
        ds.x = {"rlon", xv, "degrees"};
        ds.y = {"rlat", yv, "degrees"};
    } else {
        ds.x = {"x", xv, "m"};
        ds.y = {"y", yv, "m"};
    }
    addAxis(ds, ds.x, false);
    addAxis(ds, ds.y, false);
    attr(ds, ds.x.name, "standard_name", p.kind == "latitude_longitude" ? "longitude" : p.degree ? "grid_longitude" : "projection_x_coordinate");
    attr(ds, ds.y.name, "standard_name", p.kind == "latitude_longitude" ? "latitude" : p.degree ? "grid_latitude" : "projection_y_coordinate");
    cdm.addVariable(CDMVariable("crs", CDM_INT, std::vector<std::string>()));
    ds.r->data["crs"] = mkData(CDM_INT, dvec(1, 0.));
    for (auto& a : p.attrs)
        cdm.addAttribute("crs", a);
}

inline void addVar(Dataset& ds, const std::string& name, CDMDataType type, const std::vector<std::string>& shape, const dvec& values, bool gridMapping = true, bool inMemory = false)
{
    CDM& cdm = ds.r->cdm();
    CDMVariable v(name, type, shape);
    if (inMemory)
        v.setData(mkData(type, values));
    cdm.addVariable(v);
    if (gridMapping)
        attr(ds, name, "grid_mapping", "crs");
    ds.r->data[name] = mkData(type, values);
}

} // namespace cf
