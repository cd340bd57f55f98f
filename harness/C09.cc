// C09: vectors keep their true direction and length when the grid they refer to is changed
// LINK: -lproj
#include "cf.h"
#include "noprojdb.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMProcessor.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
#include "fimex/reproject.h"
using namespace fx;
using namespace pbt;
typedef std::vector<float> fvec;

static const std::string WGS = MIFI_WGS84_LATLON_PROJ4;
static const int CONF = cf::LATLON | cf::ROT | cf::STERE | cf::LCC | cf::MERC | cf::TMERC;
static const double RAD = M_PI / 180;

static const cf::Pj& pjOf(const std::string& from, const std::string& to)
{
    static std::map<std::string, std::unique_ptr<cf::Pj>> cache;
    if (cache.size() > 40)
        cache.clear();
    auto& p = cache[from + "|" + to];
    if (!p)
        p.reset(new cf::Pj(from, to));
    return *p;
}

//! angle (counter-clockwise from east, radian) of the x-direction of the grid at a point; NaN: not decidable
static double gridAngle(const std::string& proj4, bool degree, double x, double y)
{
    if (proj4.find("+proj=latlong") == 0)
        return std::fabs(y) < 87 ? 0 : NAN;
    const cf::Pj& pj = pjOf(proj4, WGS);
    const double h = degree ? 1e-3 : 50;
    double a[2];
    for (int k = 0; k < 2; ++k) {
        double x0 = x - (k ? 0 : h), y0 = y - (k ? h : 0), x1 = x + (k ? 0 : h), y1 = y + (k ? h : 0);
        if (!pj.fwd(x0, y0) || !pj.fwd(x1, y1) || std::fabs(y0) > 87)
            return NAN;
        double dlon = std::remainder(x1 - x0, 360) * std::cos(0.5 * (y0 + y1) * RAD), dlat = y1 - y0;
        if (std::hypot(dlon, dlat) < 1e-12)
            return NAN;
        a[k] = std::atan2(dlat, dlon) - (k ? M_PI / 2 : 0);
    }
    double d = std::remainder(a[1] - a[0], 2 * M_PI);
    if (std::fabs(d) > 0.02)
        return NAN; // not conformal (too far from the centre)
    return a[0] + d / 2;
}

struct Grid
{
    std::string proj4;
    bool degree = false;
    dvec x, y;
};

static std::string show(const Grid& g)
{
    return g.proj4 + " x=" + vec(g.x) + " y=" + vec(g.y);
}

//! a grid near a point
static Grid genNear(Case& c, double clon, double clat, const std::string& earth, double km)
{
    Grid t;
    auto g = [](double v) { return cf::g17(v); };
    const double lon0 = std::round(clon + c.i(-40, 40)), lat0 = std::max(-75., std::min(75., std::round(clat + c.i(-5, 5))));
    double half = km * 1e3;
    switch (c.w({3, 2, 2, 1, 1, 2})) {
    case 0:
        t.proj4 = "+proj=latlong " + earth + " +no_defs";
        t.degree = true;
        half = km / 111;
        break;
    case 1: t.proj4 = std::string("+proj=stere +lat_0=") + (clat > 0 ? "90" : "-90") + " +lon_0=" + g(lon0) + " +lat_ts=" + (clat > 0 ? "60 " : "-60 ") + earth + " +no_defs"; break;
    case 2: {
        double l1 = std::fabs(lat0) < 10 ? 20 : lat0;
        t.proj4 = "+proj=lcc +lat_1=" + g(l1) + " +lat_2=" + g(l1) + " +lat_0=" + g(l1) + " +lon_0=" + g(lon0) + " " + earth + " +no_defs";
        break;
    }
    case 3: t.proj4 = "+proj=merc +lon_0=" + g(lon0) + " +lat_ts=0 " + earth + " +no_defs"; break;
    case 4: t.proj4 = "+proj=tmerc +lat_0=" + g(lat0) + " +lon_0=" + g(std::round(clon)) + " +k=1 " + earth + " +no_defs"; break;
    case 5:
        t.proj4 = "+proj=ob_tran +o_proj=longlat +lon_0=" + g(lon0) + " +o_lat_p=" + g(90 - std::fabs(lat0)) + " " + earth + " +no_defs";
        t.degree = true;
        half = km / 111;
        break;
    }
    cf::Pj pj(WGS, t.proj4);
    double x = clon, y = clat;
    c.assume(pj.fwd(x, y));
    auto axis = [&](double m) {
        size_t n = c.b(0.15) ? 1 : c.i(2, 6);
        return cf::genAxis(c, m, half * c.pick({1., 3., 0.3}), n);
    };
    t.x = axis(x);
    t.y = axis(y);
    if (t.degree) {
        c.assume(t.y.front() > -88 && t.y.back() > -88 && t.y.front() < 88 && t.y.back() < 88);
        // grids across the date line are given with longitudes in 0..360
        double lo = *std::min_element(t.x.begin(), t.x.end()), hi = *std::max_element(t.x.begin(), t.x.end());
        if (hi > 180)
            c.assume(lo >= 0);
        if (lo < -180)
            for (auto& v : t.x)
                v += 360;
    }
    return t;
}

//! about half of the smaller extent of the source, km
static double extent(const cf::Dataset& ds)
{
    double e = std::min(std::fabs(ds.x.v.back() - ds.x.v.front()), std::fabs(ds.y.v.back() - ds.y.v.front()));
    return 0.5 * (ds.proj.degree ? e * 80 : e / 1000);
}

static Grid gridOf(const cf::Dataset& ds)
{
    return {ds.proj.proj4, ds.proj.degree, ds.x.v, ds.y.v};
}

static bool near(double a, double b, double mag)
{
    return std::fabs(a - b) <= 0.015 * mag + 1e-5;
}

//! rotation from a grid to another at a point of the latter
static double rotation(const Grid& s, const Grid& t, double x, double y)
{
    const cf::Pj& pj = pjOf(t.proj4, s.proj4);
    double sx = x, sy = y;
    if (!pj.fwd(sx, sy))
        return NAN;
    return gridAngle(s.proj4, s.degree, sx, sy) - gridAngle(t.proj4, t.degree, x, y);
}

static void genSource(Case& c, cf::Dataset& ds, double& clon, double& clat, bool ellipsoid = true)
{
    ds.r = std::make_shared<MemReader>();
    cf::Proj p = cf::genProj(c, CONF, !ellipsoid || c.b(0.7));
    const size_t nx = c.i(2, 7), ny = c.i(2, 7);
    dvec xa = cf::genAxis(c, p.cx, p.half, nx), ya = cf::genAxis(c, p.cy, p.half, ny);
    cf::addGrid(ds, p, xa, ya);
    clon = xa[nx / 2];
    clat = ya[ny / 2];
    cf::Pj pj(p.proj4, WGS);
    c.assume(pj.fwd(clon, clat) && std::fabs(clat) < 80);
}

static void matrices(Case& c)
{
    cf::Dataset ds;
    double clon, clat;
    genSource(c, ds, clon, clat);
    Grid s = gridOf(ds), t = genNear(c, clon, clat, ds.proj.earth, extent(ds));
    const int how = c.idx(3);
    const size_t nz = c.i(1, 3), nx = t.x.size(), ny = t.y.size(), n = nx * ny;
    fvec u, v, a;
    for (size_t k = 0; k < n * nz; ++k) {
        double ang = c.i(0, 359), len = c.pick({1., 10., 0., 250.});
        bool und = c.b(0.05);
        u.push_back(und ? NAN : len * std::cos(ang * RAD));
        v.push_back(len * std::sin(ang * RAD));
        a.push_back(c.b(0.05) ? NAN : ang);
    }
    fvec u0 = u, v0 = v, a0 = a;
    c.show() << "vectors " << (how == 0 ? "to axes" : how == 1 ? "of field" : "to points") << " from " << s.proj4 << " to " << show(t) << " layers " << nz;
    reproject::Matrix_cp m;
    dvec rot(n);
    if (how == 0) {
        int xt = t.degree ? MIFI_LONGITUDE : MIFI_PROJ_AXIS, yt = t.degree ? MIFI_LATITUDE : MIFI_PROJ_AXIS;
        m = reproject::get_vector_reproject_matrix(s.proj4, t.proj4, t.x.data(), t.y.data(), xt, yt, nx, ny);
        for (size_t k = 0; k < n; ++k)
            rot[k] = rotation(s, t, t.x[k % nx], t.y[k / nx]);
        if (c.b(0.3)) { // also the combined call
            fvec u2 = u, v2 = v;
            reproject::vector_reproject_values_f(s.proj4, t.proj4, u2.data(), v2.data(), t.x.data(), t.y.data(), xt, yt, nx, ny, nz);
            reproject::vector_reproject_values_by_matrix_f(m, u.data(), v.data(), nz);
            for (size_t k = 0; k < n * nz; ++k)
                c.check((std::isnan(u[k]) && std::isnan(u2[k])) || near(u[k], u2[k], 1e-3 * std::hypot(u0[k], v0[k])), "combined call differs from matrix");
            u = u0;
            v = v0;
        }
    } else {
        dvec X, Y;
        for (size_t k = 0; k < n; ++k) {
            X.push_back(t.x[k % nx]);
            Y.push_back(t.y[k / nx]);
        }
        if (how == 1) { // points of the input
            m = reproject::get_vector_reproject_matrix_field(t.proj4, s.proj4, X.data(), Y.data(), nx, ny);
            for (size_t k = 0; k < n; ++k)
                rot[k] = -rotation(s, t, X[k], Y[k]);
        } else {
            m = reproject::get_vector_reproject_matrix_points(s.proj4, t.proj4, !s.degree, X.data(), Y.data(), nx, ny);
            for (size_t k = 0; k < n; ++k)
                rot[k] = rotation(s, t, X[k], Y[k]);
        }
    }
    reproject::vector_reproject_values_by_matrix_f(m, u.data(), v.data(), nz);
    reproject::vector_reproject_direction_by_matrix_f(m, a.data(), nz);
    for (size_t k = 0; k < n * nz; ++k) {
        double r = rot[k % n];
        if (std::isnan(r))
            continue;
        std::string at = " at point " + std::to_string(k % n) + " layer " + std::to_string(k / n);
        if (std::isnan(u0[k]))
            c.check(std::isnan(u[k]) && std::isnan(v[k]), "undefined vector became defined" + at);
        else {
            double len = std::hypot(u0[k], v0[k]);
            c.check(std::fabs(std::hypot(u[k], v[k]) - len) <= 1e-4 * len, "length of the vector changed from " + num(len) + " to " + num(std::hypot(u[k], v[k])) + at);
            double wu = u0[k] * std::cos(r) - v0[k] * std::sin(r), wv = u0[k] * std::sin(r) + v0[k] * std::cos(r);
            c.check(near(u[k], wu, len) && near(v[k], wv, len), "vector (" + num(u0[k]) + "," + num(v0[k]) + ") became (" + num(u[k]) + "," + num(v[k]) + "), expected (" + num(wu) +
                                                                   "," + num(wv) + ")" + at);
            if (std::fabs(std::remainder(r, 2 * M_PI)) > 0.05)
                c.nontrivial();
        }
        if (std::isnan(a0[k]))
            c.check(std::isnan(a[k]), "undefined direction became defined" + at);
        else {
            c.check(a[k] >= 0 && a[k] <= 360, "direction " + num(a[k]) + " not in 0..360" + at);
            c.check(std::fabs(std::remainder(a[k] - (a0[k] - r / RAD), 360)) < 1, "direction " + num(a0[k]) + " became " + num(a[k]) + ", expected " + num(a0[k] - r / RAD) + at);
        }
    }
    c.label(how == 0 ? "axes" : how == 1 ? "field" : "points");
}

struct Vec
{
    std::string x, y, px, py; // names of the vector and of plain variables with the same values
    CDMDataType type;
    double fill;
    size_t layers;
    double mag = 0;
};

static Vec addVector(Case& c, cf::Dataset& ds, const std::string& tag, const std::string& sx, const std::string& sy, bool time, bool height)
{
    Vec v;
    v.x = "u" + tag;
    v.y = "v" + tag;
    v.px = "pu" + tag;
    v.py = "pv" + tag;
    v.type = c.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT});
    v.fill = v.type == CDM_SHORT ? -32767 : -1e10;
    std::vector<std::string> shape{ds.x.name, ds.y.name};
    v.layers = 1;
    if (height) {
        shape.push_back("height");
        v.layers *= ds.z.v.size();
    }
    if (time) {
        shape.push_back("time");
        v.layers *= ds.t.v.size();
    }
    const size_t n = ds.x.v.size() * ds.y.v.size() * v.layers;
    dvec a, b;
    const double scale = v.type == CDM_SHORT ? 100 : 1;
    double bu = c.i(-20, 20), bv = c.i(-20, 20);
    bool undef = c.b(0.3);
    for (size_t k = 0; k < n; ++k) {
        a.push_back(undef && c.b(0.1) ? v.fill : std::round(scale * (bu + c.i(-5, 5))));
        b.push_back(undef && c.b(0.1) ? v.fill : std::round(scale * (bv + c.i(-5, 5))));
    }
    v.mag = scale * 26 * std::sqrt(2.);
    bool yFirst = c.b(0.3);
    for (int k = 0; k < 4; ++k) {
        int q = yFirst ? k ^ 1 : k;
        std::string n = q == 0 ? v.x : q == 1 ? v.y : q == 2 ? v.px : v.py;
        cf::addVar(ds, n, v.type, shape, q & 1 ? b : a, true, c.b(0.15));
        ds.r->cdm().addAttribute(n, CDMAttribute("_FillValue", mkData(v.type, dvec(1, v.fill))));
        if (v.type == CDM_SHORT)
            ds.r->cdm().addAttribute(n, CDMAttribute("scale_factor", mkData(CDM_DOUBLE, dvec(1, 0.01))));
        if (q < 2)
            cf::attr(ds, n, "standard_name", q ? sy : sx);
        cf::attr(ds, n, "units", "m/s");
    }
    return v;
}

static void addExtraAxes(Case& c, cf::Dataset& ds, bool& time, bool& height)
{
    time = c.b(0.5);
    height = c.b(0.4);
    if (height) {
        ds.z = {"height", dvec(), "m"};
        for (size_t k = c.i(1, 3); k > 0; --k)
            ds.z.v.push_back(10. * k);
        cf::addAxis(ds, ds.z, false);
        cf::attr(ds, "height", "axis", "Z");
        cf::attr(ds, "height", "positive", "up");
    }
    if (time) {
        ds.t = {"time", dvec(), "hours since 2000-01-01 00:00:00"};
        for (int k = 0, n = c.i(1, 3); k < n; ++k)
            ds.t.v.push_back(k);
        cf::addAxis(ds, ds.t, c.b(0.7));
        cf::attr(ds, "time", "axis", "T");
    }
}

static const std::vector<std::pair<std::string, std::string>> XY = {{"x_wind", "y_wind"}, {"grid_eastward_wind", "grid_northward_wind"}, {"sea_water_x_velocity", "sea_water_y_velocity"},
                                                                    {"sea_ice_x_velocity", "sea_ice_y_velocity"}, {"sea_ice_x_transport", "sea_ice_y_transport"}};

static void interpolate(Case& c)
{
    cf::Dataset ds;
    double clon, clat;
    genSource(c, ds, clon, clat);
    bool time, height;
    addExtraAxes(c, ds, time, height);
    std::vector<Vec> vs;
    size_t first = c.idx(XY.size());
    vs.push_back(addVector(c, ds, "a", XY[first].first, XY[first].second, time, height));
    if (c.b(0.3)) {
        size_t q = (first + 1) % XY.size();
        vs.push_back(addVector(c, ds, "b", XY[q].first, XY[q].second, time, false));
    }
    Grid s = gridOf(ds), t;
    const int method = c.pick({(int)MIFI_INTERPOL_BILINEAR, (int)MIFI_INTERPOL_NEAREST_NEIGHBOR, (int)MIFI_INTERPOL_BICUBIC});
    const bool points = c.b(0.3);
    auto ip = std::make_shared<CDMInterpolator>(ds.r);
    dvec rot;
    if (points) {
        dvec lon, lat;
        const size_t n = c.i(1, 6);
        cf::Pj pj(s.proj4, WGS);
        Grid ll{"+proj=latlong " + ds.proj.earth + " +no_defs", true, {}, {}};
        for (size_t k = 0; k < n; ++k) {
            double x = s.x.front() + (s.x.back() - s.x.front()) * c.dfine(0, 1), y = s.y.front() + (s.y.back() - s.y.front()) * c.dfine(0, 1);
            c.assume(pj.fwd(x, y));
            lon.push_back(x);
            lat.push_back(y);
            rot.push_back(rotation(s, ll, x, y));
        }
        c.show() << "points method " << method << " source " << show(s) << " lon " << vec(lon) << " lat " << vec(lat);
        ip->changeProjection(method, lon, lat);
    } else {
        t = genNear(c, clon, clat, ds.proj.earth, extent(ds));
        c.show() << "method " << method << " source " << show(s) << " target " << show(t);
        std::string un = t.degree ? "degree" : "m";
        ip->changeProjection(method, t.proj4, t.x, t.y, un, un, CDM_DOUBLE, CDM_DOUBLE);
        for (size_t k = 0; k < t.x.size() * t.y.size(); ++k)
            rot.push_back(rotation(s, t, t.x[k % t.x.size()], t.y[k / t.x.size()]));
    }
    for (auto& v : vs) {
        c.show() << " " << v.x << ":" << tname(v.type) << vec(ip->getCDM().getVariable(v.x).getShape());
        auto get = [&](const std::string& n) {
            dvec d = rawValues(ip->getData(n));
            c.check(d.size() == rot.size() * v.layers, "size of " + n);
            for (auto& x : d)
                if (std::fabs(x - v.fill) <= 1e-6 * std::fabs(v.fill))
                    x = NAN;
            return d;
        };
        // any order of reading
        dvec U, V;
        if (c.b()) {
            U = get(v.x);
            V = get(v.y);
        } else {
            V = get(v.y);
            U = get(v.x);
        }
        dvec pu = get(v.px), pv = get(v.py);
        for (size_t k = 0; k < U.size(); ++k) {
            double r = rot[k % rot.size()];
            if (std::isnan(r))
                continue;
            std::string at = " at point " + std::to_string(k % rot.size()) + " layer " + std::to_string(k / rot.size()) + " of " + v.x;
            if (std::isnan(pu[k]) || std::isnan(pv[k])) {
                c.check(std::isnan(U[k]) && std::isnan(V[k]), "vector with an undefined component became (" + num(U[k]) + "," + num(V[k]) + ")" + at);
                continue;
            }
            double wu = pu[k] * std::cos(r) - pv[k] * std::sin(r), wv = pu[k] * std::sin(r) + pv[k] * std::cos(r);
            double extra = v.type == CDM_SHORT ? 2 : 0;
            c.check(std::fabs(U[k] - wu) <= 0.02 * v.mag + extra && std::fabs(V[k] - wv) <= 0.02 * v.mag + extra,
                    "vector is (" + num(U[k]) + "," + num(V[k]) + "), expected (" + num(wu) + "," + num(wv) + ")" + at);
            if (std::fabs(std::remainder(r, 2 * M_PI)) > 0.05)
                c.nontrivial();
        }
    }
    c.label(points ? "points" : "grid");
}

static void processor(Case& c)
{
    cf::Dataset ds;
    double clon, clat;
    genSource(c, ds, clon, clat);
    bool time, height;
    addExtraAxes(c, ds, time, height);
    const bool toLatLon = c.b(0.6);
    const bool all = c.b(0.4);
    Vec v = addVector(c, ds, "a", toLatLon ? "x_wind" : "eastward_wind", toLatLon ? "y_wind" : "northward_wind", time, height);
    Grid s = gridOf(ds);
    const size_t n = s.x.size() * s.y.size();
    // directions
    const bool packedDir = c.b(0.4);
    dvec dir(n);
    for (auto& d : dir)
        d = packedDir ? c.i(0, 3599) : c.i(0, 359);
    cf::addVar(ds, "dd", packedDir ? CDM_SHORT : CDM_FLOAT, {ds.x.name, ds.y.name}, dir, true, c.b(0.15));
    if (packedDir)
        ds.r->cdm().addAttribute("dd", CDMAttribute("scale_factor", mkData(CDM_DOUBLE, dvec(1, 0.1))));
    c.show() << (toLatLon ? "to north/east" : "to grid") << (all ? " all" : "") << " " << show(s) << " " << v.x << ":" << tname(v.type) << vec(ds.r->getCDM().getVariable(v.x).getShape());
    auto pr = std::make_shared<CDMProcessor>(ds.r);
    if (all) {
        CDMAttribute a, b;
        std::string sx = v.x, sy = v.y;
        if (pr->getCDM().getAttribute(v.x, "standard_name", a))
            sx = a.getStringValue();
        if (pr->getCDM().getAttribute(v.y, "standard_name", a))
            sy = a.getStringValue();
        pr->rotateAllVectorsToLatLon(toLatLon);
        const std::string rot = toLatLon ? "LATLON_ROTATED_" : "GRID_ROTATED_";
        c.check(pr->getCDM().getAttribute(v.x, "standard_name", a) && a.getStringValue() == rot + sx, "new standard_name of x");
        c.check(pr->getCDM().getAttribute(v.y, "standard_name", b) && b.getStringValue() == rot + sy, "new standard_name of y");
    } else {
        pr->rotateVectorToLatLon(toLatLon, {v.x}, {v.y}, {"nameX"}, {"nameY"});
        CDMAttribute a;
        c.check(pr->getCDM().getAttribute(v.x, "standard_name", a) && a.getStringValue() == "nameX", "new standard_name of x");
        c.check(pr->getCDM().getAttribute(v.y, "standard_name", a) && a.getStringValue() == "nameY", "new standard_name of y");
    }
    pr->rotateDirectionToLatLon(toLatLon, {"dd"});
    dvec rot;
    for (size_t k = 0; k < n; ++k)
        rot.push_back((toLatLon ? 1 : -1) * gridAngle(s.proj4, s.degree, s.x[k % s.x.size()], s.y[k / s.x.size()]));
    auto clean = [&](dvec d) {
        for (auto& x : d)
            if (std::fabs(x - v.fill) <= 1e-6 * std::fabs(v.fill))
                x = NAN;
        return d;
    };
    dvec U, V, U0 = clean(rawValues(ds.r->getData(v.x))), V0 = clean(rawValues(ds.r->getData(v.y)));
    if (c.b()) {
        V = clean(rawValues(pr->getData(v.y)));
        U = clean(rawValues(pr->getData(v.x)));
    } else {
        U = clean(rawValues(pr->getData(v.x)));
        V = clean(rawValues(pr->getData(v.y)));
    }
    same(c, "variable that is not a vector", clean(rawValues(pr->getData(v.px))), U0);
    c.check(U.size() == U0.size() && V.size() == V0.size(), "size");
    for (size_t k = 0; k < U.size(); ++k) {
        double r = rot[k % n];
        if (std::isnan(r))
            continue;
        std::string at = " at point " + std::to_string(k % n) + " layer " + std::to_string(k / n);
        if (std::isnan(U0[k]) || std::isnan(V0[k])) {
            c.check(std::isnan(U[k]) && std::isnan(V[k]), "vector with an undefined component became (" + num(U[k]) + "," + num(V[k]) + ")" + at);
            continue;
        }
        double wu = U0[k] * std::cos(r) - V0[k] * std::sin(r), wv = U0[k] * std::sin(r) + V0[k] * std::cos(r), extra = v.type == CDM_SHORT ? 1 : 0;
        c.check(std::fabs(U[k] - wu) <= 0.02 * v.mag + extra && std::fabs(V[k] - wv) <= 0.02 * v.mag + extra,
                "vector (" + num(U0[k]) + "," + num(V0[k]) + ") became (" + num(U[k]) + "," + num(V[k]) + "), expected (" + num(wu) + "," + num(wv) + ")" + at);
        if (std::fabs(std::remainder(r, 2 * M_PI)) > 0.05)
            c.nontrivial();
    }
    dvec D = rawValues(pr->getScaledData("dd"));
    for (size_t k = 0; k < n; ++k)
        if (!std::isnan(rot[k])) {
            double d0 = dir[k] * (packedDir ? 0.1 : 1);
            c.check(D[k] >= 0 && D[k] <= 360.001 && std::fabs(std::remainder(D[k] - (d0 - rot[k] / RAD), 360)) < 1.2,
                    "direction " + num(d0) + " became " + num(D[k]) + ", expected " + num(d0 - rot[k] / RAD) + " at point " + std::to_string(k));
        }
    // slices give the same
    if (U.size()) {
        SliceBuilder sb(pr->getCDM(), v.x);
        auto sh = pr->getCDM().getVariable(v.x).getShape();
        size_t x0 = c.idx(s.x.size()), y0 = c.idx(s.y.size());
        sb.setStartAndSize(sh[0], x0, 1);
        sb.setStartAndSize(sh[1], y0, 1);
        dvec d = clean(rawValues(pr->getDataSlice(v.x, sb)));
        c.check(d.size() == v.layers, "size of slice");
        for (size_t l = 0; l < v.layers; ++l) {
            double w = U[l * n + y0 * s.x.size() + x0];
            c.check((std::isnan(w) && std::isnan(d[l])) || w == d[l], "slice differs");
        }
    }
    c.label(toLatLon ? "to latlon" : "to grid");
}

int main(int argc, char** argv)
{
    noProjDatabase();
    Runner r("C09", "a vector had to be turned by more than 0.05 radian");
    r.init(quiet);
    r.assumption("conformal projections (and rotated/geographic coordinates), points more than 3 degrees from the poles; packed components share scale_factor and have no add_offset");
    r.sub("matrices", matrices, 4000, 200000);
    r.sub("interpolate", interpolate, 2500, 100000);
    r.sub("processor", processor, 2500, 100000);
    return r.main(argc, argv);
}
