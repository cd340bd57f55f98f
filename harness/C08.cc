// C08: horizontal regridding: every output value is the method's value at the projected position
// LINK: -lproj
#include "cf.h"
#include "noprojdb.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CrossSectionDefinition.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
using namespace fx;
using namespace pbt;

static const std::string WGS = MIFI_WGS84_LATLON_PROJ4;
static const double TIE = 2e-4;

struct Src
{
    cf::Dataset ds;
    size_t nx, ny;
    bool curvi = false;
    dvec lon, lat; // 2-d, as fimex should see them
    std::vector<std::string> vars;
    std::map<std::string, CDMDataType> type;
    std::map<std::string, double> fill;
    std::map<std::string, dvec> raw; // NaN for missing
};

static bool circular(const dvec& a)
{
    return a.size() > 2 && std::fabs(a.back() - a.front()) + 1.01 * std::fabs(a[1] - a[0]) >= 360;
}

//! position of v on axis; und: not decided
static double position(const dvec& a, double v, bool lon, bool& und)
{
    const size_t n = a.size();
    if (!std::isfinite(v))
        return -999;
    auto lin = [&](double q) {
        size_t i0 = 0;
        if (n == 1)
            return q == a[0] ? 0.0 : -999.0;
        const bool up = a.back() > a.front();
        while (i0 + 2 < n && (up ? q > a[i0 + 1] : q < a[i0 + 1]))
            ++i0;
        return i0 + (q - a[i0]) / (a[i0 + 1] - a[i0]);
    };
    if (!lon)
        return lin(v);
    if (circular(a)) {
        double p = lin(v);
        // linear in the step of the axis
        while (p <= -0.5)
            p += n;
        while (p > n - 0.5)
            p -= n;
        if (std::fabs(p + 0.5) < TIE || std::fabs(p - n + 0.5) < TIE)
            und = true;
        return p;
    }
    const bool neg = a.front() < 0 || a.back() < 0;
    double q = v;
    if (neg && q > 180)
        q -= 360;
    if (!neg && q < 0)
        q += 360;
    double p = lin(q);
    for (double o : {-360., 360.}) {
        double p2 = lin(q + o);
        if (p2 > -0.6 && p2 < n - 0.4)
            und = true;
    }
    return p;
}

typedef std::vector<std::pair<int, double>> W;
static W nearestW(double p, int n, bool& und)
{
    if (std::fabs(p) < 1e6 && std::fabs(std::fabs(p - std::floor(p)) - 0.5) < TIE && p > -1 && p < n)
        und = true;
    W r;
    double q = std::round(p);
    if (q >= 0 && q < n)
        r.push_back({(int)q, 1.0});
    return r;
}
static W linearW(double p, int n, bool& und)
{
    double fl = std::floor(p);
    if (std::fabs(p) < TIE || std::fabs(p - (n - 1)) < TIE) { // border: linear and nearest agree
        W r;
        r.push_back({p < 0.5 ? 0 : n - 1, 1.0});
        return r;
    }
    if (fl >= 0 && fl + 1 < n)
        return {{(int)fl, 1 - (p - fl)}, {(int)fl + 1, p - fl}};
    return nearestW(p, n, und);
}
static W cubicW(double p, int n, bool& und)
{
    double fl = std::floor(p);
    W r;
    if (std::fabs(p - 1) < TIE || std::fabs(p - (n - 2)) < TIE) {
        und = true;
        return r;
    }
    if (fl >= 1 && fl + 2 < n)
        for (int k = -1; k <= 2; ++k) {
            double t = std::fabs(p - (fl + k));
            double w = t <= 1 ? 1.5 * t * t * t - 2.5 * t * t + 1 : t < 2 ? -0.5 * t * t * t + 2.5 * t * t - 4 * t + 2 : 0;
            r.push_back({(int)fl + k, w});
        }
    return r;
}

static void genVars(Case& c, Src& s, const std::string& xd, const std::string& yd)
{
    cf::Dataset& ds = s.ds;
    const size_t nz = c.b(0.4) ? c.i(1, 3) : 0, nt = c.b(0.6) ? c.i(1, 3) : 0;
    if (nz) {
        ds.z = {"height", dvec(), "m"};
        for (size_t k = 0; k < nz; ++k)
            ds.z.v.push_back(10. * k);
        cf::addAxis(ds, ds.z, false);
        cf::attr(ds, "height", "axis", "Z");
        cf::attr(ds, "height", "positive", "up");
    }
    if (nt) {
        ds.unlim = c.b();
        ds.t = {"time", dvec(), "hours since 2020-01-01 00:00:00"};
        for (size_t k = 0; k < nt; ++k)
            ds.t.v.push_back(6. * k);
        cf::addAxis(ds, ds.t, ds.unlim);
    }
    const size_t nv = c.i(1, 2);
    for (size_t v = 0; v < nv; ++v) {
        std::string name = v ? "beta" : "alpha";
        std::vector<std::string> shape = {xd, yd};
        if (nz && c.b(0.7))
            shape.push_back("height");
        if (nt && c.b(0.8))
            shape.push_back("time");
        CDMDataType t = c.pick({CDM_FLOAT, CDM_FLOAT, CDM_DOUBLE, CDM_SHORT});
        size_t n = 1;
        for (auto& d : shape)
            n *= ds.r->cdm().getDimension(d).getLength();
        const bool hasFill = c.b(0.7);
        double fv = t == CDM_SHORT ? -32767 : c.pick({-9999.0, 9.96920996838687e36});
        if (t == CDM_FLOAT)
            fv = (double)(float)fv;
        if (!hasFill)
            fv = t == CDM_SHORT ? MIFI_FILL_SHORT : t == CDM_FLOAT ? (double)MIFI_FILL_FLOAT : MIFI_FILL_DOUBLE;
        const double pm = c.b(0.5) ? 0.1 : 0;
        dvec raw(n), st(n);
        for (size_t k = 0; k < n; ++k) {
            if (c.b(pm)) {
                raw[k] = NAN;
                st[k] = fv;
            } else
                raw[k] = st[k] = stored(t, t == CDM_SHORT ? c.i(-1000, 1000) : (double)(float)c.dfine(-100, 100));
        }
        cf::addVar(ds, name, t, shape, st, !s.curvi, c.b(0.15));
        if (s.curvi)
            cf::attr(ds, name, "coordinates", "lon lat");
        if (hasFill)
            ds.r->cdm().addAttribute(name, CDMAttribute("_FillValue", mkData(t, dvec(1, fv))));
        if (t == CDM_SHORT)
            ds.r->cdm().addAttribute(name, CDMAttribute("scale_factor", mkData(CDM_DOUBLE, dvec(1, 0.01))));
        s.vars.push_back(name);
        s.type[name] = t;
        s.fill[name] = fv;
        s.raw[name] = raw;
    }
    if (nt && c.b(0.4)) // not on the grid
        cf::addVar(ds, "series", CDM_FLOAT, {"time"}, ds.t.v, false);
}

static Src genSrc(Case& c, bool allowCurvi)
{
    Src s;
    s.ds.r = std::make_shared<MemReader>();
    s.ds.r->ownSlices = c.b();
    s.nx = c.i(2, 10);
    s.ny = c.i(2, 10);
    cf::Proj p = cf::genProj(c, cf::ALL);
    dvec xa, ya;
    if (p.kind == "latitude_longitude" && c.b(0.35)) { // global
        s.nx = c.i(6, 20);
        double st = 360. / s.nx;
        double lo = c.pick({0., -180., 0.5 * st, -180 + 0.5 * st});
        for (size_t k = 0; k < s.nx; ++k)
            xa.push_back(lo + k * st);
        if (c.b(0.2))
            std::reverse(xa.begin(), xa.end());
        ya = cf::genAxis(c, p.cy, p.half, s.ny);
        c.label("global");
    } else {
        xa = cf::genAxis(c, p.cx, p.half, s.nx);
        ya = cf::genAxis(c, p.cy, p.half, s.ny);
        if (p.kind == "latitude_longitude" && c.b(0.3))
            for (auto& v : xa)
                v += 360;
        if (p.kind == "latitude_longitude") {
            double mn = std::min(xa.front(), xa.back()), mx = std::max(xa.front(), xa.back());
            if (mx > 360)
                for (auto& v : xa)
                    v -= 360;
            mn = std::min(xa.front(), xa.back()), mx = std::max(xa.front(), xa.back());
            c.assume((mn >= -180 && mx <= 180) || (mn >= 0 && mx <= 360));
        }
    }
    if (p.degree)
        for (auto& v : ya)
            c.assume(std::fabs(v) <= 89.9);
    s.curvi = allowCurvi && c.b(0.25);
    cf::Pj pj(p.proj4, WGS);
    for (size_t j = 0; j < s.ny; ++j)
        for (size_t i = 0; i < s.nx; ++i) {
            double x = xa[i], y = ya[j];
            if (p.kind != "latitude_longitude" && !pj.fwd(x, y))
                c.assume(false);
            s.lon.push_back(x);
            s.lat.push_back(y);
        }
    if (!s.curvi) {
        cf::addGrid(s.ds, p, xa, ya);
        if (!p.degree && c.b(0.2)) { // axes in km
            dvec xk = xa, yk = ya;
            for (auto& v : xk)
                v /= 1000;
            for (auto& v : yk)
                v /= 1000;
            s.ds.r->data[s.ds.x.name] = mkData(CDM_DOUBLE, xk);
            s.ds.r->data[s.ds.y.name] = mkData(CDM_DOUBLE, yk);
            s.ds.r->cdm().addOrReplaceAttribute(s.ds.x.name, CDMAttribute("units", "km"));
            s.ds.r->cdm().addOrReplaceAttribute(s.ds.y.name, CDMAttribute("units", "km"));
            c.label("km");
        }
        genVars(c, s, s.ds.x.name, s.ds.y.name);
    } else {
        s.ds.proj = p;
        CDM& cdm = s.ds.r->cdm();
        cdm.addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.6"));
        cdm.addDimension(CDMDimension("ni", s.nx));
        cdm.addDimension(CDMDimension("nj", s.ny));
        s.ds.x = {"ni", xa, ""};
        s.ds.y = {"nj", ya, ""};
        for (int k = 0; k < 2; ++k) {
            std::string n = k ? "lat" : "lon";
            cdm.addVariable(CDMVariable(n, CDM_DOUBLE, {"ni", "nj"}));
            cf::attr(s.ds, n, "units", k ? "degrees_north" : "degrees_east");
            cf::attr(s.ds, n, "standard_name", k ? "latitude" : "longitude");
            s.ds.r->data[n] = mkData(CDM_DOUBLE, k ? s.lat : s.lon);
        }
        genVars(c, s, "ni", "nj");
        c.label("curvilinear");
    }
    return s;
}

struct Target
{
    std::string proj4;
    bool degree = false, latlong = false, rotated = false;
    dvec x, y;
};

static Target genTarget(Case& c, const Src& s)
{
    Target t;
    const double clon = s.lon[(s.ny / 2) * s.nx + s.nx / 2], clat = s.lat[(s.ny / 2) * s.nx + s.nx / 2];
    std::string earth = c.b(0.6) ? s.ds.proj.earth : c.b() ? "+a=6371000 +e=0" : "+ellps=WGS84";
    auto g = [](double v) { return cf::g17(v); };
    const double lon0 = std::round(clon + c.i(-10, 10)), lat0 = std::max(-80., std::min(80., std::round(clat + c.i(-5, 5))));
    switch (c.w({3, 3, 1, 1, 1, 1, 1, 1})) {
    case 0:
        t.proj4 = s.ds.proj.proj4;
        t.degree = s.ds.proj.degree;
        t.latlong = s.ds.proj.kind == "latitude_longitude";
        t.rotated = s.ds.proj.kind == "rotated_latitude_longitude";
        break;
    case 1:
        t.proj4 = "+proj=latlong " + earth + " +no_defs";
        t.degree = t.latlong = true;
        break;
    case 2: t.proj4 = std::string("+proj=stere +lat_0=") + (clat > 0 ? "90" : "-90") + " +lon_0=" + g(lon0) + " +lat_ts=" + (clat > 0 ? "60 " : "-60 ") + earth + " +no_defs"; break;
    case 3: {
        double l1 = std::fabs(lat0) < 10 ? 20 : lat0;
        t.proj4 = "+proj=lcc +lat_1=" + g(l1) + " +lat_2=" + g(l1) + " +lat_0=" + g(l1) + " +lon_0=" + g(lon0) + " " + earth + " +no_defs";
        break;
    }
    case 4: t.proj4 = "+proj=merc +lon_0=" + g(lon0) + " +lat_ts=0 " + earth + " +no_defs"; break;
    case 5: t.proj4 = "+proj=laea +lat_0=" + g(lat0) + " +lon_0=" + g(lon0) + " " + earth + " +no_defs"; break;
    case 6: t.proj4 = "+proj=tmerc +lat_0=" + g(lat0) + " +lon_0=" + g(std::round(clon)) + " +k=1 " + earth + " +no_defs"; break;
    case 7:
        t.proj4 = "+proj=ob_tran +o_proj=longlat +lon_0=" + g(lon0) + " +o_lat_p=" + g(90 - std::fabs(lat0)) + " " + earth + " +no_defs";
        t.degree = t.rotated = true;
        break;
    }
    // region of the source in the target projection
    cf::Pj pj(WGS, t.proj4);
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (size_t k = 0; k < s.lon.size(); ++k) {
        double x = s.lon[k], y = s.lat[k];
        if (!pj.fwd(x, y))
            continue;
        x0 = std::min(x0, x);
        x1 = std::max(x1, x);
        y0 = std::min(y0, y);
        y1 = std::max(y1, y);
    }
    c.assume(x1 >= x0);
    double dx = std::max(x1 - x0, t.degree ? 0.5 : 50000.), dy = std::max(y1 - y0, t.degree ? 0.5 : 50000.);
    auto axis = [&](double lo, double d, bool lat) {
        size_t n = c.b(0.1) ? 1 : c.i(2, 7);
        double a = lo + d * c.dfine(-0.2, 0.8), b = lo + d * c.dfine(0.2, 1.2);
        if (std::fabs(b - a) < 0.02 * d)
            b = a + 0.1 * d;
        if (lat && t.degree) {
            a = std::max(-89., std::min(89., a));
            b = std::max(-89., std::min(89., b));
            if (a == b)
                b = a - 1;
        }
        if (c.b(0.7) && a > b)
            std::swap(a, b);
        dvec v;
        for (size_t k = 0; k < n; ++k)
            v.push_back(n == 1 ? a : a + (b - a) * k / (n - 1.));
        return v;
    };
    //! some grid lines of the source
    auto lines = [&](const dvec& src) {
        size_t a = c.idx(src.size()), b = c.idx(src.size());
        if (a > b && c.b(0.7))
            std::swap(a, b);
        dvec v;
        for (size_t k = a;; k += (a < b ? 1 : -1)) {
            if (k == a || k == b || c.b(0.7))
                v.push_back(src[k]);
            if (k == b)
                break;
        }
        return v;
    };
    if (t.proj4 == s.ds.proj.proj4 && !s.curvi && c.b(0.6)) {
        t.x = lines(s.ds.x.v);
        t.y = lines(s.ds.y.v);
        c.label("target on grid lines");
    } else {
        t.x = axis(x0, dx, false);
        t.y = axis(y0, dy, true);
    }
    if (t.degree) {
        double mn = *std::min_element(t.x.begin(), t.x.end()), mx = *std::max_element(t.x.begin(), t.x.end());
        c.assume((mn >= -180 && mx <= 180) || (mn >= 0 && mx <= 360));
    }
    return t;
}

//! compare the variables of the interpolated reader with 'expect' per output cell
typedef std::function<bool(size_t cell, const std::function<double(size_t)>& layer, double mag, double& want, double& tol)> Cell;

static void compare(Case& c, const Src& s, CDMReader_p ip, size_t outN, const Cell& cell, const std::string& xd, const std::string& yd, size_t ox, size_t oy)
{
    size_t decided = 0;
    for (auto& v : s.vars) {
        const CDM& cdm = ip->getCDM();
        c.check(cdm.hasVariable(v), "variable " + v + " lost");
        std::vector<std::string> shape = cdm.getVariable(v).getShape(), orig = s.ds.r->getCDM().getVariable(v).getShape();
        c.check(shape.size() == orig.size() && shape[0] == xd && shape[1] == yd, v + " has shape " + vec(shape));
        c.check(cdm.getDimension(xd).getLength() == ox && cdm.getDimension(yd).getLength() == oy, "size of the output dimensions");
        c.check(cdm.getVariable(v).getDataType() == s.type.at(v), "type of " + v + " changed");
        DataPtr d = ip->getData(v);
        const dvec& raw = s.raw.at(v);
        const size_t inN = s.nx * s.ny, layers = raw.size() / inN;
        c.check(d && d->size() == outN * layers, v + " has " + std::to_string(d ? d->size() : 0) + " values, expected " + std::to_string(outN * layers));
        c.check(d->getDataType() == s.type.at(v), "data type of " + v);
        dvec got = rawValues(d);
        const double fv = s.fill.at(v);
        double mag = 0;
        for (double x : raw)
            if (!std::isnan(x))
                mag = std::max(mag, std::fabs(x));
        for (size_t l = 0; l < layers; ++l)
            for (size_t k = 0; k < outN; ++k) {
                double want, tol = 0;
                auto layer = [&](size_t i) { return raw[l * inN + i]; };
                if (!cell(k, layer, mag, want, tol))
                    continue;
                double g = got[l * outN + k];
                if (g == fv || (s.type.at(v) != CDM_SHORT && std::isnan(g)) || (s.type.at(v) == CDM_FLOAT && (float)g == (float)fv))
                    g = NAN;
                if (s.type.at(v) == CDM_SHORT)
                    tol += 0.501;
                decided++;
                if (!std::isnan(want))
                    c.nontrivial();
                c.check(close(g, want, 0, tol + 1e-5 * mag), v + " layer " + std::to_string(l) + " cell " + std::to_string(k % ox) + "," + std::to_string(k / ox) + " is " + num(g) +
                                                                  ", expected " + num(want));
            }
        // partial reading
        svec dims;
        for (auto& dn : shape)
            dims.push_back(cdm.getDimension(dn).getLength());
        if (c.b(0.5)) {
            SliceBuilder sb(cdm, v);
            svec st(dims.size()), sz(dims.size());
            for (size_t k = 0; k < dims.size(); ++k) {
                st[k] = c.idx(dims[k]);
                sz[k] = c.i(1, dims[k] - st[k]);
                sb.setStartAndSize(shape[k], st[k], sz[k]);
            }
            same(c, "slice of " + v, rawValues(ip->getDataSlice(v, sb)), hyperslab(got, dims, st, sz));
        }
        if (cdm.hasUnlimitedDim(cdm.getVariable(v))) {
            size_t rec = c.idx(dims.back());
            svec st(dims.size(), 0), sz = dims;
            st.back() = rec;
            sz.back() = 1;
            same(c, "record of " + v, rawValues(ip->getDataSlice(v, rec)), hyperslab(got, dims, st, sz));
        }
    }
    if (s.ds.r->getCDM().hasVariable("series"))
        same(c, "variable without horizontal axes", rawValues(ip->getData("series")), s.ds.t.v);
    c.count("cells decided", decided);
}

static void checkMeta(Case& c, const Target& t, CDMReader_p ip, const Src& s, const std::string& xd, const std::string& yd)
{
    const CDM& cdm = ip->getCDM();
    for (int k = 0; k < 2; ++k) {
        const dvec& want = k ? t.y : t.x;
        const dvec got = rawValues(t.degree ? ip->getData(k ? yd : xd) : ip->getScaledDataInUnit(k ? yd : xd, "m"));
        bool ok = got.size() == want.size();
        for (size_t q = 0; ok && q < got.size(); ++q)
            ok = close(got[q], want[q], 1e-12, 1e-9);
        c.check(ok, std::string(k ? "y" : "x") + " axis is " + vec(got) + ", expected " + vec(want));
    }
    CDMAttribute a;
    c.check(cdm.getAttribute(xd, "standard_name", a), "no standard_name of x");
    std::string xs = t.latlong ? "longitude" : t.rotated ? "grid_longitude" : "projection_x_coordinate";
    c.check(a.getStringValue() == xs, "standard_name of x is " + a.getStringValue() + ", expected " + xs);
    c.check(cdm.getAttribute(yd, "standard_name", a), "no standard_name of y");
    std::string ys = t.latlong ? "latitude" : t.rotated ? "grid_latitude" : "projection_y_coordinate";
    c.check(a.getStringValue() == ys, "standard_name of y is " + a.getStringValue() + ", expected " + ys);
    for (auto& v : s.vars) {
        if (t.latlong) {
            c.check(!cdm.getAttribute(v, "grid_mapping", a), "grid_mapping left on " + v);
            continue;
        }
        c.check(cdm.getAttribute(v, "grid_mapping", a) && cdm.hasVariable(a.getStringValue()), "no grid_mapping of " + v);
        Projection_cp p = cdm.getProjectionOf(v);
        c.check(!!p, "no projection of " + v);
        cf::Pj p1(WGS, t.proj4), p2(WGS, p->getProj4String());
        double x = s.lon[0], y = s.lat[0], x2 = x, y2 = y;
        bool ok1 = p1.fwd(x, y), ok2 = p2.fwd(x2, y2);
        if (ok1 && ok2)
            c.check((t.degree ? std::fabs(std::remainder(x - x2, 360)) < 1e-4 : close(x, x2, 1e-7, 1)) && close(y, y2, 1e-7, t.degree ? 1e-5 : 1), "projection written as " + p->getProj4String());
        // generated longitude/latitude
        std::string la, lo;
        c.check(cdm.getLatitudeLongitude(v, la, lo), "no latitude/longitude of " + v);
        dvec LO = rawValues(ip->getData(lo)), LA = rawValues(ip->getData(la));
        c.check(LO.size() == t.x.size() * t.y.size() && LA.size() == LO.size(), "size of longitude/latitude");
        cf::Pj back(t.proj4, WGS);
        for (size_t j = 0; j < t.y.size(); ++j)
            for (size_t i = 0; i < t.x.size(); ++i) {
                double X = t.x[i], Y = t.y[j];
                if (!back.fwd(X, Y) || std::fabs(Y) > 89)
                    continue;
                size_t k = j * t.x.size() + i;
                double d = std::fabs(std::remainder(LO[k] - X, 360));
                c.check(d < 1e-4 && std::fabs(LA[k] - Y) < 1e-4, "longitude/latitude of cell " + std::to_string(k) + " is " + num(LO[k]) + "," + num(LA[k]) + ", expected " + num(X) + "," + num(Y));
            }
    }
}

//! source-grid weights of a position given in source projection coordinates
static bool kernelCell(const Src& s, int method, double px, double py, bool und, const std::function<double(size_t)>& layer, double mag, double& want, double& tol)
{
    W wx, wy;
    if (method == MIFI_INTERPOL_NEAREST_NEIGHBOR) {
        wx = nearestW(px, s.nx, und);
        wy = nearestW(py, s.ny, und);
    } else if (method == MIFI_INTERPOL_BILINEAR) {
        wx = linearW(px, s.nx, und);
        wy = linearW(py, s.ny, und);
    } else {
        wx = cubicW(px, s.nx, und);
        wy = cubicW(py, s.ny, und);
    }
    if (und)
        return false;
    want = 0;
    tol = method == MIFI_INTERPOL_NEAREST_NEIGHBOR ? 0 : 1e-3 * mag;
    if (wx.empty() || wy.empty()) {
        want = NAN;
        return true;
    }
    for (auto& a : wx)
        for (auto& b : wy) {
            double v = layer(b.first * s.nx + a.first), w = a.second * b.second;
            if (std::isnan(v)) {
                if (std::fabs(w) < 1e-3)
                    return false;
                want = NAN;
                return true;
            }
            want += w * v;
        }
    // next to cell borders a neighbouring undefined value may have (almost) no weight
    if (method != MIFI_INTERPOL_NEAREST_NEIGHBOR)
        for (double p : {px, py})
            if (std::fabs(p - std::round(p)) < TIE)
                for (int j = -2; j <= 2; ++j)
                    for (int i = -2; i <= 2; ++i) {
                        int x = (int)std::round(px) + i, y = (int)std::round(py) + j;
                        if (x >= 0 && y >= 0 && x < (int)s.nx && y < (int)s.ny && std::isnan(layer(y * s.nx + x)))
                            return false;
                    }
    return true;
}

static std::string describe(const Src& s)
{
    std::ostringstream o;
    o << (s.curvi ? "curvilinear from " : "") << s.ds.proj.proj4 << " x=" << vec(s.ds.x.v) << " y=" << vec(s.ds.y.v);
    for (auto& v : s.vars)
        o << " " << v << ":" << tname(s.type.at(v)) << vec(s.ds.r->getCDM().getVariable(v).getShape());
    return o.str();
}

static void byProjection(Case& c)
{
    Src s = genSrc(c, false);
    Target t = genTarget(c, s);
    const int method = c.pick({(int)MIFI_INTERPOL_BILINEAR, (int)MIFI_INTERPOL_NEAREST_NEIGHBOR, (int)MIFI_INTERPOL_BICUBIC});
    c.show() << "method " << method << " source " << describe(s) << " target " << t.proj4 << " x=" << vec(t.x) << " y=" << vec(t.y);
    auto ip = std::make_shared<CDMInterpolator>(s.ds.r);
    std::string xu = t.degree ? "degree" : c.b(0.15) ? "km" : "m", yu = t.degree ? "degree" : c.b(0.15) ? "km" : "m";
    dvec tx = t.x, ty = t.y;
    for (double& v : tx)
        v /= xu == "km" ? 1000 : 1;
    for (double& v : ty)
        v /= yu == "km" ? 1000 : 1;
    c.show() << " units " << xu << "," << yu;
    if (c.b(0.15)) { // an earlier setup must not matter
        dvec ax = {0., 1.}, ay = {10., 11., 12.};
        ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, "+proj=latlong +a=6371000 +e=0", ax, ay, "degree", "degree", CDM_DOUBLE, CDM_DOUBLE);
        c.label("second setup");
    }
    if (c.b(0.3)) {
        std::ostringstream xs, ys;
        xs.precision(17);
        ys.precision(17);
        for (size_t k = 0; k < tx.size(); ++k)
            xs << (k ? "," : "") << tx[k];
        for (size_t k = 0; k < ty.size(); ++k)
            ys << (k ? "," : "") << ty[k];
        ip->changeProjection(method, t.proj4, xs.str(), ys.str(), xu, yu, "double", "double");
    } else
        ip->changeProjection(method, t.proj4, tx, ty, xu, yu, CDM_DOUBLE, CDM_DOUBLE);
    cf::Pj pj(t.proj4, s.ds.proj.proj4);
    const size_t ox = t.x.size();
    const bool lonAxis = s.ds.proj.degree;
    dvec px, py;
    std::vector<char> und;
    for (size_t k = 0; k < ox * t.y.size(); ++k) {
        double x = t.x[k % ox], y = t.y[k / ox];
        bool u = false;
        if (!pj.fwd(x, y))
            x = y = NAN;
        px.push_back(position(s.ds.x.v, x, lonAxis, u));
        py.push_back(position(s.ds.y.v, y, false, u));
        und.push_back(u);
    }
    Cell cell = [&](size_t k, const std::function<double(size_t)>& layer, double mag, double& want, double& tol) {
        return kernelCell(s, method, px[k], py[k], und[k], layer, mag, want, tol);
    };
    compare(c, s, ip, ox * t.y.size(), cell, s.ds.x.name, s.ds.y.name, ox, t.y.size());
    checkMeta(c, t, ip, s, s.ds.x.name, s.ds.y.name);
    c.label(s.ds.proj.kind);
}

static void byPoints(Case& c)
{
    Src s = genSrc(c, false);
    const int method = c.pick({(int)MIFI_INTERPOL_BILINEAR, (int)MIFI_INTERPOL_NEAREST_NEIGHBOR, (int)MIFI_INTERPOL_BICUBIC});
    const int mode = c.idx(3); // points, template, cross section
    const size_t ox = c.i(1, 6), oy = mode == 1 ? c.i(1, 4) : 1;
    dvec lon, lat;
    auto [a0, a1] = std::minmax_element(s.lon.begin(), s.lon.end());
    auto [b0, b1] = std::minmax_element(s.lat.begin(), s.lat.end());
    for (size_t k = 0; k < ox * oy; ++k) {
        double f = c.dfine(0, 1), g = c.dfine(0, 1);
        if (c.b(0.15))
            f = c.dfine(-0.3, 1.3);
        // near the source cells
        size_t q = c.idx(s.lon.size());
        if (c.b(0.5)) {
            lon.push_back(*a0 + f * (*a1 - *a0));
            lat.push_back(std::max(-89., std::min(89., *b0 + g * (*b1 - *b0))));
        } else {
            lon.push_back(s.lon[q] + (*a1 - *a0) * 0.05 * (f - 0.5));
            lat.push_back(std::max(-89., std::min(89., s.lat[q] + (*b1 - *b0) * 0.05 * (g - 0.5))));
        }
        if (lon.back() > 180)
            lon.back() -= 360;
    }
    auto ip = std::make_shared<CDMInterpolator>(s.ds.r);
    c.show() << (mode == 0 ? "points" : mode == 1 ? "template" : "cross sections") << " method " << method << " source " << describe(s) << " lon " << vec(lon) << " lat " << vec(lat);
    size_t nOut = ox * oy, outX = ox;
    if (mode == 0) {
        ip->changeProjection(method, lon, lat);
    } else if (mode == 1) {
        auto tr = std::make_shared<MemReader>();
        cf::Dataset td;
        td.r = tr;
        CDM& cdm = tr->cdm();
        dvec xa, ya;
        for (size_t k = 0; k < ox; ++k)
            xa.push_back(k * 10.);
        for (size_t k = 0; k < oy; ++k)
            ya.push_back(k * 10.);
        cdm.addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.6"));
        cf::addAxis(td, {"x", xa, "m"}, false);
        cf::addAxis(td, {"y", ya, "m"}, false);
        cf::attr(td, "x", "standard_name", "projection_x_coordinate");
        cf::attr(td, "y", "standard_name", "projection_y_coordinate");
        for (int k = 0; k < 2; ++k) {
            std::string n = k ? "latitude" : "longitude";
            cdm.addVariable(CDMVariable(n, CDM_DOUBLE, {"x", "y"}));
            cf::attr(td, n, "units", k ? "degrees_north" : "degrees_east");
            cf::attr(td, n, "standard_name", n);
            tr->data[n] = mkData(CDM_DOUBLE, k ? lat : lon);
        }
        cf::addVar(td, "ref", CDM_FLOAT, {"x", "y"}, dvec(ox * oy, 0.), false);
        cf::attr(td, "ref", "coordinates", "longitude latitude");
        ip->changeProjection(method, std::static_pointer_cast<CDMReader>(tr), "ref");
    } else {
        std::vector<CrossSectionDefinition> cs;
        size_t k = 0;
        while (k < ox) {
            size_t m = c.i(1, std::min<size_t>(3, ox - k));
            std::vector<std::pair<double, double>> co;
            for (size_t q = 0; q < m; ++q)
                co.push_back({lon[k + q], lat[k + q]});
            cs.push_back(CrossSectionDefinition("cs" + std::to_string(k), co));
            k += m;
        }
        ip->changeProjectionToCrossSections(method, cs);
        // the points fimex chose; each section must start and end at the given points and be straight in the source projection
        dvec LO = rawValues(ip->getData("longitude")), LA = rawValues(ip->getData("latitude"));
        dvec bnds = rawValues(ip->getData("vcross_bnds"));
        c.check(bnds.size() == 2 * cs.size(), "number of cross sections");
        cf::Pj to(WGS, s.ds.proj.proj4);
        size_t expectStart = 0;
        for (size_t q = 0; q < cs.size(); ++q) {
            c.check((size_t)bnds[2 * q] == expectStart && bnds[2 * q + 1] >= bnds[2 * q] && bnds[2 * q + 1] < LO.size(), "bounds of cross section " + std::to_string(q));
            size_t b = bnds[2 * q], e = bnds[2 * q + 1];
            expectStart = e + 1;
            auto near = [&](size_t i, std::pair<double, double> p) {
                return std::fabs(std::remainder(LO[i] - p.first, 360)) * std::cos(p.second * M_PI / 180) < 1e-4 && std::fabs(LA[i] - p.second) < 1e-4;
            };
            auto& co = cs[q].lonLatCoordinates;
            c.check(near(b, co.front()), "start of cross section " + std::to_string(q));
            c.check(near(e, co.back()), "end of cross section " + std::to_string(q));
            // walk: every given point appears in order, steps in between not larger than about one cell
            size_t w = 0;
            for (size_t i = b; i <= e && w < co.size(); ++i)
                if (near(i, co[w]))
                    ++w;
            bool dup = false;
            for (size_t i = 1; i < co.size(); ++i)
                dup = dup || (std::fabs(co[i].first - co[i - 1].first) < 1e-3 && std::fabs(co[i].second - co[i - 1].second) < 1e-3);
            c.check(dup || w == co.size(), "cross section " + std::to_string(q) + " misses a given point");
            const double sx = std::fabs(s.ds.x.v[1] - s.ds.x.v[0]), sy = std::fabs(s.ds.y.v[1] - s.ds.y.v[0]);
            for (size_t i = b + 1; i <= e && !s.ds.proj.degree; ++i) {
                double x0 = LO[i - 1], y0 = LA[i - 1], x1 = LO[i], y1 = LA[i];
                if (to.fwd(x0, y0) && to.fwd(x1, y1))
                    c.check(std::fabs(x1 - x0) <= 2.01 * sx && std::fabs(y1 - y0) <= 2.01 * sy, "cross section step larger than two cells");
            }
        }
        c.check(expectStart == LO.size(), "points outside of all cross sections");
        lon = LO;
        lat = LA;
        nOut = outX = LO.size();
        c.label("cross section");
    }
    cf::Pj pj(WGS, s.ds.proj.proj4);
    dvec px, py;
    std::vector<char> und;
    for (size_t k = 0; k < nOut; ++k) {
        double x = lon[k], y = lat[k];
        bool u = false;
        if (!pj.fwd(x, y))
            x = y = NAN;
        px.push_back(position(s.ds.x.v, x, s.ds.proj.degree, u));
        py.push_back(position(s.ds.y.v, y, false, u));
        und.push_back(u);
    }
    Cell cell = [&](size_t k, const std::function<double(size_t)>& layer, double mag, double& want, double& tol) {
        return kernelCell(s, method, px[k], py[k], und[k], layer, mag, want, tol);
    };
    compare(c, s, ip, nOut, cell, "x", "y", outX, nOut / outX);
    same(c, "longitudes", rawValues(ip->getData("longitude")), lon);
    same(c, "latitudes", rawValues(ip->getData("latitude")), lat);
}

static void unitv(double lon, double lat, double* v)
{
    lon *= M_PI / 180;
    lat *= M_PI / 180;
    v[0] = std::cos(lat) * std::cos(lon);
    v[1] = std::cos(lat) * std::sin(lon);
    v[2] = std::sin(lat);
}
static double chord(const double* a, const double* b)
{
    return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
}

static void byCoordinates(Case& c)
{
    Src s = genSrc(c, true);
    Target t = genTarget(c, s);
    const bool kd = c.b();
    c.assume(!kd || t.x.size() > 1 || t.y.size() > 1);
    c.show() << (kd ? "coord_kdtree" : "coord_nearestneighbor") << " source " << describe(s) << " target " << t.proj4 << " x=" << vec(t.x) << " y=" << vec(t.y);
    auto ip = std::make_shared<CDMInterpolator>(s.ds.r);
    double limit; // arc
    std::vector<double> pos(3 * s.lon.size());
    for (size_t k = 0; k < s.lon.size(); ++k)
        unitv(s.lon[k], s.lat[k], &pos[3 * k]);
    if (kd) {
        double m = 0;
        for (size_t k = 1; k < t.x.size(); ++k)
            m = std::max(m, std::fabs(t.x[k] - t.x[k - 1]));
        for (size_t k = 1; k < t.y.size(); ++k)
            m = std::max(m, std::fabs(t.y[k] - t.y[k - 1]));
        limit = t.degree ? m * M_PI / 180 : m / 6371000.;
        if (c.b(0.4)) {
            double dist = c.pick({20000., 100000., 500000.});
            ip->setDistanceOfInterest(dist);
            c.show() << " distance of interest " << dist;
            limit = dist / 6371000.;
        }
    } else {
        limit = 0;
        for (size_t k = 0; k < s.lon.size(); ++k) {
            double m = 10;
            for (size_t q = 0; q < s.lon.size(); ++q)
                if (q != k)
                    m = std::min(m, 2 * std::asin(std::min(1., chord(&pos[3 * k], &pos[3 * q]) / 2)));
            limit = std::max(limit, m);
        }
        limit = std::min(limit * 1.414, M_PI);
    }
    std::string u = t.degree ? "degree" : "m";
    ip->changeProjection(kd ? MIFI_INTERPOL_COORD_NN_KD : MIFI_INTERPOL_COORD_NN, t.proj4, t.x, t.y, u, u, CDM_DOUBLE, CDM_DOUBLE);
    cf::Pj back(t.proj4, WGS);
    const size_t ox = t.x.size(), n = ox * t.y.size();
    std::vector<long> sel(n); // -1: undefined, -2: undecided
    for (size_t k = 0; k < n; ++k) {
        double x = t.x[k % ox], y = t.y[k / ox];
        if (!back.fwd(x, y)) {
            sel[k] = -2;
            continue;
        }
        double p[3];
        unitv(x, y, p);
        double best = 10, second = 10;
        long bi = -1;
        for (size_t q = 0; q < s.lon.size(); ++q) {
            double d = chord(p, &pos[3 * q]);
            if (d < best) {
                second = best;
                best = d;
                bi = q;
            } else
                second = std::min(second, d);
        }
        double arc = 2 * std::asin(std::min(1., best / 2));
        // close to the limit (which may be taken along the sphere or through it)
        if (second - best < 1e-6 || (best < 1.001 * limit + 1e-6 && arc > 0.999 * limit - 1e-6))
            sel[k] = -2;
        else
            sel[k] = arc > limit ? -1 : bi;
    }
    Cell cell = [&](size_t k, const std::function<double(size_t)>& layer, double, double& want, double&) {
        if (sel[k] == -2)
            return false;
        want = sel[k] < 0 ? NAN : layer(sel[k]);
        return true;
    };
    compare(c, s, ip, n, cell, s.ds.x.name, s.ds.y.name, ox, t.y.size());
    checkMeta(c, t, ip, s, s.ds.x.name, s.ds.y.name);
    c.label(kd ? "kdtree" : "nearest");
}

static void forward(Case& c)
{
    Src s = genSrc(c, true);
    Target t = genTarget(c, s);
    c.assume(t.x.size() > 1 && t.y.size() > 1);
    const int method = c.i(MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_UNDEF_MIN);
    c.show() << "forward method " << method << " source " << describe(s) << " target " << t.proj4 << " x=" << vec(t.x) << " y=" << vec(t.y);
    auto ip = std::make_shared<CDMInterpolator>(s.ds.r);
    std::string u = t.degree ? "degree" : "m";
    ip->changeProjection(method, t.proj4, t.x, t.y, u, u, CDM_DOUBLE, CDM_DOUBLE);
    cf::Pj pj(WGS, t.proj4);
    const size_t ox = t.x.size(), oy = t.y.size();
    std::vector<std::vector<size_t>> in(ox * oy);
    std::vector<char> und(ox * oy, 0);
    size_t maxIn = 0;
    for (size_t k = 0; k < s.lon.size(); ++k) {
        double x = s.lon[k], y = s.lat[k];
        if (!pj.fwd(x, y))
            continue;
        bool ux = false, uy = false;
        double px = position(t.x, x, t.degree, ux), py = position(t.y, y, false, uy);
        W wx = nearestW(px, ox, ux), wy = nearestW(py, oy, uy);
        if (ux || uy) {
            // do not decide cells this input cell may fall into
            for (size_t j = 0; j < oy; ++j)
                for (size_t i = 0; i < ox; ++i)
                    if ((std::fabs(px - i) < 1 || ux) && (std::fabs(py - j) < 1 || uy))
                        und[j * ox + i] = 1;
            continue;
        }
        if (!wx.empty() && !wy.empty()) {
            auto& v = in[wy[0].first * ox + wx[0].first];
            v.push_back(k);
            maxIn = std::max(maxIn, v.size());
        }
    }
    Cell cell = [&](size_t k, const std::function<double(size_t)>& layer, double mag, double& want, double& tol) {
        if (und[k])
            return false;
        std::vector<double> v;
        bool nan = false;
        for (size_t i : in[k]) {
            double x = layer(i);
            if (std::isnan(x))
                nan = true;
            else
                v.push_back(x);
        }
        want = NAN;
        if (nan && method >= MIFI_INTERPOL_FORWARD_UNDEF_SUM)
            return true;
        if (v.empty())
            return true;
        std::sort(v.begin(), v.end());
        double sum = 0;
        for (double x : v)
            sum += x;
        tol = 1e-5 * mag * v.size();
        switch (method) {
        case MIFI_INTERPOL_FORWARD_SUM:
        case MIFI_INTERPOL_FORWARD_UNDEF_SUM: want = sum; break;
        case MIFI_INTERPOL_FORWARD_MEAN:
        case MIFI_INTERPOL_FORWARD_UNDEF_MEAN: want = sum / v.size(); break;
        case MIFI_INTERPOL_FORWARD_MEDIAN:
        case MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN: {
            double lo = v[(v.size() - 1) / 2], hi = v[v.size() / 2];
            want = (lo + hi) / 2;
            tol += (hi - lo) / 2;
            break;
        }
        case MIFI_INTERPOL_FORWARD_MAX:
        case MIFI_INTERPOL_FORWARD_UNDEF_MAX: want = v.back(); break;
        default: want = v.front();
        }
        return true;
    };
    // sums of packed data may leave the range of the type
    for (auto& v : s.vars)
        c.assume(s.type[v] != CDM_SHORT || maxIn * 1000 < 32000);
    compare(c, s, ip, ox * oy, cell, s.ds.x.name, s.ds.y.name, ox, oy);
    c.label(maxIn > 1 ? "several cells" : "single cells");
}

struct Affine : InterpolatorProcess2d
{
    float a, b;
    Affine(float a, float b)
        : a(a)
        , b(b)
    {
    }
    void operator()(float* f, size_t nx, size_t ny) override
    {
        for (size_t k = 0; k < nx * ny; ++k)
            f[k] = a * f[k] + b;
    }
};

//! pre- and postprocessing
static void processes(Case& c)
{
    Src s = genSrc(c, false);
    for (auto& v : s.vars)
        c.assume(s.type[v] != CDM_SHORT);
    Target t = genTarget(c, s);
    const int method = c.pick({(int)MIFI_INTERPOL_BILINEAR, (int)MIFI_INTERPOL_NEAREST_NEIGHBOR});
    std::string u = t.degree ? "degree" : "m";
    auto base = std::make_shared<CDMInterpolator>(s.ds.r);
    base->changeProjection(method, t.proj4, t.x, t.y, u, u, CDM_DOUBLE, CDM_DOUBLE);
    auto ip = std::make_shared<CDMInterpolator>(s.ds.r);
    const int mode = c.idx(3);
    unsigned short rep = c.i(1, 5);
    const char w = c.i(1, 3);
    c.show() << "process " << mode << " method " << method << " source " << describe(s) << " target " << t.proj4 << " x=" << vec(t.x) << " y=" << vec(t.y);
    if (mode == 0)
        ip->addPreprocess(std::make_shared<Affine>(2.f, 1.f));
    else if (mode == 1) {
        ip->addPostprocess(std::make_shared<Affine>(2.f, 1.f));
        ip->addPostprocess(std::make_shared<Affine>(-1.f, 3.f));
    } else
        ip->addPostprocess(std::make_shared<InterpolatorCreepFillVal2d>(rep, w, 5.f));
    ip->changeProjection(method, t.proj4, t.x, t.y, u, u, CDM_DOUBLE, CDM_DOUBLE);
    const size_t n = t.x.size() * t.y.size();
    for (auto& v : s.vars) {
        dvec b = rawValues(base->getData(v)), g = rawValues(ip->getData(v));
        const double fv = s.fill[v];
        std::vector<float> f(b.size());
        for (size_t k = 0; k < b.size(); ++k) {
            f[k] = b[k] == fv ? NAN : b[k];
            if (mode == 0)
                f[k] = 2 * f[k] + 1;
            if (mode == 1)
                f[k] = -(2 * f[k] + 1) + 3;
            if (!std::isnan(f[k]))
                c.nontrivial();
        }
        if (mode == 2)
            for (size_t l = 0; l < b.size() / n; ++l) {
                size_t ch;
                mifi_creepfillval2d_f(t.x.size(), t.y.size(), &f[l * n], 5.f, rep, w, &ch);
            }
        dvec want(f.begin(), f.end());
        for (auto& x : g)
            if (x == fv)
                x = NAN;
        same(c, "processed " + v, g, want, 1e-4, 1e-2);
    }
}

int main(int argc, char** argv)
{
    noProjDatabase();
    Runner r("C08", "at least one output cell with a defined expected value was compared");
    r.init(quiet);
    r.assumption("x and y are the two fastest varying dimensions of a variable; positions within 2e-4 of a cell limit and points equally near to two cells are not decided");
    r.sub("byProjection", byProjection, 1600, 120000);
    r.sub("byPoints", byPoints, 1300, 80000);
    r.sub("byCoordinates", byCoordinates, 1300, 80000);
    r.sub("forward", forward, 1300, 80000);
    r.sub("processes", processes, 600, 40000);
    return r.main(argc, argv);
}
