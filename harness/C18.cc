// C18: merging a fine inner grid onto a coarse outer one: border smoothing, overlay, merger
// LINK: -lproj
#include "cf.h"
#include "noprojdb.h"
#include "fimex/CDMBorderSmoothing.h"
#include "fimex/CDMBorderSmoothing_Linear.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
using namespace fx;
using namespace pbt;

struct Field
{
    CDMDataType type = CDM_FLOAT;
    double scale = 1, offset = 0;
    bool packed = false, hasFill = false;
    double fill = NAN;
    std::string units;
    double us = 1, uo = 0; // value in K = us * value + uo
    double quantum() const { return (isFloat(type) ? 0 : scale) * us; }
};
static Field genField(Case& c)
{
    Field f;
    f.type = c.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT});
    if (!isFloat(f.type)) {
        f.packed = true;
        f.scale = c.pick({0.01, 0.02});
        f.offset = c.pick({200., 100.});
    }
    f.hasFill = !isFloat(f.type) || c.b(0.6);
    f.fill = isFloat(f.type) ? c.pick({-9999., 1e20}) : c.pick({-32767., 32767.});
    if (f.type == CDM_FLOAT)
        f.fill = float(f.fill);
    switch (c.w({4, 2, 1})) {
    case 0: f.units = "K"; break;
    case 1: f.units = "degC", f.uo = 273.15; break;
    default: f.units = "";
    }
    return f;
}
static double toRaw(const Field& f, double kelvin)
{
    if (std::isnan(kelvin))
        return f.hasFill ? f.fill : NAN;
    double v = (kelvin - f.uo) / f.us;
    return stored(f.type, (v - f.offset) / f.scale);
}
static double fromRaw(const Field& f, double raw)
{
    if (std::isnan(raw) || (f.hasFill && raw == f.fill) || std::fabs(raw) > 9e36)
        return NAN;
    return (raw * f.scale + f.offset) * f.us + f.uo;
}

struct World
{
    cf::Dataset in, out;
    cf::Proj pi, po;
    dvec xi, yi, xo, yo; // in m or degrees
    size_t nz = 0, nt = 0;
    bool unlim = false;
    Field fi, fo;
    double a = 280, bx = 0, by = 0; // outer field: a + bx * column + by * row + 3 * level + 5 * time
    std::vector<dvec> vi;           // inner values in K, per level and time
    int hole = -1;                  // undefined point of the outer field
    bool same = true;
    std::shared_ptr<cf::Pj> io; // inner to outer coordinates
    std::shared_ptr<CDMReader> ri, ro;
    size_t layers() const { return std::max<size_t>(1, nz) * std::max<size_t>(1, nt); }
    //! column and row in the outer grid
    void index(double x, double y, double& cx, double& cy) const
    {
        if (!same) {
            if (!io->fwd(x, y))
                cx = cy = NAN;
        }
        cx = (x - xo[0]) / (xo[1] - xo[0]);
        cy = (y - yo[0]) / (yo[1] - yo[0]);
    }
    //! value of the outer field at a point in coordinates of the inner projection; sure = false: not decided
    double outer(double x, double y, size_t layer, bool& sure) const
    {
        double cx, cy;
        index(x, y, cx, cy);
        const double eps = 2e-3;
        const double ex = std::min(cx, xo.size() - 1 - cx), ey = std::min(cy, yo.size() - 1 - cy);
        if (std::isnan(cx) || (ex < eps && ex > -2) || (ey < eps && ey > -2)) {
            // at the edge, or less than two cells outside
            if (!(same && std::fabs(ex) < 1e-9 && ey > -1e-9) && !(same && std::fabs(ey) < 1e-9 && ex > -1e-9))
                sure = false;
        }
        if (ex < -1e-9 || ey < -1e-9)
            return NAN;
        if (hole >= 0) {
            const double hx = std::fabs(cx - hole % xo.size()), hy = std::fabs(cy - hole / xo.size());
            if (hx < 0.99 && hy < 0.99)
                return NAN;
            if (hx < 1.01 && hy < 1.01)
                sure = false;
        }
        const size_t z = nz ? layer % nz : 0, t = nz ? layer / nz : layer;
        return a + bx * cx + by * cy + 3. * z + 5. * t;
    }
};

static void addField(World& w, cf::Dataset& ds, const Field& f, const std::string& name, const std::vector<dvec>& v, bool memory)
{
    dvec raw;
    for (auto& l : v)
        for (double x : l)
            raw.push_back(toRaw(f, x));
    std::vector<std::string> shape = {ds.x.name, ds.y.name};
    if (w.nz)
        shape.push_back("lev");
    if (w.nt)
        shape.push_back("time");
    cf::addVar(ds, name, f.type, shape, raw, true, memory);
    CDM& cdm = ds.r->cdm();
    if (f.hasFill)
        cdm.addAttribute(name, CDMAttribute("_FillValue", mkData(f.type, {f.fill})));
    if (f.packed) {
        cdm.addAttribute(name, CDMAttribute("scale_factor", f.scale));
        cdm.addAttribute(name, CDMAttribute("add_offset", f.offset));
    }
    if (!f.units.empty())
        cdm.addAttribute(name, CDMAttribute("units", f.units));
}

static void addZT(World& w, cf::Dataset& ds, double shift)
{
    if (w.nz) {
        cf::Axis z = {"lev", dvec(), "hPa"};
        for (size_t k = 0; k < w.nz; ++k)
            z.v.push_back(1000 - 100. * k);
        cf::addAxis(ds, z, false);
        cf::attr(ds, "lev", "standard_name", "air_pressure");
        dvec ap;
        for (size_t k = 0; k < w.nz; ++k)
            ap.push_back(k * 10 + shift);
        cf::addVar(ds, "ap", CDM_DOUBLE, {"lev"}, ap, false);
    }
    if (w.nt) {
        cf::Axis t = {"time", dvec(), "hours since 2020-01-01 00:00:00"};
        for (size_t k = 0; k < w.nt; ++k)
            t.v.push_back(6. * k);
        cf::addAxis(ds, t, w.unlim);
        cf::attr(ds, "time", "standard_name", "time");
    }
    cf::addVar(ds, "p0", CDM_SHORT, {}, {100 + shift}, false);
    ds.r->cdm().addAttribute("p0", CDMAttribute("scale_factor", 0.5));
}

static World genWorld(Case& c, bool needSame)
{
    World w;
    w.in.r = std::make_shared<MemReader>();
    w.out.r = std::make_shared<MemReader>();
    w.pi = cf::genProj(c, cf::ALL, false);
    const size_t nx = c.i(2, 14), ny = c.i(2, 14);
    w.xi = cf::genAxis(c, w.pi.cx, w.pi.half * 0.5, nx);
    w.yi = cf::genAxis(c, w.pi.cy, w.pi.half * 0.5, ny);
    w.same = needSame || w.pi.kind == "latitude_longitude" || c.b(0.6);
    auto cover = [&](double lo, double hi, double step, double m1, double m2, bool down) {
        dvec v;
        for (double x = lo - m1; v.size() < 2 || v.back() < hi + m2; x += step)
            v.push_back(x);
        if (down)
            std::reverse(v.begin(), v.end());
        return v;
    };
    if (w.same) {
        w.po = w.pi;
        auto axis = [&](const dvec& i) {
            const double s = std::fabs(i[1] - i[0]), k = c.pick({1., 2., 3., 2.5});
            return cover(std::min(i[0], i.back()), std::max(i[0], i.back()), s * k, s * c.pick({2., 4., 3.5, 0.}), s * c.pick({3., 4.5, 6., 0.}), c.b(0.3));
        };
        w.xo = axis(w.xi);
        w.yo = axis(w.yi);
    } else {
        do
            w.po = cf::genProj(c, cf::LATLON, false);
        while (w.po.kind != "latitude_longitude");
        w.io = std::make_shared<cf::Pj>(w.pi.proj4, w.po.proj4);
        double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
        for (double x : {w.xi[0], w.xi.back(), (w.xi[0] + w.xi.back()) / 2})
            for (double y : {w.yi[0], w.yi.back(), (w.yi[0] + w.yi.back()) / 2}) {
                double q[2] = {x, y};
                c.assume(w.io->fwd(q[0], q[1]));
                for (int k = 0; k < 2; ++k)
                    lo[k] = std::min(lo[k], q[k]), hi[k] = std::max(hi[k], q[k]);
            }
        c.assume(hi[0] - lo[0] < 60 && lo[0] > -150 && hi[0] < 150 && std::fabs(hi[1]) < 75 && std::fabs(lo[1]) < 75);
        for (int k = 0; k < 2; ++k) {
            const double s = (hi[k] - lo[k]) / c.i(3, 7);
            (k ? w.yo : w.xo) = cover(lo[k], hi[k], s, s * c.pick({1.2, 2.2}), s * c.pick({1.2, 2.2}), c.b(0.3));
        }
        c.assume(std::fabs(w.yo[0]) < 85 && std::fabs(w.yo.back()) < 85 && std::fabs(w.xo[0]) < 179 && std::fabs(w.xo.back()) < 179);
    }
    w.nz = c.b(0.4) ? c.i(1, 3) : 0;
    w.nt = c.b(0.6) ? c.i(1, 3) : 0;
    w.unlim = c.b(0.7);
    cf::addGrid(w.in, w.pi, w.xi, w.yi);
    cf::addGrid(w.out, w.po, w.xo, w.yo);
    // other units of the inner axes
    if (!w.pi.degree && c.b(0.25)) {
        for (int k = 0; k < 2; ++k)
            if (c.b(0.6)) {
                const cf::Axis& ax = k ? w.in.y : w.in.x;
                dvec km = ax.v;
                for (double& v : km)
                    v /= 1000;
                w.in.r->data[ax.name] = mkData(CDM_DOUBLE, km);
                w.in.r->cdm().addOrReplaceAttribute(ax.name, CDMAttribute("units", "km"));
                c.label("axis in km");
            }
    }
    addZT(w, w.in, 0);
    addZT(w, w.out, 7);
    w.fi = genField(c);
    w.fo = c.b(0.5) ? w.fi : genField(c);
    if (w.fi.units.empty() || w.fo.units.empty())
        w.fi.units = w.fo.units = "", w.fi.uo = w.fo.uo = 0; // no conversion
    w.bx = c.pick({0.5, -1., 2.});
    w.by = c.pick({1., 0.25, -0.5});
    if (c.b(0.25))
        w.hole = c.idx(w.xo.size() * w.yo.size());
    const bool inMem = c.b(0.2);
    std::vector<dvec> vo;
    for (size_t l = 0; l < w.layers(); ++l) {
        dvec i(nx * ny), o(w.xo.size() * w.yo.size());
        for (double& v : i)
            v = c.b(0.06) ? NAN : fromRaw(w.fi, toRaw(w.fi, c.i(250, 300) + 0.25 * c.i(0, 3)));
        const size_t z = w.nz ? l % w.nz : 0, t = w.nz ? l / w.nz : l;
        for (size_t k = 0; k < o.size(); ++k)
            o[k] = int(k) == w.hole ? NAN : w.a + w.bx * (k % w.xo.size()) + w.by * (k / w.xo.size()) + 3. * z + 5. * t;
        w.vi.push_back(i);
        vo.push_back(o);
    }
    addField(w, w.in, w.fi, "t2m", w.vi, inMem);
    addField(w, w.out, w.fo, "t2m", vo, c.b(0.2));
    if (c.b(0.4))
        addField(w, w.in, w.fi, "innerOnly", w.vi, false);
    if (c.b(0.4))
        addField(w, w.out, w.fo, "outerOnly", vo, false);
    c.show() << "inner " << w.pi.proj4 << " " << nx << "x" << ny << " x " << vec(w.xi) << " y " << vec(w.yi) << "\nouter " << w.po.proj4 << " x " << vec(w.xo) << " y " << vec(w.yo) << " hole " << w.hole << "\nlevels " << w.nz << " times " << w.nt << (w.unlim ? "" : " limited") << " inner field " << tname(w.fi.type) << " " << w.fi.units << " fill " << w.fi.fill << ", outer field " << tname(w.fo.type) << " " << w.fo.units << " bx " << w.bx << " by " << w.by << "\n";
    for (auto& l : w.vi)
        c.show() << "inner values " << vec(l) << "\n";
    c.label(w.same ? "same projection" : "different projections");
    return w;
}

struct Range
{
    double lo, hi;
    bool sure = true; // false: not decided
    bool nan() const { return std::isnan(lo); }
};

//! what the smoothed inner field may be at a point of the inner grid
static Range smoothed(const World& w, size_t ix, size_t iy, size_t layer, size_t tw, size_t bw, bool useOuter)
{
    const long nx = w.xi.size(), ny = w.yi.size();
    Range r;
    const double I = w.vi[layer][ix + nx * iy], O = w.outer(w.xi[ix], w.yi[iy], layer, r.sure);
    if (std::isnan(I)) {
        r.lo = r.hi = useOuter ? O : NAN;
        if (!useOuter)
            r.sure = true;
        return r;
    }
    if (std::isnan(O)) {
        r.lo = r.hi = I;
        return r;
    }
    const long x = ix, y = iy, b = bw, t = tw;
    if (x < b || x >= nx - b || y < b || y >= ny - b) {
        r.lo = r.hi = O;
        return r;
    }
    const bool overlap = nx < 2 * (b + t) || ny < 2 * (b + t);
    // distance into the transition zone, 0: inner, counted from the inner side
    auto depth = [&](long p, long n, double& d0, double& d1) {
        d0 = d1 = 0;
        if (p < b + t)
            d0 = d1 = b + t - p;
        else if (p >= n - b - t) {
            d0 = p - (n - b - t);
            d1 = d0 + 1; // symmetric to the other side
        }
    };
    double x0, x1, y0, y1;
    depth(x, nx, x0, x1);
    depth(y, ny, y0, y1);
    double al0 = std::min(1., std::hypot(x0, y0) / t), al1 = std::min(1., std::hypot(x1, y1) / t);
    if (overlap)
        al0 = 0, al1 = 1;
    const double v0 = I + al0 * (O - I), v1 = I + al1 * (O - I);
    r.lo = std::min(v0, v1);
    r.hi = std::max(v0, v1);
    return r;
}

static void judge(Case& c, const std::string& what, const World& w, const Range& r, double raw, double extra)
{
    if (!r.sure)
        return;
    const double g = fromRaw(w.fi, raw);
    const double tol = 2e-3 + w.fi.quantum() * 0.51 + w.fo.quantum() * 1.01 + extra;
    if (r.nan())
        c.check(std::isnan(g), what + " is " + num(g) + ", expected undefined");
    else
        c.check(!std::isnan(g) && g >= r.lo - tol && g <= r.hi + tol, what + " is " + num(g) + ", expected " + num(r.lo) + (r.hi > r.lo ? " to " + num(r.hi) : ""));
}

static void others(Case& c, const World& w, CDMReader& m, const std::string& who)
{
    same(c, who + ": p0", rawValues(m.getData("p0")), {100.});
    c.check(m.getCDM().getVariable("p0").getDataType() == CDM_SHORT, "type of p0");
    if (w.nz) {
        if (m.getCDM().hasVariable("ap")) {
            dvec ap;
            for (size_t k = 0; k < w.nz; ++k)
                ap.push_back(k * 10.);
            same(c, who + ": ap", rawValues(m.getData("ap")), ap);
        }
        same(c, who + ": lev", rawValues(m.getData("lev")), rawValues(w.in.r->data.at("lev")));
    }
    if (w.nt)
        same(c, who + ": time", rawValues(m.getData("time")), rawValues(w.in.r->data.at("time")));
    c.check(!m.getCDM().hasVariable("innerOnly"), who + ": a variable without outer values is kept");
    const CDMVariable& v = m.getCDM().getVariable("t2m");
    c.check(v.getDataType() == w.fi.type, who + ": type of t2m");
    c.check(m.getCDM().getUnits("t2m") == w.fi.units, who + ": units of t2m");
    c.check(m.getCDM().getScaleFactor("t2m") == w.fi.scale && m.getCDM().getAddOffset("t2m") == w.fi.offset, who + ": packing of t2m");
}

//! all values, by record
static std::vector<dvec> layersOf(Case& c, const World& w, CDMReader& m, const std::string& var, size_t size)
{
    dvec all;
    const size_t recs = w.nt && w.unlim ? w.nt : 1;
    for (size_t r = 0; r < recs; ++r) {
        DataPtr d = m.getDataSlice(var, r);
        c.check(d->getDataType() == m.getCDM().getVariable(var).getDataType(), var + ": data of type " + tname(d->getDataType()));
        dvec v = rawValues(d);
        all.insert(all.end(), v.begin(), v.end());
    }
    c.check(all.size() == size * w.layers(), var + " has " + std::to_string(all.size()) + " values, expected " + std::to_string(size * w.layers()));
    std::vector<dvec> r;
    for (size_t l = 0; l < w.layers(); ++l)
        r.push_back(dvec(all.begin() + l * size, all.begin() + (l + 1) * size));
    return r;
}

static CDMBorderSmoothing::SmoothingFactory_p genSmoothing(Case& c, size_t& tw, size_t& bw, bool& isDefault)
{
    isDefault = c.b(0.2);
    tw = isDefault ? 5 : c.i(1, 5);
    bw = isDefault ? 2 : c.i(0, 3);
    c.show() << "transition " << tw << " border " << bw << (isDefault ? " (default)" : "") << "\n";
    return createSmoothingFactory("LINEAR(" + std::to_string(tw) + "," + std::to_string(bw) + ")");
}

static void smoothing(Case& c)
{
    World w = genWorld(c, false);
    size_t tw, bw;
    bool isDefault;
    auto f = genSmoothing(c, tw, bw, isDefault);
    const bool useOuter = c.b(0.7);
    c.show() << "use outer " << useOuter << "\n";
    CDMBorderSmoothing s(w.in.r, w.out.r);
    if (!isDefault)
        s.setSmoothing(f);
    if (!useOuter)
        s.setUseOuterIfInnerUndefined(false);
    const size_t nx = w.xi.size(), ny = w.yi.size();
    others(c, w, s, "smoothing");
    auto L = layersOf(c, w, s, "t2m", nx * ny);
    for (size_t l = 0; l < L.size(); ++l)
        for (size_t y = 0; y < ny; ++y)
            for (size_t x = 0; x < nx; ++x) {
                Range r = smoothed(w, x, y, l, tw, bw, useOuter);
                judge(c, "smoothed value at " + std::to_string(x) + "," + std::to_string(y) + " layer " + std::to_string(l), w, r, L[l][x + nx * y], 0);
                c.nontrivial(r.sure && !r.nan());
                c.count(!r.sure ? "points not decided" : r.nan() ? "points undefined" : "points", 1);
            }
}

static void overlay(Case& c)
{
    // base = outer, top = inner: on the grid of the top
    World w = genWorld(c, false);
    const bool keep = c.b();
    c.show() << "keep outer " << keep << "\n";
    CDMOverlay o(w.out.r, w.in.r, MIFI_INTERPOL_BILINEAR, keep);
    const size_t nx = w.xi.size(), ny = w.yi.size();
    others(c, w, o, "overlay");
    const bool hasOuterOnly = w.out.r->getCDM().hasVariable("outerOnly");
    c.check(o.getCDM().hasVariable("outerOnly") == (keep && hasOuterOnly), "outerOnly is not kept or kept");
    auto L = layersOf(c, w, o, "t2m", nx * ny);
    std::vector<dvec> K;
    if (keep && hasOuterOnly)
        K = layersOf(c, w, o, "outerOnly", nx * ny);
    for (size_t l = 0; l < L.size(); ++l)
        for (size_t k = 0; k < nx * ny; ++k) {
            Range r;
            const double O = w.outer(w.xi[k % nx], w.yi[k / nx], l, r.sure);
            if (K.size() && r.sure) {
                const double g = fromRaw(w.fo, K[l][k]);
                c.check(close(g, O, 0, 2e-3 + w.fo.quantum()), "outerOnly at " + std::to_string(k) + " is " + num(g) + ", expected " + num(O));
            }
            if (!std::isnan(w.vi[l][k])) {
                r.lo = r.hi = w.vi[l][k];
                r.sure = true;
            } else
                r.lo = r.hi = O;
            judge(c, "overlay at " + std::to_string(k % nx) + "," + std::to_string(k / nx) + " layer " + std::to_string(l), w, r, L[l][k], 0);
            c.nontrivial(r.sure && std::isnan(w.vi[l][k]) && !r.nan());
        }
}

static void merger(Case& c)
{
    const bool fromInner = c.b();
    World w = genWorld(c, fromInner);
    size_t tw, bw;
    bool isDefault;
    auto f = genSmoothing(c, tw, bw, isDefault);
    const bool keep = c.b(0.4);
    CDMMerger m(w.in.r, w.out.r);
    if (!isDefault)
        m.setSmoothing(f);
    if (keep)
        m.setKeepOuterVariables(true);
    try {
        m.getDataSlice("t2m", 0);
        c.fail("data before a target grid is set");
    } catch (CDMException&) {
    }
    // target grid: the lattice of the inner grid, extended
    const double dx = w.xi[1] - w.xi[0], dy = w.yi[1] - w.yi[0];
    auto extent = [&](const dvec& i, const dvec& o) {
        dvec v = i;
        const double d = i[1] - i[0], lo = std::min(o[0], o.back()), hi = std::max(o[0], o.back());
        for (double x = v[0] - d; x >= lo && x <= hi; x -= d)
            v.insert(v.begin(), x);
        for (double x = i.back() + d; x >= lo && x <= hi; x += d)
            v.push_back(x);
        return v;
    };
    dvec tx, ty;
    if (fromInner) {
        m.setTargetGridFromInner();
        // lengths may differ by one where the outer border is exactly a grid point
        tx = rawValues(m.getScaledDataInUnit(w.in.x.name, w.pi.degree ? "degree" : "m"));
        ty = rawValues(m.getScaledDataInUnit(w.in.y.name, w.pi.degree ? "degree" : "m"));
        for (int k = 0; k < 2; ++k) {
            const dvec e = k ? extent(w.yi, w.yo) : extent(w.xi, w.xo), &t = k ? ty : tx, &in = k ? w.yi : w.xi, &o = k ? w.yo : w.xo;
            c.check(t.size() + 2 >= e.size() && t.size() <= e.size() + 2, "target axis " + vec(t) + ", expected " + vec(e));
            const double d = in[1] - in[0], s = std::fabs(d);
            for (size_t q = 1; q < t.size(); ++q)
                c.check(close(t[q] - t[q - 1], d, 1e-6, 0), "steps of the target axis " + vec(t));
            const double lo = std::min(t[0], t.back()), hi = std::max(t[0], t.back()), olo = std::min(o[0], o.back()), ohi = std::max(o[0], o.back());
            c.check(lo >= olo - 1e-6 * s && hi <= ohi + 1e-6 * s && lo <= olo + s * 1.001 && hi >= ohi - s * 1.001, "target axis " + vec(t) + " does not fill " + vec(o));
            const double off = (t[0] - in[0]) / d;
            c.check(std::fabs(off - std::round(off)) < 1e-6, "target axis " + vec(t) + " is not aligned with " + vec(in));
        }
    } else {
        // from two cells outside to two cells outside, every point, every second one or half points
        const double k = c.pick({1., 2., 0.5});
        auto axis = [&](const dvec& i) {
            const double d = (i[1] - i[0]) * k;
            dvec v;
            const double start = i[0] - 2 * (i[1] - i[0]) * c.i(0, 1);
            const size_t n = c.i(2, 2 + size_t((i.size() + 2) / k));
            for (size_t q = 0; q < n; ++q)
                v.push_back(start + q * d);
            return v;
        };
        tx = axis(w.xi);
        ty = axis(w.yi);
        if (c.b(0.5))
            m.setTargetGrid(w.pi.proj4, tx, ty, w.pi.degree ? "degree" : "m", w.pi.degree ? "degree" : "m", CDM_DOUBLE, CDM_DOUBLE);
        else {
            auto text = [](const dvec& v) {
                std::string s;
                for (double x : v)
                    s += (s.empty() ? "" : ",") + cf::g17(x);
                return s;
            };
            m.setTargetGrid(w.pi.proj4, text(tx), text(ty), w.pi.degree ? "degree" : "m", w.pi.degree ? "degree" : "m", "double", "float");
        }
    }
    c.show() << "target x " << vec(tx) << " y " << vec(ty) << " keep outer " << keep << "\n";
    c.label(fromInner ? "target from inner grid" : "target given");
    others(c, w, m, "merger");
    const bool hasOuterOnly = w.out.r->getCDM().hasVariable("outerOnly");
    c.check(m.getCDM().hasVariable("outerOnly") == (keep && hasOuterOnly), "outerOnly is not kept or kept");
    const size_t nx = tx.size(), ny = ty.size();
    auto L = layersOf(c, w, m, "t2m", nx * ny);
    for (size_t l = 0; l < L.size(); ++l)
        for (size_t k = 0; k < nx * ny; ++k) {
            Range r;
            const double X = tx[k % nx], Y = ty[k / nx];
            const double cx = (X - w.xi[0]) / dx, cy = (Y - w.yi[0]) / dy;
            const double ex = std::min(cx, w.xi.size() - 1 - cx), ey = std::min(cy, w.yi.size() - 1 - cy);
            const double O = w.outer(X, Y, l, r.sure);
            std::string kind;
            if (ex < -0.9 || ey < -0.9) {
                r.lo = r.hi = O;
                kind = "outside the inner grid";
            } else if (ex < -1e-3 || ey < -1e-3) {
                continue; // less than a cell outside
            } else if (std::fabs(cx - std::round(cx)) < 1e-3 && std::fabs(cy - std::round(cy)) < 1e-3) {
                Range s = smoothed(w, std::lround(cx), std::lround(cy), l, tw, bw, true);
                s.sure &= r.sure;
                // the interpolation to the same point must not use its neighbours, but rounding may
                bool nb = false;
                for (long a = std::lround(cx) - 1; a <= std::lround(cx) + 1; ++a)
                    for (long b = std::lround(cy) - 1; b <= std::lround(cy) + 1; ++b)
                        if (a >= 0 && b >= 0 && a < long(w.xi.size()) && b < long(w.yi.size())) {
                            Range n = smoothed(w, a, b, l, tw, bw, true);
                            nb |= n.nan() || !n.sure;
                        }
                if (nb)
                    s.sure = false;
                r = s;
                kind = "on the inner grid";
            } else {
                // between points of the inner grid: convex combination of the corners
                r.lo = 1e9, r.hi = -1e9;
                bool nan = false;
                for (long a : {std::floor(cx + 1e-3), std::ceil(cx - 1e-3)})
                    for (long b : {std::floor(cy + 1e-3), std::ceil(cy - 1e-3)}) {
                        Range n = smoothed(w, a, b, l, tw, bw, true);
                        nan |= n.nan();
                        r.sure &= n.sure;
                        r.lo = std::min(r.lo, n.lo);
                        r.hi = std::max(r.hi, n.hi);
                    }
                // rounding of the position may use an undefined neighbour
                for (long a = std::floor(cx - 1e-3); a <= std::ceil(cx + 1e-3); ++a)
                    for (long b = std::floor(cy - 1e-3); b <= std::ceil(cy + 1e-3); ++b)
                        if (a >= 0 && b >= 0 && a < long(w.xi.size()) && b < long(w.yi.size())) {
                            Range n = smoothed(w, a, b, l, tw, bw, true);
                            nan |= n.nan() || !n.sure;
                        }
                if (nan)
                    r.sure = false;
                kind = "between points of the inner grid";
            }
            // rounding of the coordinates, relative to the field; packed twice
            judge(c, "merged value " + kind + " at " + std::to_string(k % nx) + "," + std::to_string(k / nx) + " layer " + std::to_string(l), w, r, L[l][k], 0.02 + 2 * w.fi.quantum());
            c.nontrivial(r.sure && !r.nan());
            c.count(!r.sure ? "points not decided" : r.nan() ? "points undefined" : "points " + kind, 1);
        }
}

static void specs(Case& c)
{
    const std::string s = c.picks({"LINEAR(0,2)", "LINEAR(-1,2)", "LINEAR(3,-1)", "LINEAR(3)", "LINEAR", "LINEAR(a,b)", "LINEAR(3,2,1)", "CUBIC(1,2)", "", "LINEAR(1.5,2)", "LINEAR(3,2)x"});
    c.show() << s << "\n";
    c.nontrivial();
    try {
        createSmoothingFactory(s);
    } catch (CDMException&) {
        return;
    }
    c.fail("accepted '" + s + "'");
}

static void missingRecords(Case& c)
{
    World w = genWorld(c, true);
    c.assume(w.nt > 0 && w.unlim);
    const size_t rec = c.idx(w.nt);
    const bool inner = c.b(), outer = !inner || c.b();
    for (auto& d : {std::make_pair(w.in.r, inner), std::make_pair(w.out.r, outer)})
        if (d.second) {
            c.assume(!d.first->getCDM().getVariable("t2m").hasData());
            d.first->missing.insert({"t2m", rec});
        }
    c.show() << "record " << rec << " missing in" << (inner ? " inner" : "") << (outer ? " outer" : "") << "\n";
    const size_t nx = w.xi.size(), ny = w.yi.size();
    const int kind = c.idx(2);
    std::shared_ptr<CDMReader> m;
    if (kind == 0)
        m = std::make_shared<CDMBorderSmoothing>(w.in.r, w.out.r);
    else
        m = std::make_shared<CDMOverlay>(w.out.r, w.in.r);
    dvec got = rawValues(m->getDataSlice("t2m", rec));
    c.nontrivial();
    if (inner && outer) {
        for (double g : got)
            c.check(std::isnan(fromRaw(w.fi, g)), "a missing record has the value " + num(g));
        return;
    }
    c.check(got.size() == nx * ny * std::max<size_t>(1, w.nz), std::to_string(got.size()) + " values");
    for (size_t k = 0; k < got.size(); ++k) {
        const size_t z = k / (nx * ny), l = w.nz ? z + w.nz * rec : rec, p = k % (nx * ny);
        Range r;
        if (outer)
            r.lo = r.hi = w.vi[l][p];
        else
            r.lo = r.hi = w.outer(w.xi[p % nx], w.yi[p / nx], l, r.sure);
        judge(c, "value " + std::to_string(k), w, r, got[k], 0);
    }
}

int main(int argc, char** argv)
{
    noProjDatabase();
    Runner r("C18", "at least one defined point that is decided (overlay: one where the top is undefined)");
    r.init(quiet);
    r.assumption("the outer field is linear in the outer grid, so that the bilinear interpolation is exact; points within 0.002 cells of the outer border or less than one cell outside the inner grid are not decided");
    r.assumption("where the transition zones of opposite borders overlap only values between inner and outer are required");
    r.sub("smoothing", smoothing, 2500, 100000);
    r.sub("overlay", overlay, 2500, 100000);
    r.sub("merger", merger, 2500, 100000);
    r.sub("specifications", specs, 100, 300);
    r.sub("missing records", missingRecords, 1500, 40000);
    return r.main(argc, argv);
}
