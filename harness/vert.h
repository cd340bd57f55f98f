// Generated datasets with a CF vertical coordinate, and the vertical position of every point by the CF formulas.
#pragma once
#include "cf.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/verticalTransform/VerticalConverter.h"
#include "fimex/coordSys/verticalTransform/VerticalTransformation.h"
#include "fimex/coordSys/verticalTransform/ToVLevelConverter.h"
#include "fimex/mifi_constants.h"

#include <cmath>

namespace vert {
using namespace fx;
using namespace cf;
using pbt::Case;
using pbt::vec;
typedef std::vector<std::string> strs;

// physical constants of the US standard atmosphere 1976, as documented in mifi_constants.h
const double G = 9.80665, MD = 0.0289644, RS = 8.31432, T0 = 273.15;
const double BARO = RS / (G * MD);

enum Kind { PRES, HYB_AP, HYB_A, SIGMA, LNP, HYB_H, HEIGHT, ALTITUDE, DEPTH, OCEAN1, OCEAN2, NKINDS };
inline const char* kindName(int k)
{
    static const char* n[] = {"pressure", "hybrid(ap)", "hybrid(a,p0)", "sigma", "ln_pressure", "hybrid_height", "height", "altitude", "depth", "ocean_s_g1", "ocean_s_g2"};
    return n[k];
}
inline bool pressureKind(int k)
{
    return k <= LNP;
}

struct Pos
{
    size_t x, y, z, e, t;
};

//! a stored field, values in canonical units
struct F
{
    strs shape;
    svec sizes;
    dvec v;
    std::string unit;
    double at(const struct VD& d, const Pos& p) const;
};

struct VD
{
    Dataset ds;
    int kind;
    size_t nx, ny, nz, ne, nt; // ne, nt: 0 = no such dimension
    bool unlim = false;
    std::string zname = "lev", vname = "v";
    strs vshape;
    std::map<std::string, F> f;
    std::string ps, ap, b, a, p0, ptop, sigma, lnp, orog, s, C, depth, depth_c, eta; // formula terms
    std::string airp, gph, temp, q, topo;
    bool topoIsGeopotential = false;
    bool nanPs = false;

    size_t len(const std::string& d) const
    {
        return d == ds.x.name ? nx : d == ds.y.name ? ny : d == zname ? nz : d == "ens" ? ne : d == "time" ? nt : 1;
    }
    size_t pos(const std::string& d, const Pos& p) const
    {
        return d == ds.x.name ? p.x : d == ds.y.name ? p.y : d == zname ? p.z : d == "ens" ? p.e : d == "time" ? p.t : 0;
    }
    double at(const std::string& name, const Pos& p) const { return f.at(name).at(*this, p); }
    void all(const std::function<void(const Pos&)>& fn) const
    {
        Pos p;
        for (p.t = 0; p.t < std::max<size_t>(nt, 1); ++p.t)
            for (p.e = 0; p.e < std::max<size_t>(ne, 1); ++p.e)
                for (p.z = 0; p.z < nz; ++p.z)
                    for (p.y = 0; p.y < ny; ++p.y)
                        for (p.x = 0; p.x < nx; ++p.x)
                            fn(p);
    }

    // ---- the reference: vertical position of a point; NaN = undefined ----
    double pressure(const Pos& p) const
    {
        if (!airp.empty())
            return at(airp, p);
        switch (kind) {
        case PRES: return at(zname, p);
        case HYB_AP: return at(ap, p) + at(b, p) * at(ps, p);
        case HYB_A: return at(a, p) * at(p0, p) + at(b, p) * at(ps, p);
        case SIGMA: return at(ptop, p) + at(sigma, p) * (at(ps, p) - at(ptop, p));
        case LNP: return at(p0, p) * std::exp(-at(lnp, p));
        }
        return NAN;
    }
    bool canIntegrate() const { return !temp.empty() && !ps.empty() && !topo.empty() && topoIsGeopotential; }
    double topography(const Pos& p) const { return topoIsGeopotential ? at(topo, p) / G : at(topo, p); }
    double altitude(Pos p) const
    {
        switch (kind) {
        case HYB_H: return at(a, p) + at(b, p) * at(orog, p);
        case HEIGHT: return at(zname, p) + topography(p);
        case ALTITUDE: return at(zname, p);
        }
        if (!gph.empty())
            return at(gph, p);
        if (!canIntegrate())
            return -BARO * 288.15 * std::log(pressure(p) / 1013.25);
        // hypsometric equation from the surface upwards
        std::vector<size_t> order;
        for (size_t k = 0; k < nz; ++k)
            order.push_back(k);
        Pos lo = p, hi = p;
        lo.z = 0;
        hi.z = nz - 1;
        if (!(pressure(lo) > pressure(hi)))
            std::reverse(order.begin(), order.end());
        double alt = topography(p), below = at(ps, p);
        for (size_t k : order) {
            Pos l = p;
            l.z = k;
            double tv = at(temp, l);
            if (!q.empty())
                tv *= 1 + (1 / 0.622 - 1) * at(q, l);
            double pk = pressure(l);
            alt += BARO * tv * std::log(below / pk);
            below = pk;
            if (k == p.z)
                break;
        }
        return alt;
    }
    double height(const Pos& p) const { return kind == HEIGHT ? at(zname, p) : altitude(p) - topography(p); }
    double depthAt(const Pos& p) const
    {
        if (kind == DEPTH)
            return at(zname, p);
        double h = at(depth, p), hc = at(depth_c, p), zeta = eta.empty() ? 0 : at(eta, p), sg = at(s, p), c = at(C, p);
        if (kind == OCEAN1) {
            double S = hc * sg + (h - hc) * c;
            return -(S + zeta * (1 + S / h));
        }
        double S = (hc * sg + h * c) / (hc + h);
        return -(zeta + (zeta + h) * S);
    }
    //! is a conversion to the type defined for this dataset?
    bool has(int type) const
    {
        switch (type) {
        case MIFI_VINT_PRESSURE: return pressureKind(kind);
        case MIFI_VINT_ALTITUDE: return pressureKind(kind) || kind == HYB_H || kind == ALTITUDE || (kind == HEIGHT && !topo.empty());
        case MIFI_VINT_HEIGHT: return kind == HEIGHT || (!topo.empty() && (pressureKind(kind) || kind == HYB_H || kind == ALTITUDE));
        case MIFI_VINT_DEPTH: return kind >= DEPTH;
        }
        return false;
    }
    double level(int type, const Pos& p) const
    {
        switch (type) {
        case MIFI_VINT_PRESSURE: return pressure(p);
        case MIFI_VINT_ALTITUDE: return altitude(p);
        case MIFI_VINT_HEIGHT: return height(p);
        }
        return depthAt(p);
    }
};

inline double F::at(const VD& d, const Pos& p) const
{
    size_t off = 0, m = 1;
    for (size_t k = 0; k < shape.size(); ++k) {
        off += m * d.pos(shape[k], p);
        m *= sizes[k];
    }
    return v[off];
}

struct U
{
    const char* unit;
    double scale, offset; // canonical = scale * stored + offset
};

//! add a variable whose canonical values come from gen; the values stored (type, packing, unit) are what the reference uses
inline void field(Case& c, VD& d, const std::string& name, const strs& shape, const U& u, const std::string& stdName, const std::function<double(size_t)>& gen,
                  double fillP = 0, bool pack = false)
{
    F f;
    f.shape = shape;
    f.unit = u.unit;
    size_t n = 1;
    for (auto& s : shape) {
        f.sizes.push_back(d.len(s));
        n *= d.len(s);
    }
    dvec canon(n);
    for (size_t k = 0; k < n; ++k)
        canon[k] = gen(k);
    CDMDataType type = pack ? CDM_SHORT : c.pick({CDM_DOUBLE, CDM_FLOAT});
    dvec raw(n);
    double scale = 1, offset = 0, fill = pack ? -32767. : 9.96921e36f;
    if (pack) {
        double lo = *std::min_element(canon.begin(), canon.end()), hi = *std::max_element(canon.begin(), canon.end());
        lo = (lo - u.offset) / u.scale;
        hi = (hi - u.offset) / u.scale;
        offset = lo;
        scale = hi > lo ? (hi - lo) / 30000 : 1;
    }
    f.v.resize(n);
    for (size_t k = 0; k < n; ++k) {
        double x = ((canon[k] - u.offset) / u.scale - offset) / scale;
        x = pack ? std::round(x) : type == CDM_FLOAT ? (double)(float)x : x;
        if (fillP > 0 && c.b(fillP)) {
            raw[k] = fill;
            f.v[k] = NAN;
        } else {
            raw[k] = x;
            f.v[k] = (x * scale + offset) * u.scale + u.offset;
        }
    }
    addVar(d.ds, name, type, shape, raw, shape.size() > 1, c.b(0.1));
    CDM& cdm = d.ds.r->cdm();
    if (*u.unit)
        attr(d.ds, name, "units", u.unit);
    if (!stdName.empty())
        attr(d.ds, name, "standard_name", stdName);
    if (pack) {
        cdm.addAttribute(name, CDMAttribute("scale_factor", mkData(CDM_DOUBLE, {scale})));
        cdm.addAttribute(name, CDMAttribute("add_offset", mkData(CDM_DOUBLE, {offset})));
    }
    if (fillP > 0)
        cdm.addAttribute(name, CDMAttribute("_FillValue", mkData(type, {fill})));
    d.f[name] = f;
}

inline U presUnit(Case& c)
{
    return c.pick<U>({{"Pa", 0.01, 0}, {"hPa", 1, 0}, {"mbar", 1, 0}});
}
inline U lenUnit(Case& c)
{
    return c.pick<U>({{"m", 1, 0}, {"km", 1000, 0}, {"m", 1, 0}});
}

struct Opt
{
    std::vector<int> kinds;
    bool fill = true;     //!< undefined values in the surface fields
    size_t maxZ = 5;
    bool extras = true;   //!< air pressure, geopotential height, temperature, humidity, topography
    bool permute = true;
};

//! the dataset without the data variable
inline VD genVD(Case& c, const Opt& o)
{
    VD d;
    d.kind = c.pick(o.kinds);
    d.ds.r = std::make_shared<MemReader>();
    d.nx = c.i(1, 4);
    d.ny = c.i(1, 3);
    d.nz = c.i(1, o.maxZ);
    d.ne = c.b(0.15) ? c.i(1, 2) : 0;
    d.nt = c.b(0.7) ? c.i(1, 3) : 0;
    d.unlim = d.nt && c.b(0.8);
    Proj p = genProj(c, LATLON | STERE);
    auto ax = [&](size_t n, double st, double s) {
        dvec v;
        for (size_t k = 0; k < n; ++k)
            v.push_back(st + s * k);
        return v;
    };
    if (p.kind == "latitude_longitude")
        addGrid(d.ds, p, ax(d.nx, 5, 1), ax(d.ny, 50, 1));
    else
        addGrid(d.ds, p, ax(d.nx, 0, 1000), ax(d.ny, 0, 1000));
    const std::string X = d.ds.x.name, Y = d.ds.y.name;
    CDM& cdm = d.ds.r->cdm();
    bool unlimAxis = false;
    if (d.nt) {
        Axis t = {"time", ax(d.nt, 0, 6), "hours since 2020-01-01 00:00:00"};
        addAxis(d.ds, t, d.unlim);
        unlimAxis = d.unlim;
    }
    (void)unlimAxis;
    if (d.ne) {
        Axis e = {"ens", ax(d.ne, 0, 1), "1"};
        addAxis(d.ds, e, false);
        attr(d.ds, "ens", "standard_name", "realization");
    }
    const bool sfc = c.b(0.2);
    if (sfc) {
        addAxis(d.ds, {"sfc", {0}, "m"}, false);
        attr(d.ds, "sfc", "positive", "up");
    }
    if (d.kind == ALTITUDE && c.b())
        d.zname = "altitude";

    // shapes
    strs v = {X, Y, d.zname};
    if (d.ne)
        v.push_back("ens");
    if (o.permute && c.b(0.3)) {
        strs w;
        for (size_t k : c.perm(v.size()))
            w.push_back(v[k]);
        v = w;
    }
    if (d.nt)
        v.push_back("time");
    d.vshape = v;
    auto without = [&](strs s, const std::string& n) {
        s.erase(std::remove(s.begin(), s.end(), n), s.end());
        return s;
    };
    auto surface = [&](bool time, bool noEns = false) {
        strs s = {X, Y};
        if (o.permute && c.b(0.15))
            std::swap(s[0], s[1]);
        if (sfc && c.b())
            s.push_back("sfc");
        if (d.ne && !noEns && c.b())
            s.push_back("ens");
        if (time && d.nt)
            s.push_back("time");
        return s;
    };
    const bool down = c.b();
    // a monotonous sequence in (lo, hi)
    auto mono = [&](double lo, double hi, bool desc) {
        dvec m(d.nz);
        for (size_t k = 0; k < d.nz; ++k)
            m[k] = lo + (hi - lo) * (k + c.dfine(0.1, 0.9)) / d.nz;
        if (desc)
            std::reverse(m.begin(), m.end());
        return m;
    };
    auto lev = [&](const std::string& name, const U& u, const std::string& sn, const dvec& m) { field(c, d, name, strs(1, d.zname), u, sn, [&](size_t k) { return m[k]; }); };
    const double fillP = o.fill && c.b(0.3) ? 0.2 : 0;
    d.nanPs = fillP > 0;
    auto mkPs = [&](bool full) {
        d.ps = "ps";
        strs s = surface(full || c.b(0.8), full);
        if (full) {
            if (d.ne)
                s.insert(s.begin() + 2, "ens");
        }
        field(c, d, d.ps, s, presUnit(c), "surface_air_pressure", [&](size_t) { return c.dfine(850, 1040); }, fillP, c.b(0.2));
    };
    cdm.addDimension(CDMDimension(d.zname, d.nz));
    std::string terms;
    auto term = [&](const std::string& n, const std::string& v) { terms += (terms.empty() ? "" : " ") + n + ": " + v; };
    const bool wantInt = o.extras && pressureKind(d.kind) && c.b(0.4);
    const U one = c.pick<U>({{"1", 1, 0}, {"", 1, 0}});
    switch (d.kind) {
    case PRES:
        lev(d.zname, presUnit(c), c.picks({"air_pressure", ""}) == "" ? "" : "air_pressure_level", mono(50, 840, down));
        break;
    case HYB_AP:
    case HYB_A: {
        const dvec b = mono(0, 1, down);
        lev(d.zname, {"1", 1, 0}, "atmosphere_hybrid_sigma_pressure_coordinate", mono(0, 1, down));
        d.b = "b";
        lev("b", one, "", b);
        mkPs(wantInt);
        // pressure grows with b: ap such that ap + b*ps is monotonous for any ps
        auto apv = [&](size_t k) { return 120 * (1 - b[k]); };
        if (d.kind == HYB_AP) {
            d.ap = "ap";
            field(c, d, "ap", strs(1, d.zname), presUnit(c), "", apv);
            term("ap", "ap");
        } else {
            d.a = "a";
            field(c, d, "a", strs(1, d.zname), one, "", [&](size_t k) { return apv(k) / 1000; });
            d.p0 = "p0";
            field(c, d, "p0", strs(), presUnit(c), "", [&](size_t) { return c.pick({1000., 1013.25}); });
            term("a", "a");
            term("p0", "p0");
        }
        term("b", "b");
        term("ps", "ps");
        break;
    }
    case SIGMA:
        d.sigma = c.b(0.7) ? d.zname : "sig";
        lev(d.zname, {"1", 1, 0}, "atmosphere_sigma_coordinate", mono(0, 1, down));
        if (d.sigma != d.zname)
            lev(d.sigma, one, "", mono(0, 1, down));
        mkPs(wantInt);
        d.ptop = "ptop";
        field(c, d, "ptop", c.b(0.3) && d.nt ? strs(1, "time") : strs(), presUnit(c), "", [&](size_t) { return c.dfine(1, 100); });
        term("sigma", d.sigma);
        term("ps", "ps");
        term("ptop", "ptop");
        break;
    case LNP:
        d.lnp = d.zname;
        lev(d.zname, {"1", 1, 0}, "atmosphere_ln_pressure_coordinate", mono(0.2, 3, down));
        attr(d.ds, d.zname, "axis", "Z");
        attr(d.ds, d.zname, "positive", "up");
        d.p0 = "p0";
        field(c, d, "p0", strs(), presUnit(c), "", [&](size_t) { return c.pick({1000., 1013.25}); });
        term("p0", "p0");
        term("lev", d.zname);
        break;
    case HYB_H:
        lev(d.zname, {"1", 1, 0}, "atmosphere_hybrid_height_coordinate", mono(0, 1, down));
        d.a = "a";
        d.b = "b";
        d.orog = "orog";
        lev("a", lenUnit(c), "", mono(0, 20000, down));
        lev("b", one, "", mono(0, 1, !down));
        field(c, d, "orog", surface(c.b(0.2)), lenUnit(c), "surface_altitude", [&](size_t) { return c.dfine(0, 2500); }, fillP);
        term("a", "a");
        term("b", "b");
        term("orog", "orog");
        d.topo = "orog";
        break;
    case HEIGHT:
    case ALTITUDE:
        lev(d.zname, lenUnit(c), d.kind == HEIGHT ? "height" : d.zname == "altitude" ? "" : c.picks({"altitude", "height_above_msl"}), mono(10, 15000, down));
        attr(d.ds, d.zname, "positive", "up");
        break;
    case DEPTH:
        lev(d.zname, lenUnit(c), "depth", mono(0, 3000, down));
        attr(d.ds, d.zname, "positive", "down");
        break;
    default: {
        const dvec sg = mono(-1, 0, down);
        d.s = c.b() ? d.zname : "s_rho";
        lev(d.zname, {"1", 1, 0}, d.kind == OCEAN1 ? "ocean_s_coordinate_g1" : "ocean_s_coordinate_g2", sg);
        if (d.s != d.zname)
            lev(d.s, one, "", sg);
        d.C = "Cs";
        const double ex = c.dfine(1, 2);
        field(c, d, "Cs", strs(1, d.zname), one, "", [&](size_t k) { return -std::pow(-sg[k], ex); });
        d.depth = "h";
        field(c, d, "h", surface(false), lenUnit(c), "sea_floor_depth_below_sea_level", [&](size_t) { return c.dfine(50, 4000); }, fillP, c.b(0.2));
        d.depth_c = "hc";
        field(c, d, "hc", strs(), lenUnit(c), "", [&](size_t) { return c.dfine(5, 40); });
        if (c.b(0.7)) {
            d.eta = "zeta";
            field(c, d, "zeta", surface(c.b(0.8)), lenUnit(c), "sea_surface_height", [&](size_t) { return c.dfine(-3, 3); });
            term("eta", "zeta");
        }
        term("s", d.s);
        term("C", "Cs");
        term("depth", "h");
        term("depth_c", "hc");
        break;
    }
    }
    if (!terms.empty())
        attr(d.ds, d.zname, "formula_terms", terms);

    auto zOf = [&](size_t k) {
        for (auto& n : d.vshape) {
            if (n == d.zname)
                break;
            k /= d.len(n);
        }
        return k % d.nz;
    };
    if (o.extras) {
        if (pressureKind(d.kind)) {
            if (wantInt) {
                if (d.ps.empty())
                    mkPs(true);
                d.temp = "T";
                U tu = c.pick<U>({{"K", 1, 0}, {"Celsius", 1, T0}});
                field(c, d, "T", d.vshape, tu, "air_temperature", [&](size_t) { return c.dfine(200, 300); });
                if (c.b()) {
                    d.q = "q";
                    field(c, d, "q", d.vshape, c.pick<U>({{"1", 1, 0}, {"g/kg", 1e-3, 0}}), "specific_humidity", [&](size_t) { return c.dfine(0, 0.02); });
                }
                d.topo = "sgp";
                d.topoIsGeopotential = true;
                strs s = {X, Y};
                if (d.ne)
                    s.push_back("ens");
                if (d.nt && c.b(0.3))
                    s.push_back("time");
                field(c, d, "sgp", s, {"m^2/s^2", 1, 0}, "surface_geopotential", [&](size_t) { return c.dfine(0, 15000); });
            }
            if (d.nz > 1 && c.b(0.15)) {
                d.airp = "p3";
                field(c, d, "p3", d.vshape, presUnit(c), c.picks({"air_pressure", "pressure"}), [&](size_t k) {
                    double z = zOf(k);
                    return 50 + 750 * ((down ? d.nz - 1 - z : z) + c.dfine(0.1, 0.9)) / d.nz;
                });
            }
            if (d.nz > 1 && c.b(0.15)) {
                d.gph = "z3";
                field(c, d, "z3", d.vshape, lenUnit(c), "geopotential_height", [&](size_t k) {
                    double z = zOf(k);
                    return 15000 * ((down ? z : d.nz - 1 - z) + c.dfine(0.1, 0.9)) / d.nz;
                });
            }
        }
        if (d.topo.empty() && d.kind < DEPTH && c.b(0.6)) {
            d.topo = "topo";
            int w = c.w({2, 2, 1});
            d.topoIsGeopotential = w == 1;
            field(c, d, "topo", surface(c.b(0.2)), w == 1 ? U{"m^2/s^2", 1, 0} : lenUnit(c), w == 0 ? "surface_altitude" : w == 1 ? "surface_geopotential" : "altitude",
                  [&](size_t) { return w == 1 ? c.dfine(0, 20000) : c.dfine(0, 2000); }, fillP);
        }
    }
    c.label(kindName(d.kind));
    return d;
}

inline void describe(Case& c, const VD& d)
{
    c.show() << kindName(d.kind) << " nx=" << d.nx << " ny=" << d.ny << " nz=" << d.nz << " ne=" << d.ne << " nt=" << d.nt << (d.unlim ? " (records)" : "");
    for (auto& f : d.f) {
        c.show() << "; " << f.first << "(";
        for (auto& s : f.second.shape)
            c.show() << s << " ";
        c.show() << ") [" << f.second.unit << "]";
        if (f.second.v.size() <= 6)
            c.show() << "=" << vec(f.second.v);
    }
    c.show() << "\n";
}

} // namespace vert
