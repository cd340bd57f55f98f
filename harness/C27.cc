// C27: vertical velocity from the continuity equation on hybrid levels.
// LINK: -lproj
#include "vert.h"
#include "noprojdb.h"

#include "fimex/CDMProcessor.h"
#include "fimex/interpolation.h"
#include "fimex/coordSys/CoordinateSystem.h"

using namespace MetNoFimex;
using namespace fx;
using namespace cf;
using namespace vert;
using pbt::Case;

namespace {

const double RADIUS = MIFI_EARTH_RADIUS_M;
const double R = RS / MD;

//! one column of fields, index x + nx*(y + ny*z); all in SI units
struct In
{
    size_t nx, ny, nz;
    dvec gx, gy;         // signed distance to the next point along the axis
    dvec ap, b;          // full levels, top first
    dvec zs, ps, u, v, t; // zs in m
};

struct Out
{
    dvec w, tol;
};

//! half levels: the surface is (0, 1), the others follow from the full levels
void halfLevels(const In& in, dvec& ah, dvec& bh)
{
    ah.assign(in.nz + 1, 0.);
    bh.assign(in.nz + 1, 0.);
    bh[in.nz] = 1;
    for (size_t k = in.nz - 1; k > 0; --k) {
        ah[k] = 2 * in.ap[k] - ah[k + 1];
        bh[k] = 2 * in.b[k] - bh[k + 1];
    }
}

Out reference(const In& in)
{
    const size_t nx = in.nx, ny = in.ny, nz = in.nz, nh = nx * ny;
    dvec ah, bh;
    halfLevels(in, ah, bh);
    Out o;
    o.w.assign(nh * nz, 0.);
    o.tol.assign(nh * nz, 1e-7);
    auto half = [&](size_t k, size_t p) { return ah[k] + bh[k] * in.ps[p]; };
    auto dp = [&](size_t k, size_t p) { return half(k + 1, p) - half(k, p); };
    // geopotential of the full levels
    dvec phi(nh * nz);
    for (size_t p = 0; p < nh; ++p) {
        double s = in.zs[p] * G;
        for (size_t k = nz; k-- > 0;) {
            const double rt = R * in.t[p + nh * k];
            const double dl = k == 0 ? 0 : std::log(half(k + 1, p) / half(k, p));
            const double al = k == 0 ? std::log(2.) : 1 - half(k, p) * dl / dp(k, p);
            phi[p + nh * k] = s + rt * al;
            s += rt * dl;
        }
    }
    for (size_t y = 1; y + 1 < ny; ++y)
        for (size_t x = 1; x + 1 < nx; ++x) {
            const size_t p = x + nx * y;
            double sum = 0, asum = 0;
            for (size_t k = 1; k < nz; ++k) {
                auto fu = [&](size_t q) { return in.gy[q] * in.u[q + nh * k] * dp(k, q); };
                auto fv = [&](size_t q) { return in.gx[q] * in.v[q + nh * k] * dp(k, q); };
                const double area = 2 * in.gx[p] * in.gy[p];
                const double div = (fu(p + 1) - fu(p - 1) + fv(p + nx) - fv(p - nx)) / area;
                const double adiv = (std::fabs(fu(p + 1)) + std::fabs(fu(p - 1)) + std::fabs(fv(p + nx)) + std::fabs(fv(p - nx))) / std::fabs(area);
                const size_t i = p + nh * k;
                const double dl = std::log(half(k + 1, p) / half(k, p)), al = 1 - half(k, p) * dl / dp(k, p);
                const double f = R * in.t[i] / dp(k, p);
                const double w1 = f * (dl * sum + al * div), a1 = std::fabs(f) * (std::fabs(dl) * asum + std::fabs(al) * adiv);
                const double gradX = (phi[i + 1] - phi[i - 1]) / (2 * in.gx[p]), gradY = (phi[i + nx] - phi[i - nx]) / (2 * in.gy[p]);
                const double a2 = std::fabs(in.u[i]) * (std::fabs(phi[i + 1]) + std::fabs(phi[i - 1])) / std::fabs(2 * in.gx[p]) +
                                  std::fabs(in.v[i]) * (std::fabs(phi[i + nx]) + std::fabs(phi[i - nx])) / std::fabs(2 * in.gy[p]);
                o.w[i] = (w1 + in.u[i] * gradX + in.v[i] * gradY) / G;
                o.tol[i] = 1e-7 + (3e-6 * (a1 + a2) + 5e-4 * (std::fabs(in.u[i] * gradX) + std::fabs(in.v[i] * gradY))) / G;
                sum += div;
                asum += adiv;
            }
        }
    for (size_t k = 1; k < nz; ++k)
        for (size_t y = 0; y < ny; ++y)
            for (size_t x = 0; x < nx; ++x) {
                const size_t X = std::min(std::max<size_t>(x, 1), nx - 2), Y = std::min(std::max<size_t>(y, 1), ny - 2);
                o.w[x + nx * (y + ny * k)] = o.w[X + nx * (Y + ny * k)];
                o.tol[x + nx * (y + ny * k)] = o.tol[X + nx * (Y + ny * k)];
            }
    return o;
}

//! full levels from half levels, top first: pressure grows downwards for every surface pressure above 400 hPa
void genLevels(Case& c, size_t nz, dvec& ap, dvec& b)
{
    dvec ah(nz + 1, 0.), bh(nz + 1, 0.);
    bh[nz] = 1;
    dvec s; // increasing in (0, 1)
    for (size_t k = 1; k < nz; ++k)
        s.push_back((k + c.dfine(-0.3, 0.3)) / nz);
    const double amp = c.pick({0., 1., 0.6});
    for (size_t k = 1; k < nz; ++k) {
        bh[k] = s[k - 1];
        ah[k] = amp * 30000 * s[k - 1] * (1 - s[k - 1]);
    }
    ap.resize(nz);
    b.resize(nz);
    for (size_t k = 0; k < nz; ++k) {
        ap[k] = (ah[k] + ah[k + 1]) / 2;
        b[k] = (bh[k] + bh[k + 1]) / 2;
    }
}

void angleCheck(Case& c, const std::string& what, const std::vector<double>& got, const Out& ref)
{
    c.check(got.size() == ref.w.size(), what + ": size " + std::to_string(got.size()) + " expected " + std::to_string(ref.w.size()));
    for (size_t k = 0; k < got.size(); ++k) {
        const double g = got[k], r = ref.w[k];
        if (std::isnan(r) ? !std::isnan(g) : !(std::fabs(g - r) <= ref.tol[k] + 1e-5 * std::fabs(r)))
            c.fail(what + "[" + std::to_string(k) + "] = " + g17(g) + " expected " + g17(r) + " tol " + g17(ref.tol[k]));
    }
}

std::vector<float> f32(const dvec& d)
{
    return std::vector<float>(d.begin(), d.end());
}
dvec rnd(dvec d)
{
    for (auto& x : d)
        x = (float)x;
    return d;
}

In genIn(Case& c)
{
    In in;
    in.nx = c.i(3, 6);
    in.ny = c.i(3, 6);
    in.nz = c.i(1, 6);
    const size_t nh = in.nx * in.ny, n = nh * in.nz;
    genLevels(c, in.nz, in.ap, in.b);
    const double d = c.pick({1000., 10000., 100000.});
    for (size_t k = 0; k < nh; ++k) {
        in.gx.push_back(d * c.dfine(0.8, 1.2));
        in.gy.push_back(d * c.dfine(0.8, 1.2));
        in.zs.push_back(c.dfine(-50, 1500));
        in.ps.push_back(100 * c.dfine(850, 1040));
    }
    const double wind = c.pick({0., 1., 30.});
    for (size_t k = 0; k < n; ++k) {
        in.u.push_back(wind * c.dfine(-1, 1));
        in.v.push_back(wind * c.dfine(-1, 1));
        in.t.push_back(c.dfine(200, 310));
    }
    for (dvec* q : {&in.gx, &in.gy, &in.zs, &in.ps, &in.u, &in.v, &in.t})
        *q = rnd(*q);
    return in;
}

std::vector<float> compute(Case& c, const In& in, double dx, double dy)
{
    std::vector<float> w(in.nx * in.ny * in.nz, 1234.f), gx = f32(in.gx), gy = f32(in.gy), zs = f32(in.zs), ps = f32(in.ps), u = f32(in.u), v = f32(in.v),
                       t = f32(in.t);
    c.check(mifi_compute_vertical_velocity(in.nx, in.ny, in.nz, dx, dy, gx.data(), gy.data(), in.ap.data(), in.b.data(), zs.data(), ps.data(), u.data(), v.data(),
                                           t.data(), w.data()) == MIFI_OK, "status");
    return w;
}

void functionCase(Case& c)
{
    In in = genIn(c);
    c.show() << in.nx << "x" << in.ny << "x" << in.nz << " ap=" << vec(in.ap) << " b=" << vec(in.b) << " u=" << vec(in.u);
    const double dx = c.pick({1., 0.1, 5000.}), dy = c.pick({1., 0.1, 5000.});
    auto w = compute(c, in, dx, dy);
    Out ref = reference(in);
    angleCheck(c, "w", dvec(w.begin(), w.end()), ref);
    bool any = false;
    for (double x : ref.w)
        any |= std::fabs(x) > 1e-3;
    c.label(in.nz == 1 ? "one level" : any ? "moving" : "calm");
    if (any && in.nz > 1)
        c.nontrivial();
}

// no wind: no vertical velocity; opposite wind: opposite vertical velocity; superposition
void linearCase(Case& c)
{
    In in = genIn(c), in2 = in, both = in;
    const double s = c.pick({0., -1., 2., 0.5});
    for (size_t k = 0; k < in.u.size(); ++k) {
        in2.u[k] = (float)c.dfine(-20, 20);
        in2.v[k] = (float)c.dfine(-20, 20);
        both.u[k] = (float)(in.u[k] + s * in2.u[k]);
        both.v[k] = (float)(in.v[k] + s * in2.v[k]);
    }
    c.show() << in.nx << "x" << in.ny << "x" << in.nz << " s=" << s;
    auto a = compute(c, in, 1, 1), b = compute(c, in2, 1, 1), d = compute(c, both, 1, 1);
    Out ra = reference(in), rb = reference(in2), rd = reference(both);
    for (size_t k = 0; k < a.size(); ++k)
        c.check(std::fabs(a[k] + s * b[k] - d[k]) <= 2 * (ra.tol[k] + std::fabs(s) * rb.tol[k] + rd.tol[k]) + 1e-5 * std::fabs(d[k]), "superposition at " + std::to_string(k));
    In calm = in;
    calm.u.assign(calm.u.size(), 0.);
    calm.v.assign(calm.v.size(), 0.);
    for (float x : compute(c, calm, 1, 1))
        c.check(std::fabs(x) < 1e-9, "vertical velocity " + g17(x) + " without wind");
    if (in.nz > 1)
        c.nontrivial();
}

// too small for a derivative: refused, never uninitialised
void smallCase(Case& c)
{
    const size_t nx = c.i(1, 4), ny = c.i(1, 4), nz = c.i(1, 3);
    c.assume(nx < 3 || ny < 3);
    const size_t nh = nx * ny, n = nh * nz;
    std::vector<float> g(nh, 1000.f), zs(nh, 0.f), ps(nh, 1e5f), u(n, 1.f), t(n, 280.f), w(n, 77.f);
    dvec ap, b;
    genLevels(c, nz, ap, b);
    c.show() << nx << "x" << ny << "x" << nz;
    const size_t s = mifi_compute_vertical_velocity(nx, ny, nz, 1, 1, g.data(), g.data(), ap.data(), b.data(), zs.data(), ps.data(), u.data(), u.data(), t.data(), w.data());
    if (s == MIFI_OK)
        for (float x : w)
            c.check(std::fabs(x) < 50, "uninitialised output");
    c.nontrivial();
}

double angle(double lat0, double lon0, double lat1, double lon1)
{
    const double r = M_PI / 180, a = std::sin((lat1 - lat0) * r / 2), b = std::sin((lon1 - lon0) * r / 2);
    return 2 * std::asin(std::sqrt(a * a + std::cos(lat0 * r) * std::cos(lat1 * r) * b * b));
}

void processorCase(Case& c)
{
    VD d;
    d.kind = HYB_AP;
    d.ds.r = std::make_shared<MemReader>();
    d.nx = c.i(3, 5);
    d.ny = c.i(3, 5);
    d.nz = c.i(1, 4);
    d.ne = c.b(0.2) ? c.i(1, 2) : 0;
    d.nt = c.b(0.8) ? c.i(1, 3) : 0;
    d.unlim = d.nt && c.b(0.8);
    Proj p = genProj(c, LATLON | STERE | ROT | LCC);
    const bool ll = p.kind == "latitude_longitude";
    const bool downX = c.b(0.2), downY = c.b(0.3), up = c.b(0.3); // up: the lowest level first
    auto ax = [&](size_t n, double st, double s, bool down) {
        dvec v;
        for (size_t k = 0; k < n; ++k)
            v.push_back(st + s * k);
        if (down)
            std::reverse(v.begin(), v.end());
        return v;
    };
    const double step = p.degree ? c.pick({0.1, 0.5, 2.}) : c.pick({5000., 25000., 100000.});
    dvec xv = ll ? ax(d.nx, c.pick({5., -170., 100.}), step, downX) : ax(d.nx, p.cx, step, downX);
    dvec yv = ll ? ax(d.ny, c.pick({50., -40., 0.}), step, downY) : ax(d.ny, p.cy, step, downY);
    addGrid(d.ds, p, xv, yv);
    CDM& cdm = d.ds.r->cdm();
    const std::string X = d.ds.x.name, Y = d.ds.y.name;
    // longitude and latitude of the points
    dvec lon, lat;
    Pj pj(p.proj4, p.latlong());
    for (size_t y = 0; y < d.ny; ++y)
        for (size_t x = 0; x < d.nx; ++x) {
            double lo = xv[x], la = yv[y];
            if (!ll)
                pj.fwd(lo, la);
            lon.push_back(lo);
            lat.push_back(la);
        }
    std::string coords;
    if (!ll) {
        addVar(d.ds, "longitude", CDM_DOUBLE, {X, Y}, lon, false);
        addVar(d.ds, "latitude", CDM_DOUBLE, {X, Y}, lat, false);
        attr(d.ds, "longitude", "units", "degrees_east");
        attr(d.ds, "latitude", "units", "degrees_north");
        attr(d.ds, "longitude", "standard_name", "longitude");
        attr(d.ds, "latitude", "standard_name", "latitude");
        coords = c.picks({"longitude latitude", "latitude longitude"});
    }
    if (d.nt)
        addAxis(d.ds, {"time", ax(d.nt, 0, 6, false), "hours since 2020-01-01 00:00:00"}, d.unlim);
    if (d.ne) {
        addAxis(d.ds, {"ens", ax(d.ne, 0, 1, false), "1"}, false);
        attr(d.ds, "ens", "standard_name", "realization");
    }
    cdm.addDimension(CDMDimension(d.zname, d.nz));
    dvec ap, b;
    genLevels(c, d.nz, ap, b);
    if (up) {
        std::reverse(ap.begin(), ap.end());
        std::reverse(b.begin(), b.end());
    }
    auto lev = [&](const std::string& name, const U& u, const std::string& sn, const dvec& m) { field(c, d, name, strs(1, d.zname), u, sn, [&](size_t k) { return m[k]; }); };
    lev(d.zname, {"1", 1, 0}, "atmosphere_hybrid_sigma_pressure_coordinate", b);
    lev("b", c.pick<U>({{"1", 1, 0}, {"", 1, 0}}), "", b);
    const U pa = c.pick<U>({{"Pa", 1, 0}, {"hPa", 100, 0}, {"mbar", 100, 0}}), pa2 = c.pick<U>({{"Pa", 1, 0}, {"hPa", 100, 0}});
    lev("ap", pa, "", ap);
    attr(d.ds, d.zname, "formula_terms", "ap: ap b: b ps: ps");
    strs shape = {X, Y, d.zname}, sfc = {X, Y};
    if (d.ne)
        shape.push_back("ens");
    if (d.ne && c.b(0.7))
        sfc.push_back("ens");
    if (d.nt)
        shape.push_back("time");
    if (d.nt && c.b(0.8))
        sfc.push_back("time");
    const double fillP = c.b(0.15) ? 0.05 : 0;
    const double wind = c.pick({1., 30., 30.});
    const U ms = c.pick<U>({{"m/s", 1, 0}, {"km/h", 1 / 3.6, 0}, {"m s-1", 1, 0}}), ms2 = c.pick<U>({{"m/s", 1, 0}, {"knot", 1852. / 3600, 0}});
    const U K = c.pick<U>({{"K", 1, 0}, {"Celsius", 1, T0}});
    const std::string U_ = c.picks({"x_wind_ml", "u"}), V_ = c.picks({"y_wind_ml", "v"}), T_ = c.picks({"air_temperature_ml", "t"});
    const bool grid = c.b(0.3);
    std::vector<std::function<void()>> jobs;
    jobs.push_back([&] { field(c, d, U_, shape, ms, grid ? "grid_eastward_wind" : "x_wind", [&](size_t) { return wind * c.dfine(-1, 1); }, fillP, c.b(0.3)); });
    jobs.push_back([&] { field(c, d, V_, shape, ms2, grid ? "grid_northward_wind" : "y_wind", [&](size_t) { return wind * c.dfine(-1, 1); }, 0, c.b(0.3)); });
    jobs.push_back([&] { field(c, d, T_, shape, K, "air_temperature", [&](size_t) { return c.dfine(200, 310); }, 0, c.b(0.3)); });
    jobs.push_back([&] { field(c, d, "ps", sfc, pa2, "surface_air_pressure", [&](size_t) { return 100 * c.dfine(850, 1040); }, 0, c.b(0.3)); });
    const int oro = c.i(0, 2);
    const U geo = oro == 0 ? c.pick<U>({{"m", 1, 0}, {"km", 1000, 0}}) : oro == 1 ? U{"m^2/s^2", 1 / 9.80665, 0} : U{"m", 1, 0};
    jobs.push_back([&] {
        field(c, d, "orog", {X, Y}, geo, oro == 0 ? "surface_altitude" : oro == 1 ? "surface_geopotential" : c.picks({"altitude", "geopotential_height"}),
              [&](size_t) { return c.dfine(0, 2000); }, 0, c.b(0.3));
    });
    // distractors: fields which do not belong to the wind
    const bool noise = c.b(0.3);
    if (noise) {
        addAxis(d.ds, {"plev", {100, 500, 850}, "hPa"}, false);
        jobs.push_back([&] {
            dvec v;
            for (size_t k = 0; k < 3 * d.nx * d.ny; ++k)
                v.push_back(c.i(0, 15000));
            addVar(d.ds, "gph_pl", CDM_FLOAT, {X, Y, "plev"}, v);
            attr(d.ds, "gph_pl", "standard_name", "geopotential_height");
            attr(d.ds, "gph_pl", "units", "m");
        });
        jobs.push_back([&] {
            dvec v;
            for (size_t k = 0; k < d.nx * d.ny; ++k)
                v.push_back(c.i(250, 300));
            addVar(d.ds, "t2m", CDM_FLOAT, {X, Y}, v);
            attr(d.ds, "t2m", "standard_name", "air_temperature");
            attr(d.ds, "t2m", "units", "K");
        });
    }
    for (size_t k : c.perm(jobs.size()))
        jobs[k]();
    if (!coords.empty())
        for (auto& n : {U_, V_, T_, std::string("ps"), std::string("orog")})
            attr(d.ds, n, "coordinates", coords);
    if (!coords.empty() && noise)
        for (const char* n : {"gph_pl", "t2m"})
            attr(d.ds, n, "coordinates", coords);

    c.show() << p.kind << " " << vec(xv) << vec(yv) << " shape " << vec(shape) << " nz=" << d.nz << (up ? " upwards" : "") << " ne=" << d.ne << " nt=" << d.nt << (d.unlim ? "U" : "")
             << " oro=" << oro << (noise ? " noise" : "") << " ps" << vec(sfc) << " units " << ms.unit << "," << ms2.unit << "," << K.unit << "," << pa.unit << "," << pa2.unit;
    auto proc = std::make_shared<CDMProcessor>(d.ds.r);
    const std::string W = "upward_air_velocity_ml";
    for (auto& v : d.ds.r->getCDM().getVariables())
        c.check(v.getName() != W, "already there");
    proc->addVerticalVelocity();
    const CDM& pc = proc->getCDM();
    c.check(pc.hasVariable(W), "variable has not been added");
    c.check(pc.getVariable(W).getShape() == shape, "shape " + vec(pc.getVariable(W).getShape()));
    c.check(isFloat(pc.getVariable(W).getDataType()), "type");
    c.check(pc.getAttribute(W, "standard_name").getStringValue() == "upward_air_velocity", "standard_name");
    c.check(pc.getUnits(W) == "m/s", "units " + pc.getUnits(W));
    auto css = listCoordinateSystems(proc);
    auto csU = findCompleteCoordinateSystemFor(css, U_), csW = findCompleteCoordinateSystemFor(css, W);
    c.check(csU && csW && csU->id() == csW->id(), "coordinate system of the new variable");
    c.check(csW->hasProjection() == csU->hasProjection(), "projection of the new variable");

    // signed distances along the axes
    In in;
    in.nx = d.nx;
    in.ny = d.ny;
    in.nz = d.nz;
    const size_t nh = d.nx * d.ny;
    for (size_t y = 0; y < d.ny; ++y)
        for (size_t x = 0; x < d.nx; ++x) {
            const size_t Xn = std::min(x, d.nx - 2), Yn = std::min(y, d.ny - 2), q = Xn + d.nx * Yn;
            in.gx.push_back((downX ? -1 : 1) * RADIUS * angle(lat[q], lon[q], lat[q + 1], lon[q + 1]));
            in.gy.push_back((downY ? -1 : 1) * RADIUS * angle(lat[q], lon[q], lat[q + d.nx], lon[q + d.nx]));
        }
    dvec want, tol;
    bool any = false;
    Pos q;
    for (q.t = 0; q.t < std::max<size_t>(d.nt, 1); ++q.t)
        for (q.e = 0; q.e < std::max<size_t>(d.ne, 1); ++q.e) {
            in.ap.clear(), in.b.clear(), in.zs.clear(), in.ps.clear(), in.u.clear(), in.v.clear(), in.t.clear();
            for (size_t k = 0; k < d.nz; ++k) {
                q.z = up ? d.nz - 1 - k : k;
                in.ap.push_back(d.at("ap", q));
                in.b.push_back(d.at("b", q));
                for (q.y = 0; q.y < d.ny; ++q.y)
                    for (q.x = 0; q.x < d.nx; ++q.x) {
                        in.u.push_back(d.at(U_, q));
                        in.v.push_back(d.at(V_, q));
                        in.t.push_back(d.at(T_, q));
                        if (k == 0) {
                            in.zs.push_back(d.at("orog", q));
                            in.ps.push_back(d.at("ps", q));
                        }
                    }
            }
            Out o = reference(in);
            for (size_t k = 0; k < d.nz; ++k) {
                const size_t z = up ? d.nz - 1 - k : k;
                want.insert(want.end(), o.w.begin() + z * nh, o.w.begin() + (z + 1) * nh);
                tol.insert(tol.end(), o.tol.begin() + z * nh, o.tol.begin() + (z + 1) * nh);
            }
            for (double x : o.w)
                any |= std::fabs(x) > 1e-3;
        }
    const size_t slice = d.unlim ? nh * d.nz * std::max<size_t>(d.ne, 1) : want.size();
    auto clean = [&](dvec v) {
        for (auto& x : v)
            if (x > 9e36)
                x = NAN;
        return v;
    };
    std::vector<size_t> order = c.perm(d.unlim ? d.nt : 1);
    for (size_t t : order) {
        Out o = {dvec(want.begin() + t * slice, want.begin() + (t + 1) * slice), dvec(tol.begin() + t * slice, tol.begin() + (t + 1) * slice)};
        angleCheck(c, "slice " + std::to_string(t), clean(rawValues(proc->getDataSlice(W, t))), o);
    }
    angleCheck(c, "data", clean(rawValues(proc->getData(W))), {want, tol});
    // the other variables are unchanged
    same(c, "x wind", rawValues(proc->getData(U_)), rawValues(d.ds.r->getData(U_)));
    c.label(p.kind);
    c.label(d.ne > 1 ? "ensemble" : "no ensemble");
    if (downX || downY)
        c.label("descending axis");
    if (any && d.nz > 1)
        c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    noProjDatabase();
    pbt::Runner r("C27", "a case is non-trivial if it has at least two levels and a vertical velocity above 1 mm/s (small grids: every case)");
    r.init(quiet);
    r.assumption("levels in the ap/b form whose half levels are monotonous in pressure, orography without time");
    r.sub("function", functionCase, 6000, 60000);
    r.sub("linear", linearCase, 3000, 30000);
    r.sub("small", smallCase, 300, 2000);
    r.sub("processor", processorCase, 5000, 60000);
    return r.main(argc, argv);
}
