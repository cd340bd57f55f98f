// C14: vertical coordinate conversions follow the CF formulas
#include "vert.h"
#include "fimex/CDMProcessor.h"
#include "fimex/vertical_coordinate_transformations.h"
using namespace pbt;
using namespace vert;

static const char* typeName(int t)
{
    return t == MIFI_VINT_PRESSURE ? "pressure" : t == MIFI_VINT_HEIGHT ? "height" : t == MIFI_VINT_ALTITUDE ? "altitude" : "depth";
}
static double tol(int type, double want)
{
    return type == MIFI_VINT_PRESSURE ? 1e-5 * std::fabs(want) + 1e-6 : type == MIFI_VINT_DEPTH ? 1e-5 * std::fabs(want) + 1e-3 : 1e-5 * std::fabs(want) + 0.05;
}
static void compare(Case& c, int type, double got, double want, const VD&, const Pos& p, const std::string& how)
{
    bool ok = std::isnan(want) ? std::isnan(got) : std::fabs(got - want) <= tol(type, want);
    if (!ok) {
        std::ostringstream o;
        o << how << ": " << typeName(type) << " at x=" << p.x << " y=" << p.y << " z=" << p.z << " ens=" << p.e << " time=" << p.t << " is " << num(got) << ", expected " << num(want);
        c.fail(o.str());
    }
}
static void addData(Case& c, VD& d)
{
    std::vector<std::string> shape = d.vshape;
    size_t n = 1;
    for (auto& s : shape)
        n *= d.len(s);
    addVar(d.ds, "v", CDM_FLOAT, shape, dvec(n, 1.));
    (void)c;
}

//! all types: whole field and random slices, the column interface
static void conversions(Case& c)
{
    Opt o;
    for (int k = 0; k < NKINDS; ++k)
        o.kinds.push_back(k);
    VD d = genVD(c, o);
    addData(c, d);
    describe(c, d);
    auto all = listCoordinateSystems(d.ds.r);
    auto cs = findCompleteCoordinateSystemFor(all, "v");
    c.check(!!cs, "no coordinate system for v");
    c.check(cs->hasVerticalTransformation(), "no vertical transformation for v");
    auto vt = cs->getVerticalTransformation();
    const int type = c.pick({MIFI_VINT_PRESSURE, MIFI_VINT_ALTITUDE, MIFI_VINT_HEIGHT, MIFI_VINT_DEPTH});
    c.show() << "to " << typeName(type) << "\n";
    VerticalConverter_p conv;
    if (!d.has(type)) {
        try {
            conv = vt->getConverter(d.ds.r, cs, type);
        } catch (CDMException&) {
        }
        c.label("no conversion");
        c.check(!conv, "a converter for a conversion that is not defined");
        return;
    }
    conv = vt->getConverter(d.ds.r, cs, type);
    c.check(!!conv, "no converter");
    c.label(std::string("to ") + typeName(type) + (type == MIFI_VINT_ALTITUDE && pressureKind(d.kind) ? (d.gph.size() ? " (gph)" : d.canIntegrate() ? " (integrated)" : " (standard)") : ""));
    const strs shape = conv->getShape();
    svec sizes;
    for (auto& s : shape)
        sizes.push_back(d.len(s));
    const int reads = c.i(1, 3);
    for (int r = 0; r < reads; ++r) {
        SliceBuilder sb(shape, sizes);
        svec st(shape.size(), 0), sz = sizes;
        if (r > 0 || c.b()) {
            for (size_t k = 0; k < shape.size(); ++k) {
                st[k] = c.idx(sizes[k]);
                sz[k] = 1 + c.idx(sizes[k] - st[k]);
                sb.setStartAndSize(shape[k], st[k], sz[k]);
            }
        }
        DataPtr data = conv->getDataSlice(sb);
        size_t n = 1;
        for (size_t s : sz)
            n *= s;
        if (!data) {
            // allowed only if nothing is defined
            bool any = false;
            d.all([&](const Pos& p) { any = any || !std::isnan(d.level(type, p)); });
            c.label("no data");
            bool inSlice = false;
            d.all([&](const Pos& p) {
                bool in = true;
                for (size_t k = 0; k < shape.size(); ++k) {
                    size_t q = d.pos(shape[k], p);
                    in = in && (shape[k] == d.zname || (q >= st[k] && q < st[k] + sz[k]));
                }
                inSlice = inSlice || (in && !std::isnan(d.level(type, p)));
            });
            c.check(!inSlice, "no data although values are defined");
            continue;
        }
        c.check(data->size() == n, "got " + std::to_string(data->size()) + " values, expected " + std::to_string(n));
        auto a = data->asDouble();
        size_t cnt = 0;
        d.all([&](const Pos& p) {
            size_t off = 0, m = 1;
            for (size_t k = 0; k < shape.size(); ++k) {
                size_t q = d.pos(shape[k], p);
                if (q < st[k] || q >= st[k] + sz[k])
                    return;
                off += m * (q - st[k]);
                m *= sz[k];
            }
            ++cnt;
            compare(c, type, a[off], d.level(type, p), d, p, "slice");
        });
        c.nontrivial(cnt > 1 && d.nz > 1);
        if (sz != sizes)
            c.label("partial slice");
    }
    // column interface
    bool xyz = std::find(shape.begin(), shape.end(), "ens") == shape.end() || d.ne <= 1;
    if (xyz && !d.nanPs) {
        Pos p{c.idx(d.nx), c.idx(d.ny), 0, 0, d.nt ? c.idx(d.nt) : 0};
        auto col = vt->getConverter(d.ds.r, type, p.t, cs);
        c.check(!!col, "no column converter");
        std::vector<double> l = (*col)(p.x, p.y, p.t);
        c.check(l.size() == d.nz || std::find(shape.begin(), shape.end(), d.zname) == shape.end(), "column of " + std::to_string(l.size()));
        for (size_t k = 0; k < l.size(); ++k) {
            p.z = k;
            compare(c, type, l[k], d.level(type, p), d, p, "column");
        }
    }
}

//! the processor's geopotential height has the shape of the temperature and the altitude of its points
static void geopotentialHeight(Case& c)
{
    Opt o;
    o.kinds = {PRES, HYB_AP, HYB_A, SIGMA, LNP, ALTITUDE, HEIGHT, HYB_H};
    VD d = genVD(c, o);
    c.assume(d.gph.empty());
    c.assume(d.temp.size() || d.ps.empty() || !d.topoIsGeopotential); // surface fields of any shape: not decided here whether they suffice
    if (d.temp.empty()) {
        d.temp = "T";
        field(c, d, "T", d.vshape, {"K", 1, 0}, "air_temperature", [&](size_t) { return c.dfine(200, 300); });
    }
    describe(c, d);
    auto all = listCoordinateSystems(d.ds.r);
    auto cs = findCompleteCoordinateSystemFor(all, "T");
    c.check(!!cs, "no coordinate system for T");
    c.assume(cs->isSimpleSpatialGridded());
    auto proc = std::make_shared<CDMProcessor>(d.ds.r);
    proc->addGeopotentialHeight();
    auto names = proc->getCDM().findVariables("standard_name", "geopotential_height");
    if (!d.has(MIFI_VINT_ALTITUDE)) {
        c.check(names.empty(), "geopotential height without an altitude");
        c.label("no conversion");
        return;
    }
    c.check(names.size() == 1, "no geopotential height");
    c.check(proc->getCDM().getVariable(names[0]).getShape() == d.vshape, "shape differs from the temperature's");
    c.check(proc->getCDM().getUnits(names[0]) == "m", "unit of the geopotential height");
    auto after = listCoordinateSystems(proc);
    auto csT = findCompleteCoordinateSystemFor(after, "T"), csG = findCompleteCoordinateSystemFor(after, names[0]);
    c.check(csT && csG && csT->id() == csG->id(), "the coordinate system differs from the temperature's");
    c.check(csT->hasProjection() == csG->hasProjection(), "the projection differs from the temperature's");
    const size_t recs = d.unlim ? d.nt : 1;
    c.nontrivial(d.nz > 1 && (d.nx > 1 || d.ny > 1));
    for (size_t rec = 0; rec < recs; ++rec) {
        DataPtr data = proc->getDataSlice(names[0], rec);
        bool any = false;
        d.all([&](const Pos& p) { any = any || ((!d.unlim || p.t == rec) && !std::isnan(d.altitude(p))); });
        if (!data || data->size() == 0) {
            c.check(!any, "no data");
            continue;
        }
        size_t n = 1;
        for (auto& s : d.vshape)
            n *= (s == "time" && d.unlim) ? 1 : d.len(s);
        c.check(data->size() == n, "got " + std::to_string(data->size()) + " values, expected " + std::to_string(n));
        auto a = data->asDouble();
        d.all([&](const Pos& p) {
            if (d.unlim && p.t != rec)
                return;
            size_t off = 0, m = 1;
            for (auto& s : d.vshape) {
                if (s == "time" && d.unlim)
                    continue;
                off += m * d.pos(s, p);
                m *= d.len(s);
            }
            compare(c, MIFI_VINT_ALTITUDE, a[off], d.altitude(p), d, p, "geopotential height");
        });
    }
}

//! the C kernels
static void kernels(Case& c)
{
    size_t n = c.i(1, 6);
    auto arr = [&](double lo, double hi) {
        dvec v(n);
        for (double& x : v)
            x = c.dfine(lo, hi);
        return v;
    };
    auto near = [&](double got, double want, double rel, const std::string& what) {
        if (!(std::fabs(got - want) <= rel * std::fabs(want) + 1e-9))
            c.fail(what + ": got " + num(got) + ", expected " + num(want));
    };
    c.nontrivial(n > 1);
    dvec out(n), back(n);
    switch (c.i(0, 6)) {
    case 0: {
        double ptop = c.dfine(0, 100), ps = c.dfine(800, 1050);
        dvec s = arr(0, 1);
        c.show() << "sigma ptop=" << ptop << " ps=" << ps << " " << vec(s);
        c.check(mifi_atmosphere_sigma_pressure(n, ptop, ps, s.data(), out.data()) == MIFI_OK, "status");
        c.check(mifi_atmosphere_pressure_sigma(n, ptop, ps, out.data(), back.data()) == MIFI_OK, "status");
        for (size_t k = 0; k < n; ++k) {
            near(out[k], ptop + s[k] * (ps - ptop), 1e-12, "sigma to pressure");
            near(back[k], s[k], 1e-9, "pressure to sigma");
        }
        break;
    }
    case 1: {
        double p0 = c.dfine(800, 1050), t = c.dfine(200, 310);
        dvec h = arr(-500, 20000);
        c.show() << "barometric p0=" << p0 << " T=" << t << " " << vec(h);
        c.check(mifi_barometric_pressure(n, p0, h.data(), t, out.data()) == MIFI_OK, "status");
        c.check(mifi_barometric_height(n, p0, out.data(), t, back.data()) == MIFI_OK, "status");
        for (size_t k = 0; k < n; ++k) {
            near(out[k], p0 * std::exp(-G * MD * h[k] / (RS * t)), 1e-7, "barometric pressure");
            near(back[k], h[k], 1e-7, "barometric height");
        }
        c.check(mifi_barometric_standard_pressure(n, h.data(), out.data()) == MIFI_OK, "status");
        c.check(mifi_barometric_standard_altitude(n, out.data(), back.data()) == MIFI_OK, "status");
        for (size_t k = 0; k < n; ++k) {
            near(out[k], 1013.25 * std::exp(-G * MD * h[k] / (RS * 288.15)), 1e-7, "standard pressure");
            near(back[k], h[k], 1e-7, "standard altitude");
        }
        break;
    }
    case 2: {
        dvec w = arr(-5, 5), p = arr(5000, 100000), t = arr(200, 310);
        c.show() << "omega w=" << vec(w) << " p=" << vec(p) << " t=" << vec(t);
        c.check(mifi_vertical_wind_to_omega(n, w.data(), p.data(), t.data(), out.data()) == MIFI_OK, "status");
        c.check(mifi_omega_to_vertical_wind(n, out.data(), p.data(), t.data(), back.data()) == MIFI_OK, "status");
        std::vector<float> of(out.begin(), out.end()), pf(p.begin(), p.end()), tf(t.begin(), t.end()), wf(n);
        c.check(mifi_omega_to_vertical_wind_f(n, of.data(), pf.data(), tf.data(), wf.data()) == MIFI_OK, "status");
        for (size_t k = 0; k < n; ++k) {
            near(out[k], -w[k] * G * p[k] * MD / (RS * t[k]), 1e-7, "omega");
            near(back[k], w[k], 1e-9, "vertical wind");
            near(wf[k], w[k], 1e-4, "vertical wind (float)");
        }
        break;
    }
    case 3: {
        float rh = c.dfine(0, 100), t = c.dfine(220, 315), p = c.dfine(20000, 105000);
        c.show() << "humidity rh=" << rh << " t=" << t << " p=" << p;
        float sh = mifi_relative_to_specific_humidity(rh, t, p);
        double es = 610.78 * std::exp(17.269 * (t - 273.16) / (t - 35.86));
        near(sh, rh * 0.01 * es * 0.622 / p, 1e-3, "specific humidity");
        near(mifi_specific_to_relative_humidity(sh, t, p), rh, 1e-3, "relative humidity");
        c.check(mifi_relative_to_specific_humidity(-rh, t, p) == 0, "negative humidity");
        float big = mifi_specific_to_relative_humidity(sh * 1000 + 1, t, p);
        c.check(big == 100, "relative humidity over 100%");
        c.check(mifi_specific_to_relative_humidity(-sh, t, p) == 0, "negative relative humidity");
        break;
    }
    case 4: {
        float t = c.dfine(220, 315), dew = t - c.dfine(0, 40);
        c.show() << "dewpoint t=" << t << " dew=" << dew;
        auto mag = [](double k) { return std::exp(17.625 * (k - T0) / (243.04 + k - T0)); };
        near(mifi_dewpoint_to_relative_humidity(dew, t), 100 * mag(dew) / mag(t), 1e-3, "relative humidity");
        near(mifi_dewpoint_to_relative_humidity(t + 5, t), 100, 1e-6, "supersaturated");
        break;
    }
    case 5: {
        float q = c.dfine(0, 0.04), t = c.dfine(200, 310), p1 = c.dfine(500, 1040), p2 = c.dfine(10, 500);
        c.show() << "virtual temperature q=" << q << " t=" << t << " p=" << p1 << ".." << p2;
        near(mifi_virtual_temperature(q, t), t * (1 + q * (1 / 0.622 - 1)), 1e-6, "virtual temperature");
        near(mifi_barometric_layer_thickness(p1, p2, t), BARO * t * std::log((double)p1 / p2), 1e-5, "layer thickness");
        break;
    }
    default: {
        double h = c.dfine(10, 5000), hc = c.dfine(1, 100), z = c.dfine(-3, 3);
        dvec s = arr(-1, 0), C = arr(-1, 0);
        c.show() << "ocean s h=" << h << " hc=" << hc << " zeta=" << z;
        c.check(mifi_ocean_s_g1_z(n, h, hc, z, s.data(), C.data(), out.data()) == MIFI_OK, "status");
        c.check(mifi_ocean_s_g2_z(n, h, hc, z, s.data(), C.data(), back.data()) == MIFI_OK, "status");
        for (size_t k = 0; k < n; ++k) {
            double S1 = hc * s[k] + (h - hc) * C[k], S2 = (hc * s[k] + h * C[k]) / (hc + h);
            near(out[k], S1 + z * (1 + S1 / h), 1e-9, "s g1");
            near(back[k], z + (z + h) * S2, 1e-9, "s g2");
        }
        double one = -1, zero = 0, r;
        mifi_ocean_s_g1_z(1, h, hc, z, &one, &one, &r);
        near(r, -h, 1e-9, "bottom g1");
        mifi_ocean_s_g2_z(1, h, hc, z, &one, &one, &r);
        near(r, -h, 1e-9, "bottom g2");
        mifi_ocean_s_g1_z(1, h, hc, z, &zero, &zero, &r);
        near(r, z, 1e-9, "surface g1");
        mifi_ocean_s_g2_z(1, h, hc, z, &zero, &zero, &r);
        near(r, z, 1e-9, "surface g2");
    }
    }
}

int main(int argc, char** argv)
{
    Runner r("C14", "the slice has more than one value and more than one level (kernels: more than one value)");
    r.init(quiet);
    r.sub("conversions", conversions, 24000, 400000);
    r.sub("geopotential_height", geopotentialHeight, 8000, 120000);
    r.sub("kernels", kernels, 8000, 100000);
    return r.main(argc, argv);
}
