// C21: fields derived with the pressure of each point follow from the fields and the vertical coordinate by physics
#include "vert.h"
#include "fimex/CDMPressureConversions.h"
#include "fimex/coordSys/Projection.h"
using namespace vert;
using namespace pbt;

static void derived(Case& c)
{
    Opt o;
    o.kinds = {PRES, HYB_AP, HYB_A, SIGMA, LNP};
    o.extras = false;
    o.maxZ = 4;
    VD d = genVD(c, o);
    enum { THETA = 1, RH = 2, OMEGA = 4, P4D = 8 };
    const int mask = c.pick({1, 2, 4, 8, 3, 5, 6, 7, 15, 12});
    if (mask & P4D)
        c.assume(d.nt > 0 && d.ne <= 1);
    const bool undef = d.nanPs || c.b(0.2);
    const double fp = undef && !(mask & RH) ? 0.1 : 0;
    if (mask & RH)
        c.assume(!d.nanPs);
    const U tu = c.pick<U>({{"K", 1, 0}, {"Celsius", 1, T0}});
    std::string order[3];
    if (mask & THETA)
        field(c, d, "theta", d.vshape, tu, "air_potential_temperature", [&](size_t) { return c.dfine(220, 420); }, fp, c.b(0.3));
    const U qu = c.pick<U>({{"1", 1, 0}, {"g/kg", 1e-3, 0}});
    auto addT = [&]() { field(c, d, "T", d.vshape, c.pick<U>({{"K", 1, 0}, {"Celsius", 1, T0}}), "air_temperature", [&](size_t) { return c.dfine(210, 310); }, fp, c.b(0.3)); };
    const bool otherT = (mask & RH) && !(mask & OMEGA) && c.b(0.3);
    const bool otherFirst = c.b();
    const bool otherLevels = c.b();
    auto addOther = [&]() { // a temperature not on the levels
        if (otherLevels) {
            cf::Axis a;
            a.name = "zq";
            a.units = "hPa";
            for (size_t k = 0; k < d.nz; ++k)
                a.v.push_back(200. + 100 * k);
            cf::addAxis(d.ds, a, false);
            cf::attr(d.ds, "zq", "standard_name", "air_pressure");
            cf::attr(d.ds, "zq", "positive", "down");
            strs shape = d.vshape;
            size_t n = 1;
            for (auto& s : shape) {
                n *= d.len(s);
                if (s == d.zname)
                    s = "zq";
            }
            cf::addVar(d.ds, "Tq", CDM_DOUBLE, shape, dvec(n, 231.5));
            cf::attr(d.ds, "Tq", "units", "K");
            cf::attr(d.ds, "Tq", "standard_name", "air_temperature");
            c.label("temperature on other levels");
            return;
        }
        field(c, d, "T2m", strs({d.ds.x.name, d.ds.y.name}), {"K", 1, 0}, "air_temperature", [&](size_t) { return c.dfine(210, 310); });
    };
    if (otherT && otherFirst)
        addOther();
    if (mask & (RH | OMEGA))
        addT();
    if (otherT && !otherFirst)
        addOther();
    if (mask & RH)
        field(c, d, "q", d.vshape, qu, "specific_humidity", [&](size_t) { return c.b(0.2) ? c.dfine(0, 0.2) : c.dfine(0, 0.01); }, 0, c.b(0.3));
    const U ou = c.pick<U>({{"Pa/s", 0.01, 0}, {"hPa/s", 1, 0}});
    if (mask & OMEGA)
        field(c, d, "om", d.vshape, ou, c.picks({"omega", "lagrangian_tendency_of_air_pressure", "vertical_air_velocity_expressed_as_tendency_of_pressure"}),
              [&](size_t) { return c.dfine(-0.05, 0.05); }, fp, c.b(0.3));
    field(c, d, "other", d.vshape, {"m", 1, 0}, "", [&](size_t) { return c.dfine(0, 10); });
    describe(c, d);
    std::vector<std::string> ops;
    for (size_t k : c.perm(4)) {
        if (k == 0 && (mask & THETA))
            ops.push_back("theta2T;air_temperature=Tnew");
        if (k == 1 && (mask & RH))
            ops.push_back(c.b() ? "specific2relative" : "specific2relative;relative_humidity=relative_humidity");
        if (k == 2 && (mask & OMEGA))
            ops.push_back(c.b() ? "omega2vwind" : "omega2vwind;omega=om;air_temperature=T;upward_air_velocity=upward_air_velocity");
        if (k == 3 && (mask & P4D))
            ops.push_back(c.b() ? "add4Dpressure" : "add4Dpressure;air_pressure4D=air_pressure4D");
    }
    for (auto& s : ops)
        c.show() << " " << s;
    c.show() << "\n";

    auto r = std::make_shared<CDMPressureConversions>(d.ds.r, ops);
    const CDM& cdm = r->getCDM();
    auto values = [&](const std::string& v, const std::string& unit) {
        c.check(cdm.hasVariable(v), "there is no variable " + v);
        return rawValues(r->getScaledDataInUnit(v, unit)->convertDataType(MIFI_UNDEFINED_D, 1, 0, CDM_DOUBLE, MIFI_UNDEFINED_D, 1, 0));
    };
    // each value of a derived variable, by the names of the dimensions of the derived variable
    size_t defined = 0;
    auto compare = [&](const std::string& v, const std::string& unit, const std::function<double(const Pos&)>& f, double rel, double abs, bool sameShape) {
        dvec got = values(v, unit);
        const strs shape = cdm.getVariable(v).getShape();
        if (sameShape)
            c.check(shape == d.vshape, v + " has another shape");
        size_t n = 1;
        for (auto& s : shape)
            n *= d.len(s);
        c.check(got.size() == n, v + " has " + std::to_string(got.size()) + " values, expected " + std::to_string(n));
        d.all([&](const Pos& p) {
            size_t off = 0, m = 1;
            for (auto& s : shape) {
                off += m * d.pos(s, p);
                m *= d.len(s);
            }
            double want = f(p);
            if (!std::isnan(want))
                defined++;
            c.check(close(got[off], want, rel, abs),
                    v + " at x=" + std::to_string(p.x) + " y=" + std::to_string(p.y) + " z=" + std::to_string(p.z) + " e=" + std::to_string(p.e) + " t=" + std::to_string(p.t) + " is " + num(got[off]) + ", expected " + num(want));
        });
    };
    auto horizontal = [&](const std::string& v, const std::string& from) {
        std::string id0, id1;
        auto css = listCoordinateSystems(d.ds.r);
        if (auto cs = findCompleteCoordinateSystemFor(css, from))
            id0 = cs->hasProjection() ? cs->getProjection()->getProj4String() : "-";
        auto css1 = listCoordinateSystems(r);
        if (auto cs = findCompleteCoordinateSystemFor(css1, v))
            id1 = cs->hasProjection() ? cs->getProjection()->getProj4String() : "-";
        c.check(id0 == id1, v + " is in the projection '" + id1 + "', but " + from + " in '" + id0 + "'");
    };
    auto named = [&](const std::string& v, const std::string& name) {
        CDMAttribute a;
        c.check(cdm.getAttribute(v, "standard_name", a) && a.getStringValue() == name, v + " does not have the standard_name " + name);
    };
    // gas constant of dry air / specific heat at constant pressure
    const double Rcp = RS / MD / 1004.;
    if (mask & THETA) {
        c.check(!cdm.hasVariable("theta"), "theta is still there");
        compare("Tnew", "K", [&](const Pos& p) { return d.at("theta", p) * std::pow(d.pressure(p) / 1000, Rcp); }, 2e-5, 1e-4, true);
        horizontal("Tnew", "theta");
        named("Tnew", "air_temperature");
    }
    if (mask & RH) {
        compare("relative_humidity", "1", [&](const Pos& p) {
            double t = d.at("T", p), es = 610.78 * std::exp(17.269 * (t - 273.16) / (t - 35.86));
            double rh = d.at("q", p) * d.pressure(p) * 100 / (0.622 * es);
            return std::min(1., std::max(0., rh));
        }, 5e-4, 5e-5, true); // ratio of molar masses is 0.622 or 0.62198; resolution of the result is 1/25000
        horizontal("relative_humidity", "q");
        named("relative_humidity", "relative_humidity");
    }
    if (mask & OMEGA) {
        c.check(!cdm.hasVariable("om"), "omega is still there");
        compare("upward_air_velocity", "m/s", [&](const Pos& p) { return -d.at("om", p) * BARO * d.at("T", p) / d.pressure(p); }, 2e-5, 1e-6, true);
        horizontal("upward_air_velocity", "om");
        named("upward_air_velocity", "upward_air_velocity");
    }
    if (mask & P4D) {
        compare("air_pressure4D", "hPa", [&](const Pos& p) { return d.pressure(p); }, 2e-6, 1e-6, false);
        named("air_pressure4D", "air_pressure");
    }
    compare("other", "m", [&](const Pos& p) { return d.at("other", p); }, 1e-7, 0, true);
    c.nontrivial(defined > 1 + d.f["other"].v.size());
}

int main(int argc, char** argv)
{
    Runner r("C21", "a derived variable with more than one defined value");
    r.init(quiet);
    r.assumption("the pressure of a point is that of the CF definition of the vertical coordinate, the formulas and constants those given in the sources' comments");
    r.sub("derived", derived, 10000, 300000);
    return r.main(argc, argv);
}
