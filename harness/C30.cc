// C30: WRF output has the grid, times and coordinate systems the WRF model defines
// LINK: libfimex-io-netcdf -lproj -lnetcdf
#include "cf.h"
#include "noprojdb.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/interpolation.h"
#include <time.h>
using namespace fx;
using namespace pbt;
typedef CoordinateAxis CA;
typedef std::vector<std::string> strs;

namespace {
const double R = 6370000, RAD = M_PI / 180;
// ---------------------------------------------------------------- the geometry of WRF (share/module_llxy.F), own formulation
struct Geo
{
    int proj = 1;
    double lat1 = 0, lat2 = 0, clat = 0, clon = 0, slon = 0, moad = 0, plat = 90, plon = 0, dx = 1e4, dy = 1e4;
    double n() const
    {
        if (std::abs(lat1 - lat2) < 0.1)
            return std::sin(std::abs(lat1) * RAD) * (lat1 < 0 ? -1 : 1);
        const double a = std::log(std::cos(lat1 * RAD) / std::cos(lat2 * RAD)), b = std::log(std::tan((45 - lat1 / 2) * RAD) / std::tan((45 - lat2 / 2) * RAD));
        return a / b;
    }
    static void rotate(double ilat, double ilon, double& olat, double& olon, double latNp, double lonNp, double lon0, int dir)
    {
        const double dlam = dir < 0 ? M_PI - lon0 * RAD : lonNp * RAD;
        // dir < 0: from geographic to computational; otherwise back
        const double p = latNp * RAD, la = ilat * RAD, lo = ilon * RAD;
        const double d = dlam;
        const double s = std::cos(p) * std::cos(la) * std::cos(lo - d) + std::sin(p) * std::sin(la);
        const double cl = std::sin(p) * std::cos(la) * std::cos(lo - d) - std::cos(p) * std::sin(la), sl = std::cos(la) * std::sin(lo - d);
        olat = std::asin(std::max(-1., std::min(1., s))) / RAD;
        olon = (std::atan2(sl, cl) - dlam - lon0 * RAD + lonNp * RAD) / RAD;
    }
    void forward(double lat, double lon, double& x, double& y) const
    {
        double dl = std::remainder(lon - slon, 360) * RAD;
        switch (proj) {
        case 1: {
            const double k = n(), rho = R * std::cos(lat1 * RAD) / k * std::pow(std::tan((45 - lat / 2) * RAD) / std::tan((45 - lat1 / 2) * RAD), k);
            x = rho * std::sin(k * dl);
            y = -rho * std::cos(k * dl);
            break;
        }
        case 2: {
            const double h = lat1 < 0 ? -1 : 1, rho = R * (1 + std::sin(std::abs(lat1) * RAD)) * std::tan((45 - h * lat / 2) * RAD);
            x = rho * std::sin(dl);
            y = -h * rho * std::cos(dl);
            break;
        }
        case 3:
            x = R * std::cos(lat1 * RAD) * dl;
            y = R * std::cos(lat1 * RAD) * std::log(std::tan((45 + lat / 2) * RAD));
            break;
        default: {
            double a, o;
            rotate(lat, lon, a, o, plat, plon, slon, -1);
            x = o * RAD * R;
            y = a * RAD * R;
        }
        }
    }
    void inverse(double x, double y, double& lat, double& lon) const
    {
        switch (proj) {
        case 1: {
            const double k = n(), sg = k < 0 ? -1 : 1, rho = sg * std::hypot(x, y), th = std::atan2(sg * x, -sg * y);
            lat = 90 - 2 / RAD * std::atan(std::tan((45 - lat1 / 2) * RAD) * std::pow(rho * k / (R * std::cos(lat1 * RAD)), 1 / k));
            lon = slon + th / k / RAD;
            break;
        }
        case 2: {
            const double h = lat1 < 0 ? -1 : 1, rho = std::hypot(x, y);
            lat = h * (90 - 2 / RAD * std::atan(rho / (R * (1 + std::sin(std::abs(lat1) * RAD)))));
            lon = slon + std::atan2(x, -h * y) / RAD;
            break;
        }
        case 3:
            lon = slon + x / (R * std::cos(lat1 * RAD)) / RAD;
            lat = 2 / RAD * std::atan(std::exp(y / (R * std::cos(lat1 * RAD)))) - 90;
            break;
        default:
            rotate(y / R / RAD, x / R / RAD, lat, lon, plat, plon, slon, 1);
        }
    }
    //! geographic position at di, dj grid lengths from the centre
    void at(double di, double dj, double& lat, double& lon) const
    {
        double x, y;
        forward(clat, clon, x, y);
        inverse(x + di * dx, y + dj * dy, lat, lon);
    }
};
double distance(double lat, double lon, double a, double o)
{
    const double x = std::cos(lat * RAD) * std::cos(lon * RAD) - std::cos(a * RAD) * std::cos(o * RAD), y = std::cos(lat * RAD) * std::sin(lon * RAD) - std::cos(a * RAD) * std::sin(o * RAD),
                 z = std::sin(lat * RAD) - std::sin(a * RAD);
    return R * 2 * std::asin(std::min(1., std::sqrt(x * x + y * y + z * z) / 2));
}
struct WrfReader : MemReader
{
    std::vector<std::string> times;
    using MemReader::getDataSlice;
    DataPtr getDataSlice(const std::string& v, size_t pos) override
    {
        if (v == "Times")
            return createData(times.at(pos));
        return MemReader::getDataSlice(v, pos);
    }
    DataPtr getDataSlice(const std::string& v, const SliceBuilder& sb) override
    {
        if (v == "Times") {
            std::string s;
            const size_t t0 = sb.getDimensionStartPositions()[1], n = sb.getDimensionSizes()[1], c0 = sb.getDimensionStartPositions()[0], m = sb.getDimensionSizes()[0];
            for (size_t k = 0; k < n; ++k)
                s += times.at(t0 + k).substr(c0, m);
            return createData(s);
        }
        return MemReader::getDataSlice(v, sb);
    }
};
struct World
{
    std::shared_ptr<WrfReader> r;
    CDMReader_p reader;
    Geo g;
    int nx, ny, nz, nt;
    std::map<std::string, strs> vars; // with values
    std::map<std::string, dvec> val;
    std::vector<double> times; // seconds since 1970
    double ref = 0;
    bool hasTimes = false;
};
double f(double x) { return float(x); }
World gen(Case& c, bool small)
{
    World w;
    w.r = std::make_shared<WrfReader>();
    CDM& cdm = w.r->cdm();
    Geo& g = w.g;
    w.nx = c.i(2, 6), w.ny = c.i(2, 6), w.nz = c.i(1, 3), w.nt = c.i(1, 3);
    const bool dbl = c.b(0.3);
    auto q = [&](double x) { return dbl ? x : f(x); };
    auto frac = [&]() { return c.b(0.4) ? c.i(-9999, 9999) * 1e-4 : 0.; };
    g.proj = c.pick({1, 1, 2, 3, 6});
    const int south = c.b(0.3) ? -1 : 1;
    g.slon = q(c.i(-17, 17) * 10 + frac());
    g.clon = q(std::remainder(g.slon + c.i(-15, 15) + frac(), 360));
    g.plat = 90, g.plon = 0;
    switch (g.proj) {
    case 1:
        g.lat1 = q(south * (c.i(3, 6) * 10 + frac()));
        g.lat2 = c.b(0.4) ? g.lat1 : q(south * (c.i(3, 7) * 10 + 5 + frac()));
        g.clat = q(south * (c.i(25, 70) + frac()));
        break;
    case 2:
        g.lat1 = q(south * (c.i(5, 9) * 10. + (c.b(0.5) ? 0 : -0.4321)));
        g.lat2 = q(c.i(0, 1) * g.lat1);
        g.clat = c.b(0.3) ? south * 90 : q(south * (c.i(50, 88) + frac()));
        break;
    case 3:
        g.lat1 = q(c.b(0.3) ? 0 : c.i(-4, 6) * 10 + frac());
        g.lat2 = 0;
        g.clat = q(c.i(-50, 60) + frac());
        break;
    default:
        g.lat1 = g.lat2 = 0;
        g.clat = q(c.i(-50, 60) + frac());
        if (c.b(0.6)) {
            g.plat = q(c.i(20, 80) + frac());
            g.plon = c.b(0.5) ? 180 : q(c.i(-17, 17) * 10);
            c.label("rotated");
        }
    }
    g.moad = c.b() ? g.clat : q(g.clat + c.i(-3, 3));
    g.dx = q(c.pick({2000., 10000., 27000.5, 50000.}));
    g.dy = c.b(0.7) ? g.dx : q(g.dx * 1.5);
    auto ga = [&](const std::string& n, double v) { cdm.addAttribute(CDM::globalAttributeNS(), CDMAttribute(n, mkData(dbl ? CDM_DOUBLE : CDM_FLOAT, {v}))); };
    auto gt = [&](const std::string& n, const std::string& v) { cdm.addAttribute(CDM::globalAttributeNS(), CDMAttribute(n, v)); };
    gt("TITLE", " OUTPUT FROM WRF V3.5 MODEL");
    cdm.addAttribute(CDM::globalAttributeNS(), CDMAttribute("MAP_PROJ", mkData(CDM_INT, {double(g.proj)})));
    ga("DX", g.dx), ga("DY", g.dy), ga("CEN_LAT", g.clat), ga("CEN_LON", g.clon), ga("TRUELAT1", g.lat1), ga("TRUELAT2", g.lat2), ga("MOAD_CEN_LAT", g.moad), ga("STAND_LON", g.slon), ga("POLE_LAT", g.plat), ga("POLE_LON", g.plon);
    // times
    auto text = [](long long t) {
        const time_t tt = t;
        struct tm q;
        gmtime_r(&tt, &q);
        char b[40];
        strftime(b, sizeof b, "%Y-%m-%d_%H:%M:%S", &q);
        return std::string(b);
    };
    const long long start = 946684800LL + 86400LL * c.i(0, 9000) + 3600 * c.i(0, 23) + (c.b(0.2) ? 60 * c.i(0, 59) : 0);
    const long long sim = c.b() ? start : start - 21600;
    gt("START_DATE", text(start));
    gt("SIMULATION_START_DATE", text(sim));
    w.ref = sim;
    w.hasTimes = c.b(0.7);
    if (w.hasTimes) {
        long long t = start + (c.b(0.3) ? 3600 * c.i(0, 48) : 0);
        for (int k = 0; k < w.nt; ++k) {
            w.times.push_back(t);
            w.r->times.push_back(text(t));
            t += c.b(0.5) ? 3600 : 60 * c.i(1, 2000);
        }
        c.label("Times");
    } else {
        double step = 180;
        if (c.b()) {
            step = c.pick({60, 15, 30, 360});
            ga("TIME_STEP_MN", step);
        }
        for (int k = 0; k < w.nt; ++k)
            w.times.push_back(start + 60 * step * k);
    }
    // dimensions and variables
    strs dims = {"west_east", "south_north", "Time"};
    const bool stag = c.b(0.7), vert = c.b(0.7), soil = c.b(0.3);
    if (stag)
        dims.insert(dims.end(), {"west_east_stag", "south_north_stag"});
    if (vert)
        dims.insert(dims.end(), {"bottom_top", "bottom_top_stag"});
    if (soil)
        dims.push_back("soil_layers_stag");
    if (w.hasTimes)
        dims.push_back("DateStrLen");
    std::map<std::string, size_t> len = {{"west_east", w.nx}, {"south_north", w.ny}, {"Time", w.nt}, {"west_east_stag", w.nx + 1}, {"south_north_stag", w.ny + 1}, {"bottom_top", w.nz}, {"bottom_top_stag", w.nz + 1}, {"soil_layers_stag", 2}, {"DateStrLen", 19}};
    for (size_t k : c.perm(dims.size())) {
        CDMDimension d(dims[k], len[dims[k]]);
        d.setUnlimited(dims[k] == "Time");
        cdm.addDimension(d);
    }
    std::map<std::string, strs> vs = {{"T2", {"west_east", "south_north", "Time"}}, {"HGT", {"west_east", "south_north"}}, {"P_TOP", {"Time"}}};
    if (vert) {
        vs["QVAPOR"] = {"west_east", "south_north", "bottom_top", "Time"};
        vs["W"] = {"west_east", "south_north", "bottom_top_stag", "Time"};
        vs["ZNU"] = {"bottom_top", "Time"};
    }
    if (stag) {
        vs["MAPFAC_UX"] = {"west_east_stag", "south_north", "Time"};
        vs["MAPFAC_VY"] = {"west_east", "south_north_stag", "Time"};
        if (vert) {
            vs["U"] = {"west_east_stag", "south_north", "bottom_top", "Time"};
            vs["V"] = {"west_east", "south_north_stag", "bottom_top", "Time"};
        }
    }
    if (c.b(0.5)) {
        vs["UAH"] = {"west_east", "south_north", "Time"};
        if (c.b(0.8))
            vs["VAH"] = {"west_east", "south_north", "Time"};
    }
    if (soil)
        vs["TSLB"] = {"west_east", "south_north", "soil_layers_stag", "Time"};
    strs names;
    for (auto& v : vs)
        names.push_back(v.first);
    for (size_t k : c.perm(names.size())) {
        const std::string& n = names[k];
        cdm.addVariable(CDMVariable(n, CDM_FLOAT, vs[n]));
        if (c.b())
            cdm.addAttribute(n, CDMAttribute("units", "1"));
        size_t s = 1;
        for (auto& d : vs[n])
            s *= len[d];
        dvec v(s);
        for (size_t i = 0; i < s; ++i)
            v[i] = (i * 7 + k * 31) % 1000;
        w.r->data[n] = mkData(CDM_FLOAT, v);
        w.val[n] = v;
    }
    if (w.hasTimes)
        cdm.addVariable(CDMVariable("Times", CDM_STRING, {"DateStrLen", "Time"}));
    w.vars = vs;
    c.label("map " + std::to_string(g.proj));
    c.show() << "MAP_PROJ " << g.proj << " lat1 " << g.lat1 << " lat2 " << g.lat2 << " centre " << g.clat << " " << g.clon << " stand_lon " << g.slon << " moad " << g.moad << " pole " << g.plat << " " << g.plon << " dx " << g.dx << " dy " << g.dy << " " << w.nx << "x" << w.ny
             << " times " << w.nt << (w.hasTimes ? " in Times" : "") << (stag ? " staggered" : "") << (vert ? " vertical" : "") << (soil ? " soil" : "");
    w.reader = w.r;
    if (c.b(0.15)) {
        const std::string file = c.tmpdir() + "/wrf" + std::to_string(c.serial()) + ".nc";
        CDMFileReaderFactory::createWriter(w.r, c.picks({"nc4", "nc3"}), file, std::string());
        w.reader = CDMFileReaderFactory::create("netcdf", file);
        remove(file.c_str());
        c.show() << " from a file";
        c.label("file");
    }
    return w;
}
bool stag(const std::string& d) { return d.size() > 5 && d.substr(d.size() - 5) == "_stag"; }
// ---------------------------------------------------------------- coordinate systems
void systems(Case& c)
{
    World w = gen(c, false);
    c.nontrivial(w.vars.size() > 4);
    auto css = listCoordinateSystems(w.reader);
    if (c.b(0.3))
        css = listCoordinateSystems(w.reader);
    const double tol = 3 + 1e-5 * w.g.dx;
    for (auto& v : w.vars) {
        const strs& sh = v.second;
        auto cs = findCompleteCoordinateSystemFor(css, v.first);
        if (sh.size() < 2 || v.first == "ZNU") {
            c.check(!cs, v.first + " has a coordinate system");
            continue;
        }
        c.check(!!cs, v.first + " has no coordinate system");
        auto name = [&](CA::AxisType t) { auto a = cs->findAxisOfType(t); return a ? a->getName() : std::string(); };
        std::string z, t;
        for (auto& d : sh) {
            if (d.substr(0, 10) == "bottom_top")
                z = d;
            if (d == "Time")
                t = d;
        }
        c.check(name(CA::GeoX) == sh[0] && name(CA::GeoY) == sh[1], "x and y axis of " + v.first + ": " + name(CA::GeoX) + ", " + name(CA::GeoY));
        c.check(name(CA::GeoZ) == z, "z axis of " + v.first + ": " + name(CA::GeoZ));
        c.check(name(CA::Time) == t, "time axis of " + v.first + ": " + name(CA::Time));
        c.check(cs->isSimpleSpatialGridded() && cs->hasProjection(), v.first + " is not gridded or has no projection");
        c.check(cs->getAxes().size() == sh.size(), v.first + " has " + std::to_string(cs->getAxes().size()) + " axes");
        // geographic positions
        auto x = w.reader->getScaledData(sh[0])->asDouble(), y = w.reader->getScaledData(sh[1])->asDouble();
        const size_t nx = w.nx + stag(sh[0]), ny = w.ny + stag(sh[1]);
        c.check(w.reader->getData(sh[0])->size() == nx && w.reader->getData(sh[1])->size() == ny, "size of the axes of " + v.first);
        dvec px, py;
        for (size_t j = 0; j < ny; ++j)
            for (size_t i = 0; i < nx; ++i)
                px.push_back(x[i]), py.push_back(y[j]);
        cs->getProjection()->convertToLonLat(px, py);
        for (size_t k = 0; k < px.size(); ++k) {
            double lat, lon;
            w.g.at(double(k % nx) - (nx - 1) / 2., double(k / nx) - (ny - 1) / 2., lat, lon);
            const double d = distance(lat, lon, py[k], px[k]);
            c.check(d < tol, "point " + std::to_string(k % nx) + "," + std::to_string(k / nx) + " of " + v.first + " is at " + num(py[k]) + "N " + num(px[k]) + "E instead of " + num(lat) + "N " + num(lon) + "E, " + num(d) + " m, projection " + cs->getProjection()->getProj4String());
        }
    }
    // times
    auto t = w.reader->getScaledDataInUnit("Time", "seconds since 1970-01-01 00:00:00 +00:00");
    c.check(t->size() == w.times.size(), "number of times");
    for (size_t k = 0; k < w.times.size(); ++k)
        c.check(std::abs(t->asDouble()[k] - w.times[k]) < 1 + 2e-7 * (w.times[k] - w.times[0]), "time " + std::to_string(k) + " is off by " + num(t->asDouble()[k] - w.times[k]) + " s");
    auto rt = w.reader->getScaledDataInUnit("forecast_reference_time", "seconds since 1970-01-01 00:00:00 +00:00");
    c.check(rt->size() == 1 && std::abs(rt->asDouble()[0] - w.ref) < 1, "reference time is off by " + num(rt->asDouble()[0] - w.ref) + " s");
    for (auto& v : w.reader->getCDM().getVariables()) {
        if (v.getName() == "Times")
            continue;
        c.check(w.reader->getData(v.getName())->getDataType() == v.getDataType(), "type of the data of " + v.getName());
        auto val = w.val.find(v.getName());
        if (val != w.val.end())
            same(c, v.getName(), rawValues(w.reader->getData(v.getName())), val->second);
    }
    // vectors
    enhanceVectorProperties(w.reader);
    const CDM& cdm = w.reader->getCDM();
    for (auto& v : w.vars) {
        const CDMVariable& var = cdm.getVariable(v.first);
        static const std::map<std::string, std::string> other = {{"U", "V"}, {"V", "U"}, {"UAH", "VAH"}, {"VAH", "UAH"}};
        const auto it = other.find(v.first);
        c.check(var.isSpatialVector() == (it != other.end() && w.vars.count(it->second)), v.first + " as vector");
        if (var.isSpatialVector())
            c.check(var.getSpatialVectorCounterpart() == it->second && var.getSpatialVectorDirection() == (v.first[0] == 'U' ? CDMVariable::SPATIAL_VECTOR_X : CDMVariable::SPATIAL_VECTOR_Y), v.first + " is another component");
    }
}
// ---------------------------------------------------------------- interpolation to the points of the grid
void points(Case& c)
{
    World w = gen(c, true);
    c.nontrivial();
    auto ip = std::make_shared<CDMInterpolator>(w.reader);
    std::string var;
    do
        var = c.picks({"T2", "QVAPOR", "W", "MAPFAC_UX", "MAPFAC_VY"});
    while (!w.vars.count(var) && (var = "T2") != "T2");
    const size_t nx = w.nx + stag(w.vars[var][0]), ny = w.ny + stag(w.vars[var][1]);
    dvec lon, lat;
    std::vector<size_t> at;
    for (int k = c.i(1, 4); k > 0; --k) {
        const size_t i = c.i(0, nx - 1), j = c.i(0, ny - 1);
        double a, o;
        const double ex = c.i(-3, 3) * 0.1, ey = c.i(-3, 3) * 0.1;
        w.g.at(double(i) - (nx - 1) / 2. + ((i == 0 && ex < 0) || (i == nx - 1 && ex > 0) ? -ex : ex), double(j) - (ny - 1) / 2. + ((j == 0 && ey < 0) || (j == ny - 1 && ey > 0) ? -ey : ey), a, o);
        lat.push_back(a);
        lon.push_back(std::remainder(o, 360));
        at.push_back(i + nx * j);
    }
    c.show() << " " << var << " at " << vec(lat) << " " << vec(lon);
    ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, lon, lat);
    DataPtr d = ip->getScaledData(var);
    const dvec& v = w.val[var];
    const size_t nl = v.size() / (nx * ny);
    c.check(d->size() == nl * at.size(), "size " + std::to_string(d->size()));
    for (size_t l = 0; l < nl; ++l)
        for (size_t k = 0; k < at.size(); ++k)
            c.check(d->asDouble()[l * at.size() + k] == v[l * nx * ny + at[k]], "value at point " + std::to_string(k) + ", layer " + std::to_string(l) + " is " + num(d->asDouble()[l * at.size() + k]) + " instead of " + num(v[l * nx * ny + at[k]]));
}
// ---------------------------------------------------------------- winds turn with the grid
void winds(Case& c)
{
    World w = gen(c, true);
    c.assume(w.vars.count("VAH") && std::abs(w.g.clat) < 80);
    const double u = c.i(-20, 20), v = c.i(-20, 20);
    const bool inMem = w.reader == w.r;
    c.assume(inMem);
    w.r->data["UAH"] = mkData(CDM_FLOAT, dvec(w.val["UAH"].size(), u));
    w.r->data["VAH"] = mkData(CDM_FLOAT, dvec(w.val["VAH"].size(), v));
    c.nontrivial(u != 0 || v != 0);
    c.show() << " wind " << u << " " << v;
    auto ip = std::make_shared<CDMInterpolator>(w.reader);
    // a small grid around the centre
    const double d = 0.1 * std::min(w.g.dx, w.g.dy) / R / RAD;
    dvec x = {w.g.clon - d, w.g.clon, w.g.clon + d}, y = {w.g.clat - d, w.g.clat, w.g.clat + d};
    const int method = c.pick({MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR});
    ip->changeProjection(method, "+proj=latlong +R=6370000 +no_defs", x, y, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
    // directions of the grid at the centre
    double ax, ox, ay, oy;
    const double e = 100 / w.g.dx, en = 100 / w.g.dy;
    w.g.at(e, 0, ax, ox);
    w.g.at(0, en, ay, oy);
    const double cl = std::cos(w.g.clat * RAD);
    double xe = std::remainder(ox - w.g.clon, 360) * cl, xn = ax - w.g.clat, ye = std::remainder(oy - w.g.clon, 360) * cl, yn = ay - w.g.clat;
    const double nx = std::hypot(xe, xn), ny = std::hypot(ye, yn);
    const double we = u * xe / nx + v * ye / ny, wn = u * xn / nx + v * yn / ny;
    DataPtr ue = ip->getScaledData("UAH"), vn = ip->getScaledData("VAH");
    const size_t n = 9 * size_t(w.nt);
    c.check(ue->size() == n && vn->size() == n, "size of the winds");
    for (size_t k = 0; k < n; ++k) {
        const double a = ue->asDouble()[k], b = vn->asDouble()[k];
        c.check(std::abs(a - we) < 0.05 + 0.02 * std::hypot(u, v) && std::abs(b - wn) < 0.05 + 0.02 * std::hypot(u, v), "wind at " + std::to_string(k) + " is " + num(a) + ", " + num(b) + " instead of " + num(we) + ", " + num(wn));
    }
    // the result is described by CF metadata
    auto css = listCoordinateSystems(CDMReader_p(ip));
    auto cs = findCompleteCoordinateSystemFor(css, "UAH");
    c.check(cs && cs->isSimpleSpatialGridded() && cs->getGeoXAxis() && cs->getGeoYAxis() && cs->getTimeAxis(), "no coordinate system of interpolated winds");
}
} // namespace

int main(int argc, char** argv)
{
    noProjDatabase();
    Runner r("C30", "at least five variables (systems), every dataset (points)");
    r.init(fx::quiet);
    r.sub("systems", systems, 4000, 60000);
    r.sub("points", points, 2000, 30000);
    r.sub("winds", winds, 1500, 20000);
    return r.main(argc, argv);
}
