// GRIB messages made with ecCodes from a plain model: grid, parameter, level, member, time, values.
#pragma once
#include <map>
#include "cal.h"
#include "cf.h"
#include <cmath>
#include <eccodes.h>
#include <memory>

namespace gribm {
using namespace fx;
using pbt::Case;

inline void ck(int err, const std::string& what)
{
    if (err)
        throw pbt::Fail{"harness: ecCodes " + what + ": " + codes_get_error_message(err)};
}
struct H
{
    codes_handle* h = nullptr;
    explicit H(const std::string& sample) { h = codes_grib_handle_new_from_samples(nullptr, sample.c_str()); }
    H(const void* d, size_t n) { h = codes_handle_new_from_message_copy(nullptr, d, n); }
    H(const H&) = delete;
    ~H()
    {
        if (h)
            codes_handle_delete(h);
    }
    void l(const char* k, long v) { ck(codes_set_long(h, k, v), std::string("set ") + k + "=" + std::to_string(v)); }
    void d(const char* k, double v) { ck(codes_set_double(h, k, v), std::string("set ") + k); }
    void s(const char* k, const std::string& v)
    {
        size_t n = v.size() + 1;
        ck(codes_set_string(h, k, v.c_str(), &n), std::string("set ") + k);
    }
    long gl(const char* k) const
    {
        long v = 0;
        ck(codes_get_long(h, k, &v), std::string("get ") + k);
        return v;
    }
    double gd(const char* k) const
    {
        double v = 0;
        ck(codes_get_double(h, k, &v), std::string("get ") + k);
        return v;
    }
    bool has(const char* k) const { return codes_is_defined(h, k) != 0; }
    std::string gs(const char* k) const
    {
        char b[512];
        size_t n = sizeof b;
        if (codes_get_string(h, k, b, &n))
            return "unknown";
        return b;
    }
    dvec values(double missing = 1e30) const
    {
        codes_set_double(h, "missingValue", missing);
        size_t n = 0;
        ck(codes_get_size(h, "values", &n), "size of values");
        dvec v(n);
        ck(codes_get_double_array(h, "values", v.data(), &n), "values");
        return v;
    }
    std::string bytes() const
    {
        const void* p;
        size_t n;
        ck(codes_get_message(h, &p, &n), "message");
        return std::string(static_cast<const char*>(p), n);
    }
};

enum GT { LL, ROT, LCC, STERE, MERC };
struct Earth
{
    double a = 6367470, b = 6367470;
    std::string proj() const { return a == b ? "+R=" + cf::g17(a) : "+a=" + cf::g17(a) + " +b=" + cf::g17(b); }
};
struct Grid
{
    int edition = 1;
    GT type = LL;
    long ni = 2, nj = 2;
    bool iNeg = false, jPos = true, jCons = false, alt = false;
    double lon1 = 0, lat1 = 0, di = 1, dj = 1; // degrees, or metres on projections; positive
    bool incrGiven = true;
    double spLat = -90, spLon = 0, lov = 0, latin1 = 60, latin2 = 60, lad = 60;
    bool south = false;
    long earthCode = 0;
    Earth earth;
    bool degree() const { return type == LL || type == ROT; }
    const char* gridType() const
    {
        static const char* n[] = {"regular_ll", "rotated_ll", "lambert", "polar_stereographic", "mercator"};
        return n[type];
    }
    //! PROJ string of projected grids
    std::string proj() const
    {
        using cf::g17;
        switch (type) {
        case LCC: return "+proj=lcc +lat_0=" + g17(latin1) + " +lat_1=" + g17(latin1) + " +lat_2=" + g17(latin2) + " +lon_0=" + g17(lov) + " " + earth.proj();
        case STERE: return std::string("+proj=stere +lat_0=") + (south ? "-90" : "90") + " +lat_ts=" + g17(south ? -lad : lad) + " +lon_0=" + g17(lov) + " " + earth.proj();
        case MERC: return "+proj=merc +lon_0=0 +lat_ts=" + g17(lad) + " " + earth.proj();
        default: return "";
        }
    }
    //! longitude and latitude of each point, in the order x fastest, y next, both in scan direction
    void lonLat(dvec& lon, dvec& lat) const
    {
        lon.assign(ni * nj, 0);
        lat = lon;
        std::unique_ptr<cf::Pj> fw, bw;
        double x1 = lon1, y1 = lat1;
        const std::string ll = "+proj=latlong " + earth.proj();
        if (!degree()) {
            fw.reset(new cf::Pj(ll, proj()));
            bw.reset(new cf::Pj(proj(), ll));
            if (!fw->fwd(x1, y1))
                throw pbt::Fail{"harness: first point outside the projection"};
        }
        for (long j = 0; j < nj; ++j)
            for (long i = 0; i < ni; ++i) {
                double x = x1 + (iNeg ? -1 : 1) * i * di, y = y1 + (jPos ? 1 : -1) * j * dj;
                if (type == ROT) {
                    // rotation of the sphere which moves the south pole to (spLon,spLat)
                    const double r = M_PI / 180, t = -(90 + spLat) * r;
                    const double X = cos(x * r) * cos(y * r), Y = sin(x * r) * cos(y * r), Z = sin(y * r);
                    const double x2 = cos(t) * X + sin(t) * Z, z2 = -sin(t) * X + cos(t) * Z;
                    y = asin(std::max(-1., std::min(1., z2))) / r;
                    x = atan2(Y, x2) / r + spLon;
                } else if (!degree()) {
                    if (!bw->fwd(x, y))
                        throw pbt::Fail{"harness: point outside the projection"};
                }
                lon[j * ni + i] = x;
                lat[j * ni + i] = y;
            }
    }
    //! position in the message of the point i,j (in scan direction)
    size_t at(long i, long j) const
    {
        if (jCons)
            return i * nj + (alt && i % 2 ? nj - 1 - j : j);
        return j * ni + (alt && j % 2 ? ni - 1 - i : i);
    }
};

inline Grid genGrid(Case& c, int edition)
{
    Grid g;
    g.edition = edition;
    g.type = static_cast<GT>(c.w({3, 2, 2, 3, 1}));
    g.ni = c.i(2, 6);
    g.nj = c.i(2, 5);
    g.iNeg = c.b(0.2);
    g.jPos = c.b(0.6);
    g.jCons = c.b(0.15);
    g.alt = edition == 2 && c.b(0.1);
    auto milli = [&](int lo, int hi) { return c.b(0.5) ? c.i(lo, hi) * 1. : (c.i(lo * 1000, hi * 1000)) / 1000.; };
    auto fine = [&](double v) { return edition == 2 && c.b(0.3) ? v + c.i(-499, 499) * 1e-6 : v; };
    if (edition == 1) {
        g.earthCode = c.b(0.25);
        g.earth = g.earthCode ? Earth{6378160, 6356775} : Earth{6367470, 6367470};
    } else {
        g.earthCode = c.i(0, 8);
        static const Earth es[] = {{6367470, 6367470}, {6371000, 6371000}, {6378160, 6356775}, {6378388, 6356912}, {6378137, 6356752.314}, {6378137, 6356752.314245},
                                   {6371229, 6371229}, {6377397.1, 6356078.9}, {6371200, 6371200}};
        g.earth = es[g.earthCode];
    }
    switch (g.type) {
    case LL:
    case ROT: {
        g.di = c.pick<double>({1, 0.5, 0.25, 0.125, 2.5, 0.004, 10}) + (edition == 2 && c.b(0.2) ? 0.000123 : 0);
        g.dj = c.pick<double>({1, 0.5, 0.25, 0.125, 2.5, 0.006, 10});
        g.incrGiven = c.b(0.7);
        double ly = (g.nj - 1) * g.dj, lx = (g.ni - 1) * g.di;
        double y0 = c.b(0.5) ? c.i(-40, 49 - int(ly)) : std::floor((-45 + c.i(0, 900) * 0.1) * 1000) / 1000;
        y0 = std::min(y0, 89. - ly);
        g.lat1 = g.jPos ? y0 : y0 + ly;
        double x0 = g.type == ROT ? c.i(-40, 40 - int(lx / 2)) : c.i(edition == 1 ? -180 : 0, 359);
        if (c.b(0.3))
            x0 += 0.5;
        g.lon1 = g.iNeg ? x0 + lx : x0;
        if (g.type == ROT) {
            g.spLat = -milli(5, 89);
            g.spLon = milli(-179, 179);
            if (edition == 2)
                g.spLon = fine(g.spLon + (g.spLon < 0 ? 360 : 0)), g.spLat = fine(g.spLat);
        }
        break;
    }
    case LCC: {
        bool s = c.b(0.2);
        g.latin1 = (s ? -1 : 1) * fine(milli(30, 70));
        g.latin2 = c.b() ? g.latin1 : (s ? -1 : 1) * fine(milli(30, 70));
        g.lov = milli(-170, 170);
        g.lat1 = fine((s ? -1 : 1) * milli(45, 65));
        g.lon1 = g.lov + milli(-20, 20);
        g.lad = 60;
        break;
    }
    case STERE:
        g.south = c.b(0.3);
        g.lad = edition == 1 ? 60 : c.pick<double>({60, 70, 75.5});
        g.lov = milli(-170, 170);
        g.lat1 = fine((g.south ? -1 : 1) * milli(50, 80));
        g.lon1 = g.lov + milli(-170, 170);
        break;
    case MERC:
        g.lad = c.pick<double>({0, 20, 60, 45.5});
        g.lat1 = fine(milli(-60, 60));
        g.lon1 = edition == 1 ? milli(-170, 170) : milli(1, 350);
        break;
    }
    if (!g.degree()) {
        g.di = c.pick<double>({1000, 2500, 20000, 50000, 12345});
        g.dj = c.pick<double>({1000, 2500, 20000, 50000, 9876});
        if (edition == 2 && c.b(0.2))
            g.di += 0.25;
        auto pos = [&](double& l) {
            while (l < (edition == 2 ? 0 : -180))
                l += 360;
            while (l >= (edition == 2 ? 360 : 180))
                l -= 360;
            if (edition == 2)
                l = fine(l);
            l = std::round(l * 1e6) / 1e6;
        };
        pos(g.lov);
        pos(g.lon1);
    }
    return g;
}
inline std::string str(const Grid& g)
{
    std::ostringstream o;
    o.precision(10);
    o << "grib" << g.edition << " " << g.gridType() << " " << g.ni << "x" << g.nj << " first " << g.lon1 << "," << g.lat1 << " step " << g.di << "," << g.dj
      << (g.incrGiven ? "" : " increments not given") << (g.iNeg ? " -i" : "") << (g.jPos ? " +j" : " -j") << (g.jCons ? " j consecutive" : "") << (g.alt ? " alternating" : "")
      << " earth " << g.earthCode;
    if (g.type == ROT)
        o << " south pole " << g.spLon << "," << g.spLat;
    if (!g.degree())
        o << " lov " << g.lov << " latin " << g.latin1 << "," << g.latin2 << " lad " << g.lad << (g.south ? " south" : "");
    return o.str();
}

inline void setGrid(H& h, const Grid& g)
{
    h.s("gridType", g.gridType());
    if (g.edition == 1) {
        h.l("earthIsOblate", g.earthCode);
    } else {
        h.l("shapeOfTheEarth", g.earthCode);
        if (g.earthCode == 1) {
            h.l("scaleFactorOfRadiusOfSphericalEarth", 1);
            h.l("scaledValueOfRadiusOfSphericalEarth", std::lround(g.earth.a * 10));
        } else if (g.earthCode == 3 || g.earthCode == 7) {
            const long f = g.earthCode == 3 ? 3 : 1;
            const double u = g.earthCode == 3 ? 1000. : 1.;
            h.l("scaleFactorOfEarthMajorAxis", f);
            h.l("scaledValueOfEarthMajorAxis", std::lround(g.earth.a / u * std::pow(10, f)));
            h.l("scaleFactorOfEarthMinorAxis", f);
            h.l("scaledValueOfEarthMinorAxis", std::lround(g.earth.b / u * std::pow(10, f)));
        }
    }
    const bool xy = !g.degree() && g.type != MERC;
    h.l(xy ? "Nx" : "Ni", g.ni);
    h.l(xy ? "Ny" : "Nj", g.nj);
    h.l("iScansNegatively", g.iNeg);
    h.l("jScansPositively", g.jPos);
    h.l("jPointsAreConsecutive", g.jCons);
    if (g.edition == 2)
        h.l("alternativeRowScanning", g.alt);
    h.d("latitudeOfFirstGridPointInDegrees", g.lat1);
    h.d("longitudeOfFirstGridPointInDegrees", g.lon1);
    if (g.degree()) {
        double lon2 = g.lon1 + (g.iNeg ? -1 : 1) * (g.ni - 1) * g.di, lat2 = g.lat1 + (g.jPos ? 1 : -1) * (g.nj - 1) * g.dj;
        if (lon2 >= 360)
            lon2 -= 360;
        if (g.edition == 2 && lon2 < 0 && g.type == LL)
            lon2 += 360;
        if (g.incrGiven) {
            h.l("ijDirectionIncrementGiven", 1);
            h.d("iDirectionIncrementInDegrees", g.di);
            h.d("jDirectionIncrementInDegrees", g.dj);
        } else {
            h.l("ijDirectionIncrementGiven", 0);
        }
        h.d("latitudeOfLastGridPointInDegrees", lat2);
        h.d("longitudeOfLastGridPointInDegrees", lon2);
    }
    auto metres = [&](const char* k1, const char* k2, double v) {
        if (g.edition == 1)
            h.l(k1, std::lround(v));
        else
            h.l(k2, std::lround(v * 1000));
    };
    switch (g.type) {
    case ROT:
        h.d("latitudeOfSouthernPoleInDegrees", g.spLat);
        h.d("longitudeOfSouthernPoleInDegrees", g.spLon);
        break;
    case LCC:
        h.d("LoVInDegrees", g.lov);
        h.d("Latin1InDegrees", g.latin1);
        h.d("Latin2InDegrees", g.latin2);
        if (g.edition == 2)
            h.d("LaDInDegrees", g.latin1);
        metres("DxInMetres", "Dx", g.di);
        metres("DyInMetres", "Dy", g.dj);
        h.l("projectionCentreFlag", g.latin1 < 0 ? 128 : 0);
        break;
    case STERE:
        h.d("orientationOfTheGridInDegrees", g.lov);
        if (g.edition == 2)
            h.d("LaDInDegrees", g.south ? -g.lad : g.lad);
        metres("DxInMetres", "Dx", g.di);
        metres("DyInMetres", "Dy", g.dj);
        h.l("projectionCentreFlag", g.south ? 128 : 0);
        break;
    case MERC:
        h.d("LaDInDegrees", g.lad);
        if (g.edition == 2) {
            h.l("Di", std::lround(g.di * 1000));
            h.l("Dj", std::lround(g.dj * 1000));
        } else {
            h.l("Di", std::lround(g.di));
            h.l("Dj", std::lround(g.dj));
        }
        break;
    default:
        break;
    }
}

struct Msg
{
    int edition = 1;
    long id[3] = {11, 2, 88}; // grib1: parameter, table, centre; grib2: number, category, discipline
    long levtype = 100, level = 0;
    long refDate = 20200101, refTime = 0; // yyyymmdd, hhmm
    long unit = 1, start = 0, end = 0;    // step, as table 4.4
    bool accum = false;
    long member = -1, members = 0;
    long process = 1;
    dvec pv;
    dvec values; // in the order of Grid::at, NAN undefined
    int bits = 16;
};

// ecCodes 2.34 carries the unit of a step over to other messages of the process when the template changes: made once, by samples() in main
inline std::map<std::pair<int, int>, std::string>& sampleMap()
{
    static std::map<std::pair<int, int>, std::string> m;
    return m;
}
inline void samples()
{
    sampleMap()[std::make_pair(1, 0)] = H("GRIB1").bytes();
    for (int pdt : {0, 1, 8, 11}) {
        H h("GRIB2");
        h.l("productDefinitionTemplateNumber", pdt);
        sampleMap()[std::make_pair(2, pdt)] = h.bytes();
    }
}
inline const std::string& sample(int edition, int pdt) { return sampleMap().at(std::make_pair(edition, pdt)); }

inline std::string encode(const Msg& m, const Grid& g)
{
    const int pdt = m.edition == 1 ? 0 : m.members > 0 ? (m.accum ? 11 : 1) : (m.accum ? 8 : 0);
    const std::string& smp = sample(m.edition, pdt);
    H h(smp.data(), smp.size());
    if (!h.h)
        throw pbt::Fail{"harness: no sample"};
    if (m.edition == 1) {
        h.l("centre", m.members > 0 ? 98 : m.id[2]);
        h.l("table2Version", m.id[1]);
        h.l("indicatorOfParameter", m.id[0]);
        if (m.members > 0) {
            h.l("setLocalDefinition", 1);
            h.l("localDefinitionNumber", 1);
        }
    } else {
        h.l("discipline", m.id[2]);
        h.l("parameterCategory", m.id[1]);
        h.l("parameterNumber", m.id[0]);
    }
    h.l("generatingProcessIdentifier", m.process);
    setGrid(h, g);
    if (m.edition == 1) {
        h.l("indicatorOfTypeOfLevel", m.levtype);
        h.l("level", m.level);
    } else {
        h.l("typeOfFirstFixedSurface", m.levtype);
        h.l("scaleFactorOfFirstFixedSurface", 0);
        h.l("scaledValueOfFirstFixedSurface", m.levtype == 100 ? m.level * 100 : m.level);
    }
    h.l("dataDate", m.refDate);
    h.l("dataTime", m.refTime);
    if (m.edition == 1) {
        h.l("unitOfTimeRange", m.unit);
        if (m.accum) {
            h.l("timeRangeIndicator", 4);
            h.l("P1", m.start);
            h.l("P2", m.end);
        } else {
            h.l("timeRangeIndicator", 0);
            h.l("P1", m.end);
            h.l("P2", 0);
        }
    } else {
        h.l("stepUnits", 1);
        h.l("indicatorOfUnitOfTimeRange", m.unit);
        if (m.accum) {
            h.l("typeOfStatisticalProcessing", 1);
            h.l("indicatorOfUnitForTimeRange", m.unit);
            h.l("forecastTime", m.start);
            h.l("lengthOfTimeRange", m.end - m.start);
            static const int64_t sec[] = {60, 3600, 86400, 0, 0, 0, 0, 0, 0, 0, 10800, 21600, 43200, 1};
            cal::T t;
            t.y = m.refDate / 10000, t.mo = m.refDate / 100 % 100, t.d = m.refDate % 100, t.h = m.refTime / 100, t.mi = m.refTime % 100;
            cal::T e = cal::fromEpochMs(t.epochMs() + m.end * sec[m.unit] * 1000);
            h.l("yearOfEndOfOverallTimeInterval", e.y);
            h.l("monthOfEndOfOverallTimeInterval", e.mo);
            h.l("dayOfEndOfOverallTimeInterval", e.d);
            h.l("hourOfEndOfOverallTimeInterval", e.h);
            h.l("minuteOfEndOfOverallTimeInterval", e.mi);
            h.l("secondOfEndOfOverallTimeInterval", e.s);
        } else {
            h.l("forecastTime", m.end);
        }
        if (h.gl("forecastTime") != (m.accum ? m.start : m.end) || h.gl("indicatorOfUnitOfTimeRange") != m.unit)
            throw pbt::Fail{"harness: step not encoded as wanted"};
    }
    if (m.members > 0) {
        h.l("perturbationNumber", m.member);
        h.l("numberOfForecastsInEnsemble", m.members);
    }
    if (!m.pv.empty()) {
        h.l("PVPresent", 1);
        ck(codes_set_double_array(h.h, "pv", m.pv.data(), m.pv.size()), "set pv");
    }
    h.l("bitsPerValue", m.bits);
    dvec v = m.values;
    bool miss = false;
    for (auto& x : v)
        if (std::isnan(x))
            x = 1e30, miss = true;
    if (miss) {
        h.l("bitmapPresent", 1);
        h.d("missingValue", 1e30);
    }
    ck(codes_set_double_array(h.h, "values", v.data(), v.size()), "set values");
    return h.bytes();
}
} // namespace gribm
