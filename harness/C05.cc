// C05: projection definitions and coordinate conversions
// LINK: -lproj
#include "cf.h"
#include <regex>
#include "fimex/coordSys/Projection.h"
#include "fimex/reproject.h"
using namespace fx;
using namespace pbt;

//! PROJ operation lon,lat (degrees) -> x,y; ignores datum shifts
struct Op
{
    PJ* p;
    bool degOut;
    Op(const std::string& s)
    {
        static PJ_CONTEXT* ctx = nullptr;
        if (!ctx) {
            ctx = proj_context_create();
            proj_log_level(ctx, PJ_LOG_NONE);
        }
        p = proj_create(ctx, s.c_str());
        degOut = s.find("proj=latlong") != std::string::npos || s.find("proj=longlat") != std::string::npos || s.find("proj=ob_tran") != std::string::npos;
    }
    ~Op()
    {
        if (p)
            proj_destroy(p);
    }
    bool run(double lon, double lat, double& x, double& y) const
    {
        PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(lon * M_PI / 180, lat * M_PI / 180, 0, 0));
        x = c.xy.x;
        y = c.xy.y;
        if (degOut) { // a degree of difference counts as 100 km
            x *= 180 / M_PI * 1e5;
            y *= 180 / M_PI * 1e5;
        }
        return std::isfinite(x) && std::isfinite(y);
    }
};

static std::string n(Case& c, double v)
{
    if (c.b(0.3))
        v += 0.1234567890123 * (v < 0 ? -1 : 1);
    return cf::g17(v);
}

struct P4
{
    std::string s;
    double lon, lat, spread; // where to compare
};

static std::string earth(Case& c, bool ellipsoid)
{
    if (ellipsoid)
        switch (c.w({2, 2, 1, 1, 1, 1, 1})) {
        case 0: return "+ellps=WGS84";
        case 1: return "+a=6378137 +b=6356752.3142";
        case 2: return "+datum=WGS84";
        case 3: return "+ellps=bessel";
        case 4: return "+a=6377397.155 +rf=299.1528128";
        case 5: return "+ellps=GRS80";
        default: return "+a=6378137 +e=0.0818191908426215";
        }
    switch (c.w({2, 1, 1, 1})) {
    case 0: return "+a=6371000 +e=0";
    case 1: return "+R=6367470";
    case 2: return "+R=" + n(c, 6371229);
    default: return "+a=6370997 +b=6370997";
    }
}

static P4 genProj4(Case& c)
{
    P4 p;
    double lon0 = c.i(-17, 17) * 10, lat0;
    std::string xy;
    if (c.b(0.3))
        xy = " +x_0=" + n(c, c.i(-9, 9) * 1e5) + " +y_0=" + n(c, c.i(-9, 9) * 1e5);
    p.lon = lon0;
    p.spread = 10;
    bool ell = c.b();
    auto kk = [&] { return std::string(c.b() ? " +k=" : " +k_0=") + c.picks({"0.9996", "0.93301270189", "1"}); };
    switch (c.idx(17)) {
    case 0:
        p.s = c.b() ? "+proj=latlong" : "+proj=longlat";
        p.lat = c.i(-7, 7) * 10;
        xy = "";
        break;
    case 1:
        p.s = "+proj=ob_tran +o_proj=longlat +lon_0=" + n(c, lon0) + " +o_lat_p=" + n(c, c.i(2, 8) * 10);
        if (c.b(0.3))
            p.s += " +o_lon_p=" + n(c, c.i(-17, 17) * 10);
        p.lat = 50;
        xy = "";
        ell = false;
        break;
    case 2: {
        bool south = c.b();
        p.lat = south ? -70 : 70;
        p.s = std::string("+proj=stere +lat_0=") + (south ? "-90" : "90") + " +lon_0=" + n(c, lon0) + " +lat_ts=" + (south ? "-" : "") + n(c, c.i(5, 7) * 10);
        break;
    }
    case 3:
        p.lat = c.i(-6, 6) * 10;
        p.s = "+proj=stere +lat_0=" + n(c, p.lat) + " +lon_0=" + n(c, lon0) + (c.b() ? kk() : "");
        break;
    case 4:
    case 5: {
        bool lcc = c.b();
        lat0 = c.pick<double>({60, 45, -45, 30});
        p.lat = lat0;
        double d = lat0 < 0 ? -5 : 5;
        p.s = lcc ? "+proj=lcc" : "+proj=aea";
        if (c.b())
            p.s += " +lat_1=" + n(c, lat0) + " +lat_2=" + n(c, lat0 + d * c.i(1, 3));
        else {
            std::string l = n(c, lat0);
            p.s += " +lat_1=" + l + " +lat_2=" + l;
        }
        p.s += " +lat_0=" + n(c, lat0 + d * c.i(-1, 1)) + " +lon_0=" + n(c, lon0);
        break;
    }
    case 6:
        p.lat = c.i(-6, 6) * 10;
        p.s = "+proj=merc +lon_0=" + n(c, lon0) + (c.b() ? " +lat_ts=" + n(c, c.i(0, 5) * 10) : c.b() ? kk() : "");
        break;
    case 7:
        p.lat = c.i(-6, 6) * 10;
        p.s = "+proj=tmerc +lon_0=" + n(c, lon0) + " +lat_0=" + n(c, c.i(-6, 6) * 10) + (c.b() ? kk() : "");
        p.spread = 3;
        break;
    case 8: {
        int zone = c.i(1, 60);
        bool south = c.b();
        p.lon = (zone - 1) * 6 - 177;
        p.lat = south ? -40 : 40;
        p.s = "+proj=utm +zone=" + std::to_string(zone) + (south ? " +south" : "");
        ell = true;
        xy = "";
        p.spread = 3;
        break;
    }
    case 9:
        p.lat = c.i(-8, 8) * 10;
        p.s = "+proj=laea +lat_0=" + n(c, p.lat) + " +lon_0=" + n(c, lon0);
        break;
    case 10:
        p.lat = c.i(-8, 8) * 10;
        p.s = "+proj=aeqd +lat_0=" + n(c, p.lat) + " +lon_0=" + n(c, lon0);
        break;
    case 11:
        p.lat = c.i(-6, 6) * 10;
        p.s = "+proj=cea +lon_0=" + n(c, lon0) + (c.b() ? " +lat_ts=" + n(c, c.i(0, 5) * 10) : "");
        break;
    case 12:
        p.lat = c.i(-3, 3) * 10;
        p.s = "+proj=geos +lon_0=" + n(c, lon0) + " +h=35785831" + (c.b() ? std::string(" +sweep=") + c.picks({"x", "y"}) : "");
        break;
    case 13:
        p.lat = c.pick<double>({40, 50, -30});
        p.s = "+proj=omerc +lonc=" + n(c, lon0) + " +lat_0=" + n(c, p.lat) + " +alpha=" + n(c, c.i(1, 8) * 10);
        if (c.b())
            p.s += " +gamma=" + n(c, c.i(1, 8) * 10);
        if (c.b())
            p.s += kk();
        if (c.b(0.3))
            p.s += " +no_rot";
        p.spread = 3;
        break;
    case 14:
        p.lat = c.i(-8, 8) * 10;
        p.s = "+proj=ortho +lat_0=" + n(c, p.lat) + " +lon_0=" + n(c, lon0);
        break;
    case 15:
        p.lat = c.i(-6, 6) * 10;
        p.s = "+proj=sinu +lon_0=" + n(c, lon0);
        break;
    default:
        p.lat = c.i(-6, 6) * 10;
        if (c.b()) {
            p.s = "+proj=nsper +lat_0=" + n(c, p.lat) + " +lon_0=" + n(c, lon0) + " +h=3000000";
            ell = false; // PROJ: spherical only
        } else
            p.s = "+proj=gnom +lat_0=" + n(c, p.lat) + " +lon_0=" + n(c, lon0); // no CF equivalent
        break;
    }
    p.s += xy + " " + earth(c, ell) + " +no_defs";
    return p;
}

static void compare(Case& c, const std::string& what, const std::string& a, const std::string& b, const P4& p)
{
    Op oa(a), ob(b);
    c.assume(oa.p != nullptr);
    c.check(ob.p != nullptr, what + ": PROJ cannot read " + b);
    size_t good = 0;
    for (int k = 0; k < 6; ++k) {
        double lon = p.lon + p.spread * (k % 3 - 1) * 0.9 + 0.3, lat = std::max(-89., std::min(89., p.lat + p.spread * (k / 3 ? 0.7 : -0.6)));
        double x1, y1, x2, y2;
        if (!oa.run(lon, lat, x1, y1))
            continue;
        bool ok = ob.run(lon, lat, x2, y2);
        std::ostringstream o;
        o.precision(12);
        o << what << ": '" << a << "' and '" << b << "' differ at lon " << lon << " lat " << lat << ": (" << x1 << "," << y1 << ") (" << x2 << "," << y2 << ")";
        c.check(ok && std::fabs(x1 - x2) < 0.1 && std::fabs(y1 - y2) < 0.1, o.str());
        ++good;
    }
    c.nontrivial(good > 2);
}

static void proj4(Case& c)
{
    P4 p = genProj4(c);
    c.show() << p.s;
    {
        Op o(p.s);
        if (!o.p) {
            c.label("refused by PROJ");
            c.assume(false);
        }
    }
    std::smatch m;
    c.label(p.s.substr(0, p.s.find(' ')));
    Projection_p pr = Projection::createByProj4(p.s);
    compare(c, "proj4 -> CF -> proj4", p.s, pr->getProj4String(), p);
    // through the CF attributes, as stored in a file
    Projection_p pr2 = Projection::create(pr->getParameters());
    compare(c, "proj4 -> CF attributes -> projection", p.s, pr2->getProj4String(), p);
    c.check(pr2->getName() == pr->getName() && pr2->isDegree() == pr->isDegree() && *pr2 == *pr, "a projection rebuilt from its parameters differs: " + pr->toString() + " / " + pr2->toString());
    bool deg = p.s.find("latlong") != std::string::npos || p.s.find("longlat") != std::string::npos;
    c.check(pr->isDegree() == deg, "isDegree is wrong");
    // idempotent
    Projection_p pr3 = Projection::createByProj4(pr->getProj4String());
    compare(c, "second translation", p.s, pr3->getProj4String(), p);
    c.check(pr3->getName() == pr->getName(), "translating again changes the grid mapping to " + pr3->getName());
}

static void attributes(Case& c)
{
    cf::Proj p = cf::genProj(c);
    // the order of the attributes does not matter
    std::vector<CDMAttribute> attrs;
    for (size_t k : c.perm(p.attrs.size()))
        attrs.push_back(p.attrs[k]);
    Projection_p pr = Projection::create(attrs);
    c.show() << p.proj4 << " / " << pr->getProj4String();
    c.check(pr->isDegree() == p.degree, "isDegree is wrong for " + p.kind);
    c.check(pr->getName() == p.kind, "name " + pr->getName());
    // coordinates of a small grid
    size_t nx = c.i(1, 4), ny = c.i(1, 4);
    dvec xv = cf::genAxis(c, p.cx, p.half, nx), yv = cf::genAxis(c, p.cy, p.half, ny);
    cf::Pj pj(p.proj4, p.latlong());
    dvec X, Y, LON, LAT;
    for (double y : yv)
        for (double x : xv) {
            X.push_back(x);
            Y.push_back(y);
            double a = x, b = y;
            c.assume(pj.fwd(a, b));
            LON.push_back(a);
            LAT.push_back(b);
        }
    const double tolXY = p.degree ? 1e-7 : 0.02, tolLL = 2e-7;
    auto dist = [](double a, double b) {
        double d = std::fabs(a - b);
        return std::min(d, std::fabs(d - 360));
    };
    auto lonlat = [&](const std::string& what, const dvec& a, const dvec& b) {
        for (size_t k = 0; k < X.size(); ++k)
            c.check(dist(a[k], LON[k]) < tolLL / std::max(1e-3, std::cos(LAT[k] * M_PI / 180)) && std::fabs(b[k] - LAT[k]) < tolLL,
                    what + ": point " + std::to_string(k) + " is lon " + num(a[k]) + " lat " + num(b[k]) + ", expected " + num(LON[k]) + " " + num(LAT[k]));
    };
    dvec a = X, b = Y;
    pr->convertToLonLat(a, b);
    lonlat("convertToLonLat", a, b);
    auto xy = [&](const std::string& what, const dvec& a, const dvec& b) {
        for (size_t k = 0; k < X.size(); ++k)
            c.check((p.degree ? dist(a[k], X[k]) : std::fabs(a[k] - X[k])) < tolXY && std::fabs(b[k] - Y[k]) < tolXY,
                    what + ": point " + std::to_string(k) + " is " + num(a[k]) + " " + num(b[k]) + ", expected " + num(X[k]) + " " + num(Y[k]));
    };
    pr->convertFromLonLat(a, b);
    xy("convertFromLonLat does not invert convertToLonLat", a, b);
    a = LON;
    b = LAT;
    pr->convertFromLonLat(a, b);
    xy("convertFromLonLat", a, b);
    // the reprojection kernels
    dvec ox(nx * ny), oy(nx * ny);
    reproject::reproject_axes(pr->getProj4String(), p.latlong(), &xv[0], &yv[0], nx, ny, &ox[0], &oy[0]);
    lonlat("reproject_axes", ox, oy);
    a = X;
    b = Y;
    reproject::reproject_values(p.proj4, p.latlong(), &a[0], &b[0], a.size());
    lonlat("reproject_values", a, b);
    // to another projection and back
    cf::Proj q = cf::genProj(c, cf::LAEA | cf::STERE | cf::LCC | cf::LATLON);
    if (q.earth == p.earth) {
        a = X;
        b = Y;
        bool ok = true;
        cf::Pj pq(p.proj4, q.proj4);
        dvec wa = X, wb = Y;
        for (size_t k = 0; k < X.size(); ++k)
            ok &= pq.fwd(wa[k], wb[k]) && std::fabs(wa[k]) < 1e7;
        if (ok) {
            reproject::reproject_values(p.proj4, q.proj4, &a[0], &b[0], a.size());
            same(c, "reproject_values x to " + q.kind, a, wa, 1e-9, q.degree ? 1e-7 : 0.05);
            same(c, "reproject_values y to " + q.kind, b, wb, 1e-9, q.degree ? 1e-7 : 0.05);
            c.label("two projections");
        }
    }
    dvec bad(X.size() + 1, 0.);
    bool thrown = false;
    try {
        dvec t = X;
        pr->convertToLonLat(t, bad);
    } catch (std::exception&) {
        thrown = true;
    }
    c.check(thrown, "convertToLonLat accepted vectors of different size");
    c.label(p.kind);
    c.nontrivial(X.size() > 1);
}

// parameter bookkeeping: replacing the earth figure
static void earthFigure(Case& c)
{
    P4 p = genProj4(c);
    std::string e2 = c.picks({"+R=6371229", "+ellps=bessel", "+a=6378137 +b=6356752.3142"});
    std::string got = replaceProj4Earthfigure(p.s, e2);
    c.show() << p.s << " with " << e2 << " -> " << got;
    // same parameters in order, without the old figure
    std::istringstream is(p.s);
    std::string t, want;
    while (is >> t) {
        std::string key = t.substr(0, t.find('='));
        if (key == "+a" || key == "+b" || key == "+e" || key == "+R" || key == "+ellps" || key == "+datum")
            continue;
        if (key == "+rf" || key == "+f")
            continue;
        want += t + " ";
    }
    want += e2;
    c.check(got == want, "replaceProj4Earthfigure gives '" + got + "', expected '" + want + "'");
    c.check(replaceProj4Earthfigure(p.s, "") == p.s, "an empty earth figure changes the projection");
    c.nontrivial();
}

int main(int argc, char** argv)
{
    Runner r("C05", "at least three points compared / a grid of more than one point");
    r.init(quiet);
    r.assumption("PROJ itself is correct; earth figures limited to those fimex documents (spheres, a/b, a/rf, a/e, WGS84, GRS80, bessel)");
    r.sub("proj4", proj4, 6000, 200000);
    r.sub("attributes", attributes, 6000, 200000);
    r.sub("earth", earthFigure, 2000, 20000);
    return r.main(argc, argv);
}
