// C04: extraction (dimension reduction by position / axis value / bounding box, variable selection)
// LINK: -lproj
#include "cf.h"
#include "fimex/CDMExtractor.h"
#include "fimex/FimexTime.h"
#include <set>
using namespace fx;
using namespace pbt;

struct VM
{
    std::string name;
    std::vector<std::string> shape;
    CDMDataType type;
    dvec v; // original data
};
struct Model
{
    std::map<std::string, size_t> org;
    std::map<std::string, svec> sel; // kept original positions per dimension
    std::vector<VM> vars;
    std::string unlim;
};

static svec odims(const Model& m, const VM& v)
{
    svec r;
    for (auto& s : v.shape)
        r.push_back(m.org.at(s));
    return r;
}
static dvec expect(const Model& m, const VM& v)
{
    std::vector<svec> sel;
    for (auto& s : v.shape)
        sel.push_back(m.sel.at(s));
    return v.shape.empty() ? v.v : pickIndices(v.v, odims(m, v), sel);
}

static void verify(Case& c, CDMReader_p e, const Model& m, const std::set<std::string>& alive, size_t reads)
{
    const CDM& cdm = e->getCDM();
    for (auto& d : m.org)
        c.check(cdm.getDimension(d.first).getLength() == m.sel.at(d.first).size(),
                "length of dimension " + d.first + " is " + std::to_string(cdm.getDimension(d.first).getLength()) + ", expected " + std::to_string(m.sel.at(d.first).size()));
    for (auto& v : m.vars) {
        c.check(cdm.hasVariable(v.name) == (alive.count(v.name) > 0), "presence of variable " + v.name);
        if (!alive.count(v.name))
            continue;
        c.check(cdm.getVariable(v.name).getShape() == v.shape && cdm.getVariable(v.name).getDataType() == v.type, "definition of " + v.name);
        dvec want = expect(m, v);
        DataPtr d = e->getData(v.name);
        same(c, "data of " + v.name, d ? rawValues(d) : dvec(), want);
        if (want.empty())
            continue;
        c.check(d->getDataType() == v.type, "data type of " + v.name);
        svec dims;
        for (auto& s : v.shape)
            dims.push_back(m.sel.at(s).size());
        for (size_t q = 0; q < reads && !v.shape.empty(); ++q) {
            SliceBuilder sb(cdm, v.name);
            svec st(dims.size()), sz(dims.size());
            for (size_t k = 0; k < dims.size(); ++k) {
                st[k] = c.idx(dims[k]);
                sz[k] = c.i(1, dims[k] - st[k]);
                sb.setStartAndSize(v.shape[k], st[k], sz[k]);
            }
            c.show() << " read " << v.name << vec(st) << vec(sz);
            same(c, "slab of " + v.name, rawValues(e->getDataSlice(v.name, sb)), hyperslab(want, dims, st, sz));
        }
        if (!v.shape.empty() && v.shape.back() == m.unlim) {
            size_t pos = c.idx(dims.back());
            svec st(dims.size(), 0), sz = dims;
            st.back() = pos;
            sz.back() = 1;
            c.show() << " record " << v.name << " " << pos;
            same(c, "record of " + v.name, rawValues(e->getDataSlice(v.name, pos)), hyperslab(want, dims, st, sz));
        }
    }
}

static void genDims(Case& c, MemReader& r, Model& m, size_t maxLen)
{
    size_t nd = c.i(1, 4);
    bool haveU = c.b();
    for (size_t k = 0; k < nd; ++k) {
        std::string n = "d" + std::to_string(k);
        CDMDimension d(n, c.i(1, maxLen));
        if (haveU && k == nd - 1) {
            d.setUnlimited(true);
            m.unlim = n;
        }
        r.cdm().addDimension(d);
        m.org[n] = d.getLength();
        svec all(d.getLength());
        for (size_t q = 0; q < all.size(); ++q)
            all[q] = q;
        m.sel[n] = all;
    }
}
static void genVars(Case& c, MemReader& r, Model& m)
{
    std::vector<std::string> dn;
    for (auto& d : m.org)
        dn.push_back(d.first);
    size_t nv = c.i(1, 3);
    for (size_t q = 0; q < nv; ++q) {
        VM v;
        v.name = "v" + std::to_string(q);
        auto ss = c.subset(dn.size(), q == 0 ? 1 : 0);
        bool u = !m.unlim.empty() && ss.size() && dn[ss.back()] == m.unlim;
        if (u)
            ss.pop_back();
        for (size_t p : c.perm(ss.size()))
            v.shape.push_back(dn[ss[p]]);
        if (u)
            v.shape.push_back(m.unlim);
        v.type = c.pick<CDMDataType>({CDM_INT, CDM_DOUBLE, CDM_SHORT, CDM_FLOAT, CDM_UCHAR});
        size_t n = prod(odims(m, v));
        v.v.resize(n);
        for (size_t k = 0; k < n; ++k)
            v.v[k] = v.type == CDM_UCHAR ? k % 250 : k + 1 + 1000 * q; // identifies the position
        r.cdm().addVariable(CDMVariable(v.name, v.type, v.shape));
        DataPtr d = mkData(v.type, v.v);
        if (c.b(0.3))
            r.cdm().getVariable(v.name).setData(d);
        else
            r.data[v.name] = d;
        m.vars.push_back(v);
        c.show() << v.name << vec(v.shape) << vec(odims(m, v)) << " ";
    }
}

static bool throws(const std::function<void()>& f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}

static void reduce(Case& c)
{
    auto r = std::make_shared<MemReader>();
    r->ownSlices = c.b();
    Model m;
    genDims(c, *r, m, 6);
    genVars(c, *r, m);
    std::vector<std::string> dn;
    for (auto& d : m.org)
        dn.push_back(d.first);
    std::set<std::string> alive;
    for (auto& v : m.vars)
        alive.insert(v.name);
    size_t stages = c.w({4, 1}) + 1;
    CDMReader_p base = r;
    bool gaps = false;
    for (size_t stage = 0; stage < stages; ++stage) {
        auto e = std::make_shared<CDMExtractor>(base);
        const Model before = m;
        size_t ops = c.i(1, 4);
        for (size_t o = 0; o < ops; ++o) {
            std::string d = c.pick(dn);
            size_t n = before.sel.at(d).size();
            // always positions of the extractor's input ("original dimension")
            auto apply = [&](const svec& pos) {
                svec s;
                for (size_t p : pos)
                    s.push_back(before.sel.at(d).at(p));
                m.sel[d] = s;
            };
            switch (c.w({5, 3, 3, 1.5, 1, 1})) {
            case 0: {
                svec pos = n ? c.subset(n, c.b(0.97) ? 1 : 0) : svec();
                c.show() << " reduce(" << d << vec(pos) << ")";
                e->reduceDimension(d, std::set<std::size_t>(pos.begin(), pos.end()));
                apply(pos);
                gaps |= pos.size() > 1 && pos.back() - pos.front() + 1 != pos.size();
                break;
            }
            case 1: {
                if (!n)
                    break;
                size_t st = c.idx(n), len = c.i(c.b(0.95) ? 1 : 0, n - st);
                c.show() << " reduce(" << d << " " << st << "+" << len << ")";
                e->reduceDimension(d, st, len);
                svec pos;
                for (size_t k = 0; k < len; ++k)
                    pos.push_back(st + k);
                apply(pos);
                break;
            }
            case 2: {
                // end: >0 last position (included), 0 up to the full size, <0 counted from the end.
                // counts relative to the current length: only on dimensions not reduced before
                if (!n || m.sel.at(d) != before.sel.at(d))
                    break;
                size_t st = c.idx(n);
                long long end = c.i(-(long long)(n - st), n - 1);
                if (end > 0 && (size_t)end < st)
                    end = 0;
                c.show() << " startEnd(" << d << " " << st << " " << end << ")";
                size_t stop = end > 0 ? end + 1 : n + end;
                e->reduceDimensionStartEnd(d, st, end);
                svec pos;
                for (size_t k = st; k < stop; ++k)
                    pos.push_back(k);
                apply(pos);
                break;
            }
            case 3: { // refused requests change nothing
                size_t len = n;
                c.show() << " bad(" << d << ")";
                switch (c.w({1, 1, 1, 1})) {
                case 0: {
                    std::set<std::size_t> s;
                    if (n)
                        s.insert(c.idx(n));
                    s.insert(len + c.i(0, 2));
                    c.check(throws([&] { e->reduceDimension(d, s); }), "a position beyond the end of the dimension was accepted");
                    break;
                }
                case 1: {
                    size_t st = n ? c.idx(n) : 0;
                    c.check(throws([&] { e->reduceDimension(d, st, len - st + c.i(1, 3)); }), "a range beyond the end of the dimension was accepted");
                    break;
                }
                case 2:
                    c.check(throws([&] { e->reduceDimensionStartEnd(d, 0, (long long)(len ? len : 1) + c.i(0, 2)); }), "an end beyond the end of the dimension was accepted");
                    break;
                case 3: c.check(throws([&] { e->reduceDimension("nosuchdim", 0, 1); }), "an unknown dimension was accepted"); break;
                }
                break;
            }
            case 4: {
                std::string v = c.pick(m.vars).name;
                c.show() << " remove(" << v << ")";
                e->removeVariable(v);
                alive.erase(v);
                break;
            }
            case 5: {
                std::set<std::string> s;
                for (auto& v : m.vars)
                    if (c.b(0.7))
                        s.insert(v.name);
                if (c.b(0.2))
                    s.insert("nosuchvar");
                c.show() << " select(" << vec(s) << ")";
                e->selectVariables(s);
                std::set<std::string> a2;
                for (auto& a : alive)
                    if (s.count(a))
                        a2.insert(a);
                alive = a2;
                break;
            }
            }
        }
        c.show() << " |";
        verify(c, e, m, alive, 2);
        base = e;
    }
    c.nontrivial(gaps);
    c.label(gaps ? "non-contiguous selection" : "contiguous selection");
    // the source is as before
    for (auto& v : m.vars)
        same(c, "source " + v.name, rawValues(r->getData(v.name)), v.v);
}

// strictly monotonic axis, in multiples of the unit step
static dvec mono(Case& c, size_t n, double start, double step)
{
    dvec a(n);
    double x = start;
    for (size_t k = 0; k < n; ++k) {
        a[k] = x;
        x += step * c.i(1, 3);
    }
    return a;
}

static void axes(Case& c)
{
    auto r = std::make_shared<MemReader>();
    cf::Dataset ds;
    ds.r = r;
    size_t nt = c.i(1, 8), nz = c.i(1, 7);
    cf::Proj p = cf::genProj(c, cf::LATLON | cf::STERE);
    cf::addGrid(ds, p, cf::genAxis(c, p.cx, p.half, c.i(2, 3)), cf::genAxis(c, p.cy, p.half, c.i(2, 3)));
    struct TU { const char* u; double sec; };
    const TU tu = c.pick(std::vector<TU>{{"hours since 2000-01-01 00:00:00", 3600}, {"seconds since 1970-01-01 00:00:00", 1}, {"minutes since 2010-06-01 12:00:00", 60}, {"days since 1999-12-31", 86400}});
    const long long base = std::string(tu.u).find("hours") == 0 ? 946684800LL : std::string(tu.u).find("sec") == 0 ? 0 : std::string(tu.u).find("min") == 0 ? 1275393600LL : 946598400LL;
    // values in seconds since epoch, multiples of one hour
    dvec tsec = mono(c, nt, 946684800. + 3600. * 24 * c.i(0, 400), 3600. * c.pick<double>({1, 3, 24}));
    if (c.b(0.2))
        std::reverse(tsec.begin(), tsec.end());
    dvec tv(nt);
    for (size_t k = 0; k < nt; ++k)
        tv[k] = (tsec[k] - base) / tu.sec;
    ds.t = {"time", tv, tu.u};
    struct ZU { const char *u, *ask; double f; const char* pos; };
    const ZU zu = c.pick(std::vector<ZU>{{"hPa", "hPa", 1, "down"}, {"hPa", "Pa", 100, "down"}, {"m", "m", 1, "up"}, {"m", "km", 1e-3, "up"}, {"Pa", "hPa", 0.01, "down"}});
    dvec zv = mono(c, nz, c.i(0, 20) * 50, 50);
    if (c.b(0.4))
        std::reverse(zv.begin(), zv.end());
    ds.z = {"lev", zv, zu.u};
    cf::addAxis(ds, ds.z, false);
    cf::attr(ds, "lev", "positive", zu.pos);
    cf::addAxis(ds, ds.t, true);
    cf::attr(ds, "time", "standard_name", "time");
    dvec data(r->dimsOf("crs").size() ? 0 : ds.x.v.size() * ds.y.v.size() * nz * nt);
    for (size_t k = 0; k < data.size(); ++k)
        data[k] = k;
    cf::addVar(ds, "field", CDM_FLOAT, {ds.x.name, ds.y.name, "lev", "time"}, data);
    Model m;
    for (auto& d : {ds.x, ds.y, ds.z, ds.t}) {
        m.org[d.name] = d.v.size();
        svec all;
        for (size_t k = 0; k < d.v.size(); ++k)
            all.push_back(k);
        m.sel[d.name] = all;
    }
    m.unlim = "time";
    m.vars = {{"field", {ds.x.name, ds.y.name, "lev", "time"}, CDM_FLOAT, data}, {"lev", {"lev"}, CDM_DOUBLE, zv}, {"time", {"time"}, CDM_DOUBLE, tv}};
    auto e = std::make_shared<CDMExtractor>(r);
    // bounds: exactly on a value or well away from all values
    auto bound = [&](const dvec& v, double step) -> double {
        double x = v[c.idx(v.size())];
        if (v.size() > 1 && std::fabs(v[1] - v[0]) > 5 * step)
            return x; // keep clear of the rounding tolerance (1 % of the first step)
        switch (c.w({2, 1, 1, 0.5, 0.5})) {
        case 0: return x;
        case 1: return x + step * 0.5;
        case 2: return x - step * 0.5;
        case 3: return *std::min_element(v.begin(), v.end()) - 10 * step;
        default: return *std::max_element(v.begin(), v.end()) + 10 * step;
        }
    };
    auto between = [&](const dvec& v, double lo, double hi) {
        svec s;
        for (size_t k = 0; k < v.size(); ++k)
            if (v[k] >= lo && v[k] <= hi)
                s.push_back(k);
        return s;
    };
    bool strict = false;
    size_t what = c.w({2, 2, 2});
    if (what != 1) {
        double lo = bound(tsec, 3600), hi = bound(tsec, 3600);
        if (lo > hi)
            std::swap(lo, hi);
        c.show() << " time " << tu.u << vec(tv) << " keep " << (lo - base) / tu.sec << ".." << (hi - base) / tu.sec;
        m.sel["time"] = between(tsec, lo, hi);
        if (m.sel["time"].empty())
            c.label("empty time");
        time_t a = (time_t)lo, b = (time_t)hi;
        struct tm ta, tb;
        gmtime_r(&a, &ta);
        gmtime_r(&b, &tb);
        e->reduceTime(FimexTime(ta.tm_year + 1900, ta.tm_mon + 1, ta.tm_mday, ta.tm_hour, ta.tm_min, ta.tm_sec), FimexTime(tb.tm_year + 1900, tb.tm_mon + 1, tb.tm_mday, tb.tm_hour, tb.tm_min, tb.tm_sec));
        strict |= m.sel["time"].size() < nt && m.sel["time"].size() > 0;
    }
    if (what != 0) {
        double lo = bound(zv, 50), hi = bound(zv, 50);
        if (lo > hi)
            std::swap(lo, hi);
        c.show() << " lev " << zu.u << vec(zv) << " keep " << lo << ".." << hi << " asked in " << zu.ask;
        m.sel["lev"] = between(zv, lo, hi);
        e->reduceVerticalAxis(zu.ask, lo * zu.f, hi * zu.f);
        strict |= m.sel["lev"].size() < nz && m.sel["lev"].size() > 0;
        // an incompatible unit selects no axis
        if (c.b(0.1)) {
            auto e2 = std::make_shared<CDMExtractor>(r);
            e2->reduceVerticalAxis("kg", 0, 0);
            c.check(e2->getCDM().getDimension("lev").getLength() == nz, "vertical axis reduced by a range in an incompatible unit");
        }
    }
    c.nontrivial(strict);
    verify(c, e, m, {"field", "lev", "time"}, 2);
}

static void bbox(Case& c)
{
    auto r = std::make_shared<MemReader>();
    cf::Dataset ds;
    ds.r = r;
    cf::Proj p = cf::genProj(c, cf::ALL);
    dvec xv = cf::genAxis(c, p.cx, p.half, c.i(2, 9)), yv = cf::genAxis(c, p.cy, p.half, c.i(2, 9));
    if (p.kind == "latitude_longitude")
        for (auto& y : yv)
            c.assume(std::fabs(y) <= 90);
    if (p.kind == "latitude_longitude" && c.b(0.3))
        for (auto& x : xv)
            x += x < 0 ? 360 : 0; // 0..360 convention
    if (!std::is_sorted(xv.begin(), xv.end()) && !std::is_sorted(xv.rbegin(), xv.rend()))
        c.assume(false);
    cf::addGrid(ds, p, xv, yv);
    const size_t nx = xv.size(), ny = yv.size();
    dvec data(nx * ny);
    for (size_t k = 0; k < data.size(); ++k)
        data[k] = k;
    cf::addVar(ds, "field", CDM_FLOAT, {ds.x.name, ds.y.name}, data);
    // the oracle: PROJ on every grid point
    cf::Pj pj(p.proj4, p.latlong());
    dvec lon(nx * ny), lat(nx * ny);
    for (size_t iy = 0; iy < ny; ++iy)
        for (size_t ix = 0; ix < nx; ++ix) {
            double a = xv[ix], b = yv[iy];
            c.assume(pj.fwd(a, b));
            while (a > 180)
                a -= 360;
            while (a < -180)
                a += 360;
            lon[iy * nx + ix] = a;
            lat[iy * nx + ix] = b;
        }
    auto near = [&](const dvec& v, double lim) {
        double x = v[c.idx(v.size())] + c.pick<double>({0.01, -0.01, 0.5, -0.5, 3, -3});
        return std::min(lim, std::max(-lim, x));
    };
    double s = near(lat, 90), n = near(lat, 90), w = near(lon, 180), e = near(lon, 180);
    if (s > n)
        std::swap(s, n);
    if (w > e && c.b(0.7))
        std::swap(w, e);
    for (size_t k = 0; k < lon.size(); ++k) // no point on the edge or at the date line
        c.assume(std::fabs(lat[k] - s) > 1e-5 && std::fabs(lat[k] - n) > 1e-5 && std::fabs(lon[k] - w) > 1e-5 && std::fabs(lon[k] - e) > 1e-5 && std::fabs(lon[k]) < 180 - 1e-5);
    std::set<size_t> xs, ys;
    for (size_t iy = 0; iy < ny; ++iy)
        for (size_t ix = 0; ix < nx; ++ix) {
            double a = lon[iy * nx + ix], b = lat[iy * nx + ix];
            bool in = b >= s && b <= n && (w <= e ? (a >= w && a <= e) : (a >= w || a <= e));
            if (in) {
                xs.insert(ix);
                ys.insert(iy);
            }
        }
    c.show() << p.proj4 << " x" << vec(xv) << " y" << vec(yv) << " box s" << s << " n" << n << " w" << w << " e" << e;
    auto ex = std::make_shared<CDMExtractor>(r);
    ex->reduceLatLonBoundingBox(s, n, w, e);
    Model m;
    m.org = {{ds.x.name, nx}, {ds.y.name, ny}};
    m.sel[ds.x.name] = svec(xs.begin(), xs.end());
    m.sel[ds.y.name] = svec(ys.begin(), ys.end());
    m.vars = {{"field", {ds.x.name, ds.y.name}, CDM_FLOAT, data}, {ds.x.name, {ds.x.name}, CDM_DOUBLE, xv}, {ds.y.name, {ds.y.name}, CDM_DOUBLE, yv}};
    verify(c, ex, m, {"field", ds.x.name, ds.y.name}, 1);
    c.nontrivial(!xs.empty() && (xs.size() < nx || ys.size() < ny));
    c.label(xs.empty() ? "empty box" : p.kind);
    if (w > e)
        c.label("box across the date line");
    auto bad = std::make_shared<CDMExtractor>(r);
    c.check(throws([&] { bad->reduceLatLonBoundingBox(n + 0.1, s, w, e); }) && throws([&] { bad->reduceLatLonBoundingBox(-91, n, w, e); }) &&
                throws([&] { bad->reduceLatLonBoundingBox(s, n, -181, e); }) && throws([&] { bad->reduceLatLonBoundingBox(s, n, w, 181); }),
            "an invalid bounding box was accepted");
}

// selecting with auxiliary variables keeps what the selected variables need
static void auxiliary(Case& c)
{
    auto r = std::make_shared<MemReader>();
    cf::Dataset ds;
    ds.r = r;
    cf::Proj p = cf::genProj(c, cf::ALL);
    cf::addGrid(ds, p, cf::genAxis(c, p.cx, p.half, c.i(2, 3)), cf::genAxis(c, p.cy, p.half, c.i(2, 3)));
    ds.z = {"lev", mono(c, c.i(1, 3), 100, 50), "1"};
    ds.t = {"time", mono(c, c.i(1, 3), 0, 1), "hours since 2000-01-01 00:00:00"};
    cf::addAxis(ds, ds.z, false);
    cf::addAxis(ds, ds.t, true);
    cf::attr(ds, "lev", "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate");
    cf::attr(ds, "lev", "formula_terms", "ap: ap b: b ps: ps");
    size_t nx = ds.x.v.size(), ny = ds.y.v.size(), nz = ds.z.v.size(), nt = ds.t.v.size();
    cf::addVar(ds, "ap", CDM_DOUBLE, {"lev"}, dvec(nz, 1.), false);
    cf::addVar(ds, "b", CDM_DOUBLE, {"lev"}, dvec(nz, 1.), false);
    cf::addVar(ds, "ps", CDM_FLOAT, {ds.x.name, ds.y.name, "time"}, dvec(nx * ny * nt, 1000.));
    bool coords = c.b() && p.kind != "latitude_longitude";
    if (coords) {
        cf::addVar(ds, "lon", CDM_DOUBLE, {ds.x.name, ds.y.name}, dvec(nx * ny, 10.), false);
        cf::addVar(ds, "lat", CDM_DOUBLE, {ds.x.name, ds.y.name}, dvec(nx * ny, 60.), false);
        cf::attr(ds, "lon", "units", "degrees_east");
        cf::attr(ds, "lat", "units", "degrees_north");
    }
    std::vector<std::string> sel;
    struct V { std::string n; bool z, t; };
    std::vector<V> vs = {{"a", true, true}, {"b2", false, true}, {"c", false, false}, {"d", true, false}};
    for (auto& v : vs) {
        std::vector<std::string> sh = {ds.x.name, ds.y.name};
        size_t n = nx * ny;
        if (v.z)
            sh.push_back("lev"), n *= nz;
        if (v.t)
            sh.push_back("time"), n *= nt;
        cf::addVar(ds, v.n, CDM_FLOAT, sh, dvec(n, 2.));
        if (coords)
            cf::attr(ds, v.n, "coordinates", "lon lat");
    }
    std::set<std::string> want, need, all = {"a", "b2", "c", "d", "crs", ds.x.name, ds.y.name, "lev", "time", "ap", "b", "ps"};
    if (coords)
        all.insert({"lon", "lat"});
    for (auto& v : vs)
        if (c.b()) {
            want.insert(v.n);
            need.insert({v.n, ds.x.name, ds.y.name, "crs"});
            if (v.z)
                need.insert("lev");
            if (v.t)
                need.insert("time");
            if (coords)
                need.insert({"lon", "lat"});
            // the vertical formula terms belong to the coordinate system of the variable
            if (v.z)
                need.insert({"ap", "b", "ps"});
            if (v.z)
                need.insert("time"); // through ps
        }
    c.show() << p.kind << " select " << vec(want) << (coords ? " with lon/lat" : "");
    auto e = std::make_shared<CDMExtractor>(r);
    e->selectVariables(want, true);
    std::set<std::string> got;
    for (auto& v : e->getCDM().getVariables())
        got.insert(v.getName());
    for (auto& n : need)
        c.check(got.count(n) > 0, "selecting " + vec(want) + " with auxiliary variables dropped " + n);
    for (auto& v : vs)
        c.check(got.count(v.n) == want.count(v.n), "variable " + v.n + " was not selected but kept");
    auto e2 = std::make_shared<CDMExtractor>(r);
    e2->selectVariables(want, false);
    std::set<std::string> got2;
    for (auto& v : e2->getCDM().getVariables())
        got2.insert(v.getName());
    c.check(got2 == want, "selection without auxiliary variables is " + vec(got2));
    c.nontrivial(!want.empty() && want.size() < vs.size());
}

int main(int argc, char** argv)
{
    Runner r("C04", "a selection with gaps, a proper non-empty subset of an axis or box, a proper subset of the variables");
    r.init(quiet);
    r.sub("reduce", reduce, 30000, 2000000);
    r.sub("axes", axes, 8000, 400000);
    r.sub("bbox", bbox, 8000, 400000);
    r.sub("auxiliary", auxiliary, 2000, 50000);
    return r.main(argc, argv);
}
