// C15: vertical interpolation
#include "vert.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/FindNeighborElements.h"
using namespace pbt;
using namespace vert;

static const char* typeName(int t)
{
    return t == MIFI_VINT_PRESSURE ? "pressure" : t == MIFI_VINT_HEIGHT ? "height" : t == MIFI_VINT_ALTITUDE ? "altitude" : "depth";
}

//! value of the 1-d method at x; levels l, values v; sets ambiguous where rounding decides
static double interpolate(const std::string& m, const dvec& l, const dvec& v, double x, bool& ambiguous, double& slack)
{
    ambiguous = false;
    slack = 0;
    dvec dl;
    std::vector<size_t> def;
    for (size_t k = 0; k < l.size(); ++k)
        if (!std::isnan(l[k]))
            def.push_back(k);
    if (def.empty() || std::isnan(x))
        return NAN;
    double mag = std::fabs(x);
    for (size_t k : def)
        mag = std::max(mag, std::fabs(l[k]));
    const double eps = mag * 2e-6;
    // neighbours
    int lo = -1, hi = -1;
    for (size_t k : def) {
        if (std::fabs(l[k] - x) < eps && (l[k] != x || (double)(float)x != x))
            ambiguous = true;
        if (l[k] <= x && (lo < 0 || l[k] > l[lo]))
            lo = k;
        if (l[k] > x && (hi < 0 || l[k] < l[hi]))
            hi = k;
    }
    for (size_t i : def)
        for (size_t j : def)
            if (i < j && std::fabs(l[i] - l[j]) < 50 * eps)
                ambiguous = true; // (nearly) equal levels
    int a, b;
    if (lo >= 0 && hi >= 0) {
        a = lo;
        b = hi;
    } else { // extrapolation by the closest two
        std::sort(def.begin(), def.end(), [&](size_t i, size_t j) { return std::fabs(l[i] - x) < std::fabs(l[j] - x); });
        if (def.size() < 2)
            return NAN;
        a = def[0];
        b = def[1];
    }
    if (std::fabs(l[b] - x) < std::fabs(l[a] - x))
        std::swap(a, b);
    if (m == "nearestneighbor") {
        if (std::fabs(std::fabs(l[b] - x) - std::fabs(l[a] - x)) < 4 * eps)
            ambiguous = true;
        return v[a];
    }
    const bool lg = m == "log" || m == "loglog";
    if (lg && (l[a] <= 0 || l[b] <= 0 || x <= 0))
        return NAN;
    auto t = [&](double z) { return m == "log" ? std::log(z) : m == "loglog" ? std::log(std::log(z + M_E)) : z; };
    const double f = (t(x) - t(l[a])) / (t(l[b]) - t(l[a]));
    slack = eps / std::fabs(l[b] - l[a]) * 4 * std::fabs(v[b] - v[a]);
    if (lg)
        slack = std::fabs(v[b] - v[a]) * 1e-5 / std::fabs(t(l[b]) - t(l[a]));
    if (f == 0)
        return v[a];
    if (f == 1)
        return v[b];
    for (double lim : {-1., 0., 1., 2.})
        if (std::fabs(f - lim) < 1e-4)
            ambiguous = true;
    if (m == "linear_weak_extra" && (f < -1 || f > 2))
        return NAN;
    if (m == "linear_no_extra" && (f < 0 || f > 1))
        return NAN;
    if (m == "linear_const_extra") {
        if (f < 0)
            return v[a];
        if (f > 1)
            return v[b];
    }
    return v[a] + f * (v[b] - v[a]);
}

struct DataVar
{
    std::string name;
    strs shape;
    CDMDataType type;
    dvec raw; // NaN where undefined
    double vmin = NAN, vmax = NAN;
    size_t off(const VD& d, const Pos& p, const std::string& skip = "") const
    {
        size_t o = 0, m = 1;
        for (auto& s : shape) {
            if (s == skip)
                continue;
            o += m * d.pos(s, p);
            m *= d.len(s);
        }
        return o;
    }
};

static DataVar addData(Case& c, VD& d, const std::string& name, const strs& shape)
{
    DataVar v;
    v.name = name;
    v.shape = shape;
    v.type = c.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT});
    const bool fills = c.b(0.4), fl = isFloat(v.type), attrFill = fills || c.b();
    const double fill = fl ? c.pick({-9999., 9.96921e36}) : -32767;
    size_t n = 1;
    for (auto& s : shape)
        n *= d.len(s);
    dvec st;
    for (size_t k = 0; k < n; ++k) {
        double x = fl ? (double)(float)c.dfine(-50, 300) : (double)c.i(-3000, 3000);
        if (fills && c.b(0.2)) {
            v.raw.push_back(NAN);
            st.push_back(v.type == CDM_FLOAT ? (double)(float)fill : fill);
        } else {
            v.raw.push_back(x);
            st.push_back(x);
        }
    }
    addVar(d.ds, name, v.type, shape, st, true, c.b(0.1));
    CDM& cdm = d.ds.r->cdm();
    if (attrFill)
        cdm.addAttribute(name, CDMAttribute("_FillValue", mkData(v.type, {fill})));
    if (c.b(0.2)) {
        v.vmin = fl ? 0 : -1000;
        cdm.addAttribute(name, CDMAttribute("valid_min", mkData(v.type, {v.vmin})));
    }
    if (c.b(0.2)) {
        v.vmax = fl ? 200 : 1000;
        cdm.addAttribute(name, CDMAttribute("valid_max", mkData(v.type, {v.vmax})));
    }
    if (!fl && c.b())
        cdm.addAttribute(name, CDMAttribute("scale_factor", mkData(CDM_FLOAT, {0.1})));
    return v;
}

static void interpolation(Case& c)
{
    Opt o;
    for (int k = 0; k < NKINDS; ++k)
        o.kinds.push_back(k);
    VD d = genVD(c, o);
    std::vector<DataVar> vars;
    vars.push_back(addData(c, d, "v", d.vshape));
    if (c.b(0.3)) { // without time or ensemble
        strs s = d.vshape;
        s.erase(std::remove_if(s.begin(), s.end(), [](const std::string& n) { return n == "time" || n == "ens"; }), s.end());
        bool independent = true; // the levels may vary with time: then this variable has no vertical position
        d.all([&](const Pos& p) {
            for (auto& f : d.f)
                for (auto& n : f.second.shape)
                    if ((n == "time" || n == "ens"))
                        independent = false;
        });
        if (s != d.vshape && independent)
            vars.push_back(addData(c, d, "w", s));
    }
    vars.push_back(addData(c, d, "sfcvar", {d.ds.x.name, d.ds.y.name}));
    describe(c, d);
    std::vector<int> types;
    for (int t : {MIFI_VINT_PRESSURE, MIFI_VINT_ALTITUDE, MIFI_VINT_HEIGHT, MIFI_VINT_DEPTH})
        if (d.has(t))
            types.push_back(t);
    const int type = c.pick(types);
    const std::string method = c.picks({"linear", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "log", "loglog", "nearestneighbor"});
    // target
    const int mode = c.w({4, 2, 2}); // fixed levels, axis, template variable
    dvec column;
    {
        Pos p{c.idx(d.nx), c.idx(d.ny), 0, d.ne ? c.idx(d.ne) : 0, d.nt ? c.idx(d.nt) : 0};
        for (p.z = 0; p.z < d.nz; ++p.z)
            column.push_back(d.level(type, p));
    }
    double lo = 1e30, hi = -1e30;
    for (double x : column)
        if (!std::isnan(x)) {
            lo = std::min(lo, x);
            hi = std::max(hi, x);
        }
    if (lo > hi) {
        lo = 100;
        hi = 900;
    }
    const double span = std::max(hi - lo, 10.);
    const size_t no = c.i(mode == 0 ? 1 : 2, 4);
    dvec req;
    for (size_t k = 0; k < no; ++k)
        switch (c.w({5, 2, 1, 1})) {
        case 0: req.push_back(c.dfine(lo, hi)); break;
        case 1: req.push_back(c.dfine(lo - 0.9 * span, hi + 0.9 * span)); break;
        case 2: req.push_back(d.kind == PRES || d.kind == HEIGHT || d.kind == ALTITUDE || d.kind == DEPTH ? d.at(d.zname, {0, 0, c.idx(d.nz), 0, 0}) : c.dfine(lo, hi)); break;
        default: req.push_back(std::round(c.dfine(lo - 0.1 * span, hi)));
        }
    if (mode != 0) {
        std::sort(req.begin(), req.end());
        for (size_t k = 1; k < no; ++k)
            c.assume(req[k] > req[k - 1] + 1e-3);
    }
    CDM& cdm = d.ds.r->cdm();
    std::string target = "target";
    bool targetSigma = false;
    dvec stored;
    if (mode != 0) {
        const bool sg = type == MIFI_VINT_PRESSURE && !d.ps.empty() && mode == 2 && c.b(0.6);
        U u = type == MIFI_VINT_PRESSURE ? presUnit(c) : lenUnit(c);
        if (type == MIFI_VINT_ALTITUDE)
            target = "altitude2";
        cdm.addDimension(CDMDimension(target, no));
        if (sg) {
            targetSigma = true;
            for (size_t k = 0; k < no; ++k)
                req[k] = (k + c.dfine(0.1, 0.9)) / no;
            u = {"1", 1, 0};
        }
        for (double r : req)
            stored.push_back(r / u.scale);
        addVar(d.ds, target, CDM_DOUBLE, strs(1, target), stored, false);
        attr(d.ds, target, "units", u.unit);
        if (sg) {
            attr(d.ds, target, "standard_name", "atmosphere_sigma_coordinate");
            attr(d.ds, target, "formula_terms", "sigma: " + target + " ps: " + d.ps + " ptop: tptop");
            addVar(d.ds, "tptop", CDM_DOUBLE, strs(), {10.}, false);
            attr(d.ds, "tptop", "units", "hPa");
        } else if (type == MIFI_VINT_HEIGHT) {
            attr(d.ds, target, "standard_name", "height");
            attr(d.ds, target, "positive", "up");
        } else if (type == MIFI_VINT_ALTITUDE) {
            attr(d.ds, target, "standard_name", "altitude");
            attr(d.ds, target, "positive", "up");
        } else if (type == MIFI_VINT_DEPTH) {
            attr(d.ds, target, "positive", "down");
        }
    }
    strs tshape;
    if (mode == 2) { // template variable on the target axis
        tshape = d.vshape;
        *std::find(tshape.begin(), tshape.end(), d.zname) = target;
        size_t n = 1;
        for (auto& s : tshape)
            n *= s == target ? no : d.len(s);
        addVar(d.ds, "tmpl", CDM_FLOAT, tshape, dvec(n, 1.));
    }
    // a record without data
    size_t missing = size_t(-1);
    if (d.unlim && c.b(0.1) && !cdm.getVariable("v").hasData()) {
        missing = c.idx(d.nt);
        d.ds.r->missing.insert({"v", missing});
    }
    const bool ignMin = c.b(0.15), ignMax = c.b(0.15);
    c.show() << "to " << typeName(type) << " " << method << (mode == 0 ? " fixed " : mode == 1 ? " axis " : targetSigma ? " template sigma " : " template ") << vec(req)
             << (ignMin ? " ignoreMin" : "") << (ignMax ? " ignoreMax" : "") << (missing != size_t(-1) ? " record " + std::to_string(missing) + " of v is missing" : "") << "\n";
    c.label(typeName(type));
    c.label(method);
    c.label(mode == 0 ? "fixed" : mode == 1 ? "axis" : "template");
    if (mode == 1 && ((type == MIFI_VINT_PRESSURE && d.airp.size()) || ((type == MIFI_VINT_ALTITUDE || type == MIFI_VINT_HEIGHT) && d.gph.size())))
        c.label("axis with field of levels");

    auto vi = std::make_shared<CDMVerticalInterpolator>(d.ds.r, typeName(type), method);
    if (ignMin)
        vi->ignoreValidityMin(true);
    if (ignMax)
        vi->ignoreValidityMax(true);
    if (mode == 0)
        vi->interpolateToFixed(req);
    else if (mode == 1)
        vi->interpolateToAxis(target);
    else
        vi->interpolateByTemplateVariable("tmpl");
    const CDM& oc = vi->getCDM();
    if (d.nz == 1) { // nothing to interpolate
        c.label("one level");
        c.check(oc.getVariable("v").getShape() == d.vshape, "a variable with one level was changed");
        return;
    }
    // ---- metadata ----
    if (mode == 0) {
        target.clear();
        for (auto& s : oc.getVariable("v").getShape())
            if (std::find(d.vshape.begin(), d.vshape.end(), s) == d.vshape.end())
                target = s;
        c.check(!target.empty(), "no new vertical axis");
        c.check(oc.hasVariable(target), "the new axis has no variable");
        c.check(oc.getUnits(target) == (type == MIFI_VINT_PRESSURE ? "hPa" : "m"), "units of the axis");
        auto a = vi->getData(target);
        c.check(a->size() == no, "axis length");
        for (size_t k = 0; k < no; ++k)
            c.check(a->asDouble()[k] == req[k], "axis value");
    }
    c.check(oc.getDimension(target).getLength() == no, "length of the vertical dimension");
    if (mode != 2)
        c.check(!oc.hasVariable(d.zname), "the old vertical axis is still there");

    for (auto& v : vars) {
        const bool lev = std::find(v.shape.begin(), v.shape.end(), d.zname) != v.shape.end();
        strs os = v.shape;
        if (lev)
            *std::find(os.begin(), os.end(), d.zname) = target;
        c.check(oc.getVariable(v.name).getShape() == os, "shape of " + v.name);
        c.check(oc.getVariable(v.name).getDataType() == v.type, "type of " + v.name);
        const bool rec = d.unlim && os.back() == "time";
        const double fill = oc.getFillValue(v.name);
        size_t n = 1;
        for (auto& s : os)
            n *= s == target ? no : (rec && s == "time") ? 1 : d.len(s);
        for (size_t r = 0; r < (rec ? d.nt : 1); ++r) {
            DataPtr data = vi->getDataSlice(v.name, r);
            c.check(!!data, v.name + ": no data");
            if (v.name == "v" && r == missing) {
                for (size_t k = 0; k < data->size(); ++k)
                    c.check(close(data->getDouble(k), fill, 1e-6, 0), "values in a record that is missing");
                continue;
            }
            c.check(data->size() == n, v.name + ": " + std::to_string(data->size()) + " values, expected " + std::to_string(n));
            c.check(data->getDataType() == v.type, "data type of " + v.name);
            auto got = data->asDouble();
            d.all([&](const Pos& p) {
                if (p.z != 0)
                    return;
                if ((rec && p.t != r) || (std::find(v.shape.begin(), v.shape.end(), "time") == v.shape.end() && p.t != 0))
                    return;
                if (std::find(v.shape.begin(), v.shape.end(), "ens") == v.shape.end() && p.e != 0)
                    return;
                dvec l, val;
                for (size_t z = 0; z < (lev ? d.nz : 1); ++z) {
                    Pos q = p;
                    q.z = z;
                    l.push_back(d.level(type, q));
                    val.push_back(v.raw[v.off(d, q)]);
                }
                for (size_t k = 0; k < (lev ? no : 1); ++k) {
                    size_t off = 0, m = 1;
                    for (auto& s : os) {
                        if (rec && s == "time")
                            continue;
                        off += m * (s == target ? k : d.pos(s, p));
                        m *= s == target ? no : d.len(s);
                    }
                    double g = got[off];
                    bool undef = std::isnan(g) || (!std::isnan(fill) && close(g, fill, 1e-6, 0));
                    double want, slack = 0;
                    bool ambiguous = false;
                    if (!lev) {
                        want = val[0];
                    } else {
                        double x = req[k];
                        if (targetSigma) {
                            double ps = d.at(d.ps, p);
                            x = 10 + req[k] * (ps - 10);
                        }
                        want = interpolate(method, l, val, x, ambiguous, slack);
                        if (d.kind >= OCEAN1) { // surface to bottom
                            double top = d.eta.empty() ? NAN : -d.at(d.eta, p), bottom = d.at(d.depth, p);
                            if (!ignMin && !std::isnan(top)) {
                                if (std::fabs(x - top) < 1e-4 * std::fabs(top) + 1e-4)
                                    ambiguous = true;
                                if (x < top)
                                    want = NAN;
                            }
                            if (!ignMax) {
                                if (std::fabs(x - bottom) < 1e-4 * std::fabs(bottom))
                                    ambiguous = true;
                                if (x > bottom || std::isnan(bottom))
                                    want = NAN;
                            }
                        }
                        if (!std::isnan(want)) {
                            if (want < v.vmin)
                                want = v.vmin;
                            if (want > v.vmax)
                                want = v.vmax;
                        }
                        c.nontrivial(!std::isnan(want));
                        if (!isFloat(v.type) && std::fabs(want) > 32000) // not representable
                            ambiguous = true;
                        if (ambiguous) {
                            c.label("undecided by rounding");
                            continue;
                        }
                    }
                    const double tol = 1e-5 * (std::fabs(want) + 300) + slack + (isFloat(v.type) ? 0 : 0.51);
                    if (std::isnan(want) ? !undef : (undef || std::fabs(g - want) > tol)) {
                        std::ostringstream os;
                        os << v.name << " record " << r << " x=" << p.x << " y=" << p.y << " ens=" << p.e << " time=" << p.t << " level " << k << ": got " << num(g)
                           << (undef ? " (undefined)" : "") << ", expected " << num(want) << "; levels " << vec(l) << " values " << vec(val);
                        c.fail(os.str());
                    }
                }
            });
        }
    }
}

//! neighbour search as documented
static void neighbours(Case& c)
{
    size_t n = c.i(0, 6);
    std::vector<double> v;
    for (size_t k = 0; k < n; ++k)
        v.push_back(c.i(-4, 4));
    double x = c.i(-10, 10) / 2.;
    c.show() << vec(v) << " x=" << x;
    std::set<double> dist(v.begin(), v.end());
    auto chk = [&](size_t a, size_t b, bool neigh, const char* what) {
        std::string msg = std::string(what) + " = (" + std::to_string(a) + ", " + std::to_string(b) + "): ";
        if (n == 0)
            return;
        c.check(a < n && b < n, msg + "out of range");
        if (dist.size() == 1)
            return;
        c.check(v[a] != v[b], msg + "not distinct");
        // a is the closest element
        double da = std::fabs(v[a] - x), db = std::fabs(v[b] - x);
        for (double e : dist)
            c.check(da <= std::fabs(e - x), msg + "first is not the closest");
        if (neigh && *dist.begin() <= x && x < *dist.rbegin()) {
            double lo = *--dist.upper_bound(x), hi = *dist.upper_bound(x);
            c.check(std::min(v[a], v[b]) == lo && std::max(v[a], v[b]) == hi, msg + "not the neighbours");
        } else {
            for (double e : dist)
                if (e != v[a])
                    c.check(db <= std::fabs(e - x), msg + "second is not the second closest");
        }
    };
    c.nontrivial(dist.size() > 2);
    auto p = find_closest_distinct_elements(v.begin(), v.end(), x);
    chk(p.first, p.second, false, "find_closest_distinct_elements");
    p = find_closest_neighbor_distinct_elements(v.begin(), v.end(), x);
    chk(p.first, p.second, true, "find_closest_neighbor_distinct_elements");
}

int main(int argc, char** argv)
{
    Runner r("C15", "a defined value interpolated between levels (neighbours: more than two distinct elements)");
    r.init(quiet);
    r.assumption("points where rounding in single precision decides (level within 2e-6 of a requested one, limits of extrapolation) are not decided");
    r.sub("interpolation", interpolation, 24000, 400000);
    r.sub("neighbours", neighbours, 20000, 400000);
    return r.main(argc, argv);
}
