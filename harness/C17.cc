// C17: interpolation in time
// LINK: -lproj
#include "cal.h"
#include "cf.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/CDMReaderUtils.h"
using namespace cal;
using namespace pbt;

struct Var
{
    std::string name;
    CDMDataType type;
    svec sizes; // without time
    bool time;
    bool scaled = false;
    double scale = 1, offset = 0;
    bool hasFill = false;
    double fill = NAN;
    bool memory = false;
    std::vector<dvec> rec; // raw values, fill included
    std::vector<char> missing;
};

static double undef(const Var& v, double raw)
{
    return std::isnan(raw) || (v.hasFill && raw == v.fill) || (!v.hasFill && std::fabs(raw) > 9e36) ? NAN : raw;
}

static void interpolate(Case& c)
{
    cf::Dataset ds;
    ds.r = std::make_shared<MemReader>();
    // time axis
    TU u = genTU(c);
    const int64_t stepMs = std::max<int64_t>(1000, std::llround(u.step * 1000));
    const size_t nt = c.w({1, 2, 4, 3, 2, 1}) + 1;
    T t0 = genTime(c, 2, 1950, 2060);
    int64_t k0 = (t0.epochMs() - u.ref) / std::llround(u.step * 1000);
    std::vector<int64_t> src; // ms
    dvec tv;
    const int64_t per = stepMs / std::llround(u.step * 1000); // unit steps per time step
    for (size_t k = 0; k < nt; ++k) {
        if (k)
            k0 += per * c.i(1, 4);
        tv.push_back(k0);
        src.push_back(u.ref + k0 * std::llround(u.step * 1000));
    }
    CDMDataType ttype = CDM_DOUBLE;
    double ts = 1, to = 0;
    dvec traw = tv;
    if (std::fabs(tv.front()) < 2e9 && std::fabs(tv.back()) < 2e9 && c.b(0.4)) {
        ttype = CDM_INT;
        if (c.b(0.3)) {
            ts = c.pick({0.5, 0.25});
            to = tv[0];
            for (double& v : traw)
                v = (v - to) / ts;
            if (std::fabs(traw.back()) < 30000)
                ttype = CDM_SHORT;
            c.assume(std::fabs(traw.back()) < 2e9);
            c.label("packed time axis");
        }
    }
    ds.t = {"time", traw, u.text};
    const bool unlim = c.b(0.97);
    const size_t nx = c.i(1, 3), ny = c.i(1, 2);
    if (c.b(0.8)) {
        Case& cc = c;
        cf::Proj p = cf::genProj(cc, ~0u, true);
        cf::addGrid(ds, p, cf::genAxis(c, p.cx, p.half, nx), cf::genAxis(c, p.cy, p.half, ny));
    } else {
        ds.x = {"lon", cf::genAxis(c, 10, 5, nx), "degrees_east"};
        ds.y = {"lat", cf::genAxis(c, 50, 5, ny), "degrees_north"};
        cf::addAxis(ds, ds.x, false);
        cf::addAxis(ds, ds.y, false);
        ds.r->cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.6"));
    }
    cf::addAxis(ds, ds.t, unlim, ttype);
    CDM& cdm = ds.r->cdm();
    if (c.b(0.7))
        cf::attr(ds, "time", "standard_name", "time");
    if (ts != 1) {
        cdm.addAttribute("time", CDMAttribute("scale_factor", ts));
        cdm.addAttribute("time", CDMAttribute("add_offset", to));
    }
    if (c.b(0.3)) {
        cdm.getVariable("time").setData(ds.r->data["time"]);
        ds.r->data.erase("time");
    }
    // variables
    std::vector<Var> vars;
    const bool grid = cdm.hasVariable("crs");
    for (size_t k = 0, n = c.i(1, 3); k < n; ++k) {
        Var v;
        v.name = std::string("v") + char('0' + k);
        v.type = c.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT, CDM_CHAR, CDM_UCHAR, CDM_INT});
        v.time = c.b(0.85);
        v.memory = c.b(0.3);
        std::vector<std::string> shape;
        if (c.b(0.8)) {
            shape = {ds.x.name, ds.y.name};
            v.sizes = {nx, ny};
        }
        if (v.time)
            shape.push_back("time");
        const size_t sz = prod(v.sizes);
        const double range = v.type == CDM_CHAR ? 60 : v.type == CDM_UCHAR ? 60 : 1000, lo = v.type == CDM_UCHAR ? 50 : -range / 2;
        if (c.b(0.6)) {
            v.hasFill = true;
            v.fill = isFloat(v.type) ? c.pick({-9999., 1e20, double(NAN)}) : v.type == CDM_CHAR ? -127. : v.type == CDM_UCHAR ? 255. : c.pick({-32767., -999., 9999.});
            if (v.type == CDM_FLOAT)
                v.fill = float(v.fill);
        }
        dvec all;
        for (size_t r = 0; r < (v.time ? nt : 1); ++r) {
            dvec d(sz);
            for (double& x : d) {
                x = stored(v.type, c.d(lo, lo + range));
                if (v.hasFill && c.b(0.15))
                    x = v.fill;
                else if (isFloat(v.type) && c.b(0.03))
                    x = NAN;
            }
            all.insert(all.end(), d.begin(), d.end());
            v.rec.push_back(d);
            v.missing.push_back(v.time && unlim && !v.memory && c.b(0.06));
            if (v.missing.back())
                ds.r->missing.insert({v.name, r});
        }
        cf::addVar(ds, v.name, v.type, shape, all, grid && v.sizes.size() == 2, v.memory);
        if (v.hasFill)
            cdm.addAttribute(v.name, CDMAttribute("_FillValue", mkData(v.type, {v.fill})));
        if (c.b(0.3)) {
            v.scaled = true;
            v.scale = c.pick({0.5, 0.01, 2.});
            v.offset = c.pick({0., 273.15, -5.});
            cdm.addAttribute(v.name, CDMAttribute("scale_factor", v.scale));
            cdm.addAttribute(v.name, CDMAttribute("add_offset", v.offset));
        }
        vars.push_back(v);
    }
    // target times
    TU out = genTU(c);
    const bool withUnit = c.b(0.8);
    const size_t nn = c.i(1, 6);
    std::vector<int64_t> dst;
    std::string spec;
    const int order = c.w({6, 1, 1});
    for (size_t k = 0; k < nn; ++k) {
        int64_t t;
        const size_t a = c.idx(nt);
        switch (c.w({3, 4, 1, 1})) {
        case 0: t = src[a]; break;
        case 1: t = a + 1 < nt ? src[a] + (src[a + 1] - src[a]) / 1000 * c.i(1, 7) / 8 * 1000 : src[a]; break;
        case 2: t = src.front() - (nt > 1 ? src[1] - src[0] : stepMs) / 1000 * c.pick({1, 3, 6, 10, 20}) / 8 * 1000; break;
        default: t = src.back() + (nt > 1 ? src[nt - 1] - src[nt - 2] : stepMs) / 1000 * c.pick({1, 3, 6, 10, 20}) / 8 * 1000;
        }
        dst.push_back(t);
    }
    if (order != 2) {
        std::sort(dst.begin(), dst.end());
        dst.erase(std::unique(dst.begin(), dst.end()), dst.end());
        if (order == 1)
            std::reverse(dst.begin(), dst.end());
    }
    for (int64_t t : dst)
        spec += (spec.empty() ? "" : ",") + fromEpochMs(t).iso();
    if (withUnit)
        spec += ";unit=" + out.text;
    c.label(order == 0 ? "ascending targets" : order == 1 ? "descending targets" : "unordered targets");
    c.show() << "times " << vec(tv) << " '" << u.text << "' raw " << vec(traw) << (unlim ? "" : " limited") << "\nspec " << spec << "\n";
    for (auto& v : vars) {
        c.show() << v.name << " " << tname(v.type) << (v.memory ? " memory" : "") << (v.hasFill ? " fill " + num(v.fill) : "") << (v.scaled ? " scaled" : "") << (v.time ? "" : " no time");
        for (size_t r = 0; r < v.rec.size(); ++r)
            c.show() << " " << (v.missing[r] ? "missing" : vec(v.rec[r]));
        c.show() << "\n";
    }
    auto ti = std::make_shared<CDMTimeInterpolator>(ds.r);
    bool anyTime = false;
    for (auto& v : vars)
        anyTime |= v.time;
    c.assume(anyTime);
    const size_t history = c.w({8, 1, 1});
    if (history == 1) {
        // never changed: everything as before
        c.label("unchanged");
        for (auto& v : vars)
            for (size_t r = 0; r < (v.time && unlim ? nt : 1); ++r) {
                DataPtr d = ti->getDataSlice(v.name, r);
                if (v.missing[r])
                    c.check(d->size() == 0, "missing record has data");
                else if (!v.time || unlim)
                    same(c, v.name + " without change of the axis", rawValues(d), v.rec[r]);
            }
        same(c, "time without change of the axis", rawValues(ti->getData("time")), traw);
        c.nontrivial();
        return;
    }
    if (history == 2) {
        c.label("changed twice");
        T other = genTime(c, 1, 1950, 2060);
        ti->changeTimeAxis(fromEpochMs(src[0]).iso() + "," + other.iso() + (c.b() ? ";unit=" + genTU(c).text : ""));
    }
    ti->changeTimeAxis(spec);
    const CDM& n = ti->getCDM();
    c.check(n.getDimension("time").getLength() == dst.size(), "time has length " + std::to_string(n.getDimension("time").getLength()));
    std::string unit = n.getUnits("time");
    if (withUnit)
        c.check(unit == out.text, "unit of time is " + unit);
    DataPtr ntime = ti->getScaledDataInUnit("time", "seconds since 1970-01-01 00:00:00");
    c.check(ntime->size() == dst.size(), "time has " + std::to_string(ntime->size()) + " values");
    for (size_t k = 0; k < dst.size(); ++k)
        c.check(close(ntime->asDouble()[k], dst[k] / 1000., 0, 0.01), "time " + std::to_string(k) + " is " + num(ntime->asDouble()[k]) + ", expected " + num(dst[k] / 1000.));
    for (auto& v : vars) {
        if (!v.time) {
            same(c, v.name + " (no time)", rawValues(ti->getData(v.name)), v.rec[0]);
            continue;
        }
        if (!unlim) {
            c.label("time not unlimited");
            try {
                ti->getDataSlice(v.name, 0);
                // not implemented: an error is reported, or the result is right (not decided)
            } catch (CDMException&) {
            }
            continue;
        }
        c.check(n.getVariable(v.name).getDataType() == v.type, "type in the CDM");
        const size_t sz = prod(v.sizes);
        std::vector<dvec> whole;
        bool anyMissing = false;
        std::vector<size_t> readOrder = c.perm(dst.size());
        whole.resize(dst.size());
        for (size_t k : readOrder) {
            // reference
            size_t a = 0, b = 0;
            bool exact = false;
            if (nt > 1) {
                b = 1;
                while (b + 1 < nt && src[b] < dst[k])
                    ++b;
                a = b - 1;
            }
            for (size_t q = 0; q < nt; ++q)
                if (src[q] == dst[k])
                    exact = true, a = b = q;
            const double f = a == b ? 0 : double(dst[k] - src[a]) / double(src[b] - src[a]);
            DataPtr d = ti->getDataSlice(v.name, k);
            const std::string w = v.name + " at target " + std::to_string(k) + " (" + fromEpochMs(dst[k]).iso() + ", between records " + std::to_string(a) + " and " + std::to_string(b) + ")";
            if (v.missing[a] && v.missing[b]) {
                c.check(d->size() == 0, w + ": data although nothing is defined");
                anyMissing = true;
                continue;
            }
            dvec exp(sz);
            bool judged = true;
            if (exact && v.missing[a]) {
                anyMissing = true;
                continue; // unreachable: a == b
            }
            if (v.missing[a] || v.missing[b])
                exp = v.rec[v.missing[a] ? b : a];
            else {
                if (f > -1.02 && f < -0.98)
                    judged = false;
                if (f > 1.98 && f < 2.02)
                    judged = false;
                for (size_t q = 0; q < sz; ++q) {
                    const double x = undef(v, v.rec[a][q]), y = undef(v, v.rec[b][q]);
                    exp[q] = exact || a == b ? x : f < -1 || f > 2 ? NAN : x + f * (y - x);
                    c.nontrivial(!exact && a != b && !std::isnan(exp[q]));
                }
                c.label(exact ? "at a record" : f < 0 || f > 1 ? (std::isnan(exp[0]) ? "undefined" : "extrapolated") : "between records");
            }
            if (!judged)
                continue;
            dvec got = rawValues(d);
            c.check(got.size() == sz, w + ": " + std::to_string(got.size()) + " values, expected " + std::to_string(sz));
            c.check(d->getDataType() == v.type, w + ": data of type " + tname(d->getDataType()) + ", variable of type " + tname(v.type));
            for (size_t q = 0; q < sz; ++q) {
                const double g = undef(v, got[q]), e = undef(v, exp[q]);
                if (std::isnan(e) && !v.hasFill && !isFloat(v.type)) {
                    continue; // there is no value for undefined
                }
                if (!std::isnan(e) && v.hasFill && !isFloat(v.type) && std::fabs(e - v.fill) < 1)
                    continue; // happens to be the fill value
                const double tol = exact && a == b ? 0 : (isFloat(v.type) ? 0 : 0.51) + 5e-6 * (std::fabs(v.rec[a][q]) + std::fabs(v.rec[b][q]));
                c.check(close(g, e, 0, tol), w + ": element " + std::to_string(q) + " is " + num(got[q]) + ", expected " + num(exp[q]));
            }
            whole[k] = got;
        }
        // the same data as a whole and in slices, scaled
        if (!anyMissing) {
            bool complete = true;
            dvec all;
            for (auto& x : whole) {
                complete &= x.size() == sz;
                all.insert(all.end(), x.begin(), x.end());
            }
            if (complete) {
                same(c, v.name + " as a whole", rawValues(ti->getData(v.name)), all);
                svec dims = v.sizes;
                dims.push_back(dst.size());
                SliceBuilder sb(n, v.name);
                svec st, si;
                std::vector<std::string> shape = n.getVariable(v.name).getShape();
                for (size_t q = 0; q < dims.size(); ++q) {
                    st.push_back(c.idx(dims[q]));
                    si.push_back(1 + c.idx(dims[q] - st[q]));
                    sb.setStartAndSize(shape[q], st[q], si[q]);
                }
                same(c, v.name + " slice", rawValues(ti->getDataSlice(v.name, sb)), hyperslab(all, dims, st, si));
                dvec sc;
                for (double x : all)
                    sc.push_back(undef(v, x) * v.scale + v.offset);
                if (v.hasFill || isFloat(v.type))
                    same(c, v.name + " scaled", rawValues(ti->getScaledData(v.name)), sc, 1e-6, 1e-6);
            }
        }
    }
}

int main(int argc, char** argv)
{
    Runner r("C17", "a target time strictly between or outside the records with a defined value, or an interpolator whose axis is not changed");
    r.init(quiet);
    r.assumption("record times are whole seconds; extrapolation by exactly one interval and integers without fill value where the result is undefined are not judged");
    r.sub("interpolation", interpolate, 60000, 4000000);
    return r.main(argc, argv);
}
