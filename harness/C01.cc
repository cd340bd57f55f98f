// C01: typed data containers - conversion, rescaling with missing values, copying.
#include "ncmodel.h"
#include "fimex/DataUtils.h"
#include "fimex/Units.h"
using namespace fx;
using namespace pbt;

// value that is exactly representable in both a and b (so that no conversion is undefined)
static double genValue(Case& c, CDMDataType a, CDMDataType b)
{
    double lo = std::max(tmin(a), tmin(b)), hi = std::min(tmax(a), tmax(b));
    double v;
    switch (c.w({4, 3, 2, 2, 1})) {
    case 0: v = c.i(-20, 20); break;
    case 1: v = c.dfine(-300, 300); break;
    case 2: { // near the limits of the range
        v = c.b() ? lo + c.i(0, 3) : hi - c.i(0, 3);
        break;
    }
    case 3: // large magnitude
        v = std::ldexp(c.dfine(1, 2), (int)c.i(0, 62)) * (c.b() ? -1 : 1);
        break;
    default: v = c.i(-40, 40) + 0.5; break; // ties
    }
    v = std::min(hi, std::max(lo, v));
    if (!isFloat(a))
        v = std::round(v);
    if (a == CDM_FLOAT)
        v = (float)v;
    // keep integers exactly representable as double, and rounding within the target's range
    if (!isFloat(a) || !isFloat(b)) {
        double r = std::round(v);
        if (r > hi || r < lo)
            v = std::trunc(v);
    }
    v = std::min(hi, std::max(lo, v));
    if (a == CDM_FLOAT)
        v = (float)v;
    if (a == CDM_FLOAT && !isFloat(b) && (v > hi || v < lo))
        v = 0;
    if (v == 0)
        v = 0; // no negative zero
    return v;
}

static dvec asType(DataPtr d, CDMDataType t)
{
    const size_t n = d->size();
    switch (t) {
    case CDM_CHAR: { auto a = d->asChar(); dvec r(n); for (size_t k = 0; k < n; ++k) r[k] = (signed char)a[k]; return r; }
    case CDM_SHORT: return rd(d->asShort(), n);
    case CDM_INT: return rd(d->asInt(), n);
    case CDM_UCHAR: return rd(d->asUChar(), n);
    case CDM_USHORT: return rd(d->asUShort(), n);
    case CDM_UINT: return rd(d->asUInt(), n);
    case CDM_INT64: return rd(d->asInt64(), n);
    case CDM_UINT64: return rd(d->asUInt64(), n);
    case CDM_FLOAT: return rd(d->asFloat(), n);
    case CDM_DOUBLE: return rd(d->asDouble(), n);
    default: abort();
    }
}

static double refCast(CDMDataType to, double v)
{
    if (to == CDM_DOUBLE)
        return v;
    if (to == CDM_FLOAT)
        return (float)v;
    return std::round(v); // half away from zero
}

static void conversions(Case& c)
{
    CDMDataType a = c.pick(numTypes()), b = c.pick(numTypes());
    size_t n = c.i(1, 12);
    dvec v(n);
    for (auto& x : v)
        x = genValue(c, a, b);
    c.show() << tname(a) << "->" << tname(b) << " values " << vec(v);
    c.label(std::string(tname(a)) + "->" + tname(b));
    c.nontrivial(a != b || n > 1);
    DataPtr d = mkData(a, v);
    dvec want(n);
    for (size_t k = 0; k < n; ++k)
        want[k] = refCast(b, v[k]);
    c.check(d->getDataType() == a && d->size() == n, "type or size of a new Data object is wrong");
    same(c, "reading as another type", asType(d, b), want);
    same(c, "source changed by reading", rawValues(d), v);
    DataPtr cv = convertValues(*d, b);
    c.check(cv->getDataType() == b, "convertValues gives the wrong type");
    same(c, "convertValues", rawValues(cv), want);
    // element access
    for (size_t k = 0; k < n; ++k) {
        c.check(close(d->getDouble(k), v[k], 0, 0), "getDouble differs at " + std::to_string(k));
        if (std::fabs(v[k]) < 9e18)
            c.check((double)d->getLongLong(k) == refCast(CDM_INT64, v[k]), "getLongLong differs: " + std::to_string(d->getLongLong(k)) + " for " + num(v[k]));
    }
    // setValue converts a double to the stored type
    DataPtr e = createData(b, n, 0.);
    for (size_t k = 0; k < n; ++k)
        e->setValue(k, v[k]);
    same(c, "setValue", rawValues(e), want);
    // creation from iterators and constant fill
    double cst = want[c.idx(n)];
    DataPtr f = createData(b, n + 2, cst);
    same(c, "createData(type, n, value)", rawValues(f), dvec(n + 2, cst));
    f->setAllValues(want[0]);
    same(c, "setAllValues", rawValues(f), dvec(n + 2, want[0]));
    // range copy with conversion
    size_t first = c.i(0, n), last = c.i(first, n + 2), start = c.i(0, n + 2);
    if (c.b(0.2))
        last = size_t(-1);
    dvec w2(n + 2, want[0]);
    for (size_t k = first; k < std::min(last, n) && start + k - first < n + 2; ++k)
        w2[start + k - first] = want[k];
    c.show() << " setValues(start=" << start << ",first=" << first << ",last=" << (long)last << ")";
    f->setValues(start, *d, first, last);
    same(c, "setValues", rawValues(f), w2);
    // sub-range as new object
    size_t s0 = c.i(0, n - 1), sn = c.i(1, n - s0);
    DataPtr sl = createDataSlice(b, *d, s0, sn);
    same(c, "createDataSlice", rawValues(sl), dvec(want.begin() + s0, want.begin() + s0 + sn));
    // clones are independent
    DataPtr cl = d->clone();
    dvec v2 = v;
    double nv = genValue(c, a, a);
    size_t p = c.idx(n);
    cl->setValue(p, nv);
    v2[p] = refCast(a, nv);
    same(c, "clone after write", rawValues(cl), v2);
    same(c, "original after writing to its clone", rawValues(d), v);
    sl->setAllValues(0);
    cv->setAllValues(0);
    same(c, "original after writing to derived objects", rawValues(d), v);
}

static void rescale(Case& c)
{
    CDMDataType a = c.pick(numTypes()), b = c.pick(numTypes());
    size_t n = c.i(1, 12);
    // scale and offset
    auto gs = [&]() { return c.pick<double>({1., 2., 0.1, 0.01, -1., 0.5, 10., 3.7}); };
    auto go = [&]() { return c.w({3, 1}) == 0 ? 0. : c.pick<double>({273.15, -100., 1., 0.25, 32.}); };
    double s0 = gs(), o0 = go(), s1 = gs(), o1 = go();
    if (c.b(0.15)) {
        s1 = s0;
        o1 = o0;
    }
    // fill values representable in their types
    auto gf = [&](CDMDataType t) {
        if (isFloat(t))
            return c.pick<double>({std::nan(""), (double)MIFI_FILL_FLOAT, -9999., 1e20f, -32767.});
        return std::round(c.pick<double>({tmax(t) > 1e10 ? 99999. : tmax(t), tmin(t) < -1e10 ? -99999. : tmin(t), 99., 100., 1.}));
    };
    double f0 = gf(a), f1 = gf(b);
    // unit converter: none or a linear one, or ln(re ...) is not linear
    UnitsConverter_p uc;
    double us = 1, uo = 0;
    std::string un = "none";
    switch (c.w({5, 2, 1})) {
    case 1:
        uc = Units().getConverter("K", "celsius");
        uo = -273.15;
        un = "K->celsius";
        break;
    case 2:
        uc = Units().getConverter("km", "m");
        us = 1000;
        un = "km->m";
        break;
    default: break;
    }
    dvec v(n), want(n);
    size_t nfill = 0, nval = 0;
    for (size_t k = 0; k < n; ++k) {
        switch (c.w({6, 2, 1})) {
        case 1: v[k] = f0; break;
        case 2: v[k] = isFloat(a) ? std::nan("") : f0; break;
        default: {
            double lim = c.pick<double>({120., 120., 30000., 2e9});
            double lo = std::max(-lim, tmin(a)), hi = std::min(lim, tmax(a));
            v[k] = stored(a, c.d(lo, hi));
        }
        }
    }
    for (size_t k = 0; k < n; ++k) {
        if (std::isnan(v[k]) || v[k] == f0) {
            want[k] = f1;
            nfill++;
        } else {
            double x = (us * (s0 * v[k] + o0) + uo - o1) / s1;
            // stay inside the target's range
            if (!isFloat(b) && (x > std::min(tmax(b), 1e15) + 0.4 || x < std::max(tmin(b), -1e15) - 0.4)) {
                v[k] = f0;
                want[k] = f1;
                nfill++;
                continue;
            }
            want[k] = x;
            nval++;
        }
    }
    // identical parameters: values pass through unchanged, including undefined ones; NaN to integer has no meaning there
    bool ident = f0 == f1 && s0 == s1 && o0 == o1 && !uc;
    if (ident && !isFloat(b))
        for (size_t k = 0; k < n; ++k)
            c.assume(!std::isnan(v[k]));
    c.show() << tname(a) << "->" << tname(b) << " fill " << f0 << "->" << f1 << " scale " << s0 << "->" << s1 << " offset " << o0 << "->" << o1 << " unit "
             << un << " values " << vec(v);
    c.label(ident ? "identity" : "rescale");
    c.label("unit " + un);
    c.nontrivial(nfill > 0 && nval > 0);
    DataPtr d = mkData(a, v);
    DataPtr r = uc ? d->convertDataType(f0, s0, o0, uc, b, f1, s1, o1) : d->convertDataType(f0, s0, o0, b, f1, s1, o1);
    c.check(r->getDataType() == b, "type of the converted data");
    c.check(r->size() == n, "size of the converted data");
    dvec g = rawValues(r);
    for (size_t k = 0; k < n; ++k) {
        bool miss = std::isnan(v[k]) || v[k] == f0;
        bool ok;
        if (miss && ident)
            ok = close(g[k], std::isnan(v[k]) ? v[k] : f1, 1e-7, 0) || close(g[k], f1, 1e-7, 0);
        else if (miss)
            ok = close(g[k], refCast(b, f1), b == CDM_FLOAT ? 1e-7 : 0, 0);
        else if (b == CDM_DOUBLE)
            ok = close(g[k], want[k], 1e-11, 1e-9);
        else if (b == CDM_FLOAT)
            ok = close(g[k], want[k], 1e-6, 1e-5);
        else // rounding: accept both neighbours when within 1e-7 of a tie
            ok = g[k] == std::round(want[k]) || (std::fabs(g[k] - want[k]) <= 0.5 + 1e-7 + 1e-12 * std::fabs(want[k]) && g[k] == std::round(g[k]));
        if (!ok)
            c.fail("element " + std::to_string(k) + (miss ? " (missing)" : "") + ": got " + num(g[k]) + " expected " + num(want[k]));
    }
    same(c, "source after conversion", rawValues(d), v);
}

static void slices(Case& c)
{
    CDMDataType a = c.pick(numTypes());
    size_t nd = c.i(1, 5);
    svec dims(nd), st(nd), sz(nd);
    for (auto& x : dims)
        x = c.i(1, 5);
    bool strict = false;
    for (size_t k = 0; k < nd; ++k) {
        st[k] = c.i(0, dims[k] - 1);
        sz[k] = c.i(c.b(0.05) ? 0 : 1, dims[k] - st[k]);
        strict |= sz[k] != dims[k];
    }
    size_t n = prod(dims);
    dvec v(n);
    for (size_t k = 0; k < n; ++k)
        v[k] = k % 120;
    for (size_t k = 0; k < n; ++k)
        if (isFloat(a) || a == CDM_INT)
            v[k] = k;
    c.show() << tname(a) << " dims " << vec(dims) << " start " << vec(st) << " size " << vec(sz);
    c.nontrivial(nd > 1 && strict);
    c.label("ndim " + std::to_string(nd));
    DataPtr d = mkData(a, v);
    DataPtr s = d->slice(dims, st, sz);
    c.check(s->getDataType() == a, "slice has another type");
    same(c, "slice", rawValues(s), hyperslab(v, dims, st, sz));
    // strings too
    auto sa = make_shared_array<std::string>(n);
    std::vector<std::string> sv(n);
    for (size_t k = 0; k < n; ++k)
        sa[k] = sv[k] = "s" + std::to_string(k);
    DataPtr ds = createData(n, sa);
    DataPtr ss = ds->slice(dims, st, sz);
    auto ws = hyperslab(sv, dims, st, sz);
    auto gs = ss->asStrings();
    c.check(ss->size() == ws.size(), "string slice size");
    for (size_t k = 0; k < ws.size(); ++k)
        c.check(gs[k] == ws[k], "string slice differs: " + gs[k] + " vs " + ws[k]);
    // out of range requests are refused
    size_t k = c.idx(nd);
    svec bad = sz;
    bad[k] = dims[k] - st[k] + c.i(1, 3);
    bool thrown = false;
    try {
        d->slice(dims, st, bad);
    } catch (CDMException&) {
        thrown = true;
    }
    c.check(thrown, "a slice beyond the end of dimension " + std::to_string(k) + " was not refused");
    // dimensions that do not belong to the data are refused
    svec wrong = dims;
    wrong[k] += c.i(1, 2);
    thrown = false;
    try {
        d->slice(wrong, st, sz);
    } catch (CDMException&) {
        thrown = true;
    }
    c.check(thrown, "a slice with dimensions that do not match the data size was not refused");
    same(c, "source after slicing", rawValues(d), v);
}

//! a reader that only knows how to read one record gives the whole and all slices; missing records are fill values
static void records(Case& c)
{
    Model m = genModel(c, true);
    c.show() << describe(m);
    Model e = m;
    bool miss = false;
    for (auto& v : e.vars)
        if (!v.v.empty()) {
            size_t rec = v.v.size() / v.missing.size();
            for (size_t i = 0; i < v.missing.size(); ++i)
                if (v.missing[i]) {
                    miss = true;
                    for (size_t k = 0; k < rec; ++k)
                        v.v[i * rec + k] = fillOf(v);
                }
        }
    if (miss)
        c.label("missing records");
    for (auto& v : m.vars)
        if (m.hasUnlim(v))
            c.nontrivial();
    auto r = std::make_shared<Source>(m);
    for (auto& v : e.vars) {
        if (v.type == CDM_STRING || !e.hasUnlim(v) || v.v.size() + v.strs.size() == 0)
            continue;
        const svec dims = e.sizes(v);
        auto cmp = [&](const std::string& how, DataPtr d, const svec& st, const svec& sz) {
            c.check(d && d->size() == prod(sz) && d->getDataType() == v.type, v.name + " " + how + ": size or type");
            if (v.type == CDM_STRINGS) {
                auto h = hyperslab(v.strs, dims, st, sz);
                auto s = d->asStrings();
                for (size_t i = 0; i < h.size(); ++i)
                    c.check(s[i] == h[i], v.name + " " + how + ": string");
            } else
                same(c, v.name + " " + how, rawValues(d), hyperslab(v.v, dims, st, sz));
        };
        cmp("whole", r->getData(v.name), svec(dims.size(), 0), dims);
        SliceBuilder sb(r->getCDM(), v.name);
        svec st, sz;
        for (size_t d = 0; d < dims.size(); ++d) {
            st.push_back(c.idx(dims[d]));
            sz.push_back(1 + c.idx(dims[d] - st.back()));
            sb.setStartAndSize(v.shape[d], st.back(), sz.back());
        }
        cmp("slice", r->getDataSlice(v.name, sb), st, sz);
    }
}

int main(int argc, char** argv)
{
    Runner r("C01", "conversions: random type pair, 1-12 values incl. limits, ties, 2^0..2^62 magnitudes; non-trivial: differing types or several values. "
                    "rescale: random fill/scale/offset/unit pair of types; non-trivial: both missing and non-missing elements. "
                    "slices: 1-5 dimensions; non-trivial: >1 dimension and a strict sub-range.");
    r.init(quiet);
    r.assumption("values outside the range of the target type are not generated (their conversion is not defined)");
    r.sub("conversions", conversions, 1000000, 40000000);
    r.sub("rescale", rescale, 1000000, 40000000);
    r.sub("records", records, 60000, 2000000);
    r.sub("slices", slices, 500000, 20000000);
    return r.main(argc, argv);
}
