// C02: all ways of reading a variable agree: full, per record, hyperslab, scaled, scaled in a unit.
#include "fx.h"
#include "fimex/CDMReaderUtils.h"
using namespace fx;
using namespace pbt;

struct UnitPair
{
    const char *from, *to;
    double s, o;
    int nonlin; // 1: 10^(v/10), 2: 10*log10(v)
};
static const UnitPair UP[] = {{"K", "celsius", 1, -273.15, 0},     {"m", "km", 1e-3, 0, 0},
                              {"Pa", "hPa", 1e-2, 0, 0},           {"celsius", "K", 1, 273.15, 0},
                              {"celsius", "degF", 1.8, 32, 0},     {"m/s", "m/s", 1, 0, 0},
                              {"1", "%", 100, 0, 0},               {"m s-1", "km/h", 3.6, 0, 0},
                              {"dBZ", "mm6 m-3", 1, 0, 1},         {"mm6 m-3", "dBZ", 1, 0, 2},
                              {"degF", "K", 5. / 9., 459.67 * 5. / 9., 0}};

struct VarModel
{
    std::string name;
    std::vector<std::string> shape;
    svec dims;
    CDMDataType type;
    dvec v;
    double fill, scale = 1, offset = 0;
    bool unlim = false;
};

static double defaultFill(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return -127;
    case CDM_SHORT: return -32767;
    case CDM_INT: return -2147483647.;
    case CDM_FLOAT: return (double)9.9692099683868690e+36f;
    case CDM_DOUBLE: return 9.9692099683868690e+36;
    case CDM_UCHAR: return 255;
    case CDM_USHORT: return 65535;
    case CDM_UINT: return 4294967295.;
    case CDM_INT64: return -9223372036854775806.;
    case CDM_UINT64: return 18446744073709551614.;
    default: return 0;
    }
}

static void addNumAttr(CDM& cdm, const std::string& var, const std::string& name, CDMDataType t, double v)
{
    cdm.addAttribute(var, CDMAttribute(name, mkData(t, dvec(1, v))));
}

static void readers(Case& c)
{
    auto r = std::make_shared<MemReader>();
    r->ownSlices = c.b();
    CDM& cdm = r->cdm();
    size_t nd = c.i(1, 4);
    std::vector<std::string> dn;
    svec dl;
    bool haveU = c.b(0.7);
    for (size_t k = 0; k < nd; ++k) {
        dn.push_back(std::string(1, char("zyxw"[k])) + (k == 0 ? "t" : "d"));
        dl.push_back(c.i(1, 5));
        CDMDimension d(dn[k], dl[k]);
        if (k == nd - 1 && haveU)
            d.setUnlimited(true);
        cdm.addDimension(d);
    }
    size_t nv = c.i(1, 3);
    std::vector<VarModel> vars;
    const UnitPair& up = UP[c.idx(sizeof UP / sizeof *UP)];
    for (size_t q = 0; q < nv; ++q) {
        VarModel m;
        m.name = "v" + std::to_string(q);
        // shape: subset of the dimensions; the unlimited one stays outermost, others in any order
        auto ss = c.subset(nd, 0);
        bool u = haveU && ss.size() && ss.back() == nd - 1;
        if (u)
            ss.pop_back();
        auto pm = c.perm(ss.size());
        for (size_t p : pm)
            m.shape.push_back(dn[ss[p]]);
        if (u)
            m.shape.push_back(dn[nd - 1]);
        m.unlim = u;
        for (auto& s : m.shape)
            m.dims.push_back(cdm.getDimension(s).getLength());
        m.type = c.pick(numTypes());
        m.fill = defaultFill(m.type);
        CDMVariable var(m.name, m.type, m.shape);
        cdm.addVariable(var);
        bool wide = tmax(m.type) > 300;
        if (c.b(0.5)) {
            m.fill = isFloat(m.type) ? c.pick<double>({-9999., 1e20f}) : c.pick<double>({99, 100, tmax(m.type) > 1e10 ? 1e6 : tmax(m.type)});
            addNumAttr(cdm, m.name, c.b() ? "_FillValue" : "missing_value", m.type, m.fill);
        }
        if (c.b(0.5)) {
            m.scale = c.pick<double>({0.1, 2., -1., 0.01, 3.});
            if (c.b())
                addNumAttr(cdm, m.name, "scale_factor", CDM_DOUBLE, m.scale);
            else {
                m.scale = (float)m.scale;
                addNumAttr(cdm, m.name, "scale_factor", CDM_FLOAT, m.scale);
            }
        }
        if (c.b(0.5)) {
            m.offset = c.pick<double>({273.5, -10., 1., 100.});
            addNumAttr(cdm, m.name, "add_offset", CDM_DOUBLE, m.offset);
        }
        cdm.addAttribute(m.name, CDMAttribute("units", up.from));
        size_t n = prod(m.dims);
        m.v.resize(n);
        for (auto& x : m.v) {
            switch (c.w({8, 1.5, 0.5})) {
            case 1: x = std::fabs(m.fill) < 9e18 || isFloat(m.type) ? m.fill : 0; break;
            case 2: x = isFloat(m.type) ? std::nan("") : 0; break;
            default: x = stored(m.type, c.dfine(std::max(-90., tmin(m.type)), wide ? 190. : 90.)); break;
            }
        }
        DataPtr d = mkData(m.type, m.v);
        bool inCdm = c.b(0.4);
        if (inCdm)
            cdm.getVariable(m.name).setData(d);
        else
            r->data[m.name] = d;
        vars.push_back(m);
        c.show() << m.name << "(" << vec(m.shape) << vec(m.dims) << (u ? " unlimited" : "") << ") " << tname(m.type) << (inCdm ? " in-cdm" : " from-reader")
                 << " fill " << m.fill << " scale " << m.scale << " offset " << m.offset << "; ";
        c.label(u ? "record variable" : "fixed variable");
    }
    c.show() << up.from << "->" << up.to;
    auto scaled = [&](const VarModel& m, const dvec& a) {
        dvec o(a.size());
        for (size_t k = 0; k < a.size(); ++k)
            o[k] = (std::isnan(a[k]) || a[k] == m.fill) ? std::nan("") : a[k] * m.scale + m.offset;
        return o;
    };
    auto inUnit = [&](const dvec& a) {
        dvec o(a.size());
        for (size_t k = 0; k < a.size(); ++k)
            o[k] = up.nonlin == 1 ? std::pow(10, a[k] / 10) : up.nonlin == 2 ? 10 * std::log10(a[k]) : a[k] * up.s + up.o;
        return o;
    };
    // log of non-positive numbers has no defined outcome: leave those conversions out
    auto unitOk = [&](const dvec& a) {
        if (up.nonlin)
            for (double x : a)
                if (up.nonlin == 2 ? !(std::isnan(x) || x > 1e-3) : (std::fabs(x) > 2000))
                    return false;
        return true;
    };
    const double REL = 1e-9, ABS = 1e-9;
    size_t ops = c.i(1, 6);
    bool strict = false;
    for (size_t op = 0; op < ops; ++op) {
        const VarModel& m = vars[c.idx(vars.size())];
        size_t what = c.w({1, 2, 4});
        if (what == 1 && m.dims.empty())
            what = 0;
        if (what == 0) { // everything
            same(c, "getData " + m.name, rawValues(r->getData(m.name)), m.v);
            c.check(r->getData(m.name)->getDataType() == m.type, "type of getData");
            dvec s = scaled(m, m.v);
            DataPtr sd = r->getScaledData(m.name);
            c.check(sd->getDataType() == CDM_DOUBLE, "scaled data are not double");
            same(c, "getScaledData " + m.name, rawValues(sd), s, REL, ABS);
            if (unitOk(s))
                same(c, "getScaledDataInUnit " + m.name, rawValues(r->getScaledDataInUnit(m.name, up.to)), inUnit(s), REL, 1e-8);
            c.check(r->getDims(m.name) == m.dims, "getDims");
        } else if (what == 1) { // one record
            size_t pos = 0;
            dvec want = m.v;
            if (m.unlim) {
                pos = c.idx(m.dims.back());
                svec st(m.dims.size(), 0), sz = m.dims;
                st.back() = pos;
                sz.back() = 1;
                want = hyperslab(m.v, m.dims, st, sz);
                strict = true;
            }
            c.show() << " record " << pos << " of " << m.name;
            same(c, "getDataSlice(pos) " + m.name, rawValues(r->getDataSlice(m.name, pos)), want);
            dvec s = scaled(m, want);
            same(c, "getScaledDataSlice(pos) " + m.name, rawValues(r->getScaledDataSlice(m.name, pos)), s, REL, ABS);
            if (unitOk(s))
                same(c, "getScaledDataSliceInUnit(pos) " + m.name, rawValues(r->getScaledDataSliceInUnit(m.name, up.to, pos)), inUnit(s), REL, 1e-8);
        } else { // hyperslab
            SliceBuilder sb(cdm, m.name);
            svec st(m.dims.size(), 0), sz = m.dims;
            c.check(sb.getDimensionSizes() == m.dims && sb.getMaxDimensionSizes() == m.dims && sb.getDimensionStartPositions() == st,
                    "a new slice builder does not cover the whole variable");
            c.check(sb.getDimensionNames() == m.shape, "slice builder dimension names");
            std::vector<bool> touched(m.dims.size(), false);
            size_t ns = m.dims.empty() ? 0 : c.i(0, m.dims.size() + 1);
            for (size_t q = 0; q < ns; ++q) {
                size_t k = c.idx(m.dims.size());
                if (c.b(0.15)) {
                    sb.setAll(m.shape[k]);
                    st[k] = 0;
                    sz[k] = m.dims[k];
                    touched[k] = true;
                } else if (c.b(0.1)) { // refused, state kept
                    bool thrown = false;
                    try {
                        size_t s0 = c.i(0, m.dims[k]);
                        sb.setStartAndSize(m.shape[k], s0, m.dims[k] - s0 + c.i(1, 4));
                    } catch (std::exception&) {
                        thrown = true;
                    }
                    c.check(thrown, "a slice beyond the dimension's end was accepted");
                } else {
                    st[k] = c.idx(m.dims[k]);
                    sz[k] = c.i(1, m.dims[k] - st[k]);
                    sb.setStartAndSize(m.shape[k], st[k], sz[k]);
                    touched[k] = true;
                }
            }
            std::vector<std::string> unset = sb.getUnsetDimensionNames(), wantUnset;
            for (size_t k = 0; k < m.dims.size(); ++k) {
                size_t a, b;
                sb.getStartAndSize(m.shape[k], a, b);
                c.check(a == st[k] && b == sz[k], "slice builder start/size of " + m.shape[k]);
                strict |= sz[k] != m.dims[k];
                if (!touched[k])
                    wantUnset.push_back(m.shape[k]);
            }
            std::sort(unset.begin(), unset.end());
            std::sort(wantUnset.begin(), wantUnset.end());
            c.check(unset == wantUnset, "unset dimensions");
            c.show() << " slab of " << m.name << vec(st) << vec(sz);
            dvec want = m.dims.empty() ? m.v : hyperslab(m.v, m.dims, st, sz);
            DataPtr got = r->getDataSlice(m.name, sb);
            c.check(got->getDataType() == m.type, "type of a slice");
            same(c, "getDataSlice(slab) " + m.name, rawValues(got), want);
            dvec s = scaled(m, want);
            same(c, "getScaledDataSlice(slab) " + m.name, rawValues(r->getScaledDataSlice(m.name, sb)), s, REL, ABS);
            if (unitOk(s))
                same(c, "getScaledDataSliceInUnit(slab) " + m.name, rawValues(r->getScaledDataSliceInUnit(m.name, up.to, sb)), inUnit(s), REL, 1e-8);
        }
    }
    c.nontrivial(strict);
    // nothing that was read changed the source
    for (auto& m : vars)
        same(c, "source data after reading", rawValues(r->getData(m.name)), m.v);
    // unknown variables are refused
    bool thrown = false;
    try {
        r->getData("nosuchvar");
    } catch (CDMException&) {
        thrown = true;
    }
    c.check(thrown, "reading an unknown variable was not refused");
}

int main(int argc, char** argv)
{
    Runner r("C02", "reader with 1-4 dimensions (optionally one unlimited, outermost), 1-3 variables of random shape/type/scale/fill/unit held in the CDM or "
                    "produced by the reader; 1-6 random read operations; non-trivial: at least one read of a strict part of a variable");
    r.init(quiet);
    r.assumption("the unlimited dimension is the outermost one of a variable, as fimex requires");
    r.sub("readers", readers, 400000, 12000000);
    return r.main(argc, argv);
}
