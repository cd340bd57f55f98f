// datasets as plain values: generator, fimex reader serving them, comparison of a reader with them
#pragma once
#include "fx.h"
#include <netcdf.h>
using namespace fx;
using namespace pbt;

struct A
{
    std::string name;
    CDMDataType type;
    dvec v;
    std::string text;
    std::vector<std::string> strs;
};
struct V
{
    std::string name;
    CDMDataType type;
    std::vector<std::string> shape; // fastest first
    std::vector<A> atts;
    dvec v;                        // numeric values
    std::string text;              // CDM_STRING
    std::vector<std::string> strs; // CDM_STRINGS
    std::vector<char> missing;     // records (or the single whole) that the source does not have
    bool inMemory = false;
};
struct D
{
    std::string name;
    size_t len;
    bool unlim;
};
struct Model
{
    std::vector<D> dims;
    std::vector<V> vars;
    std::vector<A> gatts;
    const D& dim(const std::string& n) const
    {
        for (auto& d : dims)
            if (d.name == n)
                return d;
        abort();
    }
    V& var(const std::string& n)
    {
        for (auto& v : vars)
            if (v.name == n)
                return v;
        abort();
    }
    bool hasUnlim(const V& v) const { return !v.shape.empty() && dim(v.shape.back()).unlim; }
    svec sizes(const V& v) const
    {
        svec r;
        for (auto& s : v.shape)
            r.push_back(dim(s).len);
        return r;
    }
};

static double fillOf(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return NC_FILL_BYTE;
    case CDM_SHORT: return NC_FILL_SHORT;
    case CDM_INT: return NC_FILL_INT;
    case CDM_UCHAR: return NC_FILL_UBYTE;
    case CDM_USHORT: return NC_FILL_USHORT;
    case CDM_UINT: return NC_FILL_UINT;
    case CDM_INT64: return (double)NC_FILL_INT64;
    case CDM_UINT64: return (double)NC_FILL_UINT64;
    case CDM_FLOAT: return NC_FILL_FLOAT;
    case CDM_DOUBLE: return NC_FILL_DOUBLE;
    default: return NAN;
    }
}
static const A* att(const V& v, const std::string& n)
{
    for (auto& a : v.atts)
        if (a.name == n)
            return &a;
    return nullptr;
}
static double fillOf(const V& v)
{
    const A* a = att(v, "_FillValue");
    return a ? a->v[0] : fillOf(v.type);
}
static double attOr(const V& v, const std::string& n, double def)
{
    const A* a = att(v, n);
    return a ? a->v[0] : def;
}

static bool classicType(CDMDataType t)
{
    return t == CDM_CHAR || t == CDM_SHORT || t == CDM_INT || t == CDM_FLOAT || t == CDM_DOUBLE || t == CDM_STRING;
}
static double genValue(Case& c, CDMDataType t)
{
    switch (c.w({6, 1, 1, 1})) {
    case 0: break;
    case 1: return t == CDM_INT64 ? -9007199254740992. : t == CDM_UINT64 ? 0 : isFloat(t) ? -1e30f : tmin(t);
    case 2: return t == CDM_INT64 || t == CDM_UINT64 ? 9007199254740992. : isFloat(t) ? 1e30f : tmax(t);
    default: return isFloat(t) && c.b(0.3) ? NAN : fillOf(t) == fillOf(t) && t != CDM_INT64 && t != CDM_UINT64 ? fillOf(t) : 1;
    }
    if (isFloat(t))
        return t == CDM_FLOAT ? (double)(float)c.d(-1000, 1000) : c.d(-1000, 1000);
    return (double)c.i(tmin(t) < 0 ? -100 : 0, 100);
}
static std::string genText(Case& c, bool multi = true)
{
    static const std::vector<std::string> t = {"a", "m", "some text", "x y", "1", " lead", "trail ", "tab\t", "line\nbreak", "\xc3\xa5", "\"quoted\"", "a,b;c", "%d", "<xml>&"};
    std::string r = t[c.idx(t.size())];
    if (multi && c.b(0.2))
        r += t[c.idx(t.size())];
    return r;
}
static A genAtt(Case& c, const std::string& name, bool nc4)
{
    A a;
    a.name = name;
    std::vector<CDMDataType> ts = {CDM_STRING, CDM_DOUBLE, CDM_FLOAT, CDM_INT, CDM_SHORT, CDM_CHAR};
    if (nc4)
        for (CDMDataType t : {CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_STRINGS})
            ts.push_back(t);
    else if (c.b(0.1))
        ts = {CDM_STRINGS};
    a.type = ts[c.idx(ts.size())];
    if (a.type == CDM_STRING)
        a.text = c.b(0.1) ? "" : genText(c);
    else if (a.type == CDM_STRINGS)
        for (size_t n = nc4 ? c.i(1, 3) : 1; n > 0; --n)
            a.strs.push_back(genText(c));
    else
        for (size_t n = c.b(0.7) ? 1 : c.i(2, 4); n > 0; --n)
            a.v.push_back(genValue(c, a.type));
    return a;
}
static CDMAttribute mkAtt(const A& a)
{
    if (a.type == CDM_STRING)
        return CDMAttribute(a.name, a.text);
    if (a.type == CDM_STRINGS) {
        auto s = make_shared_array<std::string>(a.strs.size());
        std::copy(a.strs.begin(), a.strs.end(), &s[0]);
        return CDMAttribute(a.name, createData(a.strs.size(), s));
    }
    return CDMAttribute(a.name, mkData(a.type, a.v));
}

static Model genModel(Case& c, bool nc4, bool plain = false)
{
    Model m;
    static const std::vector<std::string> dn = {"x", "y", "height", "lev-1", "Time", "a.b", "_k"};
    auto names = c.perm(dn.size());
    const size_t nd = c.i(0, 4);
    const bool unlim = nd > 0 && c.b(0.6);
    for (size_t k = 0; k < nd; ++k) {
        bool u = unlim && k == 0;
        m.dims.push_back({dn[names[k]], (size_t)(u && c.b(0.1) ? 0 : c.b(0.05) ? 40 : c.i(1, 5)), u});
    }
    // the order of definition is not related to the order in the variables
    if (nd > 1) {
        auto p = c.perm(nd);
        std::vector<D> d2;
        for (auto k : p)
            d2.push_back(m.dims[k]);
        m.dims = d2;
    }
    const size_t nv = c.i(1, 4);
    for (size_t k = 0; k < nv; ++k) {
        V v;
        v.name = k < nd && c.b(0.4) ? m.dims[k].name : std::string(1, "pqrs"[k]) + (c.b(0.3) ? "_var 1"[c.idx(5)] == '_' ? "_v" : "V" : "");
        for (auto& w : m.vars)
            if (w.name == v.name)
                v.name += "2";
        std::vector<CDMDataType> ts = {CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT, CDM_CHAR};
        if (!plain)
            ts.push_back(CDM_STRING);
        if (nc4) {
            for (CDMDataType t : {CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64})
                ts.push_back(t);
            if (!plain)
                ts.push_back(CDM_STRINGS);
        }
        v.type = ts[c.idx(ts.size())];
        std::string u;
        for (auto i : c.perm(nd))
            if (m.dims[i].unlim) {
                if (c.b(0.7))
                    u = m.dims[i].name;
            } else if (c.b(0.7) && v.shape.size() < 3)
                v.shape.push_back(m.dims[i].name);
        if (!u.empty())
            v.shape.push_back(u);
        const size_t n = prod(m.sizes(v));
        if (v.type == CDM_STRING)
            for (size_t i = 0; i < n; ++i)
                v.text.push_back((char)c.i(32, 126));
        else if (v.type == CDM_STRINGS)
            for (size_t i = 0; i < n; ++i)
                v.strs.push_back(c.b(0.1) ? "" : genText(c));
        else
            for (size_t i = 0; i < n; ++i)
                v.v.push_back(genValue(c, v.type));
        const bool numeric = v.type != CDM_STRING && v.type != CDM_STRINGS;
        if (numeric && c.b(0.4)) {
            A a;
            a.name = "_FillValue";
            a.type = v.type;
            a.v = {c.b(0.7) || v.v.empty() ? (double)c.i(0, 100) : v.v[c.idx(v.v.size())]};
            v.atts.push_back(a);
        }
        const bool u1 = m.hasUnlim(v);
        v.missing.assign(u1 ? m.sizes(v).back() : 1, 0);
        if (numeric && !plain && c.b(0.3))
            for (auto& x : v.missing)
                x = c.b(0.4);
        v.inMemory = numeric && std::count(v.missing.begin(), v.missing.end(), 1) == 0 && c.b(0.3);
        if (!plain)
            for (size_t i = c.i(0, 3); i > 0; --i)
                v.atts.push_back(genAtt(c, "att" + std::to_string(i), nc4));
        m.vars.push_back(v);
    }
    if (!plain)
        for (size_t i = c.i(0, 3); i > 0; --i)
            m.gatts.push_back(genAtt(c, c.b(0.2) ? "Conventions" + std::to_string(i) : "g" + std::to_string(i), nc4));
    return m;
}

static DataPtr dataOf(const V& v)
{
    if (v.type == CDM_STRING)
        return createData(v.text);
    if (v.type == CDM_STRINGS) {
        auto s = make_shared_array<std::string>(v.strs.size());
        std::copy(v.strs.begin(), v.strs.end(), s.get());
        return createData(v.strs.size(), s);
    }
    return mkData(v.type, v.v);
}

//! reader of the model; records can be missing, reading can fail
struct Source : public CDMReader
{
    Model m;
    std::string failVar;
    long failRec = -1;
    CDM& cdm() { return *cdm_; }
    Source(const Model& mm)
        : m(mm)
    {
        for (auto& d : m.dims) {
            CDMDimension dd(d.name, d.len);
            dd.setUnlimited(d.unlim);
            cdm_->addDimension(dd);
        }
        for (auto& v : m.vars) {
            CDMVariable x(v.name, v.type, v.shape);
            if (v.inMemory)
                x.setData(dataOf(v));
            cdm_->addVariable(x);
            for (auto& a : v.atts)
                cdm_->addAttribute(v.name, mkAtt(a));
        }
        for (auto& a : m.gatts)
            cdm_->addAttribute(CDM::globalAttributeNS(), mkAtt(a));
    }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& varName, size_t pos) override
    {
        const CDMVariable& var = cdm_->getVariable(varName);
        if (varName == failVar && (failRec < 0 || (size_t)failRec == pos))
            throw CDMException("injected failure");
        if (var.hasData())
            return getDataSliceFromMemory(var, pos);
        const V& v = m.var(varName);
        const bool u = m.hasUnlim(v);
        if (v.missing.at(u ? pos : 0))
            return pos % 2 ? createData(v.type, 0) : DataPtr(createData(CDM_DOUBLE, 0));
        DataPtr d = dataOf(v);
        if (!u)
            return d;
        if (v.type == CDM_STRING) { // slicing text in memory is not supported
            size_t k = v.text.size() / v.missing.size();
            return createData(v.text.substr(pos * k, k));
        }
        svec s = m.sizes(v), st(s.size(), 0), n = s;
        st.back() = pos;
        n.back() = 1;
        return d->slice(s, st, n);
    }
};

static void checkAtt(Case& c, const CDMAttribute& x, const A& a)
{
    const std::string w = "attribute " + a.name;
    c.check(x.getName() == a.name, "attribute is " + x.getName() + ", expected " + a.name);
    c.check(x.getDataType() == a.type, w + ": type read is " + tname(x.getDataType()) + ", expected " + tname(a.type));
    if (a.type == CDM_STRING)
        c.check(x.getData()->asString() == a.text, w + " read is '" + x.getData()->asString() + "', expected '" + a.text + "'");
    else if (a.type == CDM_STRINGS) {
        c.check(x.getData()->size() == a.strs.size(), w + ": number of strings read");
        auto s = x.getData()->asStrings();
        for (size_t k = 0; k < a.strs.size(); ++k)
            c.check(s[k] == a.strs[k], w + ": string read");
    } else
        same(c, w + " read", rawValues(x.getData()), a.v);
}
//! compare a fimex reader with the model
static void checkReader(Case& c, CDMReader_p r, const Model& m, bool textSlices = true)
{
    const CDM& cdm = r->getCDM();
    c.check(cdm.getDimensions().size() == m.dims.size(), "number of dimensions read");
    for (size_t k = 0; k < m.dims.size(); ++k) {
        auto& d = cdm.getDimensions()[k];
        c.check(d.getName() == m.dims[k].name && d.getLength() == m.dims[k].len && (bool)d.isUnlimited() == m.dims[k].unlim, "dimension read is " + d.getName() + "=" + std::to_string(d.getLength()) + ", expected " + m.dims[k].name + "=" + std::to_string(m.dims[k].len));
    }
    c.check(cdm.getVariables().size() == m.vars.size(), "number of variables read");
    auto ga = cdm.getAttributes(CDM::globalAttributeNS());
    c.check(ga.size() == m.gatts.size(), "number of global attributes read");
    for (size_t k = 0; k < ga.size(); ++k)
        checkAtt(c, ga[k], m.gatts[k]);
    for (size_t k = 0; k < m.vars.size(); ++k) {
        const V& v = m.vars[k];
        auto& x = cdm.getVariables()[k];
        const std::string w = "variable " + v.name;
        c.check(x.getName() == v.name && x.getDataType() == v.type, w + ": read name and type " + x.getName() + " " + tname(x.getDataType()));
        c.check(x.getShape() == v.shape, w + ": shape read is " + vec(x.getShape()) + ", expected " + vec(v.shape));
        auto va = cdm.getAttributes(v.name);
        c.check(va.size() == v.atts.size(), w + ": number of attributes read");
        for (size_t a = 0; a < va.size(); ++a)
            checkAtt(c, va[a], v.atts[a]);
        const svec dims = m.sizes(v);
        const size_t n = prod(dims);
        auto cmp = [&](const std::string& how, DataPtr d, const svec& st, const svec& sz) {
            c.check(d != nullptr, w + " " + how + ": no data");
            if (prod(sz) == 0) {
                c.check(d->size() == 0, w + " " + how + ": data where there is none");
                return;
            }
            c.check(d->getDataType() == v.type, w + " " + how + ": type " + tname(d->getDataType()));
            c.check(d->size() == prod(sz), w + " " + how + ": size " + std::to_string(d->size()) + ", expected " + std::to_string(prod(sz)));
            if (v.type == CDM_STRING) {
                std::vector<char> ch(v.text.begin(), v.text.end());
                auto h = hyperslab(ch, dims, st, sz);
                std::string want(h.begin(), h.end());
                c.check(d->asString() == want, w + " " + how + ": text is '" + d->asString() + "', expected '" + want + "'");
            } else if (v.type == CDM_STRINGS) {
                auto h = hyperslab(v.strs, dims, st, sz);
                auto s = d->asStrings();
                for (size_t i = 0; i < h.size(); ++i)
                    c.check(s[i] == h[i], w + " " + how + ": string " + std::to_string(i) + " is '" + s[i] + "', expected '" + h[i] + "'");
            } else
                same(c, w + " " + how, rawValues(d), hyperslab(v.v, dims, st, sz));
        };
        const svec zero(dims.size(), 0);
        if (n > 0 || !m.hasUnlim(v))
            cmp("read", r->getData(v.name), zero, dims);
        if (m.hasUnlim(v) && (textSlices || v.type != CDM_STRING))
            for (size_t i = 0; i < dims.back(); ++i) {
                svec st = zero, sz = dims;
                st.back() = i;
                sz.back() = 1;
                cmp("record " + std::to_string(i), r->getDataSlice(v.name, i), st, sz);
            }
        if (n > 0 && !dims.empty() && (textSlices || v.type != CDM_STRING)) {
            SliceBuilder sb(cdm, v.name);
            svec st, sz;
            for (size_t d = 0; d < dims.size(); ++d) {
                size_t a = c.idx(dims[d]), l = 1 + c.idx(dims[d] - a);
                st.push_back(a);
                sz.push_back(l);
                sb.setStartAndSize(v.shape[d], a, l);
            }
            cmp("slice", r->getDataSlice(v.name, sb), st, sz);
        }
    }
}

static std::string describe(const Model& m)
{
    std::ostringstream o;
    for (auto& d : m.dims)
        o << " " << d.name << "=" << d.len << (d.unlim ? "*" : "");
    for (auto& v : m.vars) {
        o << "; " << tname(v.type) << " " << v.name << vec(v.shape);
        for (auto& a : v.atts)
            o << " :" << a.name << "(" << tname(a.type) << ")=" << (a.type == CDM_STRING ? a.text : a.type == CDM_STRINGS ? vec(a.strs) : vec(a.v));
        if (v.v.size() < 12)
            o << " = " << vec(v.v);
        if (v.missing.size() < 12 && std::count(v.missing.begin(), v.missing.end(), 1))
            for (char x : v.missing)
                o << (x ? " missing" : " ok");
    }
    for (auto& a : m.gatts)
        o << "; :" << a.name << "(" << tname(a.type) << ")=" << (a.type == CDM_STRING ? a.text : a.type == CDM_STRINGS ? vec(a.strs) : vec(a.v));
    return o.str();
}

