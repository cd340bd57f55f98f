// C11: NcML: a dataset written as NcML reads back; edits written in NcML do what they say, and nothing else
// LINK: libfimex-io-netcdf -lnetcdf
#include "ncmodel.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/NcmlCDMWriter.h"
#include "fimex/XMLInputString.h"
#include "fimex/XMLInputFile.h"

#include <fstream>
using namespace fx;
using namespace pbt;

//! values with few enough decimal digits to be written exactly
static double shortened(double v, CDMDataType t)
{
    if (!isFloat(t) || !std::isfinite(v))
        return v;
    char b[64];
    snprintf(b, sizeof b, t == CDM_FLOAT ? "%.6g" : "%.15g", v);
    return t == CDM_FLOAT ? (double)strtof(b, nullptr) : strtod(b, nullptr);
}
static double shortNum(Case& c, CDMDataType t)
{
    if (isFloat(t) && c.b(0.05))
        return c.b() ? INFINITY : c.b() ? -INFINITY : std::copysign(NAN, -1.);
    return shortened(genValue(c, t), t);
}
static void shorten(Case& c, A& a)
{
    for (auto& x : a.v)
        x = isFloat(a.type) && c.b(0.05) ? shortNum(c, a.type) : shortened(x, a.type);
    // attributes without a value are not attributes in NcML
    if (a.type == CDM_STRING && a.text.empty())
        a.text = "e";
}

static void roundTrip(Case& c)
{
    Model m = genModel(c, true);
    for (auto& a : m.gatts)
        shorten(c, a);
    for (auto& v : m.vars) {
        for (auto& a : v.atts)
            if (a.name != "_FillValue")
                shorten(c, a);
            else if (!isFloat(a.type) || std::isfinite(a.v[0]))
                a.v[0] = shortened(a.v[0], a.type);
        for (auto& x : v.v)
            x = isFloat(v.type) && c.b(0.05) ? shortNum(c, v.type) : shortened(x, v.type);
        if (v.type == CDM_STRING)
            v.inMemory = false;
        // a list of one empty string is written like no list
        if (v.type == CDM_STRINGS && v.strs.size() == 1 && v.strs[0].empty())
            v.strs[0] = "s";
    }
    c.show() << describe(m);
    if (m.vars.size() > 1 || !m.gatts.empty())
        c.nontrivial();
    auto src = std::make_shared<Source>(m);
    CDMReader_p r;
    std::string text;
    if (c.b(0.3)) {
        const std::string f = c.tmpdir() + "/x.ncml";
        c.label("file");
        CDMFileReaderFactory::createWriter(src, "ncml", f);
        std::ifstream in(f);
        std::stringstream s;
        s << in.rdbuf();
        text = s.str();
        r = CDMFileReaderFactory::create("ncml", f);
    } else {
        std::ostringstream o;
        NcmlCDMWriter w(src, o, true);
        text = o.str();
        r = std::make_shared<NcmlCDMReader>(XMLInputString(text));
    }
    Model e = m;
    for (auto& v : e.vars) {
        if (!v.v.empty()) {
            size_t rec = v.v.size() / v.missing.size();
            for (size_t i = 0; i < v.missing.size(); ++i)
                if (v.missing[i])
                    for (size_t k = 0; k < rec; ++k)
                        v.v[i * rec + k] = fillOf(v);
        }
        // the marker for unsigned types may stay as an attribute
        if (r->getCDM().hasVariable(v.name)) {
            auto at = r->getCDM().getAttributes(v.name);
            for (size_t k = 0; k < at.size() && k <= v.atts.size(); ++k)
                if (at[k].getName() == "_Unsigned") {
                    A a;
                    a.name = "_Unsigned";
                    a.type = CDM_STRING;
                    a.text = "true";
                    v.atts.insert(v.atts.begin() + k, a);
                }
        }
    }
    checkReader(c, r, e, false);

    // without data: the same description
    if (c.b(0.2)) {
        std::ostringstream o;
        NcmlCDMWriter w(src, o, false);
        c.check(o.str().find("<values") == std::string::npos, "data written though not asked for");
        auto q = std::make_shared<NcmlCDMReader>(XMLInputString(o.str()));
        for (auto& v : e.vars) {
            auto& x = q->getCDM().getVariable(v.name);
            c.check(x.getDataType() == v.type && x.getShape() == v.shape, "variable " + v.name + ": type and shape in the description");
            c.check(q->getCDM().getAttributes(v.name).size() == v.atts.size(), "variable " + v.name + ": attributes in the description");
        }
    }
}

static std::string esc(const std::string& s)
{
    std::string r;
    for (char ch : s)
        switch (ch) {
        case '&': r += "&amp;"; break;
        case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break;
        case '"': r += "&quot;"; break;
        case '\n': r += "&#10;"; break;
        case '\t': r += "&#9;"; break;
        default: r += ch;
        }
    return r;
}
static std::string ncmlType(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR:
    case CDM_UCHAR: return "byte";
    case CDM_SHORT:
    case CDM_USHORT: return "short";
    case CDM_INT:
    case CDM_UINT: return "int";
    case CDM_INT64:
    case CDM_UINT64: return "long";
    case CDM_FLOAT: return "float";
    case CDM_DOUBLE: return "double";
    case CDM_STRING: return "string";
    default: return "strings";
    }
}
static bool isUns(CDMDataType t) { return t == CDM_UCHAR || t == CDM_USHORT || t == CDM_UINT || t == CDM_UINT64; }
static std::string decimal(double v, CDMDataType t)
{
    char b[64];
    if (isFloat(t))
        snprintf(b, sizeof b, "%.17g", v);
    else
        snprintf(b, sizeof b, "%.0f", v);
    return b;
}
//! attribute element; the attribute replaces one of the same name
static std::string attXml(Case& c, const A& a)
{
    std::string sep, val;
    if (a.type == CDM_STRING)
        val = esc(a.text);
    else if (a.type == CDM_STRINGS) {
        sep = "|";
        for (size_t k = 0; k < a.strs.size(); ++k)
            val += (k ? sep : "") + esc(a.strs[k]);
    } else {
        std::string s = c.picks({" ", ",", ", ", "|"});
        if (s == "|")
            sep = s;
        for (size_t k = 0; k < a.v.size(); ++k)
            val += (k ? s : "") + decimal(a.v[k], a.type);
    }
    std::string x = "<attribute name=\"" + esc(a.name) + "\"";
    if (a.type != CDM_STRING || c.b())
        x += " type=\"" + std::string(a.type == CDM_STRING && c.b(0.3) ? "String" : ncmlType(a.type)) + "\"";
    if (isUns(a.type))
        x += " isUnsigned=\"true\"";
    if (!sep.empty())
        x += " separator=\"" + sep + "\"";
    return c.b(0.8) ? x + " value=\"" + val + "\"/>" : x + ">" + val + "</attribute>";
}
static A genNcmlAtt(Case& c, const std::string& name)
{
    A a;
    a = genAtt(c, name, true);
    shorten(c, a);
    for (auto& x : a.v)
        if (!std::isfinite(x))
            x = 1;
    for (auto& s : a.strs)
        for (auto& ch : s)
            if (ch == '|')
                ch = 'I';
    return a;
}
static void setAtt(std::vector<A>& v, const A& a)
{
    v.erase(std::remove_if(v.begin(), v.end(), [&](const A& x) { return x.name == a.name; }), v.end());
    v.push_back(a);
}
//! edits of a list of attributes: remove, rename, set; returns the xml
static std::string attEdits(Case& c, std::vector<A>& atts, std::vector<std::string>& kinds)
{
    std::string x;
    std::vector<A> was = atts;
    std::set<std::string> touched;
    // removals happen first, then renaming, then setting
    for (auto& a : was)
        if (a.name != "_FillValue" && a.name != "scale_factor" && a.name != "add_offset" && c.b(0.2)) {
            x += "<remove name=\"" + a.name + "\" type=\"attribute\"/>";
            atts.erase(std::find_if(atts.begin(), atts.end(), [&](const A& y) { return y.name == a.name; }));
            touched.insert(a.name);
            kinds.push_back("remove attribute");
        }
    if (c.b(0.1))
        x += "<remove name=\"no such\" type=\"attribute\"/>";
    if (!atts.empty() && c.b(0.4)) {
        const A old = atts[c.idx(atts.size())];
        if (old.name != "_FillValue" && old.name != "scale_factor" && old.name != "add_offset") {
            std::string nn = c.b(0.6) || atts.size() < 2 ? "renamed" : atts[c.idx(atts.size())].name;
            if (nn != "_FillValue" && nn != "scale_factor" && nn != "add_offset") {
                if (nn != old.name && nn != "renamed")
                    kinds.push_back("rename attribute onto another");
                x += "<attribute name=\"" + nn + "\" orgName=\"" + old.name + "\"/>";
                std::vector<A> r;
                for (auto& a : atts)
                    if (a.name == old.name) {
                        r.push_back(a);
                        r.back().name = nn;
                    } else if (a.name != nn)
                        r.push_back(a);
                atts = r;
                kinds.push_back("rename attribute");
            }
        }
    }
    for (size_t n = c.i(0, 2); n > 0; --n) {
        std::string name = c.b(0.5) && !atts.empty() ? atts[c.idx(atts.size())].name : "new" + std::to_string(n);
        if (name == "_FillValue" || name == "scale_factor" || name == "add_offset")
            continue;
        A a = genNcmlAtt(c, name);
        x += attXml(c, a);
        setAtt(atts, a);
        kinds.push_back("set attribute");
    }
    return x;
}

static bool fits(double v, CDMDataType t) { return isFloat(t) || (v >= tmin(t) && v <= tmax(t)); }

static void edits(Case& c)
{
    Model m = genModel(c, true, true);
    for (auto& d : m.dims)
        if (d.len == 0)
            d.len = 2;
    for (auto& v : m.vars) { // sizes may have changed
        v.v.clear();
        const size_t n = prod(m.sizes(v));
        for (size_t i = 0; i < n; ++i)
            v.v.push_back(c.b(0.8) ? (double)c.i(0, 100) : genValue(c, v.type));
        v.missing.assign(m.hasUnlim(v) ? m.sizes(v).back() : 1, 0);
        for (size_t i = c.i(0, 4); i > 0; --i)
            v.atts.push_back(genAtt(c, "att" + std::to_string(i), true));
        if (c.b(0.2)) {
            A a;
            a.name = "scale_factor";
            a.type = CDM_DOUBLE;
            a.v = {c.pick({0.5, 2., 0.25})};
            v.atts.push_back(a);
        }
        if (c.b(0.2)) {
            A a;
            a.name = "add_offset";
            a.type = CDM_DOUBLE;
            a.v = {c.pick({-8., 10., 1.})};
            v.atts.push_back(a);
        }
    }
    for (size_t i = c.i(0, 4); i > 0; --i)
        m.gatts.push_back(genAtt(c, "g" + std::to_string(i), true));

    Model e = m; // the edited dataset
    std::string x;
    std::vector<std::string> kinds;

    // removals
    for (size_t k = e.vars.size(); k-- > 0;)
        if (e.vars.size() > 1 && c.b(0.15)) {
            x += "<remove name=\"" + e.vars[k].name + "\" type=\"variable\"/>";
            e.vars.erase(e.vars.begin() + k);
            kinds.push_back("remove variable");
        }
    auto inUse = [&](const std::string& d) {
        for (auto& v : e.vars)
            if (std::find(v.shape.begin(), v.shape.end(), d) != v.shape.end())
                return true;
        return false;
    };
    for (size_t k = e.dims.size(); k-- > 0;)
        if (!inUse(e.dims[k].name) && c.b(0.4)) {
            x += "<remove name=\"" + e.dims[k].name + "\" type=\"dimension\"/>";
            e.dims.erase(e.dims.begin() + k);
            kinds.push_back("remove dimension");
        }

    // dimensions: rename, make unlimited or not, add
    std::map<std::string, std::string> dimNow; // old name -> new
    {
        std::string toUnlim, notUnlim;
        if (c.b(0.4)) {
            for (auto& d : e.dims)
                if (d.unlim && (toUnlim.empty() || c.b()))
                    notUnlim = d.name;
            if (c.b(0.7))
                for (auto& d : e.dims) {
                    bool last = true; // slowest wherever it is used
                    for (auto& v : e.vars) {
                        auto it = std::find(v.shape.begin(), v.shape.end(), d.name);
                        last = last && (it == v.shape.end() || it + 1 == v.shape.end());
                    }
                    if (last && !d.unlim && c.b(0.6)) {
                        toUnlim = d.name;
                        break;
                    }
                }
        }
        for (auto& d : e.dims) {
            const std::string old = d.name;
            std::string el;
            if (c.b(0.3)) {
                // the name may be one that a variable has
                d.name = c.b(0.3) && !e.vars.empty() ? e.vars[c.idx(e.vars.size())].name : "dim_" + std::to_string(&d - &e.dims[0]);
                bool taken = false;
                for (auto& o : e.dims)
                    taken |= &o != &d && o.name == d.name;
                for (auto& o : m.dims)
                    taken |= o.name == d.name;
                if (taken)
                    d.name = old;
                else {
                    el = " orgName=\"" + old + "\"";
                    kinds.push_back("rename dimension");
                }
            }
            if (old == toUnlim) {
                el += " isUnlimited=\"true\"";
                d.unlim = true;
                kinds.push_back("make unlimited");
            } else if (old == notUnlim) {
                el += " isUnlimited=\"false\"";
                d.unlim = false;
                kinds.push_back("make limited");
            }
            dimNow[old] = d.name;
            if (!el.empty())
                x += "<dimension name=\"" + esc(d.name) + "\"" + el + "/>";
        }
        for (auto& v : e.vars)
            for (auto& s : v.shape)
                s = dimNow[s];
    }
    std::vector<std::string> addedDims;
    for (size_t n = c.b(0.4) ? c.i(1, 2) : 0; n > 0; --n) {
        D d{"added_" + std::to_string(n), (size_t)(c.b() ? 1 : c.i(2, 4)), false};
        e.dims.push_back(d);
        x += "<dimension name=\"" + d.name + "\" length=\"" + std::to_string(d.len) + "\"/>";
        addedDims.push_back(d.name);
        kinds.push_back("add dimension");
    }
    // global attributes
    x += attEdits(c, e.gatts, kinds);
    if (c.b(0.1))
        x += "<attribute name=\"y\" orgName=\"no such\"/><variable name=\"nn\" orgName=\"no such\"/><variable name=\"nosuch\"><attribute name=\"a\"/></variable>";

    // variables
    size_t nvar = 0;
    for (auto& v : e.vars) {
        ++nvar;
        const V was = v;
        std::string head, body;
        if (c.b(0.35)) {
            head += " orgName=\"" + v.name + "\"";
            v.name = "var_" + std::to_string(nvar);
            // the name of a variable that has been removed is free
            for (auto& o : m.vars) {
                bool gone = true;
                for (auto& w : e.vars)
                    gone = gone && w.name != o.name;
                if (gone && o.name != was.name && c.b(0.3))
                    v.name = o.name;
            }
            kinds.push_back("rename variable");
        }
        body += attEdits(c, v.atts, kinds);
        std::vector<std::string> shp = v.shape;
        std::set<std::string> dropped, extra;
        if (c.b(0.2)) {
            std::vector<std::string> ns;
            for (auto& s : v.shape)
                if (e.dim(s).unlim || c.b(0.6))
                    ns.push_back(s);
                else
                    dropped.insert(s);
            for (auto& a : addedDims)
                if (e.dim(a).len == 1 && c.b())
                    ns.insert(ns.begin(), a);
            std::string s;
            for (auto it = ns.rbegin(); it != ns.rend(); ++it)
                s += (s.empty() ? "" : " ") + *it;
            if (!s.empty()) {
                v.shape = ns;
                head += " shape=\"" + s + "\"";
                svec full, st, sz;
                for (auto& q : was.shape) {
                    full.push_back(e.dim(q).len);
                    st.push_back(0);
                    sz.push_back(dropped.count(q) ? 1 : e.dim(q).len);
                }
                v.v = hyperslab(was.v, full, st, sz);
                if (v.shape != was.shape)
                    kinds.push_back("change shape");
            }
        }
        if (c.b(0.3)) {
            CDMDataType t = numTypes()[c.idx(numTypes().size())];
            if (t != v.type) {
                // a fill value in the new type, and maybe another scale
                double nf = fillOf(t), of = fillOf(was), sc = attOr(was, "scale_factor", 1), off = attOr(was, "add_offset", 0);
                if (att(v, "_FillValue") || c.b()) {
                    A a;
                    a.name = "_FillValue";
                    a.type = t;
                    a.v = {(double)c.i(100, 127)};
                    nf = a.v[0];
                    body += attXml(c, a);
                    setAtt(v.atts, a);
                }
                double ns = sc, no = off;
                if (c.b(0.3)) {
                    A a;
                    a.name = "scale_factor";
                    a.type = c.b() ? CDM_FLOAT : CDM_DOUBLE;
                    a.v = {ns = c.pick({1., 0.5, 0.125})};
                    body += attXml(c, a);
                    setAtt(v.atts, a);
                }
                if (c.b(0.3)) {
                    A a;
                    a.name = "add_offset";
                    a.type = c.b() ? CDM_FLOAT : CDM_DOUBLE;
                    a.v = {no = c.pick({0., 4., -16.})};
                    body += attXml(c, a);
                    setAtt(v.atts, a);
                }
                bool ok = true;
                dvec nv;
                for (double d : v.v) {
                    double r;
                    if (d == of || std::isnan(d))
                        r = nf;
                    else {
                        r = (d * sc + off - no) / ns;
                        if (!isFloat(t)) {
                            ok = ok && std::fabs(r - std::floor(r) - 0.5) > 1e-3; // ties
                            r = std::round(r);
                        } else if (t == CDM_FLOAT)
                            r = (float)r;
                        ok = ok && fits(r, t) && std::fabs(r) < 1e15;
                    }
                    // 64 bit integers are not all doubles
                    ok = ok && std::fabs(d) < 1e15;
                    nv.push_back(r);
                }
                c.assume(ok);
                v.v = nv;
                v.type = t;
                head += " type=\"" + ncmlType(t) + "\"";
                if (isUns(t)) {
                    A a;
                    a.name = "_Unsigned";
                    a.type = CDM_STRING;
                    a.text = "true";
                    body += "<attribute name=\"_Unsigned\" value=\"true\"/>";
                    setAtt(v.atts, a);
                }
                kinds.push_back("change type");
            }
        }
        if (c.b(0.2)) {
            size_t n = 1;
            for (auto& s : v.shape)
                n *= e.dim(s).len;
            v.v.clear();
            if (c.b(0.5)) {
                double a = isUns(v.type) ? c.i(0, 5) : c.i(-5, 5), inc = c.i(isUns(v.type) || n > 20 ? 0 : -3, 3);
                if (n > 30)
                    inc = 0;
                if (isFloat(v.type) && c.b())
                    inc += 0.5;
                if (n == 1 && c.b(0.5))
                    inc = 1;
                for (size_t k = 0; k < n; ++k)
                    v.v.push_back(a + k * inc);
                body += "<values start=\"" + decimal(a, CDM_DOUBLE) + "\" increment=\"" + decimal(inc, CDM_DOUBLE) + "\"/>";
                for (double d : v.v)
                    c.assume(fits(d, v.type));
            } else {
                std::string s = c.picks({" ", ",", "\n  ", ";"}), l = c.b(0.3) && s != ";" ? "\n" : "";
                for (size_t k = 0; k < n; ++k) {
                    v.v.push_back(shortened(isFloat(v.type) ? c.d(-10, 10) : (double)c.i(isUns(v.type) ? 0 : -100, 100), v.type));
                    l += (k ? s : "") + decimal(v.v.back(), v.type);
                }
                body += "<values" + std::string(s == ";" ? " separator=\";\"" : "") + ">" + l + "</values>";
            }
            kinds.push_back("set values");
        }
        if (!head.empty() || !body.empty())
            x += "<variable name=\"" + esc(v.name) + "\"" + head + ">" + body + "</variable>";
        v.missing.assign(e.hasUnlim(v) ? e.dim(v.shape.back()).len : 1, 0);
    }
    // new variables
    for (size_t n = c.b(0.3) ? 1 : 0; n > 0; --n) {
        V v;
        v.name = "fresh" + std::to_string(n);
        do
            v.type = numTypes()[c.idx(numTypes().size())];
        while (isUns(v.type));
        std::string s;
        for (auto i : c.perm(e.dims.size()))
            if (!e.dims[i].unlim && v.shape.size() < 2 && c.b())
                v.shape.push_back(e.dims[i].name);
        for (auto it = v.shape.rbegin(); it != v.shape.rend(); ++it)
            s += (s.empty() ? "" : " ") + *it;
        std::string b = attEdits(c, v.atts, kinds), l;
        const size_t sz = prod(e.sizes(v));
        for (size_t k = 0; k < sz; ++k) {
            v.v.push_back((double)c.i(-100, 100));
            l += (k ? " " : "") + decimal(v.v.back(), v.type);
        }
        x += "<variable name=\"" + v.name + "\" type=\"" + ncmlType(v.type) + "\"" + (s.empty() ? "" : " shape=\"" + s + "\"") + ">" + b + "<values>" + l + "</values></variable>";
        e.vars.push_back(v);
        kinds.push_back("add variable");
    }
    std::set<std::string> ks(kinds.begin(), kinds.end());
    for (auto& k : ks)
        c.label(k);
    if (ks.size() > 1)
        c.nontrivial();
    c.show() << describe(m) << "\nedits: " << x;

    auto src = std::make_shared<Source>(m);
    const std::string doc = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">" + x + "</netcdf>";
    CDMReader_p r = std::make_shared<NcmlCDMReader>(src, XMLInputString(doc));
    checkReader(c, r, e, false);
}

//! documents that cannot be read are refused
static void refused(Case& c)
{
    Model m = genModel(c, true, true);
    const std::string v = m.vars[0].name;
    const size_t n = prod(m.sizes(m.vars[0]));
    std::string many;
    for (size_t k = 0; k < n + 2; ++k)
        many += " 1";
    std::string x;
    switch (c.i(0, 9)) {
    case 0: x = "<remove name=\"" + v + "\"/>"; break;
    case 1: x = "<remove type=\"variable\"/>"; break;
    case 2: x = "<remove name=\"" + v + "\" type=\"unknown\"/>"; break;
    case 3: x = "<variable orgName=\"" + v + "\"/>"; break;
    case 4: x = "<variable name=\"" + v + "\" type=\"nosuchtype\"/>"; break;
    case 5: x = "<variable name=\"" + v + "\"><values>" + many + "</values></variable>"; break;
    case 6: x = "<variable name=\"" + v + "\"><values start=\"1\"/></variable>"; break;
    case 7: x = "<variable name=\"" + v + "\"><values start=\"1\" increment=\"1\">1</values></variable>"; break;
    case 8: x = "<attribute name=\"a\" type=\"int\" value=\"" + std::string(c.picks({"1.5", "x", "1x", "--1"})) + "\"/>"; break;
    default: x = "<variable name=\"" + v + "\"><remove name=\"a\" type=\"variable\"/></variable>"; break;
    }
    c.show() << describe(m) << "\n" << x;
    c.nontrivial();
    auto src = std::make_shared<Source>(m);
    const std::string doc = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">" + x + "</netcdf>";
    bool threw = false;
    try {
        NcmlCDMReader r(src, XMLInputString(doc));
    } catch (std::exception&) {
        threw = true;
    }
    c.check(threw, "accepted");
}

int main(int argc, char** argv)
{
    Runner r("C11", "several variables or global attributes; edits of several kinds");
    r.init(quiet);
    r.assumption("values have at most 6 (float) or 15 (double) significant decimal digits, as NcML is written with 7 and 16");
    r.assumption("attributes have a value (NcML attributes without value are ignored)");
    r.sub("roundTrip", roundTrip, 40000, 500000);
    r.sub("edits", edits, 80000, 1000000);
    r.sub("refused", refused, 2000, 30000);
    return r.main(argc, argv);
}
