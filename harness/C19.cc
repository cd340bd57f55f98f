// C19: quality extraction keeps exactly the values whose status is allowed
// LINK: libfimex-io-netcdf
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMQualityExtractor.h"

#include <cstdio>
#include <fstream>
#include <unistd.h>
using namespace fx;
using namespace pbt;

//! hands out data it keeps
class KeepReader : public MemReader
{
public:
    std::map<std::pair<std::string, size_t>, DataPtr> kept;
    using MemReader::getDataSlice;
    DataPtr getDataSlice(const std::string& varName, size_t pos) override
    {
        DataPtr& d = kept[std::make_pair(varName, pos)];
        if (!d)
            d = MemReader::getDataSlice(varName, pos);
        return d;
    }
};

struct Var
{
    std::string name;
    CDMDataType type;
    std::vector<std::string> shape;
    svec dims;
    dvec values;
    bool unlim = false, hasFill = false, memory = false;
    double fill = NAN;
    double vmin = NAN, vmax = NAN;
    std::set<size_t> missing;
    size_t records() const { return unlim ? dims.back() : 1; }
    size_t recSize() const { return prod(dims) / records(); }
    dvec rec(size_t r) const { return dvec(values.begin() + r * recSize(), values.begin() + (r + 1) * recSize()); }
};
struct Rule
{
    std::string var, status;
    int kind; // 0 values, 1 all, 2 highest, 3 lowest, 4 min, 5 max
    std::string text; // of the values
    dvec allowed;
    double limit = 0;
    bool hasFill = false, external = false;
    double fill = NAN;
};

static const char* KINDS[] = {"values", "all", "highest", "lowest", "min", "max"};

struct World
{
    std::map<std::string, size_t> len;
    bool unlim;
    std::map<std::string, Var> vars;
    std::map<std::string, Var> ext; // variables of the other file
    std::map<std::string, Rule> rules;
};

static void addVar(MemReader& r, const Var& v)
{
    CDMVariable cv(v.name, v.type, v.shape);
    DataPtr d = mkData(v.type, v.values);
    if (v.memory)
        cv.setData(d);
    else
        r.data[v.name] = d;
    r.cdm().addVariable(cv);
    if (v.hasFill)
        r.cdm().addAttribute(v.name, CDMAttribute("_FillValue", mkData(v.type, {v.fill})));
    for (size_t m : v.missing)
        r.missing.insert({v.name, m});
}

//! the values of a record after quality extraction; empty: record is missing
static dvec expected(const World& w, const CDM& cdm, const std::string& name, size_t r)
{
    const Var& v = w.vars.at(name);
    dvec d = v.missing.count(r) ? dvec() : v.rec(r);
    auto it = w.rules.find(name);
    if (it == w.rules.end() || d.empty())
        return d;
    const Rule& q = it->second;
    const Var& sv = q.external ? w.ext.at(q.status) : w.vars.at(q.status);
    dvec s = q.external ? sv.rec(sv.unlim ? r : 0) : q.status == name ? d : expected(w, cdm, q.status, sv.unlim ? r : 0);
    const double sfill = sv.hasFill ? sv.fill : q.external ? NAN : cdm.getFillValue(q.status); // a default without attribute
    std::vector<char> ok(s.size(), 1);
    for (size_t k = 0; k < s.size(); ++k) {
        if (std::isnan(s[k]))
            ok[k] = 0;
        else if (q.kind == 0)
            ok[k] = std::find(q.allowed.begin(), q.allowed.end(), s[k]) != q.allowed.end();
        else if (s[k] < sv.vmin || s[k] > sv.vmax || s[k] == sfill)
            ok[k] = 0;
    }
    if (q.kind == 2 || q.kind == 3) {
        double e = NAN;
        for (size_t k = 0; k < s.size(); ++k)
            if (ok[k] && (std::isnan(e) || (q.kind == 2 ? s[k] > e : s[k] < e)))
                e = s[k];
        for (size_t k = 0; k < s.size(); ++k)
            ok[k] = ok[k] && s[k] == e;
    }
    if (q.kind == 4 || q.kind == 5)
        for (size_t k = 0; k < s.size(); ++k)
            ok[k] = ok[k] && (q.kind == 4 ? s[k] >= q.limit : s[k] <= q.limit);
    const double f = q.hasFill ? q.fill : cdm.getFillValue(name);
    for (size_t k = 0; k < d.size(); ++k)
        if (!ok[k % s.size()])
            d[k] = f;
    return d;
}

static Var genVar(Case& c, World& w, const std::string& name, bool status, const std::vector<std::string>& shape)
{
    Var v;
    v.name = name;
    v.type = status ? c.pick({CDM_INT, CDM_SHORT, CDM_CHAR, CDM_UCHAR, CDM_FLOAT, CDM_DOUBLE}) : c.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT, CDM_CHAR});
    v.shape = shape;
    for (auto& s : shape)
        v.dims.push_back(w.len.at(s));
    v.unlim = w.unlim && !shape.empty() && shape.back() == "time";
    v.memory = c.b(0.2);
    if (c.b(status ? 0.5 : 0.6)) {
        v.hasFill = true;
        v.fill = status ? c.pick({7., 99., 0.}) : c.pick({-99., 0., 99.});
    }
    for (size_t k = 0, n = prod(v.dims); k < n; ++k) {
        double x = status ? c.i(v.type == CDM_UCHAR ? 0 : -2, 7) : c.i(-100, 100);
        if (!status && isFloat(v.type) && c.b(0.5))
            x += 0.25;
        if (v.hasFill && c.b(0.1))
            x = v.fill;
        if (isFloat(v.type) && c.b(0.05))
            x = NAN;
        v.values.push_back(x);
    }
    if (status)
        switch (c.w({5, 1, 1, 1})) {
        case 0: break;
        case 1: v.vmin = c.i(0, 3); break;
        case 2: v.vmax = c.i(3, 6); break;
        default: v.vmin = c.i(0, 3), v.vmax = c.i(3, 6);
        }
    return v;
}
static void validAttrs(Case& c, MemReader& r, const Var& v)
{
    CDM& cdm = r.cdm();
    if (!std::isnan(v.vmin) && !std::isnan(v.vmax) && c.b()) {
        cdm.addAttribute(v.name, CDMAttribute("valid_range", mkData(v.type, {v.vmin, v.vmax})));
        return;
    }
    if (!std::isnan(v.vmin))
        cdm.addAttribute(v.name, CDMAttribute("valid_min", mkData(v.type, {v.vmin})));
    if (!std::isnan(v.vmax))
        cdm.addAttribute(v.name, CDMAttribute("valid_max", mkData(v.type, {v.vmax})));
}

static void genAllowed(Case& c, Rule& q)
{
    if (c.b(0.4)) {
        const int lo = c.i(-1, 3), n = c.i(3, 5), st = c.i(1, 2);
        for (int k = 0; k < n; ++k)
            q.allowed.push_back(lo + k * st);
        q.text = num(q.allowed[0]) + "," + num(q.allowed[1]) + ",...," + num(q.allowed.back());
    } else {
        for (int k = 0, n = c.i(1, 4); k < n; ++k) {
            q.allowed.push_back(c.i(-2, 7)); // in any order
            q.text += (k ? "," : "") + num(q.allowed.back());
        }
    }
}

static void extraction(Case& c)
{
    World w;
    w.len["x"] = c.i(1, 4);
    w.len["y"] = c.i(1, 3);
    const bool hasZ = c.b(0.4), hasT = c.b(0.8);
    w.unlim = c.b(0.8);
    std::vector<std::string> full = {"x", "y"};
    if (hasZ)
        w.len["z"] = c.i(1, 3), full.push_back("z");
    if (hasT)
        w.len["time"] = c.i(1, 3), full.push_back("time");
    std::shared_ptr<MemReader> r;
    if (c.b(0.3)) {
        r = std::make_shared<KeepReader>();
        c.label("reader keeps its data");
    } else
        r = std::make_shared<MemReader>();
    auto other_p = std::make_shared<MemReader>();
    MemReader& other = *other_p;
    for (CDM* cdm : {&r->cdm(), &other.cdm()})
        for (auto& l : w.len) {
            CDMDimension d(l.first, l.second);
            if (l.first == "time" && w.unlim)
                d.setUnlimited(true);
            cdm->addDimension(d);
        }
    const bool useExt = c.b(0.12);
    const int autoKind = c.b(0.3) ? c.i(0, 3) : -1; // values, all, highest, lowest
    std::ostringstream xml;
    xml << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdmQualityConfig>\n";
    bool config = false;
    // status variables
    auto sub = [&]() {
        std::vector<std::string> s(full.begin(), full.begin() + c.i(1, full.size()));
        if (c.b(0.4))
            s = full;
        return s;
    };
    std::vector<std::string> status;
    for (size_t k = 0, n = c.i(1, 2); k < n; ++k) {
        const std::string name = std::string("s") + char('0' + k);
        w.vars[name] = genVar(c, w, name, true, sub());
        addVar(*r, w.vars[name]);
        validAttrs(c, *r, w.vars[name]);
        status.push_back(name);
    }
    if (useExt) {
        Var v = genVar(c, w, "mask", true, sub());
        v.memory = false;
        w.ext["mask"] = v;
        addVar(other, v);
        validAttrs(c, other, v);
    }
    Rule autoRule;
    std::string autoText;
    const std::string autoStatus = status[0];
    bool autoFlags = false;
    if (autoKind >= 0) {
        autoRule.kind = 0;
        autoRule.status = autoStatus;
        Rule fl;
        autoFlags = true;
        for (int k = 0, n = c.i(1, 4), v = c.i(0, 2); k < n; ++k, v += c.i(1, 2))
            fl.allowed.push_back(v);
        r->cdm().addAttribute(autoStatus, CDMAttribute("flag_values", mkData(w.vars[autoStatus].type, fl.allowed)));
        r->cdm().addAttribute(autoStatus, CDMAttribute("standard_name", "air_temperature status_flag"));
        if (autoKind == 0) {
            genAllowed(c, autoRule);
            autoText = "values=" + autoRule.text;
        } else {
            autoText = KINDS[autoKind];
            autoRule.allowed = fl.allowed;
            if (autoKind > 1)
                autoRule.allowed = {autoKind == 2 ? fl.allowed.back() : fl.allowed[0]};
        }
        c.label("auto " + std::string(KINDS[autoKind]));
    }
    auto writeRule = [&](const Rule& q) {
        config = true;
        xml << " <variable name=\"" << q.var << "\"";
        if (q.hasFill)
            xml << " fillValue=\"" << num(q.fill) << "\"";
        xml << "><status_flag_variable name=\"" << q.status << "\"";
        if (q.external)
            xml << " file=\"@DIR@/mask.nc\" type=\"netcdf\"";
        xml << ">";
        if (q.kind == 0)
            xml << "<allowed_values>" << q.text << "</allowed_values>";
        else {
            xml << "<allowed_values use=\"" << KINDS[q.kind];
            if (q.kind >= 4)
                xml << ":" << num(q.limit);
            xml << "\"/>";
        }
        xml << "</status_flag_variable></variable>\n";
    };
    auto genRule = [&](const std::string& var, const std::string& st, bool ext) {
        Rule q;
        q.var = var;
        q.status = st;
        q.external = ext;
        q.kind = c.w({3, 2, 2, 2, 2, 2});
        if (q.kind == 0)
            genAllowed(c, q);
        q.limit = var == st ? c.i(-50, 50) : c.i(0, 6) + c.pick({0., 0.5});
        return q;
    };
    if (status.size() == 2 && c.b(0.35) && w.vars["s1"].shape.size() <= w.vars["s0"].shape.size()) {
        Rule q = genRule("s0", "s1", false);
        w.rules["s0"] = q;
        writeRule(q);
        c.label("status of status");
    }
    std::vector<std::string> names;
    for (size_t k = 0, n = c.i(1, 3); k < n; ++k) {
        const std::string name = std::string("d") + char('0' + k);
        Var v = genVar(c, w, name, false, full);
        if (v.unlim && !v.memory)
            for (size_t m = 0; m < v.records(); ++m)
                if (c.b(0.06))
                    v.missing.insert(m);
        addVar(*r, v);
        w.vars[name] = v;
        names.push_back(name);
        if (autoFlags && c.b(0.6)) {
            r->cdm().addAttribute(name, CDMAttribute("standard_name", "air_temperature"));
            Rule q = autoRule;
            q.var = name;
            w.rules[name] = q;
        }
        if (c.b(0.75)) {
            const bool ext = useExt && c.b(0.6);
            const bool self = !ext && c.b(0.15);
            Rule q = genRule(name, ext ? "mask" : self ? name : c.pick(status), ext);
            if (self && q.kind == 0 && !std::isnan(v.values[0])) {
                q.allowed = {v.values[0]};
                q.text = num(v.values[0]);
            }
            if (c.b(0.4)) {
                q.hasFill = true;
                q.fill = c.pick({-99., 100., 0.});
            }
            w.rules[name] = q; // instead of the automatic one
            writeRule(q);
            c.label(KINDS[q.kind] + std::string(ext ? " in other file" : self ? " own" : ""));
        }
    }
    if (c.b(0.2)) { // not in the data
        config = true;
        xml << " <variable name=\"bla\"><status_flag_variable name=\"blub\"><allowed_values>1,2,...,6</allowed_values></status_flag_variable></variable>\n";
    }
    xml << "</cdmQualityConfig>\n";
    // shown
    for (auto& v : w.vars) {
        c.show() << v.first << " " << tname(v.second.type) << vec(v.second.shape) << vec(v.second.dims) << (v.second.unlim ? " unlimited" : "") << (v.second.memory ? " memory" : "") << " fill " << v.second.fill << " valid " << v.second.vmin << "," << v.second.vmax << " " << vec(v.second.values) << "\n";
    }
    for (auto& v : w.ext)
        c.show() << v.first << " " << tname(v.second.type) << vec(v.second.shape) << vec(v.second.dims) << " fill " << v.second.fill << " valid " << v.second.vmin << "," << v.second.vmax << " " << vec(v.second.values) << "\n";
    c.show() << "auto '" << autoText << "'\n" << xml.str();

    const std::string dir = c.tmpdir();
    std::string cf;
    if (config) {
        std::string x = xml.str();
        for (size_t p; (p = x.find("@DIR@")) != std::string::npos;)
            x.replace(p, 5, dir);
        cf = dir + "/q.xml";
        std::ofstream(cf) << x;
    }
    if (useExt) {
        auto o = other_p;
        ::unlink((dir + "/mask.nc").c_str());
        createWriter(o, "netcdf", dir + "/mask.nc");
    }
    CDMQualityExtractor qe(r, autoText, cf);
    std::vector<std::string> all = names;
    all.insert(all.end(), status.begin(), status.end());
    size_t filled = 0, left = 0;
    for (size_t step = 0, n = c.i(3, 8); step < n; ++step) {
        const std::string name = c.pick(all);
        const Var& v = w.vars.at(name);
        dvec got, want;
        std::string what;
        std::vector<dvec> recs;
        for (size_t q = 0; q < v.records(); ++q)
            recs.push_back(expected(w, r->getCDM(), name, q));
        DataPtr d;
        const int how = c.idx(3);
        const double dflt = r->getCDM().getFillValue(name);
        if (how == 0) {
            const size_t q = c.idx(v.records());
            what = "record " + std::to_string(q) + " of " + name;
            d = qe.getDataSlice(name, q);
            want = recs[q];
            if (v.missing.count(q)) { // missing, or all undefined
                for (double g : rawValues(d))
                    c.check(close(g, dflt, 0, 0) || (w.rules.count(name) && w.rules[name].hasFill && g == w.rules[name].fill), what + " is missing, but has the value " + num(g));
                continue;
            }
        } else {
            dvec a;
            for (size_t q = 0; q < recs.size(); ++q) {
                if (recs[q].empty())
                    recs[q] = dvec(v.recSize(), w.rules.count(name) && w.rules[name].status == name && w.rules[name].hasFill ? w.rules[name].fill : dflt);
                a.insert(a.end(), recs[q].begin(), recs[q].end());
            }
            if (how == 1) {
                what = "all of " + name;
                d = qe.getData(name);
                want = a;
            } else {
                what = "slice of " + name;
                SliceBuilder sb(qe.getCDM(), name);
                svec st, sz;
                for (size_t k = 0; k < v.dims.size(); ++k) {
                    st.push_back(c.idx(v.dims[k]));
                    sz.push_back(c.i(1, v.dims[k] - st[k]));
                    sb.setStartAndSize(v.shape[k], st[k], sz[k]);
                }
                d = qe.getDataSlice(name, sb);
                want = hyperslab(a, v.dims, st, sz);
            }
        }
        c.check(d->getDataType() == v.type, what + " is of type " + tname(d->getDataType()));
        same(c, what, rawValues(d), want);
        if (w.rules.count(name))
            for (size_t q = 0; q < recs.size(); ++q)
                if (!v.missing.count(q)) {
                    const dvec o = v.rec(q);
                    for (size_t k = 0; k < o.size(); ++k)
                        (recs[q][k] == o[k] ? left : filled)++;
                }
    }
    c.nontrivial(filled && left);
    // the input is as before
    for (auto& v : w.vars)
        for (size_t q = 0; q < v.second.records(); ++q)
            if (!v.second.missing.count(q))
                same(c, "input " + v.first + " after reading", rawValues(r->getDataSlice(v.first, q)), v.second.rec(q));
}

static void refused(Case& c)
{
    auto r = std::make_shared<MemReader>();
    for (auto& d : std::map<std::string, size_t>{{"x", 2}, {"y", 3}})
        r->cdm().addDimension(CDMDimension(d.first, d.second));
    auto add = [&](const std::string& n, std::vector<std::string> shape, size_t k) {
        r->cdm().addVariable(CDMVariable(n, CDM_INT, shape));
        r->data[n] = mkData(CDM_INT, dvec(k, 1));
    };
    add("d", {"x"}, 2);
    add("s", {"x"}, 2);
    add("big", {"x", "y"}, 6);
    add("o", {"y"}, 3);
    const std::string ok = "<allowed_values>1</allowed_values>";
    auto var = [&](const std::string& attrs, const std::string& st, const std::string& al) {
        return "<cdmQualityConfig><variable " + attrs + "><status_flag_variable " + st + ">" + al + "</status_flag_variable></variable></cdmQualityConfig>";
    };
    const std::vector<std::pair<std::string, std::string>> bad = {
        {"", var("name=\"d\"", "", ok)},
        {"", "<cdmQualityConfig><variable name=\"d\"/></cdmQualityConfig>"},
        {"", var("name=\"d\"", "name=\"s\"", "")},
        {"", var("name=\"d\"", "name=\"s\"", "<allowed_values/>")},
        {"", var("name=\"d\"", "name=\"s\"", "<allowed_values use=\"some\"/>")},
        {"", var("name=\"d\"", "name=\"s\"", "<allowed_values use=\"min:x\"/>")},
        {"", var("name=\"d\"", "name=\"s\"", "<allowed_values>a,b</allowed_values>")},
        {"", var("name=\"d\"", "name=\"none\"", ok)},
        {"", var("name=\"d\"", "name=\"big\"", ok)},
        {"", var("name=\"d\"", "name=\"o\"", ok)},
        {"", var("name=\"d\" fillValue=\"x\"", "name=\"s\"", ok)},
        {"", var("name=\"d\"", "name=\"s\" type=\"netcdf\"", ok)},
        {"", var("name=\"d\"", "name=\"s\" type=\"netcdf\" file=\"/nonexistent/f.nc\"", ok)},
        {"", "<qualityConfig/>"},
        {"", "<cdmQualityConfig><variable name=\"d\">"},
        {"best", ""},
        {"values=a", ""},
    };
    const size_t k = c.idx(bad.size());
    c.show() << bad[k].first << "\n" << bad[k].second << "\n";
    c.nontrivial();
    std::string cf;
    if (!bad[k].second.empty()) {
        cf = c.tmpdir() + "/bad.xml";
        std::ofstream(cf) << bad[k].second;
    }
    if (k + 1 == bad.size()) {
        r->cdm().addAttribute("s", CDMAttribute("flag_values", mkData(CDM_INT, {1})));
        r->cdm().addAttribute("s", CDMAttribute("standard_name", "t status_flag"));
        r->cdm().addAttribute("d", CDMAttribute("standard_name", "t"));
    }
    try {
        CDMQualityExtractor qe(r, bad[k].first, cf);
        qe.getDataSlice("d", 0);
    } catch (std::exception&) {
        return;
    }
    c.fail("accepted");
}

int main(int argc, char** argv)
{
    Runner r("C19", "at least one value read is kept and at least one is filled");
    r.init(quiet);
    r.assumption("status variables and data are compared unpacked, as stored; status records are not missing unless those of the data are");
    r.sub("extraction", extraction, 80000, 3000000);
    r.sub("refused", refused, 400, 2000);
    return r.main(argc, argv);
}
