// C12: aggregation of several datasets (union, joinExisting, joinNew), direct and through NcML files
// LINK: libfimex-io-netcdf -lnetcdf
#include "ncmodel.h"
#include "fimex/AggregationReader.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLInputString.h"

#include <filesystem>
#include <fstream>
#include <sys/stat.h>
using namespace fx;
using namespace pbt;

struct Tmpl
{
    std::string name;
    CDMDataType type;
    std::vector<std::string> shape;
    double fill;
    bool hasFill;
};

struct Family
{
    std::vector<Model> parts;
    std::string unlim; // the common unlimited dimension
};

static Family genFamily(Case& c, bool files)
{
    Family f;
    const size_t n = c.i(1, 5);
    const size_t nx = c.i(1, 3), ny = c.i(1, 3);
    std::vector<Tmpl> ts;
    const size_t nt = c.i(1, 5);
    f.unlim = "t";
    for (size_t k = 0; k < nt; ++k) {
        Tmpl t;
        t.name = std::string(1, "abcde"[k]);
        if (k == 0 && c.b(0.5))
            t.name = "t";
        t.type = numTypes()[c.idx(numTypes().size())];
        if (c.b(0.6))
            t.shape.push_back("x");
        if (c.b(0.4))
            t.shape.push_back("y");
        if (c.b(0.2))
            std::reverse(t.shape.begin(), t.shape.end());
        if (c.b(0.7))
            t.shape.push_back("t");
        if (t.name == "t")
            t.shape = {"t"};
        t.hasFill = c.b();
        t.fill = c.i(100, 120);
        ts.push_back(t);
    }
    const double odd = c.b(0.4) ? 0 : 0.15;
    for (size_t r = 0; r < n; ++r) {
        Model m;
        size_t x = c.b(odd) ? nx + 1 : nx, y = c.b(odd) ? ny + 1 : ny;
        bool noT = c.b(odd), otherT = c.b(odd / 2);
        m.dims.push_back({"x", x, false});
        m.dims.push_back({"y", y, false});
        if (!noT)
            m.dims.push_back({otherT ? "t2" : "t", (size_t)c.i(files ? 1 : 0, 3), true});
        if (c.b(odd))
            m.dims.push_back({"z", (size_t)c.i(1, 2), false});
        auto dimOk = [&](const std::string& d) {
            for (auto& q : m.dims)
                if (q.name == d)
                    return true;
            return false;
        };
        std::vector<size_t> order(ts.size());
        for (size_t k = 0; k < order.size(); ++k)
            order[k] = k;
        if (c.b(0.3))
            order = c.perm(ts.size());
        for (size_t k : order) {
            const Tmpl& t = ts[k];
            if (c.b(odd))
                continue; // not in this part
            V v;
            v.name = t.name;
            v.type = t.type;
            bool ok = true;
            for (auto s : t.shape) {
                if (s == "t" && otherT)
                    s = "t2";
                ok = ok && dimOk(s);
                v.shape.push_back(s);
            }
            if (!ok) {
                if (t.name == "t" || c.b())
                    continue;
                v.shape.clear();
                for (auto& s : t.shape)
                    if (dimOk(s))
                        v.shape.push_back(s);
            }
            if (t.name != "t" && c.b(odd / 2) && dimOk("z"))
                v.shape.insert(v.shape.begin(), "z");
            if (v.shape.size() > 1 && v.shape[1][0] != 't' && c.b(odd / 2))
                std::swap(v.shape[0], v.shape[1]); // the same dimensions in another order
            if (t.hasFill) {
                A a;
                a.name = "_FillValue";
                a.type = t.type;
                a.v = {t.fill};
                v.atts.push_back(a);
            }
            if (c.b(0.2)) {
                A a;
                a.name = "part";
                a.type = CDM_INT;
                a.v = {(double)r};
                v.atts.push_back(a);
            }
            for (size_t i = prod(m.sizes(v)); i > 0; --i)
                v.v.push_back((double)c.i(0, 99));
            v.missing.assign(m.hasUnlim(v) ? m.sizes(v).back() : 1, 0);
            v.inMemory = c.b(0.3);
            m.vars.push_back(v);
        }
        if (m.vars.empty()) {
            V v;
            v.name = "only" + std::to_string(r);
            v.type = CDM_INT;
            v.v = {(double)r};
            v.missing = {0};
            m.vars.push_back(v);
        }
        A a;
        a.name = "g";
        a.type = CDM_INT;
        a.v = {(double)r};
        m.gatts.push_back(a);
        if (files) { // only dimensions in use get into the file
            std::vector<D> used;
            for (auto& d : m.dims)
                for (auto& v : m.vars)
                    if (std::find(v.shape.begin(), v.shape.end(), d.name) != v.shape.end()) {
                        used.push_back(d);
                        break;
                    }
            m.dims = used;
        }
        f.parts.push_back(m);
    }
    return f;
}

static const D* unlimOf(const Model& m)
{
    for (auto& d : m.dims)
        if (d.unlim)
            return &d;
    return nullptr;
}
static V* find(Model& m, const std::string& n)
{
    for (auto& v : m.vars)
        if (v.name == n)
            return &v;
    return nullptr;
}
static const V* find(const Model& m, const std::string& n) { return find(const_cast<Model&>(m), n); }
static const D* findDim(const Model& m, const std::string& n)
{
    for (auto& d : m.dims)
        if (d.name == n)
            return &d;
    return nullptr;
}

enum Kind { UNION, EXISTING, NEW };

//! the aggregated dataset; dimensions that no variable uses are not specified
static Model aggregate(Case& c, const Family& f, Kind k, const std::string& newDim, const std::set<std::string>& newVars, const std::vector<std::string>& coords)
{
    Model e;
    e.gatts = f.parts[0].gatts;
    std::set<std::string> joined;
    std::map<std::string, size_t> owner;
    std::string uname;
    size_t records = 0;
    std::vector<size_t> len; // records of each part
    for (size_t r = 0; r < f.parts.size(); ++r) {
        const Model& p = f.parts[r];
        const D* u = unlimOf(p);
        if (r == 0 && u && k != NEW)
            uname = u->name;
        if (k == EXISTING) {
            if (u && uname.empty())
                uname = u->name;
            const bool joins = u && u->name == uname;
            len.push_back(joins ? u->len : 0);
            records += len.back();
        } else if (k == UNION && u && uname.empty()) {
        }
        // the variables that this part adds
        auto addDim = [&](const D& d) {
            D q = d;
            if (k == NEW)
                q.unlim = false;
            e.dims.push_back(q);
        };
        if (r == 0)
            for (auto& d : p.dims)
                addDim(d);
        for (int pass = 0; pass < 2; ++pass) // joined variables come first
            for (auto& v : p.vars) {
                bool j = k == EXISTING ? p.hasUnlim(v) && u->name == uname : k == NEW ? newVars.count(v.name) > 0 : false;
                if (find(e, v.name) || j != (pass == 0))
                    continue;
                bool ok = true;
                if (r > 0)
                    for (auto& s : v.shape) {
                        const D& d = p.dim(s);
                        const D* q = findDim(e, s);
                        if (j && k == EXISTING && d.unlim)
                            continue;
                        if (j && k == NEW) {
                            ok = ok && (!q || q->len == d.len);
                            continue;
                        }
                        if (!q) {
                            if (d.unlim && unlimOf(e))
                                ok = false;
                            else if (k == NEW && d.unlim)
                                ok = false;
                            else if (k == EXISTING && d.unlim && !uname.empty())
                                ok = false;
                        } else
                            ok = ok && q->len == d.len && q->unlim == d.unlim;
                    }
                // dimensions are taken over even if the variable is not
                if (r > 0)
                    for (auto& s : v.shape) {
                        const D& d = p.dim(s);
                        if (!findDim(e, s) && (!d.unlim || (k == NEW ? j : !unlimOf(e))))
                            addDim(d);
                    }
                if (!ok)
                    continue;
                V w = v;
                if (j) {
                    joined.insert(v.name);
                    if (k == NEW)
                        w.shape.push_back(newDim);
                }
                owner[v.name] = r;
                e.vars.push_back(w);
            }
        if (k == EXISTING && u && u->name == uname && !findDim(e, uname))
            e.dims.push_back(*u);
    }
    if (k == NEW) {
        e.dims.push_back({newDim, f.parts.size(), true});
        len.assign(f.parts.size(), 1);
    }
    if (k == EXISTING)
        for (auto& d : e.dims)
            if (d.name == uname)
                d.len = records;
    for (auto& v : e.vars) {
        if (!joined.count(v.name))
            continue;
        v.v.clear();
        svec own = e.sizes(v);
        own.pop_back();
        const size_t rec = prod(own);
        for (size_t r = 0; r < f.parts.size(); ++r) {
            if (k == EXISTING && len[r] == 0)
                continue;
            const V* w = find(f.parts[r], v.name);
            bool fits = w != nullptr;
            if (w) {
                std::vector<std::string> s = w->shape;
                if (k == NEW)
                    s.push_back(newDim);
                fits = s == v.shape;
                if (fits)
                    for (auto& d : w->shape)
                        fits = fits && ((k == EXISTING && d == uname) || f.parts[r].dim(d).len == e.dim(d).len);
            }
            if (fits)
                v.v.insert(v.v.end(), w->v.begin(), w->v.end());
            else
                v.v.insert(v.v.end(), rec * len[r], fillOf(v));
        }
    }
    if (!coords.empty()) {
        if (k == NEW) {
            V v;
            v.name = newDim;
            v.shape = {newDim};
            v.type = CDM_DOUBLE;
            for (auto& s : coords) {
                char* end = nullptr;
                double d = strtod(s.c_str(), &end);
                v.v.push_back(d);
                if (*end)
                    v.type = CDM_STRINGS;
            }
            if (v.type == CDM_STRINGS) {
                v.v.clear();
                v.strs = coords;
            }
            e.vars.push_back(v);
        } else if (V* v = find(e, uname)) {
            v->v.clear();
            for (auto& s : coords)
                v->v.push_back(atof(s.c_str()));
        }
    }
    return e;
}

static void compare(Case& c, CDMReader_p r, Model e)
{
    // unused dimensions are not specified
    std::vector<D> dims;
    std::set<std::string> used;
    for (auto& v : e.vars)
        used.insert(v.shape.begin(), v.shape.end());
    for (auto& s : used)
        c.check(r->getCDM().hasDimension(s), "dimension " + s + " is missing");
    for (auto& d : r->getCDM().getDimensions())
        dims.push_back(used.count(d.getName()) ? e.dim(d.getName()) : D{d.getName(), d.getLength(), (bool)d.isUnlimited()});
    e.dims = dims;
    // nor is the order of the variables
    std::vector<V> vars;
    for (auto& v : r->getCDM().getVariables()) {
        const V* w = find(e, v.getName());
        c.check(w != nullptr, "variable " + v.getName() + " is not expected");
        vars.push_back(*w);
    }
    c.check(vars.size() == e.vars.size(), "a variable is missing");
    e.vars = vars;
    checkReader(c, r, e);
}

struct Spec
{
    Kind k;
    std::string newDim = "n";
    std::set<std::string> newVars;
    std::vector<std::string> coords; // all
    std::vector<std::string> each;   // for each part
};
static Spec genSpec(Case& c, const Family& f, bool ncml)
{
    Spec s;
    s.k = (Kind)c.w({2, 5, 4});
    if (s.k == NEW) {
        s.newDim = c.picks({"n", "ensemble", "realization"});
        for (auto& p : f.parts)
            for (auto& v : p.vars)
                if (v.name != "t" && c.b(0.4))
                    s.newVars.insert(v.name);
        if (s.newVars.empty() && f.parts[0].vars[0].name != "t")
            s.newVars.insert(f.parts[0].vars[0].name);
        if (ncml || c.b(0.7)) {
            const bool text = c.b(0.3), none = ncml && c.b(0.4);
            for (size_t k = 0; k < f.parts.size(); ++k) {
                s.coords.push_back(none ? "location_" + std::to_string(k) : text ? "m" + std::to_string(k) : std::to_string(c.i(-9, 9)) + (c.b(0.3) ? ".5" : ""));
                s.each.push_back(none ? "" : s.coords.back());
            }
        }
    } else if (s.k == EXISTING && c.b(0.3)) {
        // values for the records of every part; they count only for parts that take part
        std::string uname;
        for (auto& p : f.parts) {
            const D* u = unlimOf(p);
            if (u && uname.empty())
                uname = u->name;
            std::string t;
            if (u && u->name == uname)
                for (size_t i = 0; i < u->len; ++i) {
                    s.coords.push_back(std::to_string(c.i(0, 99)));
                    t += (i ? " " : "") + s.coords.back();
                }
            s.each.push_back(t);
        }
    }
    return s;
}
static void classify(Case& c, const Family& f, const Spec& s)
{
    c.label(s.k == UNION ? "union" : s.k == EXISTING ? "joinExisting" : "joinNew");
    if (f.parts.size() > 1)
        c.nontrivial();
    for (size_t k = 0; k < f.parts.size(); ++k)
        c.show() << "part " << k << ":" << describe(f.parts[k]) << "\n";
    c.show() << (s.k == UNION ? "union" : s.k == EXISTING ? "joinExisting" : "joinNew ") << (s.k == NEW ? s.newDim : "") << " of";
    for (auto& v : s.newVars)
        c.show() << " " << v;
    c.show() << " values " << vec(s.each);
}

static std::shared_ptr<AggregationReader> build(const Spec& s, const std::vector<CDMReader_p>& parts)
{
    auto a = std::make_shared<AggregationReader>(s.k == UNION ? "union" : s.k == EXISTING ? "joinExisting" : "joinNew");
    if (s.k == NEW)
        a->joinNewVars(s.newDim, s.newVars);
    for (size_t k = 0; k < parts.size(); ++k)
        a->addReader(parts[k], "part" + std::to_string(k), s.each.empty() ? "" : s.each[k]);
    a->initAggregation();
    return a;
}

static void direct(Case& c)
{
    Family f = genFamily(c, false);
    Spec s = genSpec(c, f, false);
    classify(c, f, s);
    std::vector<CDMReader_p> parts;
    for (auto& m : f.parts)
        parts.push_back(std::make_shared<Source>(m));
    auto r = build(s, parts);
    compare(c, r, aggregate(c, f, s.k, s.newDim, s.newVars, s.coords));
}

//! an error of one part is an error of the aggregation, for what comes from that part
static void failing(Case& c)
{
    Family f = genFamily(c, false);
    for (auto& m : f.parts)
        for (auto& v : m.vars)
            v.inMemory = false;
    Spec s = genSpec(c, f, false);
    s.coords.clear();
    s.each.clear();
    classify(c, f, s);
    std::vector<CDMReader_p> parts;
    std::vector<std::shared_ptr<Source>> src;
    for (auto& m : f.parts) {
        src.push_back(std::make_shared<Source>(m));
        parts.push_back(src.back());
    }
    const Model e = aggregate(c, f, s.k, s.newDim, s.newVars, s.coords);
    const size_t bad = c.idx(src.size());
    const V& v = f.parts[bad].vars[c.idx(f.parts[bad].vars.size())];
    src[bad]->failVar = v.name;
    c.show() << "\nreading " << v.name << " of part " << bad << " fails";
    // make the value that would be read from the failing part recognisable by taking it away
    Family without = f;
    for (auto& x : find(without.parts[bad], v.name)->v)
        x = -7;
    const Model e2 = aggregate(c, without, s.k, s.newDim, s.newVars, s.coords);
    auto r = build(s, parts);
    for (auto& w : e.vars) {
        const V* w2 = find(e2, w.name);
        const bool hit = w2->v != w.v;
        const svec dims = e.sizes(w);
        if (e.hasUnlim(w)) {
            const size_t rec = w.v.size() / std::max<size_t>(1, dims.back());
            for (size_t i = 0; i < dims.back(); ++i) {
                bool h = false;
                for (size_t k = 0; k < rec; ++k)
                    h |= w.v[i * rec + k] != w2->v[i * rec + k];
                bool threw = false;
                try {
                    r->getDataSlice(w.name, i);
                } catch (std::exception&) {
                    threw = true;
                }
                c.check(threw == h, w.name + " record " + std::to_string(i) + (h ? ": no error" : ": error though the data is not from the failing part"));
            }
        }
        bool threw = false;
        try {
            if (!w.v.empty())
                r->getData(w.name);
        } catch (std::exception&) {
            threw = true;
        }
        c.check(threw == hit, w.name + (hit ? ": no error" : ": error though the data is not from the failing part"));
    }
}

static void files(Case& c)
{
    Family f = genFamily(c, true);
    Spec s = genSpec(c, f, true);
    const bool scan = c.b(0.4);
    if (scan && s.k == NEW)
        for (size_t k = 0; k < s.coords.size(); ++k) {
            s.coords[k] = "location_" + std::to_string(k);
            s.each[k] = "";
        }
    if (scan && s.k == EXISTING) {
        s.coords.clear();
        s.each.clear();
    }
    classify(c, f, s);
    c.label(scan ? "scan" : "locations");
    static size_t count = 0;
    const std::string dir = c.tmpdir() + "/agg" + std::to_string(count++);
    struct Clean
    {
        std::string d;
        ~Clean() { std::filesystem::remove_all(d); }
    } clean{dir};
    mkdir(dir.c_str(), 0700);
    mkdir((dir + "/sub").c_str(), 0700);
    std::string x = std::string("<aggregation type=\"") + (s.k == UNION ? "union" : s.k == EXISTING ? "joinExisting" : "joinNew") + "\"";
    if (s.k == NEW)
        x += " dimName=\"" + s.newDim + "\"";
    x += ">";
    for (auto& v : s.newVars)
        x += "<variableAgg name=\"" + v + "\"/>";
    const bool sub = scan && c.b(0.3); // the last ones in a subdirectory
    const size_t nsub = sub ? c.i(1, f.parts.size()) : 0;
    for (size_t k = 0; k < f.parts.size(); ++k) {
        bool inSub = k + nsub >= f.parts.size() && sub;
        const std::string fn = dir + (inSub ? "/sub/f" : "/f") + std::to_string(k) + ".nc";
        CDMFileReaderFactory::createWriter(std::make_shared<Source>(f.parts[k]), "nc4", fn);
        if (!scan)
            x += "<netcdf location=\"" + fn + (c.b(0.3) ? " nc" : "") + "\"" + (s.each.empty() || s.each[k].empty() ? "" : " coordValue=\"" + s.each[k] + "\"") + "/>";
    }
    if (scan) {
        // other files are there as well
        std::ofstream(dir + "/f0.txt") << "no";
        x += "<scan location=\"" + dir + "\"" + (c.b() ? std::string(" suffix=\".nc\"") : std::string(" regExp=\".*f[0-9]+\\.nc\"")) + (sub ? "" : " subdirs=\"false\"") + "/>";
        if (!sub)
            std::ofstream(dir + "/sub/f7.nc") << "not to be read";
    }
    x += "</aggregation>";
    c.show() << "\n" << x;
    const std::string doc = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">" + x + "</netcdf>";
    CDMReader_p r;
    if (c.b()) {
        std::ofstream(dir + "/all.ncml") << doc;
        r = CDMFileReaderFactory::create("ncml", dir + "/all.ncml");
    } else
        r = std::make_shared<NcmlCDMReader>(XMLInputString(doc));
    compare(c, r, aggregate(c, f, s.k, s.newDim, s.newVars, s.coords));
}

int main(int argc, char** argv)
{
    Runner r("C12", "at least two parts");
    r.init(quiet);
    r.assumption("a variable has the same type in all parts");
    r.assumption("the unlimited dimension is the slowest varying one");
    r.sub("direct", direct, 60000, 2000000);
    r.sub("failing", failing, 15000, 300000);
    r.sub("files", files, 2500, 60000);
    return r.main(argc, argv);
}
