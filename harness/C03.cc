// C03: the data model (CDM) under arbitrary edit histories equals a simple reference model.
#include "fx.h"
using namespace fx;
using namespace pbt;

struct MAttr
{
    std::string name, value;
    CDMDataType type;
};
struct MVar
{
    std::string name;
    CDMDataType type;
    std::vector<std::string> shape;
    std::vector<MAttr> attrs;
    bool hasData = false;
    dvec data;
    std::string counterpart;
};
struct MDim
{
    std::string name;
    size_t len;
    bool unlim;
};
struct Model
{
    std::vector<MDim> dims;
    std::vector<MVar> vars;
    std::vector<MAttr> global;
    MDim* dim(const std::string& n)
    {
        for (auto& d : dims)
            if (d.name == n)
                return &d;
        return 0;
    }
    MVar* var(const std::string& n)
    {
        for (auto& d : vars)
            if (d.name == n)
                return &d;
        return 0;
    }
    bool inUse(const std::string& n)
    {
        for (auto& v : vars)
            if (std::find(v.shape.begin(), v.shape.end(), n) != v.shape.end())
                return true;
        return false;
    }
};
static const char* DN[] = {"x", "y", "time", "lev"};
static const char* VN[] = {"a", "b", "x", "time", "temp"};
static const char* AN[] = {"units", "standard_name", "_FillValue", "scale_factor", "note"};

static void verify(Case& c, CDM& cdm, Model& m, const std::string& after)
{
    const CDM& cc = cdm;
    c.check(cc.getDimensions().size() == m.dims.size(), after + ": number of dimensions is " + std::to_string(cc.getDimensions().size()) + " not " + std::to_string(m.dims.size()));
    for (size_t k = 0; k < m.dims.size(); ++k) {
        auto& d = cc.getDimensions()[k];
        c.check(d.getName() == m.dims[k].name && d.getLength() == m.dims[k].len && bool(d.isUnlimited()) == m.dims[k].unlim, after + ": dimension " + m.dims[k].name + " differs");
    }
    for (auto n : DN) {
        MDim* d = m.dim(n);
        c.check(cc.hasDimension(n) == (d != 0), after + ": hasDimension " + n);
        c.check(cc.testDimensionInUse(n) == (d && m.inUse(n)), after + ": testDimensionInUse " + n);
        if (d)
            c.check(cc.getDimension(n).getLength() == d->len, after + ": getDimension " + n);
        else {
            bool t = false;
            try {
                cc.getDimension(n);
            } catch (CDMException&) {
                t = true;
            }
            c.check(t, after + ": getDimension of a missing dimension did not fail");
        }
    }
    const CDMDimension* u = cc.getUnlimitedDim();
    MDim* mu = 0;
    for (auto& d : m.dims)
        if (d.unlim && !mu)
            mu = &d;
    c.check((u != 0) == (mu != 0) && (!u || u->getName() == mu->name), after + ": unlimited dimension");
    c.check(cc.getVariables().size() == m.vars.size(), after + ": number of variables is " + std::to_string(cc.getVariables().size()) + " not " + std::to_string(m.vars.size()));
    size_t withAttr = 0;
    auto cmpAttrs = [&](const std::string& vn, const std::vector<MAttr>& ma) {
        auto as = cc.getAttributes(vn);
        c.check(as.size() == ma.size(), after + ": number of attributes of " + vn + " is " + std::to_string(as.size()) + " not " + std::to_string(ma.size()));
        for (auto& a : ma) {
            c.check(cc.hasAttribute(vn, a.name), after + ": attribute " + vn + "." + a.name + " is gone");
            const CDMAttribute& g = cc.getAttribute(vn, a.name);
            c.check(g.getName() == a.name && g.getDataType() == a.type && g.getStringValue() == a.value,
                    after + ": attribute " + vn + "." + a.name + " is '" + g.getStringValue() + "' not '" + a.value + "'");
            CDMAttribute h;
            c.check(cc.getAttribute(vn, a.name, h) && h.getStringValue() == a.value, after + ": getAttribute(" + a.name + ")");
        }
        for (auto n : AN) {
            bool in = false;
            for (auto& a : ma)
                in |= a.name == n;
            c.check(cc.hasAttribute(vn, n) == in, after + ": hasAttribute " + vn + "." + n);
        }
    };
    for (size_t k = 0; k < m.vars.size(); ++k) {
        const CDMVariable& v = cc.getVariables()[k];
        MVar& mv = m.vars[k];
        c.check(v.getName() == mv.name, after + ": variable order/name " + v.getName() + " vs " + mv.name);
        c.check(v.getDataType() == mv.type, after + ": type of " + mv.name);
        c.check(v.getShape() == mv.shape, after + ": shape of " + mv.name + " is " + vec(v.getShape()) + " not " + vec(mv.shape));
        c.check(v.hasData() == mv.hasData, after + ": hasData of " + mv.name);
        if (mv.hasData)
            same(c, after + ": data of " + mv.name, rawValues(v.getData()), mv.data);
        c.check(&cc.getVariable(mv.name) == &v, after + ": getVariable " + mv.name);
        bool hu = mu && std::find(mv.shape.begin(), mv.shape.end(), mu->name) != mv.shape.end();
        c.check(cc.hasUnlimitedDim(v) == hu, after + ": hasUnlimitedDim " + mv.name);
        cmpAttrs(mv.name, mv.attrs);
    }
    cmpAttrs(CDM::globalAttributeNS(), m.global);
    for (auto n : VN) {
        c.check(cc.hasVariable(n) == (m.var(n) != 0), after + ": hasVariable " + n);
        if (!m.var(n)) {
            c.check(cc.getAttributes(n).empty(), after + ": attributes of the missing variable " + n);
            bool t = false;
            try {
                cc.getVariable(n);
            } catch (CDMException&) {
                t = true;
            }
            c.check(t, after + ": getVariable of a missing variable did not fail");
        }
    }
    // searching by attribute value and dimension
    for (auto n : AN)
        for (auto val : {"m", "air", "2"}) {
            std::vector<std::string> want;
            for (auto& v : m.vars)
                for (auto& a : v.attrs)
                    if (a.name == n && a.value == val)
                        want.push_back(v.name);
            c.check(cc.findVariables(n, val) == want, after + std::string(": findVariables ") + n + "=" + val);
        }
    for (auto n : DN) {
        std::vector<std::string> want;
        for (auto& v : m.vars)
            if (std::find(v.shape.begin(), v.shape.end(), n) != v.shape.end())
                for (auto& a : v.attrs)
                    if (a.name == "units")
                        want.push_back(v.name);
        std::map<std::string, std::string> fa;
        fa["units"] = ".*";
        c.check(cc.findVariables(fa, std::vector<std::string>(1, n)) == want, after + std::string(": findVariables with dimension ") + n);
    }
    // derived attribute values
    for (auto& v : m.vars) {
        std::string un;
        double sf = 1;
        for (auto& a : v.attrs) {
            if (a.name == "units")
                un = a.value;
            if (a.name == "scale_factor" && a.type != CDM_STRING)
                sf = atof(a.value.c_str());
        }
        c.check(cc.getUnits(v.name) == un, after + ": getUnits " + v.name);
        bool str = false;
        for (auto& a : v.attrs)
            str |= a.name == "scale_factor" && a.type == CDM_STRING;
        if (!str)
            c.check(cc.getScaleFactor(v.name) == sf, after + ": getScaleFactor " + v.name);
    }
}

static void history(Case& c)
{
    CDM cdm;
    Model m;
    std::vector<std::pair<CDM, Model>> snaps;
    size_t n = c.i(1, 25);
    int changed = 0, refused = 0;
    auto attempt = [&](bool expectOk, const std::string& what, std::function<void()> f) {
        bool ok = true;
        try {
            f();
        } catch (CDMException&) {
            ok = false;
        }
        if (ok != expectOk)
            c.fail(what + (ok ? " was accepted, but must be refused" : " was refused"));
        (ok ? changed : refused)++;
    };
    for (size_t k = 0; k < n; ++k) {
        std::ostringstream o;
        std::string dn = c.picks({"x", "y", "time", "lev"}), dn2 = c.picks({"x", "y", "time", "lev"});
        std::string vn = c.picks({"a", "b", "x", "time", "temp"}), vn2 = c.picks({"a", "b", "x", "time", "temp"});
        switch (c.w({3, 4, 4, 1.5, 2, 1, 1.5, 1.5, 1, 1, 0.7, 1})) {
        case 0: {
            size_t len = c.i(1, 4);
            bool un = c.b(0.25);
            o << "addDimension(" << dn << "," << len << (un ? ",unlimited" : "") << ")";
            CDMDimension d(dn, len);
            d.setUnlimited(un);
            bool ok = !m.dim(dn);
            attempt(ok, o.str(), [&] { cdm.addDimension(d); });
            if (ok)
                m.dims.push_back({dn, len, un});
            break;
        }
        case 1: {
            MVar v;
            v.name = vn;
            v.type = c.pick<CDMDataType>({CDM_DOUBLE, CDM_FLOAT, CDM_INT, CDM_SHORT});
            size_t tot = 1;
            for (auto& d : m.dims)
                if (c.b(0.4)) {
                    v.shape.push_back(d.name);
                    tot *= d.len;
                }
            CDMVariable cv(v.name, v.type, v.shape);
            if (c.b(0.4)) {
                for (size_t q = 0; q < tot; ++q)
                    v.data.push_back(q + k);
                v.hasData = true;
                cv.setData(mkData(v.type, v.data));
            }
            o << "addVariable(" << vn << vec(v.shape) << ")";
            bool ok = !m.var(vn);
            attempt(ok, o.str(), [&] { cdm.addVariable(cv); });
            if (ok)
                m.vars.push_back(v);
            break;
        }
        case 2:
        case 7: {
            bool repl = c.b(0.5);
            MAttr a;
            a.name = c.picks({"units", "standard_name", "_FillValue", "scale_factor", "note"});
            bool glob = c.b(0.2);
            std::string t = glob ? CDM::globalAttributeNS() : vn;
            CDMAttribute ca;
            switch (c.idx(3)) {
            case 0:
                a.value = c.picks({"m", "air", "some text"});
                a.type = CDM_STRING;
                ca = CDMAttribute(a.name, a.value);
                break;
            case 1: {
                int v = c.i(-3, 3);
                a.value = std::to_string(v);
                a.type = CDM_INT;
                ca = CDMAttribute(a.name, v);
                break;
            }
            default: {
                int v = c.i(2, 5);
                a.value = std::to_string(v);
                a.type = CDM_DOUBLE;
                ca = CDMAttribute(a.name, (double)v);
            }
            }
            o << (repl ? "addOrReplaceAttribute(" : "addAttribute(") << t << "." << a.name << "=" << a.value << ")";
            std::vector<MAttr>* l = glob ? &m.global : m.var(vn) ? &m.var(vn)->attrs : 0;
            bool exists = false;
            size_t pos = 0;
            if (l)
                for (size_t q = 0; q < l->size(); ++q)
                    if ((*l)[q].name == a.name) {
                        exists = true;
                        pos = q;
                    }
            bool ok = l && (repl || !exists);
            attempt(ok, o.str(), [&] {
                if (repl)
                    cdm.addOrReplaceAttribute(t, ca);
                else
                    cdm.addAttribute(t, ca);
            });
            if (ok) {
                if (exists)
                    l->erase(l->begin() + pos);
                l->push_back(a);
            }
            break;
        }
        case 3: {
            o << "removeVariable(" << vn << ")";
            cdm.removeVariable(vn);
            for (size_t q = 0; q < m.vars.size(); ++q)
                if (m.vars[q].name == vn) {
                    m.vars.erase(m.vars.begin() + q);
                    changed++;
                    break;
                }
            break;
        }
        case 4: {
            o << "renameVariable(" << vn << "->" << vn2 << ")";
            bool ok = m.var(vn) != 0;
            bool r = cdm.renameVariable(vn, vn2);
            c.check(r == ok, o.str() + " returned " + (r ? "true" : "false"));
            if (ok && vn != vn2) {
                for (size_t q = 0; q < m.vars.size(); ++q)
                    if (m.vars[q].name == vn2) {
                        m.vars.erase(m.vars.begin() + q);
                        break;
                    }
                m.var(vn)->name = vn2;
                changed++;
            }
            break;
        }
        case 5: {
            bool force = c.b(0.4);
            o << "removeDimension(" << dn << (force ? ",force" : "") << ")";
            bool ok = force || !m.inUse(dn) || !m.dim(dn);
            attempt(ok, o.str(), [&] {
                bool r = cdm.removeDimension(dn, force);
                c.check(r == (m.dim(dn) != 0), "removeDimension result");
            });
            if (ok)
                for (size_t q = 0; q < m.dims.size(); ++q)
                    if (m.dims[q].name == dn) {
                        m.dims.erase(m.dims.begin() + q);
                        break;
                    }
            break;
        }
        case 6: {
            bool force = c.b(0.3);
            o << "renameDimension(" << dn << "->" << dn2 << (force ? ",force" : "") << ")";
            bool have = m.dim(dn) != 0;
            bool ok = !have || dn == dn2 || force || !m.dim(dn2) || !m.inUse(dn2);
            attempt(ok, o.str(), [&] {
                bool r = cdm.renameDimension(dn, dn2, force);
                c.check(r == have, "renameDimension result");
            });
            if (ok && have && dn != dn2) {
                for (size_t q = 0; q < m.dims.size(); ++q)
                    if (m.dims[q].name == dn2) {
                        m.dims.erase(m.dims.begin() + q);
                        break;
                    }
                m.dim(dn)->name = dn2;
                for (auto& v : m.vars)
                    for (auto& s : v.shape)
                        if (s == dn)
                            s = dn2;
            }
            break;
        }
        case 8: {
            std::string an = c.picks({"units", "standard_name", "_FillValue", "scale_factor", "note"});
            bool glob = c.b(0.2);
            o << "removeAttribute(" << (glob ? "global" : vn) << "." << an << ")";
            cdm.removeAttribute(glob ? CDM::globalAttributeNS() : vn, an);
            std::vector<MAttr>* l = glob ? &m.global : m.var(vn) ? &m.var(vn)->attrs : 0;
            if (l)
                for (size_t q = 0; q < l->size(); ++q)
                    if ((*l)[q].name == an) {
                        l->erase(l->begin() + q);
                        changed++;
                        break;
                    }
            break;
        }
        case 9: {
            o << "set length/data/type of existing entries";
            if (MDim* d = m.dim(dn)) {
                d->len = c.i(1, 6);
                cdm.getDimension(dn).setLength(d->len);
                changed++;
            }
            if (MVar* v = m.var(vn)) {
                if (c.b()) {
                    v->data = dvec(1, (double)k);
                    v->hasData = true;
                    cdm.getVariable(vn).setData(mkData(v->type, v->data));
                } else {
                    CDMDataType t = c.pick<CDMDataType>({CDM_DOUBLE, CDM_FLOAT, CDM_INT, CDM_SHORT});
                    if (t != v->type) {
                        v->hasData = false;
                        v->data.clear();
                        v->type = t;
                    }
                    cdm.getVariable(vn).setDataType(t);
                }
                changed++;
            }
            break;
        }
        case 10: {
            o << "copy";
            snaps.push_back({cdm, m});
            if (c.b()) { // assignment back from an older copy
                auto& s = snaps[c.idx(snaps.size())];
                cdm = s.first;
                m = s.second;
                o << " and restore";
            }
            break;
        }
        default: { // removing the attributes of a removed variable must not come back with a new one
            o << "remove+add " << vn;
            cdm.removeVariable(vn);
            for (size_t q = 0; q < m.vars.size(); ++q)
                if (m.vars[q].name == vn) {
                    m.vars.erase(m.vars.begin() + q);
                    break;
                }
            MVar v;
            v.name = vn;
            v.type = CDM_FLOAT;
            cdm.addVariable(CDMVariable(vn, CDM_FLOAT, v.shape));
            m.vars.push_back(v);
            changed++;
        }
        }
        c.show() << o.str() << "; ";
        verify(c, cdm, m, o.str());
    }
    for (auto& s : snaps)
        verify(c, s.first, s.second, "copy made earlier");
    c.nontrivial(changed >= 3);
    c.label(refused ? "with refused operations" : "no refused operation");
}

int main(int argc, char** argv)
{
    Runner r("C03", "histories of 1-25 random edits (add/remove/rename/replace of dimensions, variables, attributes, copies) over small name sets; the complete "
                    "observable state is compared to the reference model after every edit; non-trivial: at least 3 edits took effect");
    r.init(quiet);
    r.sub("history", history, 40000, 1500000);
    return r.main(argc, argv);
}
