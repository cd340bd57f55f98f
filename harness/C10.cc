// C10: what is written to NetCDF is what is read, by fimex and by any other NetCDF reader
// LINK: libfimex-io-netcdf -lnetcdf
#include "ncmodel.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/XMLInput.h"
#include "fimex/XMLInputString.h"

#include <csignal>
#include <netcdf.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace fx;
using namespace pbt;

//! the model as it has to be in the file
static Model expected(const Model& m, bool nc4)
{
    Model e = m;
    e.dims.clear();
    for (auto& d : m.dims) {
        bool used = false;
        for (auto& v : m.vars)
            used |= std::find(v.shape.begin(), v.shape.end(), d.name) != v.shape.end();
        if (used)
            e.dims.push_back(d);
    }
    auto fix = [&](A& a) {
        if (a.type == CDM_STRINGS && !nc4) {
            a.type = CDM_STRING;
            a.text = a.strs[0];
            a.strs.clear();
        }
    };
    for (auto& a : e.gatts)
        fix(a);
    for (auto& v : e.vars) {
        for (auto& a : v.atts)
            fix(a);
        if (!v.v.empty()) {
            size_t rec = v.v.size() / v.missing.size();
            for (size_t r = 0; r < v.missing.size(); ++r)
                if (v.missing[r])
                    for (size_t k = 0; k < rec; ++k)
                        v.v[r * rec + k] = fillOf(v);
        }
    }
    // an unlimited dimension has as many records as have been written
    return e;
}

static nc_type ncType(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return NC_BYTE;
    case CDM_STRING: return NC_CHAR;
    case CDM_SHORT: return NC_SHORT;
    case CDM_INT: return NC_INT;
    case CDM_FLOAT: return NC_FLOAT;
    case CDM_DOUBLE: return NC_DOUBLE;
    case CDM_STRINGS: return NC_STRING;
    case CDM_UCHAR: return NC_UBYTE;
    case CDM_USHORT: return NC_USHORT;
    case CDM_UINT: return NC_UINT;
    case CDM_INT64: return NC_INT64;
    case CDM_UINT64: return NC_UINT64;
    default: return NC_NAT;
    }
}
static void nc(Case& c, int status, const std::string& what)
{
    if (status != NC_NOERR)
        c.fail("NetCDF library: " + what + ": " + nc_strerror(status));
}
static void ncAtt(Case& c, int id, int vid, const A& a, int pos)
{
    const std::string w = "attribute " + a.name;
    char nm[NC_MAX_NAME + 1];
    nc(c, nc_inq_attname(id, vid, pos, nm), w);
    c.check(a.name == nm, "attribute " + std::to_string(pos) + " in the file is " + nm + ", expected " + a.name);
    nc_type t;
    size_t len;
    nc(c, nc_inq_att(id, vid, nm, &t, &len), w);
    c.check(t == ncType(a.type), w + ": type in the file is " + std::to_string(t) + ", expected " + std::to_string(ncType(a.type)));
    if (a.type == CDM_STRING) {
        std::string s(len, 0);
        nc(c, nc_get_att_text(id, vid, nm, &s[0]), w);
        c.check(s == a.text, w + " in the file is '" + s + "', expected '" + a.text + "'");
    } else if (a.type == CDM_STRINGS) {
        c.check(len == a.strs.size(), w + ": length");
        std::vector<char*> p(len);
        nc(c, nc_get_att_string(id, vid, nm, p.data()), w);
        for (size_t k = 0; k < len; ++k)
            c.check(a.strs[k] == p[k], w + ": string " + std::to_string(k) + " is '" + p[k] + "', expected '" + a.strs[k] + "'");
        nc_free_string(len, p.data());
    } else {
        dvec d(len);
        nc(c, nc_get_att_double(id, vid, nm, d.data()), w);
        same(c, w + " in the file", d, a.v);
    }
}
//! compare the file with the model, by the NetCDF library alone; tol: for converted values
static void checkFile(Case& c, const std::string& file, const Model& m, const std::map<std::string, double>& tol = {})
{
    int id;
    nc(c, nc_open(file.c_str(), NC_NOWRITE, &id), "open");
    struct Closer
    {
        int id;
        ~Closer() { nc_close(id); }
    } closer{id};
    int nd, nv, na, ud;
    nc(c, nc_inq(id, &nd, &nv, &na, &ud), "inq");
    c.check(nd == (int)m.dims.size(), "number of dimensions in the file is " + std::to_string(nd) + ", expected " + std::to_string(m.dims.size()));
    char nm[NC_MAX_NAME + 1];
    for (int k = 0; k < nd; ++k) {
        size_t len;
        nc(c, nc_inq_dim(id, k, nm, &len), "dim");
        c.check(m.dims[k].name == nm, std::string("dimension in the file is ") + nm + ", expected " + m.dims[k].name);
        c.check(m.dims[k].unlim == (k == ud), "unlimited dimension " + m.dims[k].name);
        c.check(len == m.dims[k].len, "length of dimension " + m.dims[k].name + " in the file is " + std::to_string(len) + ", expected " + std::to_string(m.dims[k].len));
    }
    c.check(nv == (int)m.vars.size(), "number of variables in the file");
    c.check(na == (int)m.gatts.size(), "number of global attributes in the file is " + std::to_string(na));
    for (int k = 0; k < na; ++k)
        ncAtt(c, id, NC_GLOBAL, m.gatts[k], k);
    for (int k = 0; k < nv; ++k) {
        const V& v = m.vars[k];
        const std::string w = "variable " + v.name;
        nc_type t;
        int ndv, dimids[NC_MAX_VAR_DIMS], nat;
        nc(c, nc_inq_var(id, k, nm, &t, &ndv, dimids, &nat), w);
        c.check(v.name == nm, std::string("variable in the file is ") + nm + ", expected " + v.name);
        c.check(t == ncType(v.type), w + ": type in the file is " + std::to_string(t) + ", expected " + std::to_string(ncType(v.type)));
        c.check(ndv == (int)v.shape.size(), w + ": number of dimensions in the file");
        for (int d = 0; d < ndv; ++d) {
            nc_inq_dimname(id, dimids[d], nm);
            c.check(v.shape[ndv - 1 - d] == nm, w + ": dimension " + std::to_string(d) + " in the file is " + nm);
        }
        c.check(nat == (int)v.atts.size(), w + ": number of attributes in the file is " + std::to_string(nat) + ", expected " + std::to_string(v.atts.size()));
        for (int a = 0; a < nat; ++a)
            ncAtt(c, id, k, v.atts[a], a);
        const size_t n = prod(m.sizes(v));
        if (n == 0)
            continue;
        if (v.type == CDM_STRING) {
            std::string s(n, 0);
            nc(c, nc_get_var_text(id, k, &s[0]), w);
            c.check(s == v.text, w + ": text in the file is '" + s + "', expected '" + v.text + "'");
        } else if (v.type == CDM_STRINGS) {
            std::vector<char*> p(n);
            nc(c, nc_get_var_string(id, k, p.data()), w);
            for (size_t i = 0; i < n; ++i)
                c.check(v.strs[i] == p[i], w + ": string " + std::to_string(i) + " in the file is '" + p[i] + "', expected '" + v.strs[i] + "'");
            nc_free_string(n, p.data());
        } else {
            dvec d(n);
            nc(c, nc_get_var_double(id, k, d.data()), w);
            auto it = tol.find(v.name);
            if (it == tol.end())
                same(c, w + " in the file", d, v.v);
            else
                same(c, w + " in the file", d, v.v, isFloat(v.type) ? it->second : 0, isFloat(v.type) ? it->second : 0.5001);
        }
    }
}
//! records at the end that are missing in all variables do not extend the unlimited dimension in NetCDF-4 files
static void fixRecords(Model& e, const Model& m, bool nc3)
{
    for (auto& d : e.dims) {
        if (!d.unlim)
            continue;
        size_t n = 0;
        for (auto& v : m.vars)
            if (m.hasUnlim(v) && prod(m.sizes(v)) > 0)
                for (size_t r = 0; r < d.len; ++r)
                    if (nc3 || !v.missing[r])
                        n = std::max(n, r + 1);
        size_t old = d.len;
        d.len = n;
        for (auto& v : e.vars)
            if (e.hasUnlim(v) && old > 0 && n < old)
                v.v.resize(v.v.size() / old * n);
    }
}

static void roundTrip(Case& c)
{
    const std::string type = c.pick(std::vector<std::string>{"nc3", "cdf", "netcdf3", "nc4c", "netcdf4classic", "nc4", "nc", "netcdf4", "netcdf"});
    const bool nc4 = type == "nc4" || type == "nc" || type == "netcdf4" || type == "netcdf", nc3 = type == "nc3" || type == "cdf" || type == "netcdf3";
    Model m = genModel(c, nc4);
    auto src = std::make_shared<Source>(m);
    const std::string f = c.tmpdir() + "/a." + c.picks({"nc", "out", "nc4"});
    c.show() << type << describe(m);
    c.nontrivial(m.vars.size() > 1 || m.vars[0].shape.size() > 1);
    CDMFileReaderFactory::createWriter(src, type, f);
    Model e = expected(m, nc4);
    fixRecords(e, m, nc3);
    checkFile(c, f, e);
    {
        CDMReader_p r = CDMFileReaderFactory::create(c.b() ? type : "netcdf", f);
        checkReader(c, r, e);
        if (c.b(0.3)) { // copy the copy
            const std::string g = c.tmpdir() + "/b.nc";
            CDMFileReaderFactory::createWriter(r, type, g);
            for (auto& v : e.vars)
                v.missing.assign(v.missing.size(), 0);
            checkFile(c, g, e);
            remove(g.c_str());
        }
    }
    remove(f.c_str());
    c.label(type);
    for (auto& v : m.vars)
        if (std::count(v.missing.begin(), v.missing.end(), 1))
            c.label("missing records");
}

//! types the file format cannot represent, and source failures, are reported
static void refused(Case& c)
{
    const bool bad = c.b();
    const std::string type = bad ? c.picks({"nc3", "nc4c"}) : c.picks({"nc3", "nc4c", "nc4"});
    Model m = genModel(c, false, true);
    for (auto& v : m.vars)
        v.inMemory = false;
    const std::string f = c.tmpdir() + "/a.nc";
    const size_t k = c.idx(m.vars.size());
    std::string what;
    if (bad) {
        std::vector<CDMDataType> ts = {CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_STRINGS};
        V& v = m.vars[k];
        v.type = ts[c.idx(ts.size())];
        v.atts.clear();
        if (v.type == CDM_STRINGS)
            v.strs.assign(prod(m.sizes(v)), "t");
        else
            v.v.assign(prod(m.sizes(v)), 1);
        what = std::string("type ") + tname(v.type);
    }
    auto src = std::make_shared<Source>(m);
    if (!bad) {
        const V& v = m.vars[k];
        if (m.hasUnlim(v) && m.sizes(v).back() == 0)
            c.assume(false);
        src->failVar = v.name;
        if (m.hasUnlim(v))
            src->failRec = c.idx(m.sizes(v).back());
        what = "failing source at record " + std::to_string(src->failRec) + " of " + v.name;
    }
    c.show() << type << " " << what << describe(m);
    c.nontrivial(true);
    bool thrown = false;
    try {
        CDMFileReaderFactory::createWriter(src, type, f);
    } catch (std::exception&) {
        thrown = true;
    }
    remove(f.c_str());
    c.check(thrown, "writing succeeded in spite of " + what);
    c.label(bad ? "unsupported type" : "failing source");
}

//! a file system without space
static void diskFull(Case& c)
{
    const std::string type = c.picks({"nc3", "nc4c", "nc4"});
    Model m = genModel(c, false, true);
    // enough data to matter
    V v;
    v.name = "big";
    v.type = CDM_DOUBLE;
    m.dims.push_back({"bigdim", (size_t)c.i(500, 4000), false});
    v.shape = {"bigdim"};
    for (auto& d : m.dims)
        if (d.unlim && c.b())
            v.shape.push_back(d.name);
    const size_t n = prod(m.sizes(v));
    for (size_t k = 0; k < n; ++k) // does not compress
        v.v.push_back(std::sin(k * 12.9898) * 43758.5453);
    v.missing.assign(m.hasUnlim(v) ? m.sizes(v).back() : 1, 0);
    m.vars.push_back(v);
    auto src = std::make_shared<Source>(m);
    const std::string f = c.tmpdir() + "/a.nc", g = c.tmpdir() + "/b.nc";
    CDMFileReaderFactory::createWriter(src, type, g);
    struct stat st;
    c.check(stat(g.c_str(), &st) == 0, "no file written");
    remove(g.c_str());
    const size_t limit = c.b(0.2) ? 0 : (size_t)(st.st_size * c.d(0, 0.99));
    c.show() << type << " limit " << limit << " of " << st.st_size << describe(m);
    c.nontrivial(limit > 0);
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    lim = old;
    lim.rlim_cur = limit;
    signal(SIGXFSZ, SIG_IGN);
    bool thrown = false;
    setrlimit(RLIMIT_FSIZE, &lim);
    try {
        CDMFileReaderFactory::createWriter(src, type, f);
    } catch (std::exception&) {
        thrown = true;
    }
    setrlimit(RLIMIT_FSIZE, &old);
    bool complete = false;
    if (!thrown) { // then everything must be there
        try {
            Model e = expected(m, false);
            fixRecords(e, m, type == "nc3");
            checkFile(c, f, e);
            complete = true;
        } catch (...) {
        }
    }
    remove(f.c_str());
    c.check(thrown || complete, "file could not be written completely, but no error was reported");
    c.label(type);
}

//---------------------------------------------------------------- configuration of the writer

static std::string xml(const std::string& s)
{
    std::string r;
    for (char ch : s)
        switch (ch) {
        case '<': r += "&lt;"; break;
        case '&': r += "&amp;"; break;
        case '"': r += "&quot;"; break;
        default: r += ch;
        }
    return r;
}

static void configured(Case& c)
{
    const std::string ft = c.picks({"netcdf3", "netcdf3_64bit", "netcdf4", "netcdf4classic"});
    const bool nc4 = ft == "netcdf4", nc3 = ft.substr(0, 7) == "netcdf3";
    Model m = genModel(c, nc4, true);
    struct U
    {
        const char *from, *to;
        double a, b;
    };
    static const U us[] = {{"m", "km", 1e-3, 0}, {"K", "degC", 1, -273.15}, {"hPa", "Pa", 100, 0}, {"degC", "K", 1, 273.15}};
    std::map<std::string, const U*> unit;
    for (auto& v : m.vars) {
        if (c.b(0.6)) {
            const U* u = &us[c.idx(4)];
            unit[v.name] = u;
            A a;
            a.name = "units";
            a.type = CDM_STRING;
            a.text = u->from;
            v.atts.push_back(a);
        }
        if (c.b(0.4)) {
            A s;
            s.name = "scale_factor";
            s.type = CDM_DOUBLE;
            s.v = {c.pick({0.5, 2., 0.1, 0.25})};
            v.atts.push_back(s);
        }
        if (c.b(0.3)) {
            A s;
            s.name = "add_offset";
            s.type = CDM_DOUBLE;
            s.v = {c.pick({1., -5., 100.})};
            v.atts.push_back(s);
        }
        if (c.b(0.4)) {
            A s;
            s.name = "note";
            s.type = CDM_STRING;
            s.text = "text";
            v.atts.push_back(s);
        }
        // values that fit everywhere
        for (double& x : v.v)
            if (!std::isnan(x) && x != fillOf(v) && (std::fabs(x) > 100 || x < 0))
                x = stored(v.type, std::fmod(std::fabs(x), 100));
        v.missing.assign(v.missing.size(), 0);
    }
    if (c.b(0.5)) {
        A g;
        g.name = "title";
        g.type = CDM_STRING;
        g.text = "a title";
        m.gatts.push_back(g);
    }
    auto src = std::make_shared<Source>(m);
    Model e = m;
    std::map<std::string, double> tol;
    std::ostringstream x;
    const bool autoRemove = c.b(0.7);
    x << "<cdm_ncwriter_config><default filetype=\"" << ft << "\"";
    int level = 13; // documented default: shuffling and level 3
    if (c.b(0.5)) {
        level = c.i(0, 19);
        x << " compressionLevel=\"" << level << "\"";
    }
    std::map<std::string, int> levels, chunks;
    if (!autoRemove)
        x << " autoRemoveUnusedDimension=\"false\"";
    x << "/>";
    std::ostringstream later;
    std::map<std::string, std::string> vren, dren;
    auto removeAtt = [](std::vector<A>& as, const std::string& n) {
        as.erase(std::remove_if(as.begin(), as.end(), [&](const A& a) { return a.name == n; }), as.end());
    };
    if (!e.gatts.empty() && c.b(0.3)) {
        x << "<remove type=\"attribute\" name=\"title\"/>";
        e.gatts.clear();
    } else if (!e.gatts.empty() && c.b(0.3)) {
        std::string t = c.b() ? "x <&> y" : "other";
        bool ren = c.b(0.4);
        x << "<attribute name=\"title\" type=\"string\" value=\"" << xml(t) << "\"" << (ren ? " newname=\"heading\"" : "") << "/>";
        e.gatts[0].text = t;
        if (ren)
            e.gatts[0].name = "heading";
    } else if (c.b(0.3)) {
        x << "<attribute name=\"added\" type=\"int\" value=\"12\"/>";
        A g;
        g.name = "added";
        g.type = CDM_INT;
        g.v = {12};
        e.gatts.push_back(g);
    }
    const size_t nv = m.vars.size();
    for (size_t k = 0; k < nv; ++k) {
        const V& v = m.vars[k];
        if (nv > 1 && c.b(0.1)) {
            x << "<remove type=\"variable\" name=\"" << v.name << "\"/>";
            e.vars.erase(std::find_if(e.vars.begin(), e.vars.end(), [&](const V& w) { return w.name == v.name; }));
            c.label("variable removed");
            if (e.vars.empty())
                c.assume(false);
            continue;
        }
        if (!c.b(0.6))
            continue;
        V& w = e.var(v.name);
        x << "<variable name=\"" << v.name << "\"";
        if (c.b(0.3)) {
            levels[v.name] = c.i(0, 19);
            x << " compressionLevel=\"" << levels[v.name] << "\"";
        }
        if (c.b(0.3)) {
            vren[v.name] = "new_" + v.name;
            x << " newname=\"" << vren[v.name] << "\"";
        }
        if (c.b(0.4)) {
            std::vector<CDMDataType> ts = {CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT, CDM_CHAR};
            if (nc4)
                for (CDMDataType t : {CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64})
                    ts.push_back(t);
            w.type = ts[c.idx(ts.size())];
            static const std::map<CDMDataType, std::string> tn = {{CDM_FLOAT, "float"}, {CDM_DOUBLE, "double"}, {CDM_SHORT, "short"}, {CDM_INT, "int"}, {CDM_CHAR, "byte"}, {CDM_UCHAR, "uchar"}, {CDM_USHORT, "ushort"}, {CDM_UINT, "uint"}, {CDM_INT64, "int64"}, {CDM_UINT64, "uint64"}};
            x << " type=\"" << datatype2string(w.type) << "\"";
            c.label("type changed");
        }
        x << ">";
        if (att(v, "note") && c.b(0.4)) {
            x << "<remove type=\"attribute\" name=\"note\"/>";
            removeAtt(w.atts, "note");
        }
        auto set = [&](const std::string& n, CDMDataType t, double val) {
            x << "<attribute name=\"" << n << "\" type=\"" << datatype2string(t) << "\" value=\"" << num(val) << "\"/>";
            removeAtt(w.atts, n);
            A a;
            a.name = n;
            a.type = t;
            a.v = {val};
            w.atts.push_back(a);
        };
        const U* u = nullptr;
        if (unit.count(v.name) && c.b(0.4)) {
            u = unit[v.name];
            x << "<attribute name=\"units\" type=\"string\" value=\"" << u->to << "\"/>";
            removeAtt(w.atts, "units");
            A a;
            a.name = "units";
            a.type = CDM_STRING;
            a.text = u->to;
            w.atts.push_back(a);
            c.label("unit changed");
        }
        if (c.b(0.3))
            set("scale_factor", CDM_DOUBLE, c.pick({0.5, 2., 0.1, 0.25}));
        if (c.b(0.3))
            set("add_offset", CDM_DOUBLE, c.pick({0., 1., 20.}));
        if ((att(v, "_FillValue") && w.type != v.type) || c.b(0.2))
            set("_FillValue", w.type, c.i(0, 120));
        x << "</variable>";
        const double oF = fillOf(v), nF = fillOf(w), oS = attOr(v, "scale_factor", 1), oO = attOr(v, "add_offset", 0), nS = attOr(w, "scale_factor", 1), nO = attOr(w, "add_offset", 0);
        const bool conv = u || oF != nF || oS != nS || oO != nO;
        if (!conv && w.type == v.type)
            continue;
        for (double& val : w.v) {
            if (std::isnan(val) && !conv) {
                c.assume(isFloat(w.type)); // undefined values are not announced
                continue;
            }
            if (std::isnan(val) || val == oF) {
                val = nF;
                continue;
            }
            double p = val * oS + oO;
            if (u)
                p = u->a * p + u->b;
            val = (p - nO) / nS;
            c.assume(val >= tmin(w.type) && val <= tmax(w.type));
            if (w.type == CDM_FLOAT)
                val = (float)val;
        }
        tol[v.name] = 1e-5;
    }
    for (auto& d : m.dims) {
        if (!c.b(0.4))
            continue;
        x << "<dimension name=\"" << d.name << "\"";
        bool used = false;
        for (auto& v : e.vars)
            used |= std::find(v.shape.begin(), v.shape.end(), d.name) != v.shape.end();
        if (c.b(0.5) && (used || !autoRemove)) {
            dren[d.name] = "new_" + d.name;
            x << " newname=\"" << dren[d.name] << "\"";
            if (!vren.count(d.name))
                vren[d.name] = dren[d.name]; // the variable of the dimension follows
        }
        if (c.b(0.5)) {
            chunks[d.name] = c.i(1, 6);
            x << " chunkSize=\"" << chunks[d.name] << "\"";
        }
        x << "/>";
    }
    x << "</cdm_ncwriter_config>";
    c.show() << x.str() << describe(m);
    c.nontrivial(e.vars.size() > 0 && (x.str().find("<variable") != std::string::npos || x.str().find("<dimension") != std::string::npos));
    const std::string f = c.tmpdir() + "/a.nc";
    CDMFileReaderFactory::createWriter(src, "netcdf", f, XMLInputString(x.str()));
    if (autoRemove) {
        auto vars = e.vars;
        Model e2 = expected(e, nc4);
        e.dims = e2.dims;
    }
    {
        Model before = e;
        fixRecords(e, before, nc3);
        for (auto& d : e.dims)
            if (d.unlim)
                for (auto& d0 : before.dims)
                    if (d0.unlim && d0.len != d.len)
                        c.label("no record written");
    }
    if (!nc3) {
        int id;
        nc(c, nc_open(f.c_str(), NC_NOWRITE, &id), "open");
        for (auto& v : e.vars) {
            if (v.shape.empty() || v.type == CDM_STRINGS)
                continue;
            const int want = levels.count(v.name) ? levels[v.name] : level;
            int vid, shuffle = 0, deflate = 0, got = 0, storage = 0;
            const std::string n = vren.count(v.name) ? vren[v.name] : v.name;
            size_t ch[NC_MAX_VAR_DIMS];
            bool ok = nc_inq_varid(id, n.c_str(), &vid) == 0 && nc_inq_var_deflate(id, vid, &shuffle, &deflate, &got) == 0 && nc_inq_var_chunking(id, vid, &storage, ch) == 0;
            if (!deflate)
                got = 0;
            std::string bad;
            if (!ok)
                bad = "no such variable";
            else if (got != want % 10 || (got > 0 && shuffle != want / 10))
                bad = "compressed with level " + std::to_string(got) + (shuffle ? " and shuffling" : "") + " instead of " + std::to_string(want);
            else if (got > 0)
                for (size_t k = 0; k < v.shape.size(); ++k) {
                    const D& d = m.dim(v.shape[k]);
                    if (chunks.count(d.name) && !d.unlim && d.len > 0 && ch[v.shape.size() - 1 - k] != std::min<size_t>(d.len, chunks[d.name]))
                        bad = "chunks of " + std::to_string(ch[v.shape.size() - 1 - k]) + " along dimension " + d.name + " of length " + std::to_string(d.len) + ", configured " + std::to_string(chunks[d.name]);
                }
            if (!bad.empty()) {
                nc_close(id);
                c.fail("variable " + n + ": " + bad);
            }
        }
        nc_close(id);
    }
    std::map<std::string, double> tol2;
    for (auto& v : e.vars) {
        const std::string n = vren.count(v.name) ? vren[v.name] : v.name;
        if (tol.count(v.name))
            tol2[n] = tol[v.name];
        v.name = n;
        for (auto& s : v.shape)
            if (dren.count(s))
                s = dren[s];
    }
    for (auto& d : e.dims)
        if (dren.count(d.name))
            d.name = dren[d.name];
    checkFile(c, f, e, tol2);
    remove(f.c_str());
    c.label(ft);
}

//---------------------------------------------------------------- files written by others

static void putAtt(Case& c, int id, int vid, const A& a)
{
    if (a.type == CDM_STRING)
        nc(c, nc_put_att_text(id, vid, a.name.c_str(), a.text.size(), a.text.c_str()), "att");
    else if (a.type == CDM_STRINGS) {
        std::vector<const char*> p;
        for (auto& s : a.strs)
            p.push_back(s.c_str());
        nc(c, nc_put_att_string(id, vid, a.name.c_str(), p.size(), p.data()), "att");
    } else
        nc(c, nc_put_att(id, vid, a.name.c_str(), ncType(a.type), a.v.size(), mkData(a.type, a.v)->getDataPtr()), "att");
}
static void createFile(Case& c, const std::string& f, const Model& m, int flags)
{
    int id;
    nc(c, nc_create(f.c_str(), NC_CLOBBER | flags, &id), "create");
    std::map<std::string, int> dims;
    for (auto& d : m.dims) {
        int x;
        nc(c, nc_def_dim(id, d.name.c_str(), d.unlim ? NC_UNLIMITED : d.len, &x), "dim");
        dims[d.name] = x;
    }
    std::vector<int> vids;
    for (auto& v : m.vars) {
        std::vector<int> ds;
        for (size_t k = v.shape.size(); k-- > 0;)
            ds.push_back(dims[v.shape[k]]);
        int x;
        nc(c, nc_def_var(id, v.name.c_str(), ncType(v.type), ds.size(), ds.data(), &x), "var");
        vids.push_back(x);
        for (auto& a : v.atts)
            putAtt(c, id, x, a);
    }
    for (auto& a : m.gatts)
        putAtt(c, id, NC_GLOBAL, a);
    nc(c, nc_enddef(id), "enddef");
    for (size_t k = 0; k < m.vars.size(); ++k) {
        const V& v = m.vars[k];
        if (prod(m.sizes(v)) == 0)
            continue;
        svec st(v.shape.size(), 0), n;
        for (size_t i = v.shape.size(); i-- > 0;)
            n.push_back(m.dim(v.shape[i]).len);
        if (v.type == CDM_STRING)
            nc(c, nc_put_vara_text(id, vids[k], st.data(), n.data(), v.text.c_str()), "put");
        else if (v.type == CDM_STRINGS) {
            std::vector<const char*> p;
            for (auto& s : v.strs)
                p.push_back(s.c_str());
            nc(c, nc_put_vara_string(id, vids[k], st.data(), n.data(), p.data()), "put");
        } else
            nc(c, nc_put_vara(id, vids[k], st.data(), n.data(), mkData(v.type, v.v)->getDataPtr()), "put");
    }
    nc(c, nc_close(id), "close");
}
static void noMissing(Model& m)
{
    for (auto& v : m.vars)
        v.missing.assign(v.missing.size(), 0);
}
static void foreignFile(Case& c)
{
    const int kind = c.idx(5);
    static const int flags[] = {0, NC_64BIT_OFFSET, NC_NETCDF4 | NC_CLASSIC_MODEL, NC_NETCDF4, NC_64BIT_DATA};
    const bool nc4 = kind == 3;
    Model m = genModel(c, nc4);
    if (!nc4)
        for (auto* as : {&m.gatts})
            as->erase(std::remove_if(as->begin(), as->end(), [](const A& a) { return a.type == CDM_STRINGS; }), as->end());
    if (!nc4)
        for (auto& v : m.vars)
            v.atts.erase(std::remove_if(v.atts.begin(), v.atts.end(), [](const A& a) { return a.type == CDM_STRINGS; }), v.atts.end());
    noMissing(m);
    const std::string f = c.tmpdir() + "/a." + c.picks({"nc", "nc4", "dat"});
    c.show() << "format " << kind << describe(m);
    c.nontrivial(m.vars.size() > 1 || m.vars[0].shape.size() > 1);
    createFile(c, f, m, flags[kind]);
    fixRecords(m, Model(m), false);
    const bool byName = f.substr(f.size() - 4) != ".dat";
    checkReader(c, CDMFileReaderFactory::create(c.b() || kind == 4 ? "netcdf" : byName ? "" : "nc", c.b(0.2) ? "file:" + f : f), m);
    remove(f.c_str());
    c.label("format " + std::to_string(kind));
}

//---------------------------------------------------------------- writing into existing files

static void rewrite(Case& c)
{
    const int kind = c.idx(4);
    static const int flags[] = {0, NC_64BIT_OFFSET, NC_NETCDF4 | NC_CLASSIC_MODEL, NC_NETCDF4};
    Model m = genModel(c, kind == 3, true);
    noMissing(m);
    for (auto& v : m.vars)
        if (c.b(0.4)) {
            A s;
            s.name = "scale_factor";
            s.type = CDM_DOUBLE;
            s.v = {c.pick({0.5, 2., 0.25})};
            v.atts.push_back(s);
            if (c.b()) {
                s.name = "add_offset";
                s.v = {c.pick({1., -5., 4.})};
                v.atts.push_back(s);
            }
            if (c.b()) {
                A u;
                u.name = "units";
                u.type = CDM_STRING;
                u.text = "km";
                v.atts.push_back(u);
            }
        }
    const std::string f = c.tmpdir() + "/a.nc";
    createFile(c, f, m, flags[kind]);
    fixRecords(m, Model(m), false);
    c.show() << "format " << kind << describe(m);
    size_t writes = 0;
    {
        CDMReaderWriter_p rw;
        if (c.b())
            rw = CDMFileReaderFactory::createReaderWriter("netcdf", f);
        else
            rw = std::dynamic_pointer_cast<CDMReaderWriter>(CDMFileReaderFactory::create("netcdf+rw", f));
        c.check(rw != nullptr, "file cannot be opened for writing");
        const size_t ops = c.i(1, 8);
        for (size_t k = 0; k < ops; ++k) {
            V& v = m.vars[c.idx(m.vars.size())];
            const svec dims = m.sizes(v);
            if (prod(dims) == 0)
                continue;
            const bool byRecord = c.b();
            svec st(dims.size(), 0), sz = dims;
            size_t rec = 0;
            if (byRecord) {
                if (m.hasUnlim(v)) {
                    rec = c.idx(dims.back());
                    st.back() = rec;
                    sz.back() = 1;
                }
            } else
                for (size_t d = 0; d < dims.size(); ++d) {
                    st[d] = c.idx(dims[d]);
                    sz[d] = 1 + c.idx(dims[d] - st[d]);
                }
            const size_t n = prod(sz);
            dvec val;
            const int how = c.w({3, 2, 1});
            const double s = attOr(v, "scale_factor", 1), o = attOr(v, "add_offset", 0);
            const bool inUnit = how == 2 && att(v, "units");
            DataPtr data;
            if (how == 0) { // raw
                for (size_t i = 0; i < n; ++i)
                    val.push_back(isFloat(v.type) ? (double)(float)c.d(-100, 100) : (double)c.i(0, 100));
                data = mkData(c.b(0.7) ? v.type : CDM_DOUBLE, val);
            } else {
                dvec phys;
                for (size_t i = 0; i < n; ++i) {
                    bool nan = c.b(0.15);
                    double r = (double)c.i(0, 100);
                    val.push_back(nan ? fillOf(v) : r);
                    phys.push_back(nan ? NAN : (r * s + o) * (inUnit ? 1000 : 1));
                }
                data = mkData(CDM_DOUBLE, phys);
            }
            c.show() << "; put " << v.name << " start " << vec(st) << " size " << vec(sz) << " how " << how << " " << vec(val);
            SliceBuilder sb(rw->getCDM(), v.name);
            for (size_t d = 0; d < dims.size(); ++d)
                sb.setStartAndSize(v.shape[d], st[d], sz[d]);
            if (how == 0) {
                if (byRecord)
                    rw->putDataSlice(v.name, rec, data);
                else
                    rw->putDataSlice(v.name, sb, data);
            } else if (!inUnit) {
                if (byRecord)
                    rw->putScaledDataSlice(v.name, rec, data);
                else
                    rw->putScaledDataSlice(v.name, sb, data);
            } else {
                if (byRecord)
                    rw->putScaledDataSliceInUnit(v.name, "m", rec, data);
                else
                    rw->putScaledDataSliceInUnit(v.name, "m", sb, data);
                c.label("unit");
            }
            writes++;
            // model
            svec ix(dims.size(), 0);
            for (size_t i = 0; i < n; ++i) {
                size_t off = 0, step = 1;
                for (size_t d = 0; d < dims.size(); ++d) {
                    off += (st[d] + ix[d]) * step;
                    step *= dims[d];
                }
                v.v[off] = stored(v.type, val[i]);
                for (size_t d = 0; d < dims.size(); ++d) {
                    if (++ix[d] < sz[d])
                        break;
                    ix[d] = 0;
                }
            }
            if (c.b(0.2))
                rw->sync();
            if (c.b(0.2))
                checkReader(c, rw, m);
        }
        checkReader(c, rw, m);
    }
    checkFile(c, f, m);
    remove(f.c_str());
    c.nontrivial(writes > 1);
    c.label("format " + std::to_string(kind));
}

int main(int argc, char** argv)
{
    Runner r("C10", "several variables or a multi-dimensional variable; several writes; a non-empty configuration");
    r.init(quiet);
    r.assumption("the NetCDF library itself reads and writes correctly");
    r.assumption("the unlimited dimension is the slowest varying one of every variable");
    r.sub("roundTrip", roundTrip, 12000, 400000);
    r.sub("configured", configured, 12000, 400000);
    r.sub("foreignFile", foreignFile, 6000, 200000);
    r.sub("rewrite", rewrite, 6000, 200000);
    r.sub("refused", refused, 2000, 40000);
    r.sub("diskFull", diskFull, 2000, 40000);
    return r.main(argc, argv);
}
