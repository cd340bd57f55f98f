// C20: filling data into an existing file puts every value where its coordinates say, and touches nothing else
// LINK: libfimex-io-netcdf -lnetcdf
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/FillWriter.h"
#include "fimex/XMLInput.h"

#include <fstream>
#include <netcdf.h>
using namespace fx;
using namespace pbt;

static const double MISS = std::nan("");
struct Pack
{
    CDMDataType type = CDM_INT;
    double scale = 1, off = 0;
    bool hasFill = false;
    double fill = 0;
    std::string units;
    double uf = 1, uo = 0; // value in the common unit = value * uf + uo
    double fillValue() const
    {
        if (hasFill)
            return fill;
        switch (type) {
        case CDM_SHORT: return NC_FILL_SHORT;
        case CDM_INT: return NC_FILL_INT;
        case CDM_FLOAT: return NC_FILL_FLOAT;
        default: return NC_FILL_DOUBLE;
        }
    }
    double phys(double raw) const { return raw == fillValue() ? MISS : (raw * scale + off) * uf + uo; }
    double raw(double phys) const { return std::isnan(phys) ? fillValue() : stored(type, ((phys - uo) / uf - off) / scale); }
};
struct FV
{
    std::string name;
    std::vector<std::string> shape; // fastest first
    Pack p;
    dvec raw;
};
struct FD
{
    std::string name;
    size_t len = 0;
    bool unlim = false, coord = false;
};
struct File
{
    std::vector<FD> dims;
    std::vector<FV> vars;
    const FD* dim(const std::string& n) const
    {
        for (auto& d : dims)
            if (d.name == n)
                return &d;
        return nullptr;
    }
    FV* var(const std::string& n)
    {
        for (auto& v : vars)
            if (v.name == n)
                return &v;
        return nullptr;
    }
    svec sizes(const FV& v) const
    {
        svec s;
        for (auto& d : v.shape)
            s.push_back(dim(d)->len);
        return s;
    }
};

static nc_type ncType(CDMDataType t)
{
    return t == CDM_SHORT ? NC_SHORT : t == CDM_INT ? NC_INT : t == CDM_FLOAT ? NC_FLOAT : NC_DOUBLE;
}
static void nc(Case& c, int status, const std::string& what)
{
    if (status != NC_NOERR)
        c.fail("NetCDF library: " + what + ": " + nc_strerror(status));
}
static void writeFile(Case& c, const std::string& name, const File& f, bool nc4)
{
    int id;
    nc(c, nc_create(name.c_str(), NC_CLOBBER | (nc4 ? NC_NETCDF4 : NC_64BIT_OFFSET), &id), "create");
    std::map<std::string, int> did;
    for (auto& d : f.dims)
        nc(c, nc_def_dim(id, d.name.c_str(), d.unlim ? NC_UNLIMITED : d.len, &did[d.name]), "dim");
    std::vector<int> vid;
    for (auto& v : f.vars) {
        std::vector<int> ds;
        for (size_t k = v.shape.size(); k-- > 0;)
            ds.push_back(did[v.shape[k]]);
        int x;
        nc(c, nc_def_var(id, v.name.c_str(), ncType(v.p.type), ds.size(), ds.data(), &x), "var");
        vid.push_back(x);
        if (!v.p.units.empty())
            nc(c, nc_put_att_text(id, x, "units", v.p.units.size(), v.p.units.c_str()), "att");
        if (v.p.scale != 1)
            nc(c, nc_put_att_double(id, x, "scale_factor", NC_DOUBLE, 1, &v.p.scale), "att");
        if (v.p.off != 0)
            nc(c, nc_put_att_double(id, x, "add_offset", NC_DOUBLE, 1, &v.p.off), "att");
        if (v.p.hasFill)
            nc(c, nc_put_att_double(id, x, "_FillValue", ncType(v.p.type), 1, &v.p.fill), "att");
    }
    nc(c, nc_enddef(id), "enddef");
    for (size_t k = 0; k < f.vars.size(); ++k) {
        const FV& v = f.vars[k];
        svec n = f.sizes(v);
        std::reverse(n.begin(), n.end());
        svec st(n.size() + 1, 0);
        n.push_back(1);
        if (!v.raw.empty())
            nc(c, nc_put_vara_double(id, vid[k], st.data(), n.data(), v.raw.data()), "put");
    }
    nc(c, nc_close(id), "close");
}
static void checkFile(Case& c, const std::string& name, const File& f)
{
    int id;
    nc(c, nc_open(name.c_str(), NC_NOWRITE, &id), "open");
    struct Closer
    {
        int id;
        ~Closer() { nc_close(id); }
    } closer{id};
    int nd, nv, na, ud;
    nc(c, nc_inq(id, &nd, &nv, &na, &ud), "inq");
    c.check(nd == (int)f.dims.size(), "number of dimensions changed to " + std::to_string(nd));
    c.check(nv == (int)f.vars.size(), "number of variables changed to " + std::to_string(nv));
    for (auto& d : f.dims) {
        int x;
        size_t len;
        nc(c, nc_inq_dimid(id, d.name.c_str(), &x), "dim");
        nc(c, nc_inq_dimlen(id, x, &len), "dim");
        c.check(len == d.len, "dimension " + d.name + " has " + std::to_string(len) + " elements, expected " + std::to_string(d.len));
    }
    for (auto& v : f.vars) {
        int x, nat;
        nc(c, nc_inq_varid(id, v.name.c_str(), &x), v.name);
        nc(c, nc_inq_varnatts(id, x, &nat), v.name);
        c.check(nat == (v.p.units.empty() ? 0 : 1) + (v.p.scale != 1) + (v.p.off != 0) + (v.p.hasFill ? 1 : 0), "number of attributes of " + v.name + " changed to " + std::to_string(nat));
        size_t n = prod(f.sizes(v));
        dvec got(n);
        if (n > 0)
            nc(c, nc_get_var_double(id, x, got.data()), "get " + v.name);
        same(c, "variable " + v.name + " in the filled file", got, v.raw, v.p.type == CDM_FLOAT ? 1e-6 : v.p.type == CDM_DOUBLE ? 1e-12 : 0, v.p.type == CDM_FLOAT ? 1e-6 : v.p.type == CDM_DOUBLE ? 1e-9 : 0);
    }
}

//! grow dimension d of every variable to len; new cells are undefined
static void grow(File& f, const std::string& d, size_t len)
{
    for (auto& v : f.vars) {
        auto it = std::find(v.shape.begin(), v.shape.end(), d);
        if (it == v.shape.end())
            continue;
        // the unlimited dimension is the slowest one
        size_t rec = 1;
        for (auto& s : v.shape)
            if (s != d)
                rec *= f.dim(s)->len;
        v.raw.resize(rec * len, v.p.fillValue());
    }
    for (auto& x : f.dims)
        if (x.name == d)
            x.len = len;
}

static void genPack(Case& c, Pack& p, bool units)
{
    p.type = c.pick({CDM_INT, CDM_SHORT, CDM_FLOAT, CDM_DOUBLE});
    if (c.b(0.4)) {
        p.scale = c.pick({0.5, 0.25, 0.125});
        p.off = c.pick({0., 10., -4.5});
    } else if (!isFloat(p.type)) {
        p.scale = 0.5;
    }
    p.hasFill = c.b(0.7);
    p.fill = c.pick({-9999., -32767., 32000.});
    if (units) {
        if (c.b()) {
            p.units = "hPa";
            p.uf = 100;
        } else
            p.units = "Pa";
    }
}
static std::string sh(const std::vector<std::string>& s)
{
    std::string r;
    for (auto& x : s)
        r += (r.empty() ? "" : ",") + x;
    return "(" + r + ")";
}
static std::string desc(const File& f)
{
    std::ostringstream o;
    for (auto& d : f.dims)
        o << d.name << (d.unlim ? "*" : "") << "=" << d.len << (d.coord ? "c " : " ");
    for (auto& v : f.vars)
        o << "\n  " << tname(v.p.type) << " " << v.name << sh(v.shape) << " scale=" << v.p.scale << " offset=" << v.p.off << " fill=" << (v.p.hasFill ? num(v.p.fill) : "-") << " units='"
          << v.p.units << "' " << vec(v.raw);
    return o.str();
}

static Pack coordPack(Case& c, const std::string& dim)
{
    Pack p;
    p.type = c.pick({CDM_INT, CDM_DOUBLE, CDM_FLOAT, CDM_SHORT});
    if (!isFloat(p.type)) {
        p.scale = c.b(0.3) ? 0.25 : 0.5;
        if (c.b(0.2))
            p.off = 2;
    }
    if (dim == "time") {
        size_t k = c.w({3, 1, 1});
        if (k == 0) {
            p.units = "hours since 2020-01-01 00:00:00";
        } else if (k == 1) {
            p.units = "hours since 2019-12-31 00:00:00";
            p.uo = -24;
        } else {
            p.units = "minutes since 2020-01-01 00:00:00";
            p.uf = 1 / 60.;
            if (!isFloat(p.type))
                p.scale = 0.25;
        }
    } else if (dim == "lev") {
        if (c.b(0.7))
            p.units = "Pa";
        else {
            p.units = "hPa";
            p.uf = 100;
        }
    } else if (c.b(0.3))
        p.units = "1";
    return p;
}
//! coordinate in the common unit; representable exactly in every coordPack
static double coordValue(const std::string& dim, int k)
{
    if (dim == "lev")
        return k * 100;
    return k * 0.5;
}

static std::shared_ptr<MemReader> reader(const File& f, bool own)
{
    auto r = std::make_shared<MemReader>();
    r->ownSlices = own;
    for (auto& d : f.dims) {
        CDMDimension cd(d.name, d.len);
        cd.setUnlimited(d.unlim);
        r->cdm().addDimension(cd);
    }
    for (auto& v : f.vars) {
        r->cdm().addVariable(CDMVariable(v.name, v.p.type, v.shape));
        if (!v.p.units.empty())
            r->cdm().addAttribute(v.name, CDMAttribute("units", v.p.units));
        if (v.p.scale != 1)
            r->cdm().addAttribute(v.name, CDMAttribute("scale_factor", v.p.scale));
        if (v.p.off != 0)
            r->cdm().addAttribute(v.name, CDMAttribute("add_offset", v.p.off));
        if (v.p.hasFill)
            r->cdm().addAttribute(v.name, CDMAttribute("_FillValue", v.p.type, std::vector<std::string>(1, num(v.p.fill))));
        r->data[v.name] = mkData(v.p.type, v.raw);
    }
    return r;
}

struct Trans
{
    bool on = false;
    std::string in, out;
    size_t iSlice = 0, oSlice = 0;
};

static double genRaw(Case& c, const Pack& p)
{
    if (c.b(0.1))
        return p.fillValue();
    // value in the common unit: a multiple of 100 with units, of 0.5 otherwise
    double common = c.i(-20, 20) * (p.units.empty() ? 0.5 : 50);
    return p.raw(common);
}

static void fillTest(Case& c, bool translate)
{
    static const std::vector<std::string> names = {"x", "y", "lev", "ens", "time"};
    // ---- the existing file ----
    File out;
    for (size_t k : c.subset(names.size(), 1)) {
        FD d;
        d.name = names[k];
        d.unlim = d.name == "time" && c.b(0.6);
        d.len = c.i(1, 4);
        d.coord = c.b(0.8);
        out.dims.push_back(d);
    }
    std::map<std::string, std::vector<int>> coords; // of the file
    for (auto& d : out.dims) {
        auto p = c.perm(7);
        bool sorted = c.b(0.7);
        std::vector<int> k(p.begin(), p.begin() + d.len);
        if (sorted)
            std::sort(k.begin(), k.end());
        coords[d.name] = k;
        if (d.coord) {
            FV v;
            v.name = d.name;
            v.shape = {d.name};
            v.p = coordPack(c, d.name);
            for (int x : k)
                v.raw.push_back(v.p.raw(coordValue(d.name, x)));
            out.vars.push_back(v);
        }
    }
    const size_t nv = c.i(1, 4);
    for (size_t k = 0; k < nv; ++k) {
        FV v;
        v.name = "v" + std::to_string(k);
        for (size_t d : c.subset(out.dims.size(), c.b(0.9) ? 1 : 0))
            v.shape.push_back(out.dims[d].name);
        genPack(c, v.p, c.b(0.3));
        v.raw.resize(prod(out.sizes(v)));
        for (auto& x : v.raw)
            x = genRaw(c, v.p);
        out.vars.push_back(v);
    }
    for (auto& d : out.dims) { // an unlimited dimension without any variable has no length
        bool used = false;
        for (auto& v : out.vars)
            used |= std::find(v.shape.begin(), v.shape.end(), d.name) != v.shape.end();
        d.unlim &= used;
    }
    const bool nc4 = c.b();
    const std::string file = c.tmpdir() + "/fill" + std::to_string(c.serial()) + ".nc";
    writeFile(c, file, out, nc4);
    c.show() << "file " << (nc4 ? "nc4 " : "nc3 ") << desc(out) << "\n";

    const size_t steps = c.i(1, 3);
    for (size_t s = 0; s < steps; ++s) {
        File in;
        Trans t;
        std::map<std::string, std::vector<size_t>> pos; // input index -> output index
        std::set<std::string> bad;
        std::map<std::string, std::vector<int>> newCoords = coords;
        if (translate) {
            t.on = true;
            const FD& od = c.pick(out.dims);
            switch (c.w({3, 1, 1})) {
            case 0: t.out = od.name; break;
            case 1: t.in = "a"; break;
            default: t.out = od.name; t.in = "a"; break;
            }
            if (!t.out.empty())
                t.oSlice = c.i(0, od.len - 1);
            c.label("translation in='" + std::string(t.in.empty() ? "" : "a") + "' out='" + (t.out.empty() ? "" : "dim") + "'");
        }
        for (auto& od : out.dims) {
            FD d;
            d.name = od.name;
            if (translate && d.name == t.out && c.b(0.8))
                continue; // the input does not have this one
            d.unlim = d.name == "time" && c.b();
            d.coord = od.coord ? c.b(0.9) : c.b(0.3);
            if (od.coord && d.coord) {
                std::vector<int> k;
                switch (c.w({2, 4, 2, 1})) {
                case 0: k = coords[d.name]; break;
                case 1: {
                    auto p = c.perm(od.len);
                    p.resize(c.i(1, od.len));
                    for (size_t x : p)
                        k.push_back(coords[d.name][x]);
                    if (c.b())
                        std::sort(k.begin(), k.end());
                    break;
                }
                default: {
                    auto p = c.perm(9);
                    p.resize(c.i(1, 4));
                    for (size_t x : p)
                        k.push_back((int)x);
                    std::sort(k.begin(), k.end());
                }
                }
                // positions of the file without coordinate cannot be asked for
                k.erase(std::remove_if(k.begin(), k.end(), [](int x) { return x < -500; }), k.end());
                if (k.empty())
                    k.push_back(3);
                d.len = k.size();
                FV v;
                v.name = d.name;
                v.shape = {d.name};
                if (c.b(0.5))
                    v.p = out.var(d.name)->p;
                else {
                    v.p = coordPack(c, d.name);
                    if (out.var(d.name)->p.units.empty() || v.p.units.empty()) { // units are to be known on both sides or on none
                        v.p.units = out.var(d.name)->p.units;
                        v.p.uf = out.var(d.name)->p.uf;
                        v.p.uo = out.var(d.name)->p.uo;
                    }
                    if (v.p.units != out.var(d.name)->p.units)
                        c.label("coordinates in different units");
                }
                for (int x : k) {
                    v.raw.push_back(v.p.raw(coordValue(d.name, x)));
                    auto& oc = coords[d.name];
                    auto it = std::find(oc.begin(), oc.end(), x);
                    if (it != oc.end())
                        pos[d.name].push_back(it - oc.begin());
                    else if (od.unlim) {
                        auto& n = newCoords[d.name];
                        pos[d.name].push_back(n.size());
                        n.push_back(x);
                    } else
                        bad.insert(d.name);
                }
                in.vars.push_back(v);
            } else {
                d.len = c.b(0.8) ? od.len : (size_t)c.i(1, 4);
                if (d.coord) {
                    FV v;
                    v.name = d.name;
                    v.shape = {d.name};
                    v.p = coordPack(c, d.name);
                    for (size_t x = 0; x < d.len; ++x)
                        v.raw.push_back(v.p.raw(coordValue(d.name, x + 2)));
                    in.vars.push_back(v);
                }
                if (od.unlim) {
                    auto& n = newCoords[d.name];
                    for (size_t x = 0; x < d.len; ++x) {
                        pos[d.name].push_back(n.size());
                        n.push_back(100 + n.size());
                    }
                } else if (d.len == od.len) {
                    for (size_t x = 0; x < d.len; ++x)
                        pos[d.name].push_back(x);
                } else
                    bad.insert(d.name);
            }
            in.dims.push_back(d);
        }
        if (translate && t.in == "a") {
            FD d;
            d.name = "a";
            d.len = c.i(1, 3);
            t.iSlice = c.i(0, d.len - 1);
            in.dims.insert(in.dims.begin() + c.i(0, in.dims.size()), d);
            if (in.dims.back().name == "a" && in.dims.size() > 1 && in.dims[in.dims.size() - 2].unlim)
                std::swap(in.dims.back(), in.dims[in.dims.size() - 2]);
        }
        bool slice_out_of_range = false;
        if (translate && !t.out.empty() && c.b(0.1) && !out.dim(t.out)->unlim) {
            t.oSlice = out.dim(t.out)->len + c.i(0, 2);
            slice_out_of_range = true;
        }
        if (c.b(0.3)) { // a dimension the file does not know
            FD d;
            d.name = "extra";
            d.len = c.i(1, 3);
            in.dims.insert(in.dims.begin(), d);
        }
        // data
        std::vector<std::pair<std::string, std::vector<std::string>>> want;
        for (auto& ov : out.vars) {
            if (out.dim(ov.name))
                continue;
            if (c.b(0.15))
                continue;
            FV v;
            v.name = ov.name;
            auto inShapeOf = [&](std::vector<std::string> s) {
                std::vector<std::string> r;
                for (auto& d : in.dims)
                    if (std::find(s.begin(), s.end(), d.name) != s.end())
                        r.push_back(d.name);
                return r;
            };
            std::vector<std::string> s = ov.shape;
            if (translate) {
                if (c.b(0.8)) {
                    s.erase(std::remove(s.begin(), s.end(), t.out), s.end());
                    if (t.in == "a" && c.b(0.8))
                        s.push_back("a");
                }
            }
            if (c.b(0.15)) {
                c.label("different shape");
                switch (c.idx(3)) {
                case 0: s.push_back("extra"); break;
                case 1: // fewer dimensions
                    if (!s.empty())
                        s.erase(s.begin() + c.idx(s.size()));
                    break;
                default:
                    s.clear();
                    for (auto& d : in.dims)
                        if (c.b())
                            s.push_back(d.name);
                }
            }
            v.shape = inShapeOf(s);
            if (c.b(0.5))
                v.p = ov.p;
            else {
                genPack(c, v.p, !ov.p.units.empty());
                c.label("different packing");
            }
            v.raw.resize(prod(in.sizes(v)));
            for (auto& x : v.raw)
                x = genRaw(c, v.p);
            in.vars.push_back(v);
        }
        if (!in.dims.empty() && c.b(0.3)) {
            FV v;
            v.name = "new";
            v.shape = {in.dims[c.idx(in.dims.size())].name};
            genPack(c, v.p, false);
            v.raw.resize(prod(in.sizes(v)));
            for (auto& x : v.raw)
                x = genRaw(c, v.p);
            in.vars.push_back(v);
        }
        std::string cfg;
        if (translate) {
            cfg = c.tmpdir() + "/fill" + std::to_string(c.serial()) + ".xml";
            std::ofstream o(cfg);
            o << "<cdmFillWriter xmlns=\"http://www.met.no/schema/fimex/cdmFillWriterConfig\"><translate";
            if (!t.in.empty())
                o << " inputDimension=\"" << t.in << "\" inputSlices=\"" << t.iSlice << "\"";
            if (!t.out.empty())
                o << " outputDimension=\"" << t.out << "\" outputSlices=\"" << t.oSlice << "\"";
            o << "/></cdmFillWriter>\n";
            c.show() << "translate " << t.in << "[" << t.iSlice << "] -> " << t.out << "[" << t.oSlice << "]\n";
        }
        c.show() << "input " << desc(in) << "\n";

        // ---- what has to happen ----
        bool refuse = false, mayThrow = !bad.empty();
        size_t written = 0;
        File next = out;
        std::vector<std::function<void()>> puts;
        size_t timeLen = 0;
        for (auto& iv : in.vars) {
            FV* ov = next.var(iv.name);
            if (!ov)
                continue;
            // dimensions except the translated ones
            auto rest = [](std::vector<std::string> s, const std::string& d) {
                if (!d.empty())
                    s.erase(std::remove(s.begin(), s.end(), d), s.end());
                return s;
            };
            std::vector<std::string> is = t.on ? rest(iv.shape, t.in) : iv.shape, os = t.on ? rest(ov->shape, t.out) : ov->shape;
            bool isBad = false;
            for (auto& d : iv.shape)
                isBad |= bad.count(d) > 0;
            if (isBad) {
                refuse = true;
                continue;
            }
            if (is != os)
                continue;
            bool hasOut = t.on && !t.out.empty() && std::find(ov->shape.begin(), ov->shape.end(), t.out) != ov->shape.end();
            if (hasOut && slice_out_of_range) {
                refuse = true;
                mayThrow = true;
                continue;
            }
            if (std::find(is.begin(), is.end(), "time") != is.end() && next.dim("time")->unlim)
                timeLen = std::max(timeLen, newCoords["time"].size());
            FV ivc = iv;
            puts.push_back([&, ivc]() {
                FV* ov = next.var(ivc.name);
                svec isz = in.sizes(ivc), osz = next.sizes(*ov);
                svec ix(isz.size(), 0);
                for (size_t k = 0; k < ivc.raw.size(); ++k) {
                    size_t rem = k;
                    std::map<std::string, size_t> at;
                    for (size_t d = 0; d < isz.size(); ++d) {
                        at[ivc.shape[d]] = rem % isz[d];
                        rem /= isz[d];
                    }
                    if (t.on && !t.in.empty() && at.count(t.in) && at[t.in] != t.iSlice)
                        continue;
                    size_t off = 0, st = 1;
                    for (size_t d = 0; d < osz.size(); ++d) {
                        const std::string& n = ov->shape[d];
                        size_t p = (t.on && n == t.out) ? t.oSlice : pos[n].at(at[n]);
                        off += p * st;
                        st *= osz[d];
                    }
                    ov->raw.at(off) = ov->p.raw(ivc.p.phys(ivc.raw[k]));
                }
            });
            if (ov->name[0] == 'v')
                written++;
        }
        if (timeLen > 0)
            grow(next, "time", timeLen);
        for (auto& p : puts)
            p();

        bool thrown = false;
        std::string msg;
        {
            CDMReaderWriter_p io = CDMFileReaderFactory::createReaderWriter("netcdf", file);
            try {
                FillWriter fw(reader(in, c.b()), io, cfg);
            } catch (std::exception& ex) {
                thrown = true;
                msg = ex.what();
            }
        }
        if (refuse)
            c.check(thrown, "data which have no place in the file were accepted without an exception");
        if (thrown)
            c.check(mayThrow, "filling failed with: " + msg);
        c.label(thrown ? "refused" : "filled");
        if (slice_out_of_range && thrown) {
            // what else is written before is not said
            ::unlink(file.c_str());
            return;
        }
        if (written > 0 && (written > 1 || prod(next.sizes(*next.var("v0"))) > 1))
            c.nontrivial();
        checkFile(c, file, next);
        const bool grown = timeLen > 0;
        out = next;
        for (auto& d : out.dims)
            if (d.unlim ? grown : false) {
                coords[d.name] = newCoords[d.name];
                coords[d.name].resize(d.len, -1);
                if (d.coord) { // coordinates of the file: what its coordinate variable says
                    FV* v = out.var(d.name);
                    for (size_t k = 0; k < d.len; ++k) {
                        double ph = v->p.phys(v->raw[k]);
                        coords[d.name][k] = std::isnan(ph) ? -1000 - (int)k : (int)std::lround(ph / coordValue(d.name, 1));
                    }
                }
            }
        // translated coordinate variables have changed as well
        for (auto& d : out.dims)
            if (d.coord && !d.unlim) {
                FV* v = out.var(d.name);
                for (size_t k = 0; k < d.len; ++k) {
                    double ph = v->p.phys(v->raw[k]);
                    coords[d.name][k] = std::isnan(ph) ? -1000 - (int)k : (int)std::lround(ph / coordValue(d.name, 1));
                }
            }
    }
    ::unlink(file.c_str());
}

int main(int argc, char** argv)
{
    Runner r("C20", "a case is non-trivial when at least one data variable of more than one cell is written by the filling");
    r.init(quiet);
    r.assumption("coordinate values are compared by value in a common unit; they are chosen so that the conversion is exact or exact to 1e-12");
    r.assumption("the file is read back by the NetCDF C library, not by fimex");
    r.sub("history", [](Case& c) { fillTest(c, false); }, 12000, 200000);
    r.sub("translate", [](Case& c) { fillTest(c, true); }, 6000, 100000);
    return r.main(argc, argv);
}
