// C29: the Python interface delivers, stores and processes the same data as the library
// PYTHON
// LINK: libfimex-io-netcdf -lproj -lnetcdf -lpython3.12
#include "cf.h"
#include "ncmodel.h"
#include "noprojdb.h"
#include <pybind11/embed.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>

#include "fimex/AggregationReader.h"
#include "fimex/CDMBorderSmoothing_Linear.h"
#include "fimex/CDMExtractor.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/FimexTime.h"
#include "fimex/IoFactory.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLDoc.h"
#include "fimex/XMLInputString.h"
#include "fimex/XMLUtils.h"
#include <libxml/xpath.h>
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/interpolation.h"

#include <fstream>
#include <netcdf.h>
#include <unistd.h>
namespace py = pybind11;
using cf::Axis;

namespace {
std::string pstr(const py::object& h) { return py::str(py::handle(h)).cast<std::string>(); }
size_t nvals(const svec& d)
{
    size_t n = 1;
    for (size_t k : d)
        n *= k;
    return n;
}
const char* source = R"PY(
import gc, weakref
import numpy as np
import pyfimex0 as fx

class Reader(fx.CDMReader):
    """serves arrays kept by name; records along the last (slowest) dimension if that is unlimited"""
    def __init__(self):
        fx.CDMReader.__init__(self)
        self.arrays = {}
        self.unlimited = {}
        self.fails = None
        self.calls = 0
    def getDataSlice(self, name, pos):
        self.calls += 1
        if self.fails == name:
            raise ValueError('no data for ' + name)
        a = self.arrays[name]
        return fx.createData(np.atleast_1d(a[pos]) if self.unlimited[name] else a)

def overriding(names):
    """a reader which serves -1 from getDataSlice, and k from the k-th of the overridden methods, keeping the arguments"""
    class R(fx.CDMReader):
        def __init__(self):
            fx.CDMReader.__init__(self)
            self.args = {}
        def getDataSlice(self, name, pos):
            return fx.createData(np.array([-1.0]))
    def mk(k, n):
        def f(self, *args):
            self.args[n] = tuple((a.getDimensionStartPositions(), a.getDimensionSizes()) if isinstance(a, fx.SliceBuilder) else a for a in args)
            return fx.createData(np.array([float(k)]))
        return f
    for k, n in enumerate(names):
        setattr(R, n, mk(k, n))
    return R()

def views(a, how):
    """another view of the same numbers, and in which order they are seen"""
    for h in how:
        if h == 'step':
            a = a.reshape(-1)[::2]
        elif h == 'reverse':
            a = a[::-1]
        elif h == 'transpose':
            a = a.T
        elif h == 'fortran':
            a = np.asfortranarray(a)
        elif h == 'column' and a.ndim > 1 and a.shape[1] > 0:
            a = a[:, 0]
        elif h == 'swap':
            a = a.astype(a.dtype.newbyteorder('>'))
        elif h == 'readonly':
            a = a.view()
            a.flags.writeable = False
        elif h == 'broadcast':
            a = np.broadcast_to(a, (2,) + a.shape)
        elif h == 'unaligned':
            b = np.zeros(a.size * a.itemsize + 1, dtype=np.uint8)[1:].view(a.dtype).reshape(a.shape)
            b[...] = a
            a = b
    return a

class Tracked(np.ndarray):
    pass

def data_of(a, typed):
    """(size, type, dtype name, values) of the data made of an array; the array may go away before"""
    want = [x for x in np.array(a, copy=True).reshape(-1).tolist()]
    d = fx.createData(a) if typed is None else fx.createData(typed, a)
    del a
    gc.collect()
    junk = [np.full(len(want), 77, dtype=np.float64) for i in range(3)]
    v = d.values()
    n = d.size()
    t = d.getDataType()
    del d
    gc.collect()
    junk2 = [np.full(len(want), 78, dtype=np.float64) for i in range(3)]
    return n, t, v.dtype.name, v.tolist(), want, v.ndim

def released(a, typed):
    """whether an array is given back when the data made of it are not used any more"""
    a = a.view(Tracked)
    r = weakref.ref(a)
    d = fx.createData(a) if typed is None else fx.createData(typed, a)
    v = d.values()
    del a
    gc.collect()
    del d
    del v
    gc.collect()
    return r() is None

def error(f, *args):
    try:
        f(*args)
    except Exception as ex:
        return type(ex).__name__ + ': ' + str(ex)
    return ''
)PY";
struct P_
{
    py::scoped_interpreter guard{false};
    py::module_ main, fx, np;
    P_()
    {
        py::module_::import("sys").attr("path").attr("insert")(0, getenv("VP_PLUGINS"));
        main = py::module_::import("__main__");
        py::exec(source, main.attr("__dict__"));
        fx = main.attr("fx");
        np = main.attr("np");
    }
};
P_& P()
{
    static P_* p = new P_();
    return *p;
}
//! a Python call; its exceptions become failures of the case unless they are expected
template <class F>
auto pyok(Case& c, const std::string& what, F f) -> decltype(f())
{
    try {
        return f();
    } catch (py::error_already_set& e) {
        const std::string m = e.what();
        throw Fail{what + ": Python exception " + m.substr(0, 300)};
    }
}
std::string pyerr(py::object f, py::tuple args)
{
    py::list l;
    l.append(f);
    for (auto a : args)
        l.append(a);
    return P().main.attr("error")(*l).cast<std::string>();
}
const char* dtypeName(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return "int8";
    case CDM_UCHAR: return "uint8";
    case CDM_SHORT: return "int16";
    case CDM_USHORT: return "uint16";
    case CDM_INT: return "int32";
    case CDM_UINT: return "uint32";
    case CDM_INT64: return "int64";
    case CDM_UINT64: return "uint64";
    case CDM_FLOAT: return "float32";
    default: return "float64";
    }
}
const char* cdmName(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return "CHAR";
    case CDM_UCHAR: return "UCHAR";
    case CDM_SHORT: return "SHORT";
    case CDM_USHORT: return "USHORT";
    case CDM_INT: return "INT";
    case CDM_UINT: return "UINT";
    case CDM_INT64: return "INT64";
    case CDM_UINT64: return "UINT64";
    case CDM_FLOAT: return "FLOAT";
    case CDM_DOUBLE: return "DOUBLE";
    case CDM_STRING: return "STRING";
    case CDM_STRINGS: return "STRINGS";
    default: return "NAT";
    }
}
py::object cdmType(CDMDataType t) { return P().fx.attr("CDMDataType").attr(cdmName(t)); }
py::object mkArray(CDMDataType t, const dvec& v)
{
    return P().np.attr("array")(py::cast(v), py::arg("dtype") = "float64").attr("astype")(dtypeName(t));
}
//! Data as seen from Python against Data of the library
void checkSame(Case& c, const std::string& what, py::object pyd, DataPtr d)
{
    if (!d) {
        c.check(pyd.is_none(), what + ": data where there are none");
        return;
    }
    c.check(!pyd.is_none(), what + ": no data");
    c.check(pyd.attr("size")().cast<size_t>() == d->size(), what + ": size " + pstr(pyd.attr("size")()) + " instead of " + std::to_string(d->size()));
    c.check(pyd.attr("getDataType")().equal(cdmType(d->getDataType())), what + ": type " + pstr(pyd.attr("getDataType")()) + " instead of " + cdmName(d->getDataType()));
    if (d->getDataType() == CDM_NAT)
        return;
    py::object v = pyd.attr("values")();
    if (d->getDataType() == CDM_STRING) {
        c.check(v.cast<std::string>() == d->asString(), what + ": text '" + v.cast<std::string>() + "' instead of '" + d->asString() + "'");
    } else if (d->getDataType() == CDM_STRINGS) {
        auto s = v.cast<std::vector<std::string>>();
        auto w = d->asStrings();
        c.check(s == std::vector<std::string>(w.get(), w.get() + d->size()), what + ": texts differ");
    } else {
        c.check(v.attr("dtype").attr("name").cast<std::string>() == dtypeName(d->getDataType()), what + ": array of " + v.attr("dtype").attr("name").cast<std::string>() + " for " + cdmName(d->getDataType()));
        const dvec g = v.attr("astype")("float64").attr("tolist")().cast<dvec>(), w = rawValues(d);
        c.check(g.size() == w.size(), what + ": number of values");
        for (size_t i = 0; i < g.size(); ++i)
            c.check((std::isnan(g[i]) && std::isnan(w[i])) || g[i] == w[i], what + ": value " + std::to_string(i) + " is " + num(g[i]) + " instead of " + num(w[i]));
    }
}

// ---------------------------------------------------------------- arrays and Data
void arrays(Case& c)
{
    const CDMDataType t = c.pick(numTypes());
    const int n0 = c.i(0, 4), n1 = c.i(1, 4), nd = c.i(1, 3);
    std::vector<size_t> sh;
    if (nd == 1)
        sh = {size_t(n0 * n1)};
    else if (nd == 2)
        sh = {size_t(n0), size_t(n1)};
    else
        sh = {size_t(n0), size_t(n1), 2};
    size_t n = 1;
    for (size_t s : sh)
        n *= s;
    dvec v;
    for (size_t i = 0; i < n; ++i)
        v.push_back(std::floor(genValue(c, c.b(0.2) ? t : CDM_CHAR)));
    for (double& x : v) {
        x = std::isfinite(x) ? std::min(std::max(x, std::max(-9e15, tmin(t))), std::min(9e15, tmax(t))) : 0;
        if (t == CDM_FLOAT)
            x = float(x);
    }
    std::vector<std::string> how;
    for (int k = c.i(0, 3); k > 0; --k)
        how.push_back(c.picks({"step", "reverse", "transpose", "fortran", "column", "swap", "readonly", "broadcast", "unaligned"}));
    P_& p = P();
    // a type of the Data of its own: all numbers must be representable
    CDMDataType want = t;
    py::object typed = py::none();
    if (c.b(0.4)) {
        want = c.pick(numTypes());
        for (double x : v)
            if (x < std::max(-9e15, tmin(want)) || x > std::min(9e15, tmax(want)) || (want == CDM_FLOAT && float(x) != x))
                want = t;
        typed = cdmType(want);
    }
    c.show() << dtypeName(t) << " array of shape ";
    for (size_t s : sh)
        c.show() << s << " ";
    for (auto& h : how)
        c.show() << h << " ";
    if (!typed.is_none())
        c.show() << "as " << cdmName(want);
    c.nontrivial(!how.empty() && n > 2);
    for (auto& h : how)
        c.label(h);
    py::object a = pyok(c, "array", [&] { return mkArray(t, v).attr("reshape")(py::cast(sh)); });
    a = pyok(c, "view", [&] { return p.main.attr("views")(a, py::cast(how)); });
    const bool list = !typed.is_none() && c.b(0.2);
    if (list) {
        a = a.attr("tolist")();
        c.label("list");
    }
    py::tuple r = pyok(c, "createData", [&] { return py::tuple(p.main.attr("data_of")(a, typed)); });
    const py::list got = r[3], expd = r[4];
    c.check(r[0].cast<size_t>() == expd.size(), "size " + std::to_string(r[0].cast<size_t>()) + " instead of " + std::to_string(expd.size()));
    c.check(py::object(r[1]).equal(cdmType(want)), "type " + pstr(r[1]) + " instead of " + cdmName(want));
    c.check(r[2].cast<std::string>() == dtypeName(want), "values of " + r[2].cast<std::string>() + " instead of " + dtypeName(want));
    c.check(r[5].cast<int>() == 1, "values are not a vector");
    c.check(got.equal(expd), "values " + pstr(got) + " instead of " + pstr(expd));
    // what C++ gets
    DataPtr d = pyok(c, "createData", [&] { return (typed.is_none() ? p.fx.attr("createData")(a) : p.fx.attr("createData")(typed, a)).cast<DataPtr>(); });
    const dvec dv = rawValues(d);
    c.check(dv.size() == expd.size() && d->getDataType() == want, "data of another size or type in the library");
    for (size_t i = 0; i < dv.size(); ++i)
        c.check(dv[i] == expd[i].cast<double>(), "value " + std::to_string(i) + " in the library is " + num(dv[i]) + " instead of " + pstr(expd[i]));
    if (!list) {
        c.check(P().fx.attr("cdmDataTypeFromNP")(a.attr("dtype")).equal(cdmType(t)), "type of the array");
        c.check(pyok(c, "createData", [&] { return p.main.attr("released")(a, typed).cast<bool>(); }), "an array is never released after data were made of it");
    }
    // data made by the library
    DataPtr e = mkData(t, v);
    checkSame(c, "data of the library", py::cast(e), e);
}
void texts(Case& c)
{
    P_& p = P();
    const std::string s = genText(c) + c.picks({"", "\xc3\xa6\xc3\xb8", "\n", " "});
    c.show() << "'" << s << "'";
    c.nontrivial(s.size() > 2);
    DataPtr d = pyok(c, "createData", [&] { return (c.b() ? p.fx.attr("createData")(s) : p.fx.attr("createData")(cdmType(CDM_STRING), s)).cast<DataPtr>(); });
    c.check(d->getDataType() == CDM_STRING && d->asString() == s, "text '" + d->asString() + "'");
    checkSame(c, "text", py::cast(d), createData(s));
    // arrays which are no numbers, and types which cannot be made
    py::object bad = pyok(c, "array", [&] { return p.np.attr("array")(py::cast(std::vector<std::string>{"a", "b"}), py::arg("dtype") = c.picks({"S1", "U1", "O"})); });
    c.check(!pyerr(p.fx.attr("createData"), py::make_tuple(bad)).empty(), "an array of texts is accepted as data");
    c.check(!pyerr(p.fx.attr("createData"), py::make_tuple(cdmType(c.pick({CDM_NAT, CDM_STRINGS})), mkArray(CDM_INT, {1}))).empty(), "data of an unsupported type are accepted");
    c.check(!pyerr(p.fx.attr("createData"), py::make_tuple(mkArray(CDM_INT, {1}).attr("astype")(c.picks({"bool", "complex128"})))).empty(), "data of an unsupported type are accepted");
}

// ---------------------------------------------------------------- the data model
std::vector<std::string> names(const py::object& l) { return l.cast<std::vector<std::string>>(); }
void checkCdm(Case& c, py::object pc, const CDM& cdm)
{
    std::vector<std::string> ds, vs;
    for (auto& d : cdm.getDimensions())
        ds.push_back(d.getName());
    for (auto& v : cdm.getVariables())
        vs.push_back(v.getName());
    c.check(names(pc.attr("getDimensionNames")()) == ds, "names of dimensions");
    c.check(names(pc.attr("getVariableNames")()) == vs, "names of variables");
    for (auto& d : cdm.getDimensions()) {
        py::object pd = pc.attr("getDimension")(d.getName());
        c.check(pd.attr("getName")().cast<std::string>() == d.getName() && pd.attr("getLength")().cast<size_t>() == d.getLength() && pd.attr("isUnlimited")().cast<bool>() == !!d.isUnlimited(), "dimension " + d.getName());
        c.check(pc.attr("hasDimension")(d.getName()).cast<bool>(), "hasDimension " + d.getName());
    }
    for (auto& v : cdm.getVariables()) {
        py::object pv = pc.attr("getVariable")(v.getName());
        c.check(pv.attr("getName")().cast<std::string>() == v.getName() && names(pv.attr("getShape")()) == v.getShape() && pv.attr("getDataType")().equal(cdmType(v.getDataType())), "variable " + v.getName());
        c.check(pc.attr("hasVariable")(v.getName()).cast<bool>(), "hasVariable " + v.getName());
        for (auto& d : cdm.getDimensions())
            c.check(pv.attr("checkDimension")(d.getName()).cast<bool>() == v.checkDimension(d.getName()), "checkDimension");
        if (v.hasData())
            checkSame(c, "data of variable " + v.getName(), pv.attr("getData")(), v.getData());
    }
    auto attrs = [&](const std::string& ns, py::object l, bool global) {
        std::vector<std::string> as;
        for (auto& a : cdm.getAttributes(ns)) {
            as.push_back(a.getName());
            py::object pa = global ? pc.attr("getGlobalAttribute")(a.getName()) : pc.attr("getAttribute")(ns, a.getName());
            const std::string w = "attribute " + ns + ":" + a.getName();
            c.check(pa.attr("getName")().cast<std::string>() == a.getName() && pa.attr("getDataType")().equal(cdmType(a.getDataType())), w);
            c.check(pa.attr("getStringValue")().cast<std::string>() == a.getStringValue() && pa.attr("getStringValueWithSeparator")("; ").cast<std::string>() == a.getStringValueWithSeparator("; "), w + " as text");
            checkSame(c, w, pa.attr("getData")(), a.getData());
            if (!global)
                c.check(pc.attr("hasAttribute")(ns, a.getName()).cast<bool>(), w + " is not there");
        }
        c.check(names(l) == as, "names of attributes of '" + ns + "'");
    };
    attrs(CDM::globalAttributeNS(), pc.attr("getGlobalAttributeNames")(), true);
    for (auto& v : cdm.getVariables())
        attrs(v.getName(), pc.attr("getAttributeNames")(v.getName()), false);
    c.check(!pc.attr("hasVariable")("no_such").cast<bool>() && !pc.attr("hasDimension")("no_such").cast<bool>(), "something which is not there is found");
}
//! an attribute made in Python, equal to the model's
py::object pyAtt(Case& c, const A& a)
{
    P_& p = P();
    py::object cls = p.fx.attr("CDMAttribute");
    if (a.type == CDM_STRING)
        return c.b() ? cls(a.name, a.text) : cls(a.name, p.fx.attr("createData")(a.text));
    if (a.type == CDM_STRINGS)
        return cls(a.name, py::cast(mkAtt(a).getData()));
    if (a.v.size() == 1 && a.v[0] == std::floor(a.v[0]) && std::abs(a.v[0]) < 100 && c.b())
        return cls(a.name, datatype2string(a.type), num(a.v[0]));
    if (c.b(0.3)) {
        py::object pa = cls("other", p.fx.attr("createData")(mkArray(CDM_INT, {7})));
        pa.attr("setName")(a.name);
        pa.attr("setData")(p.fx.attr("createData")(mkArray(a.type, a.v)));
        return pa;
    }
    return cls(a.name, p.fx.attr("createData")(mkArray(a.type, a.v)));
}
//! the model's data model, made in Python
void buildCdm(Case& c, py::object pc, const Model& m)
{
    P_& p = P();
    for (auto& d : m.dims) {
        py::object pd = c.b(0.3) ? p.fx.attr("CDMDimension")("other", d.len + 1) : p.fx.attr("CDMDimension")(d.name, d.len);
        pd.attr("setName")(d.name);
        pd.attr("setLength")(d.len);
        if (d.unlim)
            pd.attr("setUnlimited")(true);
        pc.attr("addDimension")(pd);
    }
    for (auto& v : m.vars) {
        if (c.b(0.3)) {
            py::object pv = p.fx.attr("CDMVariable")("other", cdmType(v.type), std::vector<std::string>{"a", "b"});
            pv.attr("setName")(v.name);
            pv.attr("setShape")(py::cast(v.shape));
            pc.attr("addVariable")(pv);
        } else {
            pc.attr("addVariable")(p.fx.attr("CDMVariable")(v.name, cdmType(v.type), py::cast(v.shape)));
        }
        for (auto& a : v.atts)
            pc.attr("addAttribute")(v.name, pyAtt(c, a));
    }
    for (auto& a : m.gatts)
        pc.attr("addAttribute")(CDM::globalAttributeNS(), pyAtt(c, a));
}
std::string bits(const CDM& cdm)
{
    std::ostringstream o;
    cdm.toXMLStream(o);
    return o.str();
}
void model(Case& c)
{
    P_& p = P();
    Model m = genModel(c, true, true);
    c.show() << m.dims.size() << " dimensions, " << m.vars.size() << " variables";
    c.nontrivial(m.vars.size() > 1);
    py::object pc = p.fx.attr("CDM")();
    pyok(c, "building", [&] { buildCdm(c, pc, m); return 0; });
    const CDM& cdm = pc.cast<const CDM&>();
    Source src(m);
    for (auto& v : m.vars) {
        c.check(cdm.hasVariable(v.name), "variable " + v.name + " was not added");
        const CDMVariable& a = cdm.getVariable(v.name);
        c.check(a.getShape() == v.shape && a.getDataType() == v.type, "variable " + v.name + " was added otherwise");
        for (auto& at : v.atts) {
            c.check(cdm.hasAttribute(v.name, at.name), "attribute " + at.name + " was not added");
            checkAtt(c, cdm.getAttribute(v.name, at.name), at);
        }
    }
    for (auto& d : m.dims)
        c.check(cdm.getDimension(d.name).getLength() == d.len && !!cdm.getDimension(d.name).isUnlimited() == d.unlim, "dimension " + d.name + " was added otherwise");
    for (auto& at : m.gatts)
        checkAtt(c, cdm.getAttribute(CDM::globalAttributeNS(), at.name), at);
    pyok(c, "looking", [&] { checkCdm(c, pc, cdm); return 0; });
    // a copy and the original are edited independently
    py::object copy = p.fx.attr("CDM")(pc);
    CDM ref(cdm);
    const std::string before = bits(cdm);
    const int edits = c.i(1, 4);
    for (int k = 0; k < edits; ++k) {
        std::string op, perr, cerr;
        std::function<void(CDM&)> f;
        py::object pf;
        py::tuple args;
        const std::string var = m.vars.empty() || c.b(0.15) ? "nosuch" : m.vars[c.idx(m.vars.size())].name, dim = m.dims.empty() || c.b(0.15) ? "nosuch" : m.dims[c.idx(m.dims.size())].name;
        switch (c.i(0, 4)) {
        case 0:
            pf = copy.attr("removeVariable"), args = py::make_tuple(var);
            f = [&](CDM& x) { x.removeVariable(var); };
            op = "removeVariable " + var;
            break;
        case 1: {
            const A* at = m.vars.empty() || m.vars[0].atts.empty() ? nullptr : &m.vars[0].atts[0];
            const std::string an = at ? at->name : "none";
            pf = copy.attr("removeAttribute"), args = py::make_tuple(var, an);
            f = [&, an](CDM& x) { x.removeAttribute(var, an); };
            op = "removeAttribute " + var + ":" + an;
            break;
        }
        case 2: {
            pf = copy.attr("addAttribute");
            const double v = c.i(-5, 5);
            args = py::make_tuple(var, p.fx.attr("CDMAttribute")("added", "int", num(v)));
            f = [&, v](CDM& x) { x.addAttribute(var, CDMAttribute("added", "int", num(v))); };
            op = "addAttribute " + var + ":added";
            break;
        }
        case 3: {
            const int iiu = c.i(0, 2);
            pf = copy.attr("removeDimension"), args = iiu == 2 ? py::make_tuple(dim) : py::make_tuple(dim, iiu == 1);
            f = [&, iiu](CDM& x) {
                if (iiu == 2)
                    x.removeDimension(dim);
                else
                    x.removeDimension(dim, iiu == 1);
            };
            op = "removeDimension " + dim + (iiu == 2 ? "" : iiu ? " ignoring use" : " not ignoring use");
            break;
        }
        default: {
            pf = copy.attr("addVariable");
            args = py::make_tuple(p.fx.attr("CDMVariable")("extra", cdmType(CDM_FLOAT), py::cast(dim == "nosuch" ? std::vector<std::string>() : std::vector<std::string>{dim})));
            f = [&](CDM& x) { x.addVariable(CDMVariable("extra", CDM_FLOAT, dim == "nosuch" ? std::vector<std::string>() : std::vector<std::string>{dim})); };
            op = "addVariable";
        }
        }
        c.show() << "; " << op;
        perr = pyerr(pf, args);
        try {
            f(ref);
        } catch (std::exception& ex) {
            cerr = ex.what();
        }
        c.check(perr.empty() == cerr.empty(), op + ": " + (perr.empty() ? "no error in Python, but " + cerr : "error in Python only: " + perr));
        c.check(bits(copy.cast<const CDM&>()) == bits(ref), op + " has another effect from Python");
    }
    c.check(bits(cdm) == before, "editing a copy changes the original");
    pyok(c, "looking again", [&] { checkCdm(c, copy, ref); return 0; });
}

// ---------------------------------------------------------------- readers
struct Call
{
    std::string name;
    std::function<py::object(py::object)> py;
    std::function<DataPtr(CDMReader&)> cc;
};
//! all ways of reading a variable
std::vector<Call> calls(Case& c, const CDM& cdm, const std::string& var)
{
    P_& p = P();
    std::vector<Call> r;
    const std::string unit = c.picks({"K", "degC", "m", "nosuchunit"});
    const CDMVariable& v = cdm.getVariable(var);
    size_t len = 1;
    if (cdm.hasUnlimitedDim(v))
        len = cdm.getDimension(v.getShape().back()).getLength();
    const size_t pos = c.i(0, len > 0 ? len - 1 : 0) + (c.b(0.1) ? 1 : 0);
    auto sb = std::make_shared<SliceBuilder>(cdm, var);
    py::object psb = p.fx.attr("SliceBuilder")(py::cast(&cdm, py::return_value_policy::reference), var, false);
    for (auto& d : v.getShape()) {
        const size_t n = cdm.getDimension(d).getLength();
        if (n > 0 && c.b(0.7)) {
            const size_t st = c.i(0, n - 1), sz = c.i(1, n - st);
            sb->setStartAndSize(d, st, sz);
            psb.attr("setStartAndSize")(d, st, sz);
            size_t a, b;
            sb->getStartAndSize(d, a, b);
            auto t = psb.attr("getStartAndSize")(d).cast<std::pair<size_t, size_t>>();
            c.check(t.first == a && t.second == b, "start and size of dimension " + d);
        }
    }
    c.check(psb.attr("getDimensionStartPositions")().cast<svec>() == sb->getDimensionStartPositions() && psb.attr("getDimensionSizes")().cast<svec>() == sb->getDimensionSizes(), "start positions and sizes of a slice");
    r.push_back({"getData", [=](py::object o) { return o.attr("getData")(var); }, [=](CDMReader& x) { return x.getData(var); }});
    r.push_back({"getScaledData", [=](py::object o) { return o.attr("getScaledData")(var); }, [=](CDMReader& x) { return x.getScaledData(var); }});
    r.push_back({"getScaledDataInUnit " + unit, [=](py::object o) { return o.attr("getScaledDataInUnit")(var, unit); }, [=](CDMReader& x) { return x.getScaledDataInUnit(var, unit); }});
    r.push_back({"getDataSlice", [=](py::object o) { return o.attr("getDataSlice")(var, pos); }, [=](CDMReader& x) { return x.getDataSlice(var, pos); }});
    r.push_back({"getScaledDataSlice", [=](py::object o) { return o.attr("getScaledDataSlice")(var, pos); }, [=](CDMReader& x) { return x.getScaledDataSlice(var, pos); }});
    r.push_back({"getScaledDataSliceInUnit " + unit, [=](py::object o) { return o.attr("getScaledDataSliceInUnit")(var, unit, pos); }, [=](CDMReader& x) { return x.getScaledDataSliceInUnit(var, unit, pos); }});
    r.push_back({"getDataSliceSB", [=](py::object o) { return o.attr("getDataSliceSB")(var, psb); }, [=](CDMReader& x) { return x.getDataSlice(var, *sb); }});
    r.push_back({"getScaledDataSliceSB", [=](py::object o) { return o.attr("getScaledDataSliceSB")(var, psb); }, [=](CDMReader& x) { return x.getScaledDataSlice(var, *sb); }});
    r.push_back({"getScaledDataSliceInUnitSB " + unit, [=](py::object o) { return o.attr("getScaledDataSliceInUnitSB")(var, unit, psb); }, [=](CDMReader& x) { return x.getScaledDataSliceInUnit(var, unit, *sb); }});
    return r;
}
//! the same results from the Python object and from the reader
void checkCalls(Case& c, py::object pr, CDMReader& r, const std::string& var)
{
    for (auto& k : calls(c, r.getCDM(), var)) {
        DataPtr want, got;
        py::object pgot;
        std::string cerr, perr;
        try {
            want = k.cc(r);
        } catch (std::exception& ex) {
            cerr = ex.what();
        }
        try {
            pgot = k.py(pr);
        } catch (py::error_already_set& e) {
            perr = e.what();
        }
        const std::string w = k.name + " of " + var;
        c.check(perr.empty() || !cerr.empty(), w + ": error in Python only: " + perr.substr(0, 200));
        c.check(cerr.empty() || !perr.empty(), w + ": no error in Python, but " + cerr);
        if (cerr.empty())
            pyok(c, w, [&] { checkSame(c, w, pgot, want); return 0; });
    }
}
void reading(Case& c)
{
    Model m = genModel(c, true, true);
    c.show() << describe(m);
    c.nontrivial(m.vars.size() > 1);
    auto src = std::make_shared<Source>(m);
    py::object pr = py::cast(CDMReader_p(src));
    pyok(c, "looking", [&] { checkCdm(c, pr.attr("getCDM")(), src->getCDM()); return 0; });
    for (auto& v : m.vars)
        if (v.type != CDM_STRING && v.type != CDM_STRINGS)
            checkCalls(c, pr, *src, v.name);
    c.check(!pyerr(pr.attr("getData"), py::make_tuple("nosuch")).empty(), "reading a variable which is not there is no error");
    c.check(!pyerr(P().fx.attr("createFileReader"), py::make_tuple("netcdf", c.tmpdir() + "/no such file")).empty(), "opening a file which is not there is no error");
    c.check(!pyerr(P().fx.attr("createFileReader"), py::make_tuple("nosuchtype", "")).empty(), "opening an unknown type is no error");
}
//! a reader written in Python, used by the library
void pyreader(Case& c)
{
    P_& p = P();
    Model m = genModel(c, true, true);
    m.vars.erase(std::remove_if(m.vars.begin(), m.vars.end(), [](const V& v) { return v.type == CDM_STRING || v.type == CDM_STRINGS; }), m.vars.end());
    c.assume(!m.vars.empty());
    for (auto& v : m.vars)
        v.missing.assign(v.missing.size(), 0), v.inMemory = false;
    auto src = std::make_shared<Source>(m);
    c.show() << describe(m);
    c.nontrivial(m.vars.size() > 1);
    py::object pr = pyok(c, "reader", [&] {
        py::object r = p.main.attr("Reader")();
        if (c.b())
            buildCdm(c, r.attr("getInternalCDM")(), m);
        else {
            py::object cdm = p.fx.attr("CDM")();
            buildCdm(c, cdm, m);
            r.attr("setInternalCDM")(cdm);
        }
        for (auto& v : m.vars) {
            svec sh = m.sizes(v);
            std::reverse(sh.begin(), sh.end());
            r.attr("arrays")[py::str(v.name)] = mkArray(v.type, v.v).attr("reshape")(py::cast(sh));
            r.attr("unlimited")[py::str(v.name)] = m.hasUnlim(v);
        }
        return r;
    });
    CDMReader_p r = pr.cast<CDMReader_p>();
    for (auto& v : m.vars) {
        for (auto& k : calls(c, src->getCDM(), v.name)) {
            DataPtr want, got;
            std::string werr, gerr;
            try {
                want = k.cc(*src);
            } catch (std::exception& ex) {
                werr = ex.what();
            }
            try {
                got = k.cc(*r);
            } catch (std::exception& ex) {
                gerr = ex.what();
            }
            const std::string w = k.name + " of " + v.name + " from the reader in Python";
            if (!werr.empty()) {
                c.check(!gerr.empty(), w + ": no error, but " + werr);
                continue;
            }
            c.check(gerr.empty(), w + ": error " + gerr.substr(0, 200));
            pyok(c, w, [&] { checkSame(c, w, py::cast(got), want); return 0; });
        }
    }
    if (c.b(0.4)) {
        // through the whole chain: written by the library, read again
        c.label("written");
        const std::string f = c.tmpdir() + "/pyr" + std::to_string(c.serial()) + ".nc";
        pyok(c, "writing", [&] { p.fx.attr("createFileWriter")(pr, "nc4", f); return 0; });
        CDMReader_p back = CDMFileReaderFactory::create("nc4", f);
        for (auto& v : m.vars) {
            const dvec g = rawValues(back->getData(v.name));
            bool same = g.size() == v.v.size();
            for (size_t i = 0; same && i < g.size(); ++i)
                same = g[i] == v.v[i] || (std::isnan(g[i]) && std::isnan(v.v[i]));
            c.check(same, "variable " + v.name + " of the Python reader is written as " + vec(g) + " instead of " + vec(v.v));
        }
        back.reset();
        remove(f.c_str());
    }
    // errors pass through
    const std::string bad = m.vars[c.idx(m.vars.size())].name;
    pr.attr("fails") = bad;
    bool thrown = false;
    try {
        r->getData(bad);
    } catch (std::exception& ex) {
        thrown = true;
        c.check(std::string(ex.what()).find("no data for " + bad) != std::string::npos, std::string("an error of the reader in Python becomes '") + ex.what() + "'");
    }
    if (!m.hasUnlim(m.var(bad)) || m.dim(m.var(bad).shape.back()).len > 0)
        c.check(thrown, "an error of the reader in Python is lost");
    const std::string e = pyerr(p.fx.attr("createExtractor")(pr).attr("getData"), py::make_tuple(bad));
    if (thrown)
        c.check(e.find("no data for " + bad) != std::string::npos, "an error of the reader in Python becomes '" + e + "' behind an extractor");
}

//! methods of the reader overridden in Python are called by the library with their arguments
void overrides(Case& c)
{
    P_& p = P();
    const std::vector<std::string> all = {"getData", "getScaledData", "getScaledDataInUnit", "getDataSlice", "getScaledDataSlice", "getScaledDataSliceInUnit", "getDataSliceSB", "getScaledDataSliceSB", "getScaledDataSliceInUnitSB"};
    std::vector<std::string> names;
    for (auto& n : all)
        if (c.b(0.6))
            names.push_back(n);
    py::object pr = pyok(c, "reader", [&] { return p.main.attr("overriding")(py::cast(names)); });
    const int nx = c.i(1, 3), nt = c.i(1, 3);
    pyok(c, "data model", [&] {
        py::object cdm = pr.attr("getInternalCDM")(), dt = p.fx.attr("CDMDimension")("t", nt);
        dt.attr("setUnlimited")(true);
        cdm.attr("addDimension")(p.fx.attr("CDMDimension")("x", nx));
        cdm.attr("addDimension")(dt);
        cdm.attr("addVariable")(p.fx.attr("CDMVariable")("v", cdmType(CDM_DOUBLE), std::vector<std::string>{"x", "t"}));
        cdm.attr("addAttribute")("v", p.fx.attr("CDMAttribute")("units", "m"));
        return 0;
    });
    CDMReader_p r = pr.cast<CDMReader_p>();
    for (auto& n : names)
        c.show() << n << " ";
    c.nontrivial(!names.empty());
    const size_t pos = c.i(0, nt - 1);
    const std::string unit = c.picks({"m", "km", "cm"});
    SliceBuilder sb(r->getCDM(), "v");
    const size_t st = c.i(0, nx - 1);
    sb.setStartAndSize("x", st, 1);
    sb.setStartAndSize("t", pos, 1);
    const bool viaPython = c.b(0.3);
    for (size_t k = 0; k < names.size(); ++k) {
        const std::string& n = names[k];
        const bool slice = n.find("Slice") != std::string::npos, isSb = n.find("SB") != std::string::npos, inUnit = n.find("Unit") != std::string::npos, scaled = n.find("Scaled") != std::string::npos;
        DataPtr d;
        py::list want;
        want.append("v");
        if (inUnit)
            want.append(unit);
        if (isSb)
            want.append(py::make_tuple(sb.getDimensionStartPositions(), sb.getDimensionSizes()));
        else if (slice)
            want.append(pos);
        pr.attr("args").attr("clear")();
        try {
            if (viaPython) { // through another reader
                CDMExtractor e(r);
                d = !slice ? (inUnit ? r->getScaledDataInUnit("v", unit) : scaled ? r->getScaledData("v") : r->getData("v")) : isSb ? (scaled ? inUnit ? r->getScaledDataSliceInUnit("v", unit, sb) : r->getScaledDataSlice("v", sb) : e.getDataSlice("v", sb)) : scaled ? inUnit ? r->getScaledDataSliceInUnit("v", unit, pos) : r->getScaledDataSlice("v", pos) : r->getDataSlice("v", pos);
            } else if (!slice)
                d = inUnit ? r->getScaledDataInUnit("v", unit) : scaled ? r->getScaledData("v") : r->getData("v");
            else if (isSb)
                d = inUnit ? r->getScaledDataSliceInUnit("v", unit, sb) : scaled ? r->getScaledDataSlice("v", sb) : r->getDataSlice("v", sb);
            else
                d = inUnit ? r->getScaledDataSliceInUnit("v", unit, pos) : scaled ? r->getScaledDataSlice("v", pos) : r->getDataSlice("v", pos);
        } catch (std::exception& ex) {
            c.fail(n + ": " + ex.what());
        }
        c.check(d && d->size() == 1 && d->asDouble()[0] == double(k), n + " overridden in Python was not used");
        py::object got = pr.attr("args").attr("get")(n);
        c.check(!got.is_none() && got.equal(py::tuple(want)), n + " overridden in Python was called with " + pstr(got) + " instead of " + pstr(want));
    }
}

//! readers live as long as others use them
void chains(Case& c)
{
    P_& p = P();
    const int nx = c.i(1, 3), nt = c.i(1, 3);
    dvec v(nx * nt);
    for (double& q : v)
        q = c.i(-50, 50);
    const bool inPython = c.b(0.8);
    py::object r;
    std::vector<std::string> how;
    pyok(c, "chain", [&] {
        if (inPython) {
            r = p.main.attr("Reader")();
            py::object cdm = r.attr("getInternalCDM")(), dt = p.fx.attr("CDMDimension")("t", nt);
            dt.attr("setUnlimited")(true);
            cdm.attr("addDimension")(p.fx.attr("CDMDimension")("x", nx));
            cdm.attr("addDimension")(dt);
            cdm.attr("addVariable")(p.fx.attr("CDMVariable")("v", cdmType(CDM_DOUBLE), std::vector<std::string>{"x", "t"}));
            r.attr("arrays")["v"] = mkArray(CDM_DOUBLE, v).attr("reshape")(py::make_tuple(nt, nx));
            r.attr("unlimited")["v"] = true;
        } else {
            auto mem = std::make_shared<MemReader>();
            mem->cdm().addDimension(CDMDimension("x", nx));
            CDMDimension t("t", nt);
            t.setUnlimited(true);
            mem->cdm().addDimension(t);
            mem->cdm().addVariable(CDMVariable("v", CDM_DOUBLE, {"x", "t"}));
            mem->data["v"] = mkData(CDM_DOUBLE, v);
            r = py::cast(CDMReader_p(mem));
        }
        for (int k = c.i(1, 3); k > 0; --k) {
            how.push_back(c.picks({"createExtractor", "createInterpolator", "createTimeInterpolator", "createAggregationReader", "createNcmlReader", "createVerticalInterpolator"}));
            py::object f = p.fx.attr(how.back().c_str());
            if (how.back() == "createAggregationReader") {
                py::object a = f("union");
                const int n = c.i(1, 3);
                if (n == 1)
                    a.attr("addReader")(r);
                else if (n == 2)
                    a.attr("addReader")(r, "a");
                else
                    a.attr("addReader")(r, "a", "");
                a.attr("initAggregation")();
                r = a;
            } else if (how.back() == "createNcmlReader") {
                r = f(r, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"></netcdf>");
            } else if (how.back() == "createVerticalInterpolator") {
                r = f(r, "pressure", "linear");
            } else {
                r = f(r);
            }
        }
        P().main.attr("gc").attr("collect")();
        return 0;
    });
    c.show() << (inPython ? "Python reader" : "reader");
    for (auto& h : how)
        c.show() << " " << h;
    c.nontrivial(inPython);
    const dvec got = pyok(c, "reading", [&] { return rawValues(r.attr("getData")("v").cast<DataPtr>()); });
    c.check(got == v, "read " + vec(got) + " instead of " + vec(v));
    const dvec one = pyok(c, "reading", [&] { return rawValues(r.attr("getDataSlice")("v", nt - 1).cast<DataPtr>()); });
    c.check(one == dvec(v.end() - nx, v.end()), "read " + vec(one) + " in the last record");
    r = py::none();
    P().main.attr("gc").attr("collect")();
}

//! an IO module which keeps what it was asked for
struct Asked : IoFactory
{
    std::string log;
    CDMReader_p input, result;
    int matchFileTypeName(const std::string& t) override { return t == "vpasked"; }
    void note(const std::string& what, const std::string& t, const std::string& f, const XMLInput& x)
    {
        log += what + " type=" + t + " file=" + f + " config=" + (x.isEmpty() ? "" : getXmlProp(x.getXMLDoc()->getXPathObject("/config")->nodesetval->nodeTab[0], "n"));
    }
    CDMReader_p createReader(const std::string& t, const std::string& f, const XMLInput& x, const std::vector<std::string>& a) override
    {
        note("reader", t, f, x);
        for (auto& k : a)
            log += " arg=" + k;
        return result;
    }
    CDMReaderWriter_p createReaderWriter(const std::string& t, const std::string& f, const XMLInput& x, const std::vector<std::string>& a) override
    {
        note("readerwriter", t, f, x);
        for (auto& k : a)
            log += " arg=" + k;
        return nullptr;
    }
    void createWriter(CDMReader_p r, const std::string& t, const std::string& f, const XMLInput& x) override
    {
        note("writer", t, f, x);
        input = r;
    }
};
void modules(Case& c)
{
    static std::shared_ptr<Asked> iof;
    if (!iof) {
        iof = std::make_shared<Asked>();
        IoFactory::install("vpasked", iof);
    }
    P_& p = P();
    auto mem = std::make_shared<MemReader>();
    iof->result = mem;
    const std::string file = c.picks({"a", "dir/b c", "x.nc", "y.grib"});
    std::string cfg = c.b() ? "" : c.tmpdir() + "/config" + std::to_string(c.serial()) + ".xml", text;
    if (!cfg.empty()) {
        text = std::to_string(c.i(0, 99));
        std::ofstream(cfg) << "<config n=\"" << text << "\"/>";
    }
    std::vector<std::string> args;
    for (int k = c.i(0, 3); k > 0; --k)
        args.push_back(c.picks({"optionalXYSpec", "memberRegex:x", "file:z", ""}));
    const int what = c.i(0, 2), n = c.i(2, what == 2 ? 3 : 4);
    c.show() << what << " with " << n << " arguments, config " << (cfg.empty() ? "no" : "yes") << ", " << args.size() << " extra arguments";
    c.nontrivial(n > 2);
    std::string want = std::string(what == 0 ? "reader" : what == 1 ? "readerwriter" : "writer") + " type=vpasked file=" + file + " config=" + (n > 2 ? text : "");
    if (n > 3)
        for (auto& k : args)
            want += " arg=" + k;
    iof->log.clear();
    py::object src = py::cast(CDMReader_p(mem)), o;
    pyok(c, "call", [&] {
        py::object f = p.fx.attr(what == 0 ? "createFileReader" : what == 1 ? "createFileReaderWriter" : "createFileWriter");
        if (what == 2)
            n == 2 ? f(src, "vpasked", file) : f(src, "vpasked", file, cfg);
        else
            o = n == 2 ? f("vpasked", file) : n == 3 ? f("vpasked", file, cfg) : f("vpasked", file, cfg, args);
        return 0;
    });
    if (!cfg.empty())
        remove(cfg.c_str());
    c.check(iof->log == want, "asked for '" + iof->log + "' instead of '" + want + "'");
    if (what == 0)
        c.check(o.cast<CDMReader_p>() == mem, "another reader");
    if (what == 2)
        c.check(iof->input == mem, "another input");
    iof->input.reset();
    iof->result.reset();
}

// ---------------------------------------------------------------- processing
cf::Dataset dataset(Case& c, int seed, int nt, double lon0 = 0)
{
    cf::Dataset ds;
    ds.r = std::make_shared<MemReader>();
    dvec x, y, z, t;
    const int nx = c.i(3, 5), ny = c.i(3, 5), nz = c.i(2, 3);
    for (int i = 0; i < nx; ++i)
        x.push_back(lon0 + i);
    for (int i = 0; i < ny; ++i)
        y.push_back(50 + i);
    cf::Proj pj;
    pj.kind = "latitude_longitude";
    pj.degree = true;
    pj.earth = "+R=6371000";
    pj.attrs.push_back(CDMAttribute("grid_mapping_name", "latitude_longitude"));
    cf::addGrid(ds, pj, x, y);
    for (int i = 0; i < nz; ++i)
        z.push_back(1000 - 200 * i);
    ds.z = {"pressure", z, "hPa"};
    cf::addAxis(ds, ds.z, false);
    cf::attr(ds, "pressure", "standard_name", "air_pressure");
    for (int i = 0; i < nt; ++i)
        t.push_back(seed + 2 * i);
    ds.t = {"time", t, "hours since 2020-01-01 00:00:00"};
    cf::addAxis(ds, ds.t, true);
    cf::attr(ds, "time", "standard_name", "time");
    dvec v(size_t(nx) * ny * nz * nt), w(size_t(nx) * ny * nt);
    for (double& q : v)
        q = c.i(-40, 40);
    for (double& q : w)
        q = c.i(-40, 40);
    cf::addVar(ds, "T", CDM_FLOAT, {"lon", "lat", "pressure", "time"}, v);
    cf::attr(ds, "T", "units", "degC");
    cf::addVar(ds, "ps", CDM_DOUBLE, {"lon", "lat", "time"}, w);
    cf::attr(ds, "ps", "units", "hPa");
    return ds;
}
void checkEqual(Case& c, CDMReader& a, CDMReader& b)
{
    c.check(bits(a.getCDM()) == bits(b.getCDM()), "other metadata than from the library:\n" + bits(a.getCDM()) + "\ninstead of\n" + bits(b.getCDM()));
    for (auto& v : b.getCDM().getVariables()) {
        DataPtr x, y;
        std::string ex, ey;
        try {
            x = a.getData(v.getName());
        } catch (std::exception& e) {
            ex = e.what();
        }
        try {
            y = b.getData(v.getName());
        } catch (std::exception& e) {
            ey = e.what();
        }
        c.check(ex.empty() == ey.empty(), "variable " + v.getName() + ": error " + (ex.empty() ? ey + " from the library only" : ex + " from Python only"));
        if (!ey.empty() || !y)
            continue;
        c.check(x && x->getDataType() == y->getDataType(), "type of variable " + v.getName());
        if (y->getDataType() == CDM_STRING || y->getDataType() == CDM_STRINGS)
            continue;
        const dvec p = rawValues(x), q = rawValues(y);
        c.check(p.size() == q.size(), "size of variable " + v.getName());
        for (size_t i = 0; i < p.size(); ++i)
            c.check((std::isnan(p[i]) && std::isnan(q[i])) || pbt::close(p[i], q[i], 1e-6, 1e-6), "value " + std::to_string(i) + " of variable " + v.getName() + " is " + num(p[i]) + ", from the library " + num(q[i]));
    }
}
void steps(Case& c)
{
    P_& p = P();
    const int kind = c.i(0, 8);
    const int nt = c.i(1, 3), seed = c.i(0, 10);
    cf::Dataset ds = dataset(c, seed, nt);
    py::object src = py::cast(CDMReader_p(ds.r)), po;
    CDMReader_p want;
    std::string perr, cerr;
    std::ostringstream what;
    // both sides in the same way
    auto cpp = [&](std::function<void()> f) {
        if (cerr.empty())
            try {
                f();
            } catch (std::exception& ex) {
                cerr = ex.what();
            }
    };
    auto pyt = [&](std::function<void()> f) {
        if (perr.empty())
            try {
                f();
            } catch (py::error_already_set& e) {
                perr = e.what();
            }
    };
    static const char* kinds[] = {"extractor", "interpolator", "time interpolator", "vertical interpolator", "merger", "aggregation", "NcML", "writer", "read-write"};
    c.label(kinds[kind]);
    what << kinds[kind];
    const std::string file = c.tmpdir() + "/py" + std::to_string(c.serial()) + ".nc", file2 = file + "2.nc";
    switch (kind) {
    case 0: {
        auto e = std::make_shared<CDMExtractor>(ds.r);
        want = e;
        po = p.fx.attr("createExtractor")(src);
        for (int k = c.i(1, 3); k > 0; --k) {
            const std::string dim = c.picks({"lon", "lat", "pressure", "time", "nosuch"});
            switch (c.i(0, 6)) {
            case 0: {
                std::set<size_t> s;
                for (int i = c.i(1, 3); i > 0; --i)
                    s.insert(c.i(0, 3));
                what << " reduceDimension " << dim << " to " << s.size() << " positions";
                py::object it = c.b() ? py::object(py::cast(std::vector<size_t>(s.rbegin(), s.rend()))) : py::object(py::cast(s));
                cpp([&] { e->reduceDimension(dim, s); });
                pyt([&] { po.attr("reduceDimension")(dim, it); });
                break;
            }
            case 1: {
                const size_t st = c.i(0, 3), n = c.i(1, 3);
                what << " reduceDimension " << dim << " from " << st << " by " << n;
                cpp([&] { e->reduceDimension(dim, st, n); });
                pyt([&] { po.attr("reduceDimension")(dim, st, n); });
                break;
            }
            case 2: {
                const size_t st = c.i(0, 2);
                const long long en = c.i(-2, 3);
                what << " reduceDimensionStartEnd " << dim << " " << st << " " << en;
                cpp([&] { e->reduceDimensionStartEnd(dim, st, en); });
                pyt([&] { po.attr("reduceDimensionStartEnd")(dim, st, en); });
                break;
            }
            case 3: {
                const std::string a = "2020-01-01 0" + std::to_string(c.i(0, 9)) + ":00:00", b = "2020-01-01 1" + std::to_string(c.i(0, 9)) + ":00:00", z = c.b(0.1) ? "nonsense" : b;
                what << " reduceTime " << a << " to " << z;
                cpp([&] {
                    FimexTime f, t;
                    if (!f.parseISO8601(a) || !t.parseISO8601(z))
                        throw CDMException("no time");
                    e->reduceTime(f, t);
                });
                pyt([&] { po.attr("reduceTimeStartEnd")(a, z); });
                break;
            }
            case 4: {
                const double s = 50 + c.i(-1, 2) - 0.5, w = c.i(-1, 2) - 0.5, n = s + c.i(1, 3), ee = w + c.i(1, 3);
                what << " bounding box " << s << " " << n << " " << w << " " << ee;
                cpp([&] { e->reduceLatLonBoundingBox(s, n, w, ee); });
                pyt([&] { po.attr("reduceLatLonBoundingBox")(s, n, w, ee); });
                break;
            }
            case 5: {
                const std::string v = c.picks({"T", "ps", "crs", "nosuch"});
                what << " removeVariable " << v;
                cpp([&] { e->removeVariable(v); });
                pyt([&] { po.attr("removeVariable")(v); });
                break;
            }
            default: {
                std::set<std::string> v;
                v.insert(c.picks({"T", "ps"}));
                if (c.b(0.3))
                    v.insert(c.picks({"T", "ps", "nosuch"}));
                what << " selectVariables";
                for (auto& x : v)
                    what << " " << x;
                py::object it = c.b() ? py::object(py::cast(std::vector<std::string>(v.begin(), v.end()))) : py::object(py::cast(v));
                cpp([&] { e->selectVariables(v, true); });
                pyt([&] { po.attr("selectVariables")(it); });
            }
            }
        }
        break;
    }
    case 1: {
        auto i = std::make_shared<CDMInterpolator>(ds.r);
        want = i;
        po = p.fx.attr("createInterpolator")(src);
        static const std::vector<std::pair<std::string, int>> ms = {{"NEAREST_NEIGHBOR", MIFI_INTERPOL_NEAREST_NEIGHBOR}, {"BILINEAR", MIFI_INTERPOL_BILINEAR}, {"BICUBIC", MIFI_INTERPOL_BICUBIC},
            {"COORD_NN", MIFI_INTERPOL_COORD_NN}, {"COORD_NN_KD", MIFI_INTERPOL_COORD_NN_KD}, {"FORWARD_SUM", MIFI_INTERPOL_FORWARD_SUM}, {"FORWARD_MEAN", MIFI_INTERPOL_FORWARD_MEAN},
            {"FORWARD_MEDIAN", MIFI_INTERPOL_FORWARD_MEDIAN}, {"FORWARD_MAX", MIFI_INTERPOL_FORWARD_MAX}, {"FORWARD_MIN", MIFI_INTERPOL_FORWARD_MIN}, {"FORWARD_UNDEF_SUM", MIFI_INTERPOL_FORWARD_UNDEF_SUM},
            {"FORWARD_UNDEF_MEAN", MIFI_INTERPOL_FORWARD_UNDEF_MEAN}, {"FORWARD_UNDEF_MEDIAN", MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN}, {"FORWARD_UNDEF_MAX", MIFI_INTERPOL_FORWARD_UNDEF_MAX}, {"FORWARD_UNDEF_MIN", MIFI_INTERPOL_FORWARD_UNDEF_MIN}};
        const int how = c.i(0, 2);
        auto& m = ms[how == 2 ? c.idx(3) : c.idx(ms.size())];
        py::object pm = p.fx.attr("InterpolationMethod").attr(m.first.c_str());
        dvec x, y;
        const double x0 = c.i(0, 8) / 4., y0 = 50 + c.i(0, 8) / 4., dx = c.pick({0.25, 0.5, 0.75});
        const int n = c.i(2, 4);
        for (int k = 0; k < n; ++k)
            x.push_back(x0 + k * dx), y.push_back(y0 + k * 0.5);
        const std::string proj = c.b(0.1) ? "+proj=nonsense" : "+proj=latlong +R=6371000";
        py::object px = py::cast(x), pyy = c.b() ? py::object(py::tuple(py::cast(y))) : py::object(mkArray(CDM_DOUBLE, y));
        what << " " << m.first << " overload " << how << " " << proj << " " << vec(x) << " " << vec(y);
        if (how == 0) {
            const CDMDataType tx = c.pick({CDM_FLOAT, CDM_DOUBLE}), ty = c.pick({CDM_FLOAT, CDM_DOUBLE});
            cpp([&] { i->changeProjection(m.second, proj, x, y, "degrees_east", "degrees_north", tx, ty); });
            pyt([&] { po.attr("changeProjection")(pm, proj, px, pyy, "degrees_east", "degrees_north", cdmType(tx), cdmType(ty)); });
        } else if (how == 1) {
            cpp([&] { i->changeProjection(m.second, proj, x, y, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE); });
            pyt([&] { po.attr("changeProjection")(pm, proj, px, pyy, "degrees_east", "degrees_north"); });
        } else {
            cpp([&] { i->changeProjection(m.second, x, y); });
            pyt([&] { po.attr("changeProjection")(pm, px, pyy); });
        }
        break;
    }
    case 2: {
        auto t = std::make_shared<CDMTimeInterpolator>(ds.r);
        want = t;
        po = p.fx.attr("createTimeInterpolator")(src);
        const std::string spec = c.picks({"0,1,...,x;relativeStart=0", "2020-01-01 01:00:00,2020-01-01 03:00:00", "2020-01-01 00:00:00,2020-01-01 01:00:00,...,2020-01-01 12:00:00", "nonsense", "0,3,...,x;relativeStart=0;unit=hours"});
        what << " " << spec;
        cpp([&] { t->changeTimeAxis(spec); });
        pyt([&] { po.attr("changeTimeAxis")(spec); });
        break;
    }
    case 3: {
        const std::string type = c.picks({"pressure", "height", "nonsense"}), method = c.picks({"linear", "log", "loglog", "nn", "nonsense"});
        dvec lv;
        for (int k = c.i(1, 3); k > 0; --k)
            lv.push_back(c.i(5, 12) * 100. - 50 * c.i(0, 1));
        const int vmin = c.i(0, 2), vmax = c.i(0, 2);
        what << " " << type << " " << method << " " << vec(lv) << " " << vmin << vmax;
        std::shared_ptr<CDMVerticalInterpolator> v;
        cpp([&] {
            v = std::make_shared<CDMVerticalInterpolator>(ds.r, type, method);
            want = v;
            if (vmin)
                v->ignoreValidityMin(vmin == 1);
            if (vmax)
                v->ignoreValidityMax(vmax == 1);
            v->interpolateToFixed(lv);
        });
        pyt([&] {
            po = p.fx.attr("createVerticalInterpolator")(src, type, method);
            if (vmin)
                po.attr("ignoreValidityMin")(vmin == 1);
            if (vmax)
                po.attr("ignoreValidityMax")(vmax == 1);
            po.attr("interpolateToFixed")(lv);
        });
        break;
    }
    case 4: {
        cf::Dataset outer = dataset(c, seed, nt, -1);
        py::object po2 = py::cast(CDMReader_p(outer.r));
        auto m = std::make_shared<CDMMerger>(ds.r, outer.r);
        want = m;
        pyt([&] { po = p.fx.attr("createMerger")(src, po2); });
        const bool undef = c.b(), keep = c.b();
        const std::string sm = c.picks({"", "LINEAR(1,1)", "LINEAR(2,1)", "nonsense"});
        const int how = c.i(0, 2), meth = c.pick({MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR});
        what << " smoothing " << sm << (undef ? " outer for undefined" : "") << (keep ? " keep outer" : "") << " target " << how;
        const dvec tx = {0, 0.5, 1, 1.5, 2}, ty = {50, 51, 51.5, 52};
        const std::string proj = "+proj=latlong +R=6371000";
        cpp([&] {
            if (!sm.empty())
                m->setSmoothing(createSmoothingFactory(sm));
            m->setUseOuterIfInnerUndefined(undef);
            m->setKeepOuterVariables(keep);
            m->setGridInterpolationMethod(meth);
            if (how == 0)
                m->setTargetGrid(proj, tx, ty, "degrees_east", "degrees_north", CDM_FLOAT, CDM_DOUBLE);
            else if (how == 1)
                m->setTargetGrid(proj, std::string("0,0.5,...,2"), std::string("50,51,...,52"), "degrees_east", "degrees_north", "float", "double");
            else
                m->setTargetGridFromInner();
        });
        pyt([&] {
            if (!sm.empty())
                po.attr("setSmoothing")(sm);
            po.attr("setUseOuterIfInnerUndefined")(undef);
            po.attr("setKeepOuterVariables")(keep);
            po.attr("setGridInterpolationMethod")(meth);
            if (how == 0)
                po.attr("setTargetGrid")(proj, tx, ty, "degrees_east", "degrees_north", cdmType(CDM_FLOAT), cdmType(CDM_DOUBLE));
            else if (how == 1)
                po.attr("setTargetGrid")(proj, "0,0.5,...,2", "50,51,...,52", "degrees_east", "degrees_north", "float", "double");
            else
                po.attr("setTargetGridFromInner")();
        });
        break;
    }
    case 5: {
        // the parts are copies, with other times
        const std::string type = c.picks({"joinExisting", "union", "nonsense"});
        std::vector<CDMReader_p> parts = {ds.r};
        for (int k = c.i(0, 2); k > 0; --k) {
            auto r = std::make_shared<MemReader>();
            r->cdm() = ds.r->cdm();
            r->data = ds.r->data;
            dvec t = ds.t.v;
            for (double& q : t)
                q += 100 * k;
            r->data["time"] = mkData(CDM_DOUBLE, t);
            parts.push_back(r);
        }
        what << " " << type << " of " << parts.size();
        cpp([&] {
            auto a = std::make_shared<AggregationReader>(type);
            want = a;
            for (size_t k = 0; k < parts.size(); ++k)
                a->addReader(parts[k], k == 0 ? "" : "id" + std::to_string(k), "");
            a->initAggregation();
        });
        pyt([&] {
            po = p.fx.attr("createAggregationReader")(type);
            for (size_t k = 0; k < parts.size(); ++k) {
                py::object pp = py::cast(parts[k]);
                if (k == 0)
                    po.attr("addReader")(pp);
                else if (k == 1)
                    po.attr("addReader")(pp, "id1");
                else
                    po.attr("addReader")(pp, "id2", "");
            }
            po.attr("initAggregation")();
        });
        break;
    }
    case 6: {
        const std::string head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"";
        const std::string body = c.picks({"><variable name=\"air\" orgName=\"T\"/></netcdf>", "><attribute name=\"title\" value=\"a &amp; b\"/></netcdf>", "><remove name=\"ps\" type=\"variable\"/></netcdf>", "><broken"});
        const bool asFile = c.b();
        std::string cfg = head + body;
        what << " " << body << (asFile ? " in a file" : "");
        const bool own = c.b(0.3);
        if (own) {
            CDMFileReaderFactory::createWriter(ds.r, "nc4", file, std::string());
            cfg = head + " location=\"" + file + "\"" + body;
        }
        std::string arg = cfg;
        if (asFile) {
            arg = file2;
            std::ofstream(arg) << cfg;
        }
        cpp([&] {
            if (own)
                want = std::make_shared<NcmlCDMReader>(XMLInputString(cfg));
            else
                want = std::make_shared<NcmlCDMReader>(ds.r, XMLInputString(cfg));
        });
        pyt([&] { po = own ? p.fx.attr("createNcmlReader")(arg) : p.fx.attr("createNcmlReader")(src, arg); });
        break;
    }
    case 7: {
        const int how = c.i(0, 4);
        const std::string type = c.picks({"nc4", "nc3", "netcdf", "nc4c", "cdf"}), cfg = "<?xml version=\"1.0\"?>\n<cdm_ncwriter_config><variable name=\"T\" newname=\"air\"/></cdm_ncwriter_config>";
        std::string cf;
        if (c.b(0.4)) {
            cf = file2 + ".xml";
            std::ofstream(cf) << cfg;
        }
        const int version = c.pick({3, 4, 4, 3, 5});
        what << " function " << how << " type " << type << " version " << version << (cf.empty() ? "" : " with configuration");
        std::string ct;
        bool bad = false;
        switch (how) {
        case 0: ct = type; pyt([&] { p.fx.attr("createFileWriter")(src, type, file); }); cf.clear(); break;
        case 1: ct = type; pyt([&] { p.fx.attr("createFileWriter")(src, type, file, cf); }); break;
        case 2:
            ct = version == 3 ? "nc3" : "nc4";
            bad = version == 5;
            pyt([&] { p.fx.attr("createNetCDFWriter")(src, file, cf, version); });
            break;
        case 3: ct = "nc3"; pyt([&] { p.fx.attr("createNetCDFWriter")(src, file, cf); }); break;
        default: ct = "nc3"; cf.clear(); pyt([&] { p.fx.attr("createNetCDFWriter")(src, file); });
        }
        cpp([&] {
            if (bad)
                throw CDMException("version");
            CDMFileReaderFactory::createWriter(ds.r, ct, file2, cf);
            want = CDMFileReaderFactory::create("netcdf", file2);
        });
        if (perr.empty())
            pyt([&] { po = p.fx.attr("createFileReader")("netcdf", file); });
        if (perr.empty() && cerr.empty()) {
            int id, f1 = 0, f2 = 0;
            if (nc_open(file.c_str(), 0, &id) == 0)
                nc_inq_format(id, &f1), nc_close(id);
            if (nc_open(file2.c_str(), 0, &id) == 0)
                nc_inq_format(id, &f2), nc_close(id);
            c.check(f1 == f2, what.str() + ": file of format " + std::to_string(f1) + " instead of " + std::to_string(f2));
        }
        break;
    }
    default: {
        CDMFileReaderFactory::createWriter(ds.r, "nc4", file, std::string());
        CDMFileReaderFactory::createWriter(ds.r, "nc4", file2, std::string());
        const int how = c.i(0, 2), ov = c.i(0, 2);
        const size_t pos = c.i(0, nt);
        const std::string v = c.picks({"ps", "T", "nosuch"});
        dvec val(v == "nosuch" ? 1 : nvals(ds.r->dimsOf(v)) / nt);
        for (double& q : val)
            q = c.i(-30, 30);
        const std::string unit = c.picks({"K", "Pa", "hPa", "degC"});
        what << " put " << how << " " << v << " at " << pos << " in " << unit;
        cpp([&] {
            CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("nc4", file2, std::string());
            DataPtr d = mkData(CDM_DOUBLE, val);
            if (how == 0)
                rw->putDataSlice(v, pos, d);
            else if (how == 1)
                rw->putScaledDataSlice(v, pos, d);
            else
                rw->putScaledDataSliceInUnit(v, unit, pos, d);
            rw->sync();
        });
        pyt([&] {
            py::object rw = ov == 0 ? p.fx.attr("createFileReaderWriter")("nc4", file) : ov == 1 ? p.fx.attr("createFileReaderWriter")("nc4", file, "") : p.fx.attr("createFileReaderWriter")("nc4", file, "", std::vector<std::string>());
            py::object d = p.fx.attr("createData")(mkArray(CDM_DOUBLE, val));
            if (how == 0)
                rw.attr("putDataSlice")(v, pos, d);
            else if (how == 1)
                rw.attr("putScaledDataSlice")(v, pos, d);
            else
                rw.attr("putScaledDataSliceInUnit")(v, unit, pos, d);
            rw.attr("sync")();
        });
        want = CDMFileReaderFactory::create("nc4", file2);
        const int rv = c.i(0, 2);
        po = rv == 0 ? p.fx.attr("createFileReader")("nc4", file) : rv == 1 ? p.fx.attr("createFileReader")("nc4", file, "") : p.fx.attr("createFileReader")("nc4", file, "", std::vector<std::string>());
    }
    }
    c.show() << what.str();
    c.nontrivial(cerr.empty());
    if (!cerr.empty())
        c.label("refused");
    c.check(perr.empty() || !cerr.empty(), what.str() + ": error in Python only: " + perr.substr(0, 300));
    c.check(cerr.empty() || !perr.empty(), what.str() + ": no error in Python, but " + cerr);
    if (cerr.empty()) {
        c.check(!po.is_none(), "no reader");
        CDMReader_p got = po.cast<CDMReader_p>();
        checkEqual(c, *got, *want);
        // and the reader works from Python
        const std::string v = got->getCDM().hasVariable("T") ? "T" : "time";
        if (got->getCDM().hasVariable(v))
            checkCalls(c, po, *got, v);
        // the Python objects may go in any order
        if (c.b()) {
            src = py::none();
            P().main.attr("gc").attr("collect")();
            if (got->getCDM().hasVariable(v))
                pyerr(po.attr("getData"), py::make_tuple(v));
        }
    }
    po = py::none();
    want.reset();
    remove(file.c_str());
    remove(file2.c_str());
    remove((file2 + ".xml").c_str());
}
void systems(Case& c)
{
    P_& p = P();
    cf::Dataset ds = dataset(c, c.i(0, 5), c.i(1, 2));
    if (c.b(0.5)) {
        cf::addVar(ds, "zonal", CDM_FLOAT, {"lat", "time"}, dvec(ds.y.v.size() * ds.t.v.size(), 1), false);
        c.label("zonal");
    }
    c.show() << "coordinate systems";
    c.nontrivial();
    py::list l = pyok(c, "listCoordinateSystems", [&] { return py::list(p.fx.attr("listCoordinateSystems")(py::cast(CDMReader_p(ds.r)))); });
    auto cs = listCoordinateSystems(CDMReader_p(ds.r));
    c.check(l.size() == cs.size(), "number of coordinate systems " + std::to_string(l.size()) + " instead of " + std::to_string(cs.size()));
    for (size_t i = 0; i < cs.size(); ++i)
        c.check(l[i].attr("id")().cast<std::string>() == cs[i]->id(), "coordinate system " + std::to_string(i));
    static const std::vector<std::pair<std::string, CoordinateAxis::AxisType>> ts = {{"Undefined", CoordinateAxis::Undefined}, {"GeoX", CoordinateAxis::GeoX}, {"GeoY", CoordinateAxis::GeoY}, {"GeoZ", CoordinateAxis::GeoZ},
        {"Time", CoordinateAxis::Time}, {"Lon", CoordinateAxis::Lon}, {"Lat", CoordinateAxis::Lat}, {"Pressure", CoordinateAxis::Pressure}, {"Height", CoordinateAxis::Height}, {"Depth", CoordinateAxis::Depth},
        {"ReferenceTime", CoordinateAxis::ReferenceTime}, {"Realization", CoordinateAxis::Realization}};
    for (const char* var : {"T", "ps", "zonal", "crs", "nosuch"}) {
        auto w = findCompleteCoordinateSystemFor(cs, var);
        py::object g = pyok(c, "findCompleteCoordinateSystemFor", [&] { return p.fx.attr("findCompleteCoordinateSystemFor")(l, var); });
        c.check(g.is_none() == !w, std::string("coordinate system of ") + var);
        if (!w)
            continue;
        c.check(g.attr("id")().cast<std::string>() == w->id(), std::string("another coordinate system of ") + var);
        auto pt = [&](size_t k) { return p.fx.attr("CoordinateAxisType").attr(ts[k].first.c_str()); };
        for (size_t k = 0; k < ts.size(); ++k) {
            auto a = w->findAxisOfType(ts[k].second);
            py::object pa = g.attr("findAxisOfType")(pt(k));
            c.check(pa.is_none() == !a && (!a || pa.attr("getName")().cast<std::string>() == a->getName()), "axis of type " + ts[k].first + " of " + var);
        }
        const size_t k1 = c.idx(ts.size()), k2 = c.idx(ts.size());
        auto a = w->findAxisOfType({ts[k1].second, ts[k2].second});
        py::list types;
        types.append(pt(k1)), types.append(pt(k2));
        py::object pa = g.attr("findAxisOfType")(types);
        c.check(pa.is_none() == !a && (!a || pa.attr("getName")().cast<std::string>() == a->getName()), "axis of types " + ts[k1].first + ", " + ts[k2].first + " of " + var);
    }
}
} // namespace

int main(int argc, char** argv)
{
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    setenv("PYTHONMALLOC", "malloc", 1);
    noProjDatabase();
    P();
    Runner r("C29", "array views that are not plain vectors; at least two variables; processing that is not refused");
    r.init(fx::quiet);
    r.sub("arrays", arrays, 4000, 60000);
    r.sub("texts", texts, 600, 6000);
    r.sub("model", model, 1200, 20000);
    r.sub("reading", reading, 800, 12000);
    r.sub("pyreader", pyreader, 800, 12000);
    r.sub("overrides", overrides, 600, 6000);
    r.sub("modules", modules, 600, 6000);
    r.sub("chains", chains, 600, 6000);
    r.sub("steps", steps, 3000, 40000);
    r.sub("systems", systems, 300, 3000);
    return r.main(argc, argv);
}
