// C13: accumulation and de-accumulation along the unlimited dimension, any history of reads
#include "fx.h"
#include "fimex/CDMProcessor.h"
using namespace fx;
using namespace pbt;

struct Var
{
    std::string name;
    CDMDataType type;
    svec sizes;          // without the record dimension
    bool rec;            // has records
    std::vector<dvec> v; // records
    std::vector<char> missing;
    bool memory;
    int op; // 0 nothing, 1 accumulate, 2 de-accumulate
};

//! serves records, from buffers of its own or fresh ones
struct Records : public CDMReader
{
    std::vector<Var> vars;
    bool shareBuffers;
    std::map<std::string, DataPtr> buf;
    size_t reads = 0;
    Records(const std::vector<Var>& vs, size_t n, bool share)
        : vars(vs)
        , shareBuffers(share)
    {
        CDMDimension t("t", n);
        t.setUnlimited(1);
        cdm_->addDimension(t);
        cdm_->addDimension(CDMDimension("x", 3));
        cdm_->addDimension(CDMDimension("y", 2));
        for (auto& v : vars) {
            std::vector<std::string> shape;
            for (size_t s : v.sizes)
                shape.push_back(s == 3 ? "x" : "y");
            if (v.rec)
                shape.push_back("t");
            CDMVariable cv(v.name, v.type, shape);
            if (v.memory) {
                dvec all;
                for (auto& r : v.v)
                    all.insert(all.end(), r.begin(), r.end());
                cv.setData(mkData(v.type, all));
            }
            cdm_->addVariable(cv);
            if (isFloat(v.type))
                cdm_->addAttribute(v.name, CDMAttribute("_FillValue", mkData(v.type, {NAN})));
        }
    }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& name, size_t pos) override
    {
        ++reads;
        const CDMVariable& cv = cdm_->getVariable(name);
        if (cv.hasData())
            return getDataSliceFromMemory(cv, pos);
        for (auto& v : vars)
            if (v.name == name) {
                if (!v.rec)
                    pos = 0;
                if (v.missing.at(pos))
                    return createData(v.type, 0);
                if (!shareBuffers)
                    return mkData(v.type, v.v.at(pos));
                DataPtr& b = buf[name + std::to_string(pos)];
                if (!b)
                    b = mkData(v.type, v.v.at(pos));
                return b;
            }
        throw CDMException("no " + name);
    }
};

static dvec want(const Var& v, size_t n)
{
    if (!v.rec || v.op == 0)
        return v.missing[v.rec ? n : 0] ? dvec() : v.v[v.rec ? n : 0];
    if (v.op == 1) {
        dvec sum;
        for (size_t i = 0; i <= n; ++i) {
            if (v.missing[i])
                continue;
            if (sum.empty())
                sum.assign(v.v[i].size(), 0);
            for (size_t k = 0; k < sum.size(); ++k)
                sum[k] += i == 0 && n > 0 && std::isnan(v.v[i][k]) ? 0 : v.v[i][k];
        }
        return sum;
    }
    if (v.missing[n])
        return dvec();
    dvec r = v.v[n];
    if (n > 0 && !v.missing[n - 1])
        for (size_t k = 0; k < r.size(); ++k)
            r[k] -= n == 1 && std::isnan(v.v[0][k]) ? 0 : v.v[n - 1][k];
    return r;
}

static void eq(Case& c, const std::string& w, const dvec& got, const dvec& exp, double eps)
{
    c.check(got.size() == exp.size(), w + ": size " + std::to_string(got.size()) + ", expected " + std::to_string(exp.size()));
    for (size_t k = 0; k < got.size(); ++k)
        c.check(std::isnan(got[k]) ? std::isnan(exp[k]) : std::fabs(got[k] - exp[k]) <= eps, w + ": element " + std::to_string(k) + " is " + num(got[k]) + ", expected " + num(exp[k]));
}

static Var genVar(Case& c, size_t k, size_t n, bool noMissing)
{
    Var v;
    v.name = std::string(1, "pqr"[k]);
    v.type = c.pick({CDM_DOUBLE, CDM_FLOAT, CDM_INT, CDM_SHORT});
    if (c.b(0.7))
        v.sizes.push_back(3);
    if (c.b(0.4))
        v.sizes.push_back(2);
    v.rec = c.b(0.9);
    v.op = c.w({1, 3, 3});
    const size_t rec = prod(v.sizes);
    bool nans = isFloat(v.type) && c.b(0.4);
    for (size_t i = 0; i < (v.rec ? n : 1); ++i) {
        dvec r;
        for (size_t j = 0; j < rec; ++j)
            r.push_back(nans && c.b(i == 0 ? 0.3 : 0.05) ? NAN : isFloat(v.type) && c.b() ? c.i(-400, 400) / 4. : (double)c.i(-100, 100));
        v.v.push_back(r);
    }
    v.missing.assign(v.v.size(), 0);
    // the first record is the reference
    if (!noMissing && c.b(0.2))
        for (size_t i = 1; i < v.missing.size(); ++i)
            v.missing[i] = c.b(0.2);
    v.memory = std::count(v.missing.begin(), v.missing.end(), 1) == 0 && c.b(0.2);
    return v;
}

static void history(Case& c)
{
    const size_t n = c.i(1, 6), nv = c.i(1, 3);
    std::vector<Var> vars;
    for (size_t k = 0; k < nv; ++k)
        vars.push_back(genVar(c, k, n, false));
    const bool share = c.b(0.3);
    auto src = std::make_shared<Records>(vars, n, share);
    auto p = std::make_shared<CDMProcessor>(src);
    for (auto& v : vars) {
        c.show() << tname(v.type) << " " << v.name << vec(v.sizes) << (v.rec ? " records" : "") << (v.memory ? " memory" : "") << (v.op == 1 ? " accumulate" : v.op ? " deaccumulate" : "") << ":";
        for (size_t i = 0; i < v.v.size(); ++i)
            c.show() << " " << (v.missing[i] ? std::string("missing") : vec(v.v[i]));
        c.show() << "; ";
        if (v.op == 1)
            p->accumulate(v.name);
        if (v.op == 2)
            p->deAccumulate(v.name);
        if (!v.rec)
            v.op = 0; // nothing to do along
    }
    if (share)
        c.label("reader returns its own buffers");
    const size_t steps = c.i(1, 10);
    struct Got
    {
        std::string what;
        DataPtr d;
        dvec exp;
    };
    std::vector<Got> kept;
    bool active = false;
    for (size_t s = 0; s < steps; ++s) {
        const Var& v = vars[c.idx(nv)];
        active |= v.op > 0;
        const size_t len = v.rec ? n : 1;
        const std::string at = v.name + " (step " + std::to_string(s) + ")";
        switch (c.w({6, 1, 1})) {
        case 0: {
            const size_t i = c.idx(len);
            c.show() << v.name << i << " ";
            DataPtr d = p->getDataSlice(v.name, i);
            c.check(d != nullptr, at + ": no data");
            dvec e = want(v, i);
            eq(c, "record " + std::to_string(i) + " of " + at, rawValues(d), e, 1e-4);
            kept.push_back({"record " + std::to_string(i) + " of " + at, d, e});
            break;
        }
        case 1: {
            if (std::count(v.missing.begin(), v.missing.end(), 1))
                break;
            c.show() << v.name << "* ";
            DataPtr d = p->getData(v.name);
            dvec e;
            for (size_t i = 0; i < len; ++i) {
                dvec r = want(v, i);
                e.insert(e.end(), r.begin(), r.end());
            }
            if (v.type == CDM_SHORT || v.type == CDM_INT)
                for (double& x : e)
                    x = std::round(x);
            eq(c, at, rawValues(d), e, 1e-3);
            kept.push_back({at, d, e});
            break;
        }
        default: {
            if (!v.rec || std::count(v.missing.begin(), v.missing.end(), 1))
                break;
            size_t a = c.idx(len), l = 1 + c.idx(len - a);
            c.show() << v.name << a << ":" << a + l << " ";
            SliceBuilder sb(p->getCDM(), v.name);
            sb.setStartAndSize("t", a, l);
            DataPtr d = p->getDataSlice(v.name, sb);
            dvec e;
            for (size_t i = a; i < a + l; ++i) {
                dvec r = want(v, i);
                e.insert(e.end(), r.begin(), r.end());
            }
            eq(c, "slice of " + at, rawValues(d), e, 1e-3);
            kept.push_back({"slice of " + at, d, e});
        }
        }
    }
    if (active && steps > 1 && n > 1)
        c.nontrivial();
    // what has been returned stays as it is, and the input was not changed
    for (auto& g : kept)
        eq(c, g.what + ", looked at again", rawValues(g.d), g.exp, 1e-3);
    for (auto& v : vars)
        for (size_t i = 0; i < v.v.size(); ++i)
            if (!v.missing[i])
                eq(c, "input record " + std::to_string(i) + " of " + v.name, rawValues(src->getDataSlice(v.name, i)), v.v[i], 0);
}

//! de-accumulating what has been accumulated gives the input, and the reverse
static void roundTrip(Case& c)
{
    const size_t n = c.i(1, 6);
    Var v = genVar(c, 0, n, true);
    v.rec = true;
    while (v.v.size() < n)
        v.v.push_back(v.v[0]);
    v.missing.assign(n, 0);
    for (auto& r : v.v)
        for (double& x : r)
            if (std::isnan(x))
                x = 0;
    v.type = c.pick({CDM_DOUBLE, CDM_FLOAT});
    v.memory = false;
    auto src = std::make_shared<Records>(std::vector<Var>{v}, n, c.b());
    auto a = std::make_shared<CDMProcessor>(src);
    auto b = std::make_shared<CDMProcessor>(a);
    const bool first = c.b();
    first ? a->accumulate("p") : a->deAccumulate("p");
    first ? b->deAccumulate("p") : b->accumulate("p");
    c.show() << (first ? "accumulate, de-accumulate " : "de-accumulate, accumulate ") << n << " records; read";
    Var w = v;
    w.op = first ? 1 : 2;
    if (n > 1)
        c.nontrivial();
    std::vector<std::pair<DataPtr, size_t>> kept;
    for (size_t s = 0; s < 8; ++s) {
        const size_t i = c.idx(n);
        if (c.b(0.3)) {
            c.show() << " inner " << i;
            DataPtr d = a->getDataSlice("p", i);
            eq(c, "inner record " + std::to_string(i), rawValues(d), want(w, i), 1e-4);
            kept.push_back({d, i});
        } else {
            c.show() << " " << i;
            eq(c, "record " + std::to_string(i), rawValues(b->getDataSlice("p", i)), v.v[i], 1e-4);
        }
    }
    for (auto& k : kept)
        eq(c, "inner record " + std::to_string(k.second) + ", looked at again", rawValues(k.first), want(w, k.second), 1e-4);
}

int main(int argc, char** argv)
{
    Runner r("C13", "several reads of several records of an accumulated or de-accumulated variable");
    r.init(quiet);
    r.assumption("undefined values are NaN (documented)");
    r.assumption("the data is not packed");
    r.sub("history", history, 150000, 6000000);
    r.sub("roundTrip", roundTrip, 50000, 2000000);
    return r.main(argc, argv);
}
