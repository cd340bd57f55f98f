// Common fimex helpers for the harnesses: in-memory reader, typed data helpers, reference arrays.
#pragma once
#include "pbt.h"

#include "fimex/CDM.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMException.h"
#include "fimex/CDMReader.h"
#include "fimex/CDMVariable.h"
#include "fimex/CDMconstants.h"
#include "fimex/Data.h"
#include "fimex/Logger.h"
#include "fimex/SharedArray.h"
#include "fimex/SliceBuilder.h"

#include <algorithm>
#include <limits>
#include <memory>
#include <set>

namespace fx {
using namespace MetNoFimex;
typedef std::vector<double> dvec;
typedef std::vector<size_t> svec;

inline const std::vector<CDMDataType>& numTypes()
{
    static const std::vector<CDMDataType> t = {CDM_DOUBLE, CDM_FLOAT, CDM_INT, CDM_SHORT, CDM_CHAR, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64};
    return t;
}
inline bool isFloat(CDMDataType t)
{
    return t == CDM_DOUBLE || t == CDM_FLOAT;
}
inline const char* tname(CDMDataType t)
{
    switch (t) {
    case CDM_NAT: return "nat";
    case CDM_CHAR: return "char";
    case CDM_SHORT: return "short";
    case CDM_INT: return "int";
    case CDM_FLOAT: return "float";
    case CDM_DOUBLE: return "double";
    case CDM_STRING: return "string";
    case CDM_UCHAR: return "uchar";
    case CDM_USHORT: return "ushort";
    case CDM_UINT: return "uint";
    case CDM_INT64: return "int64";
    case CDM_UINT64: return "uint64";
    case CDM_STRINGS: return "strings";
    }
    return "?";
}
inline double tmin(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return -128;
    case CDM_SHORT: return -32768;
    case CDM_INT: return -2147483648.0;
    case CDM_INT64: return -9.2e18;
    case CDM_FLOAT: return -3e38;
    case CDM_DOUBLE: return -1e300;
    default: return 0;
    }
}
inline double tmax(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return 127;
    case CDM_SHORT: return 32767;
    case CDM_INT: return 2147483647.0;
    case CDM_UCHAR: return 255;
    case CDM_USHORT: return 65535;
    case CDM_UINT: return 4294967295.0;
    case CDM_INT64: return 9.2e18;
    case CDM_UINT64: return 1.8e19;
    case CDM_FLOAT: return 3e38;
    case CDM_DOUBLE: return 1e300;
    default: return 0;
    }
}
//! the value as stored in type t (precondition: in range)
inline double stored(CDMDataType t, double v)
{
    if (t == CDM_DOUBLE)
        return v;
    if (t == CDM_FLOAT)
        return (double)(float)v;
    return std::round(v);
}
template <class T> DataPtr mk(const std::vector<double>& v)
{
    auto a = make_shared_array<T>(v.size());
    for (size_t k = 0; k < v.size(); ++k)
        a[k] = (T)v[k];
    return createData(v.size(), a);
}
//! Data of type t from values (each must be exactly representable in t)
inline DataPtr mkData(CDMDataType t, const std::vector<double>& v)
{
    switch (t) {
    case CDM_CHAR: return mk<char>(v);
    case CDM_SHORT: return mk<short>(v);
    case CDM_INT: return mk<int>(v);
    case CDM_UCHAR: return mk<unsigned char>(v);
    case CDM_USHORT: return mk<unsigned short>(v);
    case CDM_UINT: return mk<unsigned int>(v);
    case CDM_INT64: return mk<long long>(v);
    case CDM_UINT64: return mk<unsigned long long>(v);
    case CDM_FLOAT: return mk<float>(v);
    case CDM_DOUBLE: return mk<double>(v);
    default: abort();
    }
}
template <class T> dvec rd(shared_array<T> a, size_t n)
{
    dvec r(n);
    for (size_t k = 0; k < n; ++k)
        r[k] = (double)a[k];
    return r;
}
//! read the values by the raw typed pointer, not by fimex' conversion code
inline dvec rawValues(DataPtr d)
{
    const size_t n = d->size();
    dvec r(n);
    if (n == 0)
        return r;
    void* p = d->getDataPtr();
    for (size_t k = 0; k < n; ++k) {
        switch (d->getDataType()) {
        case CDM_CHAR: r[k] = ((signed char*)p)[k]; break;
        case CDM_SHORT: r[k] = ((short*)p)[k]; break;
        case CDM_INT: r[k] = ((int*)p)[k]; break;
        case CDM_UCHAR: r[k] = ((unsigned char*)p)[k]; break;
        case CDM_USHORT: r[k] = ((unsigned short*)p)[k]; break;
        case CDM_UINT: r[k] = ((unsigned int*)p)[k]; break;
        case CDM_INT64: r[k] = (double)((long long*)p)[k]; break;
        case CDM_UINT64: r[k] = (double)((unsigned long long*)p)[k]; break;
        case CDM_FLOAT: r[k] = ((float*)p)[k]; break;
        case CDM_DOUBLE: r[k] = ((double*)p)[k]; break;
        default: r[k] = std::nan(""); break;
        }
    }
    return r;
}
inline size_t prod(const svec& s)
{
    size_t p = 1;
    for (size_t x : s)
        p *= x;
    return p;
}
//! reference hyperslab; dimension 0 is the fastest varying one
template <class T> std::vector<T> hyperslab(const std::vector<T>& a, const svec& dims, const svec& start, const svec& size)
{
    std::vector<T> out;
    const size_t n = prod(size);
    out.reserve(n);
    svec ix(dims.size(), 0);
    for (size_t k = 0; k < n; ++k) {
        size_t off = 0, st = 1;
        for (size_t d = 0; d < dims.size(); ++d) {
            off += (start[d] + ix[d]) * st;
            st *= dims[d];
        }
        out.push_back(a[off]);
        for (size_t d = 0; d < dims.size(); ++d) {
            if (++ix[d] < size[d])
                break;
            ix[d] = 0;
        }
    }
    return out;
}
//! reference selection of arbitrary indices per dimension; dimension 0 fastest
template <class T> std::vector<T> pickIndices(const std::vector<T>& a, const svec& dims, const std::vector<svec>& sel)
{
    svec size(dims.size());
    for (size_t d = 0; d < dims.size(); ++d)
        size[d] = sel[d].size();
    std::vector<T> out;
    const size_t n = prod(size);
    svec ix(dims.size(), 0);
    for (size_t k = 0; k < n; ++k) {
        size_t off = 0, st = 1;
        for (size_t d = 0; d < dims.size(); ++d) {
            off += sel[d][ix[d]] * st;
            st *= dims[d];
        }
        out.push_back(a[off]);
        for (size_t d = 0; d < dims.size(); ++d) {
            if (++ix[d] < size[d])
                break;
            ix[d] = 0;
        }
    }
    return out;
}

inline std::string firstDiff(const dvec& got, const dvec& want, double rel = 0, double abs = 0)
{
    std::ostringstream o;
    if (got.size() != want.size()) {
        o << "size " << got.size() << ", expected " << want.size();
        return o.str();
    }
    for (size_t k = 0; k < got.size(); ++k)
        if (!pbt::close(got[k], want[k], rel, abs)) {
            o << "element " << k << " is " << pbt::num(got[k]) << ", expected " << pbt::num(want[k]) << "; got " << pbt::vec(got) << " expected " << pbt::vec(want);
            return o.str();
        }
    return "";
}
inline void same(pbt::Case& c, const std::string& what, const dvec& got, const dvec& want, double rel = 0, double abs = 0)
{
    std::string d = firstDiff(got, want, rel, abs);
    if (!d.empty())
        c.fail(what + ": " + d);
}

//! in-memory reader: full arrays kept outside the CDM
class MemReader : public CDMReader
{
public:
    std::map<std::string, DataPtr> data;
    bool ownSlices = false; // implement getDataSlice(SliceBuilder) itself
    mutable size_t calls = 0;
    std::set<std::pair<std::string, size_t>> missing; // records without data
    CDM& cdm() { return *cdm_; }

    svec dimsOf(const std::string& v) const
    {
        svec r;
        for (auto& d : cdm_->getVariable(v).getShape())
            r.push_back(cdm_->getDimension(d).getLength());
        return r;
    }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& varName, size_t unLimDimPos) override
    {
        calls++;
        const CDMVariable& var = cdm_->getVariable(varName);
        if (var.hasData())
            return getDataSliceFromMemory(var, unLimDimPos);
        auto it = data.find(varName);
        if (it == data.end())
            return createData(CDM_INT, 0);
        if (!cdm_->hasUnlimitedDim(var))
            return it->second->clone();
        svec dims = dimsOf(varName);
        size_t n = 1;
        for (size_t k = 0; k + 1 < dims.size(); ++k)
            n *= dims[k];
        if (missing.count(std::make_pair(varName, unLimDimPos)))
            return createData(var.getDataType(), 0);
        if (unLimDimPos >= dims.back())
            throw CDMException("MemReader: record out of range");
        return createDataSlice(it->second->getDataType(), *it->second, unLimDimPos * n, n);
    }
    DataPtr getDataSlice(const std::string& varName, const SliceBuilder& sb) override
    {
        calls++;
        const CDMVariable& var = cdm_->getVariable(varName);
        auto it = data.find(varName);
        if (!ownSlices || var.hasData() || it == data.end())
            return CDMReader::getDataSlice(varName, sb);
        return it->second->slice(dimsOf(varName), sb.getDimensionStartPositions(), sb.getDimensionSizes());
    }
};
typedef std::shared_ptr<MemReader> MemReader_p;

inline void quiet()
{
    Logger::setClass(Logger::LOG2STDERR);
    defaultLogLevel(Logger::OFF);
}

} // namespace fx
