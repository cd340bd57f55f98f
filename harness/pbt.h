// Small property-based-testing engine: imperative draws from a choice sequence,
// internal shrinking of that sequence, crash isolation by fork, replay files.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Fail
{
    std::string msg;
};

class Case
{
public:
    // ---- draws (all shrink towards the first/lowest alternative) ----
    uint64_t draw(uint64_t n); //!< uniform in [0, n]
    int64_t i(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)hi - (uint64_t)lo); }
    bool b(double p = 0.5); //!< true with probability p; shrinks to false
    size_t idx(size_t n) { return (size_t)draw(n - 1); }
    size_t w(std::initializer_list<double> weights); //!< weighted index
    template <class T> T pick(const std::vector<T>& v) { return v[idx(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + idx(v.size())); }
    std::string picks(std::initializer_list<const char*> v) { return *(v.begin() + idx(v.size())); }
    //! real number in [lo, hi]: whole numbers, quarters, or fine grained
    double d(double lo, double hi);
    //! fine-grained only
    double dfine(double lo, double hi) { return lo + (hi - lo) * (double(draw((1ull << 40) - 1)) / double(1ull << 40)); }
    //! permutation of 0..n-1
    std::vector<size_t> perm(size_t n);
    //! subset of 0..n-1 in ascending order, of at least atLeast elements
    std::vector<size_t> subset(size_t n, size_t atLeast);

    // ---- reporting ----
    std::ostringstream& show() { return show_; }
    void label(const std::string& l) { labels_[l]++; }
    void nontrivial(bool v = true)
    {
        if (v)
            nontrivial_ = true;
    }
    //! additional count of executed sub-checks inside this case
    void count(const std::string& l, uint64_t n) { labels_[l] += n; }
    [[noreturn]] void fail(const std::string& msg) { throw Fail{msg}; }
    void check(bool ok, const std::string& msg)
    {
        if (!ok)
            throw Fail{msg};
    }
    void assume(bool ok)
    {
        if (!ok)
            throw Discard{};
    }
    //! scratch directory of this worker (exists, private, removed by the engine)
    const std::string& tmpdir() const;
    uint64_t serial() const { return serial_; }

    // ---- engine side ----
    std::vector<uint64_t> choices_;
    size_t pos_ = 0;
    bool replay_ = false;
    uint64_t rng_ = 0;
    uint64_t serial_ = 0;
    std::ostringstream show_;
    std::map<std::string, uint64_t> labels_;
    bool nontrivial_ = false;
};

typedef std::function<void(Case&)> Fn;

struct Sub
{
    std::string name;
    Fn fn;
    uint64_t quick, thorough;
};

struct Known
{
    std::string key, what;
    std::function<bool()> stillFails;
};

class Runner
{
public:
    Runner(const std::string& id, const std::string& rule)
        : id_(id)
        , rule_(rule)
    {
    }
    void sub(const std::string& name, Fn fn, uint64_t quick, uint64_t thorough) { subs_.push_back({name, fn, quick, thorough}); }
    void known(const std::string& key, const std::string& what, std::function<bool()> stillFails) { known_.push_back({key, what, stillFails}); }
    void assumption(const std::string& a) { assumptions_.push_back(a); }
    void init(std::function<void()> f) { init_ = f; }
    int main(int argc, char** argv);

private:
    std::string id_, rule_;
    std::vector<Sub> subs_;
    std::vector<Known> known_;
    std::vector<std::string> assumptions_;
    std::function<void()> init_;
    friend struct Engine;
};

//! |a-b| small relative to the scale of the values; NaN equals NaN
inline bool close(double a, double b, double rel, double abs)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (a == b)
        return true;
    if (std::isinf(a) || std::isinf(b))
        return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

std::string num(double d);
template <class V> std::string vec(const V& v, size_t maxn = 40)
{
    std::ostringstream o;
    o.precision(9);
    o << '[';
    size_t k = 0;
    for (auto x : v) {
        if (k)
            o << ' ';
        if (k++ >= maxn) {
            o << "...(" << v.size() << ")";
            break;
        }
        o << x;
    }
    o << ']';
    return o.str();
}

} // namespace pbt
