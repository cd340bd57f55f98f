// C07: filling undefined values of a 2-d field
#include "fx.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
#include "fimex/CDMInterpolator.h"
using namespace fx;
using namespace pbt;

typedef std::vector<float> fvec;

// creep fill as documented: values with weight (original: weight, derived: 1) creep into the undefined area,
// each value is smoothed 'repeat' times, borders are taken from the row or column next to them
static void creep(dvec& f, const std::vector<char>& undef, size_t nx, size_t ny, double def, size_t repeat, double weight)
{
    const size_t n = nx * ny;
    dvec w(n);
    std::vector<size_t> r(n);
    size_t defined = 0;
    for (size_t k = 0; k < n; ++k) {
        if (undef[k])
            f[k] = def;
        else {
            w[k] = weight;
            r[k] = repeat;
            ++defined;
        }
    }
    bool any = true;
    for (size_t l = 0; any && l < defined; ++l) {
        any = false;
        for (size_t y = 1; y + 1 < ny; ++y)
            for (size_t x = 1; x + 1 < nx; ++x) {
                size_t k = y * nx + x;
                if (r[k] >= repeat)
                    continue;
                double ws = 0, s = f[k];
                for (size_t o : {k + 1, k - 1, k + nx, k - nx}) {
                    ws += w[o];
                    s += w[o] * f[o];
                }
                if (ws == 0)
                    continue;
                f[k] = s / (1 + ws);
                w[k] = 1;
                ++r[k];
                any = true;
            }
    }
    auto border = [&](size_t k, size_t o) {
        if (r[k] < repeat) {
            f[k] = (f[k] + w[o] * f[o]) / (1 + w[o]);
            w[k] = 1;
        }
    };
    for (size_t l = 0; l < repeat; ++l) {
        for (size_t y = 1; y + 1 < ny && nx > 1; ++y) {
            border(y * nx, y * nx + 1);
            border(y * nx + nx - 1, y * nx + nx - 2);
        }
        for (size_t x = 0; x < nx && ny > 1; ++x) {
            border(x, nx + x);
            border((ny - 1) * nx + x, (ny - 2) * nx + x);
        }
    }
}

static void fill(Case& c)
{
    const size_t nx = c.b(0.1) ? 1 : c.i(2, 12), ny = c.b(0.1) ? 1 : c.i(2, 12);
    const size_t n = nx * ny;
    fvec f(n);
    const double off = c.pick({0.0, 0.0, 100.0, -50.0});
    const double amp = c.pick({1.0, 10.0, 100.0});
    for (auto& v : f)
        v = (float)(off + amp * c.dfine(-1, 1));
    // pattern of undefined values
    std::string pat;
    const size_t pt = c.w({2, 2, 2, 1, 1, 2});
    const char* pn[] = {"random", "few", "block", "none", "all", "mostly"};
    pat = pn[pt];
    std::vector<char> undef(n, 0);
    if (pt == 0 || pt == 1 || pt == 5) {
        double p = pt == 0 ? c.d(0.1, 0.9) : pt == 1 ? 0.06 : 0.95;
        for (size_t k = 0; k < n; ++k)
            undef[k] = c.b(p);
    } else if (pt == 2) {
        size_t x0 = c.idx(nx), x1 = c.i(x0, nx - 1), y0 = c.idx(ny), y1 = c.i(y0, ny - 1);
        for (size_t y = y0; y <= y1; ++y)
            for (size_t x = x0; x <= x1; ++x)
                undef[y * nx + x] = 1;
    } else if (pt == 4)
        std::fill(undef.begin(), undef.end(), 1);
    for (size_t k = 0; k < n; ++k)
        if (undef[k])
            f[k] = NAN;
    size_t nu = std::count(undef.begin(), undef.end(), 1);
    double lo = 1e30, hi = -1e30, mean = 0;
    for (size_t k = 0; k < n; ++k)
        if (!undef[k]) {
            lo = std::min(lo, (double)f[k]);
            hi = std::max(hi, (double)f[k]);
            mean += f[k];
        }
    if (nu < n)
        mean /= n - nu;
    double dev = 0;
    for (size_t k = 0; k < n; ++k)
        if (!undef[k])
            dev += std::fabs(f[k] - mean);
    if (nu < n)
        dev /= n - nu;

    const size_t m = c.idx(3);
    fvec g = f;
    g.push_back(7777.f);
    fvec front(1);
    size_t changed = 12345;
    const float relax = c.pick({1e-4f, 1e-3f, 0.02f});
    const float corr = c.pick({1.2f, 1.6f, 1.9f});
    const size_t maxLoop = c.pick({(size_t)0, (size_t)1, (size_t)20, (size_t)4000});
    const unsigned short repeat = c.pick({(unsigned short)20, (unsigned short)1, (unsigned short)0, (unsigned short)60});
    const char weight = c.pick({(char)2, (char)1, (char)20});
    const float def = c.pick({0.f, -5.f, 1000.f, (float)mean});
    c.show() << (m == 0 ? "fill2d" : m == 1 ? "creepfill2d" : "creepfillval2d") << " " << nx << "x" << ny << " undefined " << nu << " (" << pat << ") ";
    int rc;
    if (m == 0) {
        c.show() << "relaxCrit=" << relax << " corrEff=" << corr << " maxLoop=" << maxLoop;
        rc = mifi_fill2d_f(nx, ny, g.data(), relax, corr, maxLoop, &changed);
    } else if (m == 1) {
        c.show() << "repeat=" << repeat << " weight=" << (int)weight;
        rc = mifi_creepfill2d_f(nx, ny, g.data(), repeat, weight, &changed);
    } else {
        c.show() << "repeat=" << repeat << " weight=" << (int)weight << " default=" << def;
        rc = mifi_creepfillval2d_f(nx, ny, g.data(), def, repeat, weight, &changed);
    }
    c.show() << " field " << vec(f, 144);
    c.check(rc == MIFI_OK, "return code");
    c.check(g[n] == 7777.f, "wrote beyond the field");
    g.pop_back();
    if (nu == n) {
        for (size_t k = 0; k < n; ++k)
            c.check(std::isnan(g[k]), "a field without any value must stay undefined");
        return;
    }
    c.check(changed == nu, "number of changed values is " + std::to_string(changed) + ", expected " + std::to_string(nu));
    for (size_t k = 0; k < n; ++k) {
        if (!undef[k])
            c.check(g[k] == f[k], "defined value " + std::to_string(k) + " changed from " + num(f[k]) + " to " + num(g[k]));
        else
            c.check(std::isfinite(g[k]), "value " + std::to_string(k) + " is still undefined");
    }
    if (nu == 0)
        return;
    c.nontrivial();
    c.label(pat);
    const double mag = std::max({std::fabs(lo), std::fabs(hi), m == 2 ? std::fabs((double)def) : 0.0, 1e-3});
    auto at = [&](size_t x, size_t y) { return (double)g[y * nx + x]; };
    if (m != 0) {
        if (nx > 1 && ny > 1) {
            dvec ref(f.begin(), f.end());
            creep(ref, undef, nx, ny, m == 2 ? (double)def : mean, repeat, weight);
            for (size_t k = 0; k < n; ++k)
                c.check(close(g[k], ref[k], 0, 1e-3 * mag), "value " + std::to_string(k) + " is " + num(g[k]) + ", expected " + num(ref[k]));
        }
        // averaging never leaves the range of the values and the default
        double l = m == 2 ? std::min(lo, (double)def) : lo, h = m == 2 ? std::max(hi, (double)def) : hi;
        for (size_t k = 0; k < n; ++k)
            c.check(g[k] >= l - 1e-4 * mag && g[k] <= h + 1e-4 * mag, "filled value " + num(g[k]) + " outside [" + num(l) + "," + num(h) + "]");
        if (repeat == 0) {
            for (size_t k = 0; k < n; ++k)
                if (undef[k])
                    c.check(close(g[k], m == 2 ? def : mean, 1e-4, 1e-4 * mag), "without repetitions the default must be used");
        }
        // a hole with four original neighbours becomes their average
        if (repeat >= 20 && nu < n) {
            // fimex limits the number of rounds by the number of defined values
            for (size_t y = 1; y + 1 < ny; ++y)
                for (size_t x = 1; x + 1 < nx; ++x)
                    if (undef[y * nx + x] && !undef[y * nx + x + 1] && !undef[y * nx + x - 1] && !undef[(y + 1) * nx + x] && !undef[(y - 1) * nx + x] &&
                        n - nu >= 20) {
                        double w = (at(x + 1, y) + at(x - 1, y) + at(x, y + 1) + at(x, y - 1)) / 4;
                        c.check(close(at(x, y), w, 0, 2e-4 * mag), "hole at " + std::to_string(x) + "," + std::to_string(y) + " is " + num(at(x, y)) +
                                                                        ", expected the average of its neighbours " + num(w));
                        c.label("single hole");
                    }
        }
    } else {
        if (nx == 1 || ny == 1) {
            for (size_t k = 0; k < n; ++k)
                c.check(g[k] >= lo - 1e-4 * mag && g[k] <= hi + 1e-4 * mag, "filled value outside range");
            return;
        }
        if (maxLoop == 0) {
            for (size_t k = 0; k < n; ++k)
                if (undef[k])
                    c.check(close(g[k], mean, 1e-4, 1e-4 * mag), "without iterations the mean must be used");
        }
        if (maxLoop >= 4000) {
            // Laplace's equation in the interior, no gradient across the border
            const double crit = 10 * relax * dev * corr + 1e-4 * mag;
            for (size_t y = 0; y < ny; ++y)
                for (size_t x = 0; x < nx; ++x) {
                    if (!undef[y * nx + x])
                        continue;
                    double want;
                    bool border = true;
                    if (y == 0)
                        want = at(x, 1);
                    else if (y == ny - 1)
                        want = at(x, ny - 2);
                    else if (x == 0)
                        want = at(1, y);
                    else if (x == nx - 1)
                        want = at(nx - 2, y);
                    else {
                        want = (at(x + 1, y) + at(x - 1, y) + at(x, y + 1) + at(x, y - 1)) / 4;
                        border = false;
                    }
                    // two cells wide fields have borders that only refer to each other
                    if (border && (nx == 2 || ny == 2))
                        continue;
                    c.check(std::fabs(at(x, y) - want) <= (border ? 4 : 1) * crit, "point " + std::to_string(x) + "," + std::to_string(y) + " is " + num(at(x, y)) +
                                                                          ", expected about " + num(want) + " (criterion " + num(crit) + ")");
                }
            c.label("laplace");
        }
    }
}

int main(int argc, char** argv)
{
    Runner r("C07", "the field has at least one undefined and one defined value");
    r.init(quiet);
    r.sub("fill", fill, 150000, 4000000);
    return r.main(argc, argv);
}
