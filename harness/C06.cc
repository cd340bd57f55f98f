// C06: interpolation kernels and position finding against independent formulas
#include "fx.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
using namespace fx;
using namespace pbt;

static float val(Case& c, double pNan)
{
    if (c.b(pNan))
        return NAN;
    return (float)c.d(-1000, 1000);
}
static std::vector<float> field(Case& c, size_t n, double pNan)
{
    std::vector<float> f(n);
    for (auto& v : f)
        v = val(c, pNan);
    return f;
}
static double tol(const std::vector<float>& f)
{
    double m = 0;
    for (float v : f)
        if (!std::isnan(v))
            m = std::max(m, (double)std::fabs(v));
    return 1e-5 * m + 1e-12;
}

// ---------------------------------------------------------------- 2-d kernels
static void kernels2d(Case& c)
{
    const int ix = c.i(1, 8), iy = c.i(1, 8), iz = c.i(1, 3);
    const double pn = c.b(0.4) ? 0.15 : 0;
    auto f = field(c, ix * iy * iz, pn);
    auto pos = [&](int n) {
        switch (c.w({3, 2, 2, 1, 1})) {
        case 0: return c.dfine(0, n - 1);
        case 1: return (double)c.i(0, n - 1);
        case 2: return c.dfine(-1.5, n + 0.5);
        case 3: return c.pick({-0.5, n - 0.5, -0.499, n - 0.501, -0.501, n - 0.499, (double)n, -1.0});
        default: return c.pick({-999.0, -1e6, 1e6, n + 100.0});
        }
    };
    const double x = pos(ix), y = pos(iy);
    auto at = [&](int i, int j, int k) { return (double)f[(k * iy + j) * ix + i]; };
    const int m = c.idx(3);
    c.show() << (m == 0 ? "nearest" : m == 1 ? "bilinear" : "bicubic") << " grid " << ix << "x" << iy << "x" << iz << " x=" << num(x) << " y=" << num(y)
             << " field " << vec(f);
    std::vector<float> out(iz + 1, 7777.f);
    int rc;
    std::vector<std::pair<int, double>> wx, wy; // index, weight
    auto nearest = [&](double p, int n) {
        std::vector<std::pair<int, double>> r;
        long q = std::lround(p);
        if (q >= 0 && q < n)
            r.push_back({(int)q, 1.0});
        return r;
    };
    auto linear = [&](double p, int n) {
        std::vector<std::pair<int, double>> r;
        double fl = std::floor(p);
        if (fl >= 0 && fl + 1 < n) {
            r.push_back({(int)fl, 1 - (p - fl)});
            r.push_back({(int)fl + 1, p - fl});
            return r;
        }
        return nearest(p, n);
    };
    auto cubic = [&](double p, int n) {
        std::vector<std::pair<int, double>> r;
        double fl = std::floor(p);
        if (fl >= 1 && fl + 2 < n) {
            auto K = [](double t) {
                t = std::fabs(t);
                const double a = -0.5;
                if (t <= 1)
                    return (a + 2) * t * t * t - (a + 3) * t * t + 1;
                if (t < 2)
                    return a * t * t * t - 5 * a * t * t + 8 * a * t - 4 * a;
                return 0.0;
            };
            for (int k = -1; k <= 2; ++k)
                r.push_back({(int)fl + k, K(p - (fl + k))});
        }
        return r;
    };
    // exact half-way ties: either neighbour would be 'nearest', fimex rounds away from zero
    if (m == 0) {
        rc = mifi_get_values_f(f.data(), out.data(), x, y, ix, iy, iz);
        wx = nearest(x, ix);
        wy = nearest(y, iy);
    } else if (m == 1) {
        rc = mifi_get_values_bilinear_f(f.data(), out.data(), x, y, ix, iy, iz);
        wx = linear(x, ix);
        wy = linear(y, iy);
    } else {
        rc = mifi_get_values_bicubic_f(f.data(), out.data(), x, y, ix, iy, iz);
        wx = cubic(x, ix);
        wy = cubic(y, iy);
    }
    c.check(rc == MIFI_OK, "return code");
    c.check(out[iz] == 7777.f, "wrote beyond the output");
    for (int k = 0; k < iz; ++k) {
        double want = 0;
        bool weightedNan = false, zeroWeightNan = false;
        if (wx.empty() || wy.empty()) {
            weightedNan = true;
        } else
            for (auto& a : wx)
                for (auto& b : wy) {
                    double v = at(a.first, b.first, k), w = a.second * b.second;
                    if (std::isnan(v))
                        (std::fabs(w) > 1e-6 ? weightedNan : zeroWeightNan) = true;
                    else
                        want += v * w;
                }
        if (weightedNan) {
            c.check(std::isnan(out[k]), "layer " + std::to_string(k) + " is " + num(out[k]) + ", expected NaN (undefined value used or outside the grid)");
            c.label("undefined");
        } else if (zeroWeightNan) {
            // an undefined value with no weight: undefined or the value
            c.check(std::isnan(out[k]) || std::fabs(out[k] - want) <= tol(f) + 0.01, "layer " + std::to_string(k) + " zero weight");
        } else {
            c.check(close(out[k], want, 0, tol(f)), "layer " + std::to_string(k) + " is " + num(out[k]) + ", expected " + num(want));
            c.label("value");
            c.nontrivial(wx.size() * wy.size() > 1 || (x != std::round(x) || y != std::round(y)));
        }
    }
}

// ---------------------------------------------------------------- 1-d kernels
static void kernels1d(Case& c)
{
    const size_t n = c.i(1, 6);
    auto A = field(c, n, c.b(0.3) ? 0.3 : 0), B = field(c, n, c.b(0.3) ? 0.3 : 0);
    const int m = c.idx(8);
    const char* names[] = {"nearest", "linear", "weak", "no", "const", "log", "loglog", "linear_d"};
    double a, b;
    if (m == 5 || m == 6) {
        a = c.d(0.5, 1000);
        b = c.d(0.5, 1000);
    } else {
        a = c.d(-1000, 1000);
        b = c.b(0.1) ? a : c.d(-1000, 1000);
    }
    if (a != b)
        c.assume(std::fabs(a - b) > 1e-3);
    double x;
    switch (c.w({4, 1, 1, 2, 1})) {
    case 0: x = a + c.dfine(0, 1) * (b - a); break;
    case 1: x = a; break;
    case 2: x = b; break;
    case 3: x = a + c.dfine(-2, 3) * (b - a); break;
    default: x = c.d(-3000, 3000);
    }
    const bool invalid = (m == 5 || m == 6) && x <= 0;
    c.show() << names[m] << " a=" << num(a) << " b=" << num(b) << " x=" << num(x) << " A=" << vec(A) << " B=" << vec(B);
    std::vector<float> out(n + 1, 7777.f);
    int rc = MIFI_OK;
    if (m == 7) {
        std::vector<double> Ad(A.begin(), A.end()), Bd(B.begin(), B.end()), od(n + 1, 7777.0);
        rc = mifi_get_values_linear_d(Ad.data(), Bd.data(), od.data(), n, a, b, x);
        std::copy(od.begin(), od.end(), out.begin());
    } else {
        typedef int (*K)(const float*, const float*, float*, size_t, double, double, double);
        K k[] = {mifi_get_values_nearest_f, mifi_get_values_linear_f, mifi_get_values_linear_weak_extrapol_f, mifi_get_values_linear_no_extrapol_f,
                 mifi_get_values_linear_const_extrapol_f, mifi_get_values_log_f, mifi_get_values_log_log_f};
        // nearest: the callers pass the nearer position first
        if (m == 0)
            c.assume(std::fabs(x - a) <= std::fabs(x - b));
        rc = k[m](A.data(), B.data(), out.data(), n, a, b, x);
    }
    if (invalid) {
        c.check(rc == MIFI_ERROR, "logarithmic interpolation to x<=0 must be refused");
        c.label("refused");
        return;
    }
    c.check(rc == MIFI_OK, "return code");
    c.check(out[n] == 7777.f, "wrote beyond the output");
    auto t = [&](double v) { return m == 5 ? std::log(v) : m == 6 ? std::log(std::log(v + M_E)) : v; };
    const double f = a == b ? 0 : (t(x) - t(a)) / (t(b) - t(a));
    // positions of the limits of extrapolation are not decided
    for (double lim : {-1.0, 0.0, 1.0, 2.0})
        if (std::fabs(f - lim) < 1e-5 && f != lim)
            c.assume(false);
    const double mag = (1 + std::fabs(f)) * std::max(tol(A), tol(B)) * 2;
    for (size_t k = 0; k < n; ++k) {
        double want;
        bool either = false;
        if (m == 0)
            want = A[k];
        else if (f == 0 || (m == 4 && f < 0))
            want = A[k];
        else if (f == 1 || (m == 4 && f > 1))
            want = B[k];
        else if (((m == 2) && (f < -1 || f > 2)) || (m == 3 && (f < 0 || f > 1)))
            want = NAN;
        else
            want = (1 - f) * (double)A[k] + f * (double)B[k];
        if (m >= 5 && m <= 6 && x != a && (x == b))
            either = std::isnan(want) || std::isnan(A[k]);
        if (either && std::isnan(out[k]))
            continue;
        c.check(close(out[k], want, 0, mag), "element " + std::to_string(k) + " is " + num(out[k]) + ", expected " + num(want) + " (fraction " + num(f) + ")");
    }
    c.label(names[m]);
    c.nontrivial(f != 0 && f != 1);
}

// ---------------------------------------------------------------- positions
static void positions(Case& c)
{
    const int type = c.pick({MIFI_PROJ_AXIS, MIFI_LATITUDE, MIFI_LONGITUDE});
    const int num_ = c.b(0.05) ? 1 : c.i(2, 20);
    const bool desc = c.b(0.35);
    dvec ax(num_);
    bool circular = false, shifted = false;
    double step = 0;
    if (type == MIFI_LONGITUDE) {
        if (num_ > 2 && c.b(0.4)) {
            circular = true;
            step = 360.0 / num_;
            const bool neg = c.b();
            double s = (neg ? -180 : 0) + c.pick({0.0, 0.0, 0.5, 0.999}) * step;
            for (int k = 0; k < num_; ++k)
                ax[k] = s + k * step;
        } else {
            const bool neg = c.b();
            const double lo = neg ? -180 : 0, hi = neg ? 180 : 360;
            const double span = c.dfine(0.5, 250);
            double s = c.dfine(lo, hi - span);
            if (neg && s >= 0)
                s = -c.dfine(0.1, 20); // the axis is recognised by its negative values
            double p = s;
            for (int k = 0; k < num_; ++k) {
                ax[k] = p;
                p += num_ > 1 ? span / (num_ - 1) * (c.b(0.3) ? c.dfine(0.3, 1.0) : 1.0) : 0;
            }
            if (num_ > 1) { // circularity is decided from the first step
                double cov = std::fabs(ax[num_ - 1] - ax[0]) + 1.01 * std::max(std::fabs(ax[1] - ax[0]), std::fabs(ax[num_ - 1] - ax[num_ - 2]));
                c.assume(cov < 359);
            }
        }
        // anywhere around the globe, in any counting
        if (num_ > 1 && c.b(0.4)) {
            shifted = true;
            const double sh = c.dfine(-360, 360);
            for (double& a : ax)
                a += sh;
            c.label("shifted longitudes");
        }
    } else {
        double s = type == MIFI_LATITUDE ? c.d(-90, 0) : c.d(-1e6, 1e6);
        const double st = type == MIFI_LATITUDE ? 90.0 / num_ : c.pick({1.0, 1000.0, 12345.678});
        for (int k = 0; k < num_; ++k) {
            ax[k] = s;
            s += st * (c.b(0.5) ? 1.0 : c.dfine(0.2, 1.5));
        }
    }
    if (desc)
        std::reverse(ax.begin(), ax.end());
    const size_t n = c.i(1, 6);
    dvec pts, want;
    std::vector<double> orig;
    for (size_t k = 0; k < n; ++k) {
        if (c.b(0.1)) {
            pts.push_back(c.pick({(double)NAN, (double)INFINITY, -(double)INFINITY}));
            want.push_back(-999);
            continue;
        }
        if (num_ == 1) {
            bool eq = c.b();
            pts.push_back(eq ? ax[0] : ax[0] + (ax[0] > 100 ? -1.5 : 1.5));
            want.push_back(eq ? 0 : NAN); // NaN: anywhere outside
            continue;
        }
        double p = c.b(0.3) ? c.i(0, num_ - 1) : c.dfine(-0.49, num_ - 0.51);
        int i0 = std::min(std::max((int)std::floor(p), 0), num_ - 2);
        double v = ax[i0] + (p - i0) * (ax[i0 + 1] - ax[i0]);
        if (shifted) {
            v += 360 * c.i(-1, 1);
        } else if (type == MIFI_LONGITUDE) {
            const bool neg = ax[0] < 0 || ax[num_ - 1] < 0;
            // points are longitudes in [-180,180] or [0,360]
            const double lo = neg ? -180 : 0, hi = neg ? 180 : 360;
            if (v < lo || v > hi) {
                if (!circular)
                    p = std::min(std::max(p, 0.0), num_ - 1.0);
                i0 = std::min(std::max((int)std::floor(p), 0), num_ - 2);
                v = ax[i0] + (p - i0) * (ax[i0 + 1] - ax[i0]);
                if (circular && v < lo)
                    v += 360;
                if (circular && v > hi)
                    v -= 360;
            }
            if (c.b(0.3)) {
                if (neg && v < 0)
                    v += 360;
                else if (!neg && v > 180)
                    v -= 360;
            }
        }
        pts.push_back(v);
        want.push_back(p);
    }
    // far away points must be outside
    if (type != MIFI_LONGITUDE && num_ > 1 && c.b(0.5)) {
        const double far = std::fabs(ax[num_ - 1] - ax[0]) * 3 + std::fabs(ax[1] - ax[0]) + std::fabs(ax[num_ - 1] - ax[num_ - 2]);
        pts.push_back(ax[0] + (c.b() ? far : -far));
        want.push_back(NAN);
    }
    c.show() << "type " << type << " axis " << vec(ax) << " points " << vec(pts);
    dvec got = pts;
    dvec axc = ax;
    c.check(mifi_points2position(got.data(), (int)got.size(), axc.data(), num_, type) == MIFI_OK, "return code");
    c.check(axc == ax, "axis changed");
    for (size_t k = 0; k < got.size(); ++k) {
        std::ostringstream o;
        o.precision(17);
        o << "point " << pts[k] << " got position " << got[k] << " expected " << want[k];
        if (std::isnan(want[k])) {
            c.check(got[k] <= -0.5 || got[k] >= num_ - 0.5, o.str() + " (outside)");
        } else if (want[k] == -999) {
            c.check(got[k] == -999, o.str());
        } else {
            const double eps = 1e-5;
            double d = std::fabs(got[k] - want[k]);
            if (circular) {
                d = std::min(d, std::fabs(num_ - d));
                c.check(got[k] >= -0.5 - eps && got[k] <= num_ - 0.5 + eps, o.str() + " (outside the circle)");
                c.label("circular");
            }
            c.check(d <= eps, o.str());
        }
    }
    c.nontrivial(num_ > 2);
    if (desc)
        c.label("descending");
}

// ---------------------------------------------------------------- grid distance
static void distances(Case& c)
{
    const size_t nx = c.i(1, 6), ny = c.i(1, 6);
    dvec lon(nx * ny), lat(nx * ny);
    const int mode = c.idx(3);
    const double lo = c.d(-180, 180), la = c.d(-80, 60), st = c.pick({0.01, 0.25, 3.0});
    for (size_t j = 0; j < ny; ++j)
        for (size_t i = 0; i < nx; ++i) {
            size_t p = j * nx + i;
            if (mode == 0) {
                lon[p] = lo + i * st;
                lat[p] = la + j * st;
            } else if (mode == 1) {
                lon[p] = lo + i * st + j * st * 0.3;
                lat[p] = la + j * st - i * st * 0.2;
            } else {
                lon[p] = c.d(-180, 180);
                lat[p] = c.b(0.1) ? c.pick({90.0, -90.0}) : c.d(-90, 90);
            }
        }
    c.show() << nx << "x" << ny << " lon " << vec(lon) << " lat " << vec(lat);
    std::vector<float> dx(nx * ny + 1, 7777.f), dy(nx * ny + 1, 7777.f);
    int rc = mifi_griddistance(nx, ny, lon.data(), lat.data(), dx.data(), dy.data());
    c.check(dx[nx * ny] == 7777.f && dy[nx * ny] == 7777.f, "wrote beyond the output");
    if (nx * ny == 1) {
        c.check(rc == MIFI_ERROR, "no distance in a one point grid");
        return;
    }
    c.check(rc == MIFI_OK, "return code");
    auto dist = [&](size_t p, size_t q) {
        auto v = [&](size_t k, double* o) {
            double a = lat[k] * M_PI / 180, b = lon[k] * M_PI / 180;
            o[0] = std::cos(a) * std::cos(b);
            o[1] = std::cos(a) * std::sin(b);
            o[2] = std::sin(a);
        };
        double A[3], B[3];
        v(p, A);
        v(q, B);
        double cx = A[1] * B[2] - A[2] * B[1], cy = A[2] * B[0] - A[0] * B[2], cz = A[0] * B[1] - A[1] * B[0];
        return 6371000.0 * std::atan2(std::sqrt(cx * cx + cy * cy + cz * cz), A[0] * B[0] + A[1] * B[1] + A[2] * B[2]);
    };
    auto cmp = [&](size_t k, const char* w, float got, double want) {
        c.check(close(got, want, 1e-5, 1.0), std::string(w) + " distance of point " + std::to_string(k) + " is " + num(got) + ", expected " + num(want));
    };
    if (nx == 1 || ny == 1) {
        for (size_t k = 0; k + 1 < nx * ny; ++k) {
            cmp(k, "x", dx[k], dist(k, k + 1));
            cmp(k, "y", dy[k], dist(k, k + 1));
        }
        cmp(nx * ny - 1, "x", dx[nx * ny - 1], dx[nx * ny - 2]);
        cmp(nx * ny - 1, "y", dy[nx * ny - 1], dy[nx * ny - 2]);
        return;
    }
    for (size_t j = 0; j < ny; ++j)
        for (size_t i = 0; i < nx; ++i) {
            // border cells repeat the distance of their inner neighbour
            size_t p = j * nx + i, q = std::min(j, ny - 2) * nx + std::min(i, nx - 2);
            cmp(p, "x", dx[p], dist(q, q + 1));
            cmp(p, "y", dy[p], dist(q, q + nx));
        }
    c.nontrivial(nx > 2 && ny > 2 && nx != ny);
}

// ---------------------------------------------------------------- names and bad values
static void misc(Case& c)
{
    static const std::vector<std::pair<std::string, int>> names = {{"bilinear", MIFI_INTERPOL_BILINEAR},
                                                                     {"nearestneighbor", MIFI_INTERPOL_NEAREST_NEIGHBOR},
                                                                     {"bicubic", MIFI_INTERPOL_BICUBIC},
                                                                     {"coord_nearestneighbor", MIFI_INTERPOL_COORD_NN},
                                                                     {"coord_kdtree", MIFI_INTERPOL_COORD_NN_KD},
                                                                     {"forward_sum", MIFI_INTERPOL_FORWARD_SUM},
                                                                     {"forward_mean", MIFI_INTERPOL_FORWARD_MEAN},
                                                                     {"forward_median", MIFI_INTERPOL_FORWARD_MEDIAN},
                                                                     {"forward_max", MIFI_INTERPOL_FORWARD_MAX},
                                                                     {"forward_min", MIFI_INTERPOL_FORWARD_MIN},
                                                                     {"forward_undef_sum", MIFI_INTERPOL_FORWARD_UNDEF_SUM},
                                                                     {"forward_undef_mean", MIFI_INTERPOL_FORWARD_UNDEF_MEAN},
                                                                     {"forward_undef_median", MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN},
                                                                     {"forward_undef_max", MIFI_INTERPOL_FORWARD_UNDEF_MAX},
                                                                     {"forward_undef_min", MIFI_INTERPOL_FORWARD_UNDEF_MIN}};
    auto p = names[c.idx(names.size())];
    std::string s = p.first;
    bool mut = c.b(0.4);
    if (mut) {
        size_t k = c.idx(s.size());
        if (c.b())
            s.erase(k, 1);
        else
            s.insert(k, 1, "_xn"[c.idx(3)]);
    }
    int want = MIFI_INTERPOL_UNKNOWN;
    for (auto& q : names)
        if (q.first == s)
            want = q.second;
    c.show() << "method '" << s << "'";
    c.check(mifi_string_to_interpolation_method(s.c_str()) == want, "method '" + s + "' recognised as " + std::to_string(mifi_string_to_interpolation_method(s.c_str())));

    const size_t n = c.i(0, 12);
    auto f = field(c, n, 0.2);
    float bad = c.b(0.1) ? NAN : c.pick({-32767.f, 9.96921e36f, 0.f, -999.f});
    for (auto& v : f)
        if (c.b(0.3))
            v = bad;
    c.show() << " bad=" << bad << " " << vec(f);
    auto g = f;
    mifi_bad2nanf(g.data(), g.data() + n, bad);
    for (size_t k = 0; k < n; ++k)
        c.check(std::isnan(f[k]) || f[k] == bad ? std::isnan(g[k]) : g[k] == f[k], "bad2nan element " + std::to_string(k) + " is " + num(g[k]));
    auto h = g;
    mifi_nanf2bad(h.data(), h.data() + n, bad);
    std::vector<double> dd(g.begin(), g.end());
    mifi_nand2bad(dd.data(), dd.data() + n, bad);
    for (size_t k = 0; k < n; ++k) {
        double w = std::isnan(g[k]) ? bad : g[k];
        c.check(close(h[k], w, 0, 0), "nan2bad (float) element " + std::to_string(k) + " is " + num(h[k]));
        c.check(close(dd[k], w, 0, 0), "nan2bad (double) element " + std::to_string(k) + " is " + num(dd[k]));
    }
    c.nontrivial(n > 1);
}

int main(int argc, char** argv)
{
    Runner r("C06", "an off-grid position inside the grid; a fraction other than 0 or 1; an axis of three or more points; a non-square grid larger than 2x2; a non-empty field");
    r.init(quiet);
    r.assumption("longitude axes lie in [-180,180] or [0,360]; target longitudes lie in the same range, or negative / above 180 versions of it");
    r.assumption("an undefined value with interpolation weight 0 may or may not make the result undefined");
    r.sub("kernels2d", kernels2d, 300000, 20000000);
    r.sub("kernels1d", kernels1d, 300000, 20000000);
    r.sub("positions", positions, 200000, 10000000);
    r.sub("distances", distances, 60000, 2000000);
    r.sub("misc", misc, 60000, 1000000);
    return r.main(argc, argv);
}
