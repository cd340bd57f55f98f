// C26: FELT files are read as the fields they contain, whatever their order, packing and byte order
// LINK: libfimex-io-felt -lproj
#include "cal.h"
#include "cf.h"
#include "noprojdb.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/XMLInputString.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/reproject.h"

#include <cstring>
#include <fstream>
#include <set>
#include <unistd.h>
using namespace cf;
using namespace pbt;

namespace {
typedef std::pair<int, int> LP;
struct Field
{
    int var = -1; // index of the configured variable, -1: not configured
    int prod = 88, grid = 1841, dtype = 3, vc = 2, param = 0, l1 = 0, l2 = 0, hours = 0, ref = 0, scale = 0, misc = 0;
    std::vector<short> data;
    short ga = 0; // added to the first grid parameter
    // filled by the writer
    size_t first = 0, last = 0; // words of the field, [first, last)
};
struct Var
{
    int param = 0, vc = 0, onlyLevel = -1;
    bool eps = false;
    std::string id, name, type, restrict;
    double fill = 0;
    bool hasFill = true;
    double cfgScale = 0; // 0: no scale_factor in the config
    int scale = 0;
    int dtype = 3;
    // expected content, by time (0 for timeless) and level and member
    std::map<int64_t, std::map<LP, std::map<int, size_t>>> at; // field number
    bool timeless = false;
    int first = -1; // its first field in the file defines the grid
    std::set<LP> levels;
    std::set<int> members;
};
struct Grid
{
    int type = 1, nx = 1, ny = 1;
    short a = 0, b = 0, c = 0, d = 0;
    std::vector<short> extra;
    dvec x, y;
    std::string proj4; // empty: longitude/latitude
};
struct File
{
    Grid g;
    std::vector<Var> vars;
    std::vector<Field> fields; // in order of the index
    std::vector<int> invalidBefore; // number of invalid index entries before field i
    std::vector<std::array<int, 5>> refs;
    std::map<int, std::string> axisName, axisType;
    std::map<int, double> axisScale;
    bool swap = false, packed = true;
    size_t gapBlocks = 0; // before the data
    int status = 0;
    std::string timeUnit, timeType = "double", timeName = "time", delta, global;
    double unitSec = 1;
    int64_t unitEpoch = 0;
    bool inlineLevels = false;
    std::string xName, yName;
    bool earth = false;
    size_t words = 0, indexBlocks = 0;
};

int64_t epoch(const std::array<int, 5>& r)
{
    return cal::daysFromCivil(r[0], r[1], r[2]) * 86400LL + r[3] * 3600 + r[4] * 60;
}

//! two words hi*10000 + lo
void pair10000(std::vector<short>& e, long v)
{
    e.push_back(static_cast<short>(v / 10000));
    e.push_back(static_cast<short>(v % 10000));
}

//! parameters to extra words; vals are multiples of 1/unit
std::vector<short> extraWords(Case& c, const dvec& vals, double unit, bool second)
{
    std::vector<short> e;
    if (second) {
        e.push_back(static_cast<short>(vals.size()));
        e.push_back(3);
    }
    for (double v : vals) {
        if (second) {
            int ex = c.pick<int>({-4, -3, -2});
            if (std::fabs(v * std::pow(10., -ex) - std::round(v * std::pow(10., -ex))) > 1e-6)
                ex = -4;
            e.push_back(static_cast<short>(ex));
            pair10000(e, std::lround(v * std::pow(10., -ex)));
        } else
            pair10000(e, std::lround(v * unit));
    }
    return e;
}

Grid genGrid(Case& c)
{
    Grid g;
    static const int types[] = {1, 2, 3, 4, 5, 6};
    g.type = types[c.w({8, 12, 12, 6, 1, 1})]; // the last two need the slow PROJ database
    if (c.b(0.03)) {
        g.nx = c.i(150, 260);
        g.ny = c.i(130, 260);
    } else {
        g.nx = c.i(1, 7);
        g.ny = c.i(1, 6);
    }
    auto regular = [](double s, double d, int n) {
        dvec v;
        for (int i = 0; i < n; i++)
            v.push_back(s + i * d);
        return v;
    };
    switch (g.type) {
    case 1:
    case 4: {
        double xp = c.i(-3000, 3000) * .01, yp = c.i(-3000, 30000) * .01, dist = c.i(50, 1500) * .1, lon0 = c.i(-90, 90), ts = 60;
        g.a = static_cast<short>(std::lround(xp * 100));
        g.b = static_cast<short>(std::lround(yp * 100));
        g.c = static_cast<short>(std::lround(dist * 10));
        g.d = static_cast<short>(lon0);
        if (c.b(0.15)) { // old extension: negative distance, whole cells
            g.a = static_cast<short>(c.i(-30, 30));
            g.b = static_cast<short>(c.i(-30, 300));
            xp = g.a;
            yp = g.b;
            g.c = -g.c;
        }
        if (c.b(0.4)) {
            xp = c.i(-300000, 300000) * .01;
            yp = c.i(-300000, 300000) * .01;
            dist = c.i(100, 20000) * .01;
            lon0 = c.i(-9000, 9000) * .01;
            ts = c.i(4500, 9000) * .01;
            g.extra = extraWords(c, {xp, yp, dist, lon0, ts}, 100, false);
            c.label("stere-extra");
        }
        double cells = 79. * 150. / dist;
        double incr = 6371000. * (1 + std::sin(ts * M_PI / 180)) / cells;
        g.x = regular((1 - xp) * incr, incr, g.nx);
        g.y = regular((1 - yp) * incr, incr, g.ny);
        g.proj4 = "+proj=stere +lat_0=90 +lon_0=" + g17(lon0) + " +lat_ts=" + g17(ts) + " +R=6371000";
        break;
    }
    case 2:
    case 3: {
        double dlon = c.i(1, 200) * .01, dlat = c.i(1, 200) * .01, lon = c.i(-17000, 17000) * .01, lat = c.i(-6000, 6000) * .01, rlon = 0, rlat = 0;
        if (c.b(0.35)) {
            dlat = -dlat;
            c.label("top-first");
        }
        if (g.ny > 100) {
            dlat = dlat < 0 ? -.1 : .1;
            dlon = .1;
            lat = std::lround(lat / 2);
        }
        g.a = static_cast<short>(std::lround(lat * 100));
        g.b = static_cast<short>(std::lround(lon * 100));
        g.c = static_cast<short>(std::lround(dlat * 100));
        g.d = static_cast<short>(std::lround(dlon * 100));
        if (g.type == 3 || c.b(0.4)) {
            lon += c.i(-99, 99) * .0001;
            lat += c.i(-99, 99) * .0001;
            dlon += c.i(0, 99) * .0001;
            if (g.type == 3) {
                rlon = c.i(-900000, 900000) * .0001;
                rlat = c.i(0, 890000) * .0001;
            }
            g.extra = extraWords(c, {lon, lat, dlon, dlat, rlon, rlat}, 10000, c.b());
            c.label("geo-extra");
        }
        g.x = regular(lon, dlon, g.nx);
        g.y = regular(lat, dlat, g.ny);
        if (g.type == 3)
            g.proj4 = "+proj=ob_tran +o_proj=longlat +lon_0=" + g17(rlon) + " +o_lat_p=" + g17(90 - rlat) + " +R=6371000";
        break;
    }
    case 5:
    case 6: {
        double west = c.i(-9000, 9000) * .01, south = c.i(-6000, 6000) * .01, dx = c.i(1, 500) * .1, dy = c.i(1, 500) * .1, p4 = 0, p5 = 0;
        if (g.type == 6)
            south = c.i(2000, 7000) * .01;
        g.a = static_cast<short>(std::lround(west * 100));
        g.b = static_cast<short>(std::lround(south * 100));
        g.c = static_cast<short>(std::lround(dx * 10));
        g.d = static_cast<short>(std::lround(dy * 10));
        if (g.type == 6) {
            p4 = west + c.i(-20, 20);
            p5 = c.i(300000, 700000) * .0001;
            g.extra = extraWords(c, {west, south, dx, dy, p4, p5}, 10000, false);
            g.proj4 = "+proj=lcc +lon_0=" + g17(p4) + " +lat_0=" + g17(p5) + " +lat_1=" + g17(p5) + " +lat_2=" + g17(p5) + " +R=6371000";
        } else {
            if (c.b()) {
                p4 = c.i(0, 6000) * .01;
                g.extra = extraWords(c, {west, south, dx, dy, p4}, 10000, false);
            }
            g.proj4 = "+proj=merc +lat_ts=" + g17(p4) + " +R=6371000";
        }
        Pj pj("+proj=latlong +R=6371000", g.proj4);
        double sx = west, sy = south;
        pj.fwd(sx, sy);
        g.x = regular(sx, dx * 1000, g.nx);
        g.y = regular(sy, dy * 1000, g.ny);
        break;
    }
    }
    return g;
}

const char* gridTypeLabel(int t)
{
    static const char* n[] = {"", "stere", "lonlat", "rotated", "stere4", "mercator", "lambert"};
    return n[t];
}

void gen(Case& c, File& f, bool small = false)
{
    f.g = genGrid(c);
    if (small && f.g.nx > 20) {
        f.g.nx = f.g.ny = 5;
        f.g.x.resize(5);
        f.g.y.resize(5);
        if (f.g.c < 0 && f.g.type == 2) { }
    }
    c.label(gridTypeLabel(f.g.type));
    bool big = f.g.nx > 20;
    f.swap = c.b();
    f.packed = c.b(0.7);
    f.gapBlocks = small ? 0 : c.w({6, 2, 1}) == 2 ? c.i(32700, 70000) : c.i(0, 3);
    if (f.gapBlocks > 30000)
        c.label("far-blocks");
    // reference times
    int nref = c.b(0.2) ? 2 : 1;
    std::array<int, 5> r0 = {c.i(1975, 2035), c.i(1, 12), c.i(1, 28), c.pick<int>({0, 6, 12, 18, 3, 23}), c.b(0.15) ? 30 : 0};
    f.refs.push_back(r0);
    if (nref == 2) {
        std::array<int, 5> r1 = r0;
        r1[3] = (r0[3] + 6) % 24;
        f.refs.push_back(r1);
    }
    // pool of hours
    std::vector<int> hours;
    int nh = c.i(1, big ? 2 : 4), h = c.i(0, 20), step = c.pick<int>({1, 3, 6, 24, 360});
    for (int i = 0; i < nh; i++, h += step * c.i(1, 2))
        hours.push_back(h);
    int nv = c.i(1, big ? 2 : 4);
    std::set<int> used;
    std::map<int, std::vector<LP>> pool; // of a vertical coordinate
    std::map<int, bool> epsOn;
    for (int i = 0; i < nv; i++) {
        Var v;
        v.eps = c.b(0.25);
        do {
            v.param = v.eps ? c.i(2, 5) * 1000 + c.i(1, 999) : c.i(1, 999);
        } while (!used.insert(v.param).second);
        v.vc = v.eps ? c.pick<int>({1, 2, 8, 3}) : c.pick<int>({2, 1, 1, 3, 8, 0, 5, 10, 10});
        if (v.eps)
            epsOn[v.vc] = true;
        v.type = c.picks({"short", "float", "double"});
        v.name = "var_" + std::to_string(v.param);
        v.hasFill = c.b(0.8);
        v.fill = v.type == "short" ? c.pick<double>({-32767, -999, 32767}) : c.pick<double>({-32767, 1e20, -999.5, 9.969209968386869e+36});
        if (!v.hasFill)
            v.fill = v.type == "short" ? -32767 : 9.969209968386869e+36;
        if (c.b(0.5))
            v.cfgScale = c.pick<double>({0.01, 1., 100., -1.});
        v.scale = c.pick<int>({0, 0, -1, -2, -4, 1, 2});
        v.dtype = c.pick<int>({3, 3, 1, 2, 4});
        f.vars.push_back(v);
    }
    for (auto& v : f.vars) {
        auto& p = pool[v.vc];
        if (!p.empty())
            continue;
        int n = c.i(1, big ? 2 : 4);
        std::set<LP> s;
        bool two = v.vc == 10 || (!epsOn[v.vc] && c.b(0.3));
        for (int k = 0; k < n; k++)
            s.insert(LP(v.vc == 2 ? c.pick<int>({1000, 850, 500, 300, 990, 995}) : v.vc == 8 || v.vc == 0 ? c.i(0, 3) : c.i(1, 1100), two ? c.i(0, 3000) : 0));
        p.assign(s.begin(), s.end());
    }
    std::map<LP, int> misc;
    for (auto& l : pool[10])
        misc[l] = c.i(0, 10000);
    if (pool[10].empty())
        pool.erase(10);
    for (auto& p : pool) {
        f.axisName[p.first] = p.first == 10 ? "hybrid" : "lev" + std::to_string(p.first);
        f.axisType[p.first] = p.first == 10 ? "double" : c.picks({"short", "float", "double", "int"});
    }
    f.inlineLevels = c.b(0.15);
    // producer restrictions
    bool global = c.b(0.2);
    if (global)
        f.global = c.picks({"prod=88", "prod=88:grid=1841"});
    std::vector<Field> fs;
    int nextMember = 0;
    for (size_t vi = 0; vi < f.vars.size(); vi++) {
        Var& v = f.vars[vi];
        std::vector<LP> ls;
        for (auto& l : pool[v.vc])
            if (c.b(0.8))
                ls.push_back(l);
        if (ls.empty())
            ls.push_back(pool[v.vc][0]);
        v.id = std::to_string(v.param) + "," + std::to_string(v.vc);
        if (c.b(0.25)) {
            v.onlyLevel = ls[0].first;
            v.id += "," + std::to_string(v.onlyLevel);
            c.label("level-in-id");
        }
        if (c.b(0.15)) {
            v.restrict = "prod=88";
            v.id += ":prod=88";
        }
        std::vector<int> mem(1, 0);
        if (v.eps) {
            int n = c.i(1, 3);
            if (n == 1)
                c.label("one-member");
            for (int k = 1; k < n; k++)
                mem.push_back(k * 2);
            for (auto& m : mem)
                m += c.i(0, 1);
            (void)nextMember;
        }
        std::vector<int> hs;
        for (int hh : hours)
            if (c.b(0.8))
                hs.push_back(hh);
        if (hs.empty() || (v.dtype == 4 && c.b(0.7)))
            hs.assign(1, hours[0]);
        size_t before = fs.size();
        for (int hh : hs)
            for (auto& l : ls)
                for (int m : mem) {
                    if (c.b(0.12) && !(fs.size() == before && hh == hs.back() && &l == &ls.back() && m == mem.back()))
                        continue;
                    Field x;
                    x.var = static_cast<int>(vi);
                    x.param = v.param;
                    x.vc = v.vc;
                    x.l1 = l.first;
                    x.l2 = v.eps ? m : l.second;
                    x.dtype = v.dtype;
                    x.ref = 0;
                    x.hours = hh;
                    if (nref == 2 && c.b()) { // same validity time from the other reference time
                        x.ref = 1;
                        int dh = static_cast<int>((epoch(f.refs[1]) - epoch(f.refs[0])) / 3600);
                        x.hours = hh - dh;
                    }
                    x.scale = v.type == "short" || c.b(0.7) ? v.scale : c.pick<int>({0, -1, -3});
                    x.misc = v.vc == 10 ? misc[l] : c.b(0.3) ? c.i(0, 99) : 0;
                    fs.push_back(x);
                    if (c.b(0.05)) { // the same field of another kind: the last in the file counts
                        x.dtype = v.dtype == 2 ? 1 : 2;
                        if (v.dtype != 4) {
                            fs.push_back(x);
                            c.label("two-kinds");
                        }
                    }
                    if (c.b(0.06)) { // another producer
                        x.prod = 77;
                        if (global || !v.restrict.empty())
                            fs.push_back(x);
                    }
                }
    }
    // not configured
    int nd = c.w({2, 1, 1}) == 0 ? 0 : c.i(1, 5);
    for (int i = 0; i < nd; i++) {
        Field x;
        do
            x.param = c.i(1, 999);
        while (used.count(x.param));
        x.vc = c.i(0, 12);
        x.l1 = c.i(0, 1000);
        x.hours = c.i(0, 500);
        fs.push_back(x);
    }
    auto p = c.perm(fs.size());
    for (auto i : p) {
        Field x = fs[i];
        x.data.resize(size_t(f.g.nx) * f.g.ny);
        if (big) {
            int s = c.i(0, 1 << 20);
            for (auto& d : x.data) {
                s = (s * 1103515245u + 12345u) & 0x7fffffff;
                d = static_cast<short>((s >> 8) % 65535 - 32767);
            }
        } else
            for (auto& d : x.data)
                d = static_cast<short>(c.b(0.12) ? -32767 : c.b(0.05) ? c.pick<int>({32767, -32766, 0}) : c.i(-3000, 3000));
        f.fields.push_back(x);
        f.invalidBefore.push_back(c.b(0.1) ? c.i(1, 3) : c.b(0.02) ? c.i(50, 80) : 0);
    }
    switch (c.w({3, 1, 1, 1})) {
    case 0: f.timeUnit = "seconds since 1970-01-01 00:00:00 +00:00"; break;
    case 1: f.timeUnit = "hours since 2000-01-01 12:00:00", f.unitSec = 3600, f.unitEpoch = 946728000; break;
    case 2: f.timeUnit = "days since 1900-01-01", f.unitSec = 86400, f.unitEpoch = -2208988800LL; break;
    case 3: break; // default: seconds since 1970
    }
    if (f.unitSec == 1 && c.b(0.3))
        f.timeType = "int";
    f.timeName = c.picks({"time", "t"});
    bool ll = f.g.type == 2;
    f.xName = ll ? "longitude" : c.picks({"x", "rlon"});
    f.yName = ll ? "latitude" : c.picks({"y", "rlat"});
    f.earth = c.b(0.1);
}

//! expected content from the order of the fields
void expected(File& f)
{
    for (size_t i = 0; i < f.fields.size(); i++) {
        const Field& x = f.fields[i];
        if (x.var < 0)
            continue;
        Var& v = f.vars[x.var];
        if (v.onlyLevel >= 0 && x.l1 != v.onlyLevel)
            continue;
        if (x.prod != 88 && (!v.restrict.empty() || !f.global.empty()))
            continue;
        if (v.first < 0)
            v.first = static_cast<int>(i);
        LP l(x.l1, v.eps ? 0 : x.l2);
        int m = v.eps ? x.l2 : 0;
        v.at[epoch(f.refs[x.ref]) + x.hours * 3600LL][l][m] = i;
        v.levels.insert(l);
        if (v.eps)
            v.members.insert(m);
    }
    for (auto& v : f.vars)
        v.timeless = v.dtype == 4 && v.at.size() == 1;
}

std::string write(Case& c, File& f)
{
    size_t entries = 0;
    for (int n : f.invalidBefore)
        entries += n;
    entries += f.fields.size();
    f.indexBlocks = (entries + 63) / 64;
    std::vector<short> idx(f.indexBlocks * 1024, 0), head(2048, 0);
    head[0] = static_cast<short>(c.pick<int>({997, 998, 999}));
    head[9] = static_cast<short>(f.fields.size());
    head[14] = static_cast<short>(f.status);
    for (int i = 1; i < 4; i++)
        head[i] = static_cast<short>(i);
    size_t block = 2 + f.indexBlocks + f.gapBlocks, off = 0; // next free word
    // the order of the data need not be that of the index
    auto order = c.perm(f.fields.size());
    for (auto i : order) {
        Field& x = f.fields[i];
        size_t len = 20 + x.data.size() + f.g.extra.size();
        if (!f.packed && off > 0)
            block++, off = 0;
        x.first = block * 1024 + off;
        x.last = x.first + len;
        block = x.last / 1024;
        off = x.last % 1024;
    }
    f.words = block * 1024 + off;
    size_t e = 0;
    for (size_t i = 0; i < f.fields.size(); i++) {
        for (int k = 0; k < f.invalidBefore[i]; k++, e++) {
            short* w = &idx[e * 16];
            for (int j = 0; j < 16; j++)
                w[j] = -32767;
        }
        const Field& x = f.fields[i];
        short* w = &idx[e++ * 16];
        const auto& r = f.refs[x.ref];
        size_t len = x.last - x.first, b = x.first / 1024, lx = 0, nx = 0;
        while (len > 32767)
            len -= 32767, lx++;
        while (b + 1 > 32767)
            b -= 32767, nx++;
        int gt = f.g.extra.empty() ? f.g.type : f.g.type * 1000 + static_cast<int>(f.g.extra.size());
        const int v[16] = {x.prod, x.grid, r[0], r[1] * 100 + r[2], r[3] * 100 + r[4], int(b + 1), int(x.first % 1024 + 1), int(len), x.dtype,
                           x.hours, x.vc, x.param, x.l1, x.l2, gt, int(lx * 100 + nx)};
        for (int j = 0; j < 16; j++)
            w[j] = static_cast<short>(v[j]);
    }
    auto put = [&](std::ofstream& o, const std::vector<short>& v) {
        std::vector<unsigned short> t(v.begin(), v.end());
        if (f.swap)
            for (auto& w : t)
                w = static_cast<unsigned short>((w >> 8) | (w << 8));
        o.write(reinterpret_cast<const char*>(t.data()), static_cast<std::streamsize>(t.size() * 2));
    };
    std::string name = c.tmpdir() + "/f.felt";
    unlink(name.c_str());
    std::ofstream o(name, std::ios::binary);
    put(o, head);
    put(o, idx);
    for (auto i : order) {
        const Field& x = f.fields[i];
        const auto& r = f.refs[x.ref];
        int gt = f.g.extra.empty() ? f.g.type : f.g.type * 1000 + static_cast<int>(f.g.extra.size());
        const int h[20] = {x.prod, x.grid, x.dtype, x.hours, x.vc, x.param, x.l1, x.l2, gt, f.g.nx, f.g.ny, r[0], r[1] * 100 + r[2], r[3] * 100 + r[4],
                           f.g.a + x.ga, f.g.b, f.g.c, f.g.d, x.misc, x.scale};
        std::vector<short> w(h, h + 20);
        w.insert(w.end(), x.data.begin(), x.data.end());
        w.insert(w.end(), f.g.extra.begin(), f.g.extra.end());
        o.seekp(static_cast<std::streamoff>(x.first * 2));
        put(o, w);
    }
    o.close();
    if (!o)
        throw Fail{"harness: cannot write"};
    return name;
}

std::string config(Case& c, const File& f)
{
    std::ostringstream s;
    s << "<?xml version=\"1.0\"?>\n<cdm_felt_config>\n";
    if (!f.delta.empty() || !f.global.empty()) {
        s << "<processOptions>";
        if (!f.delta.empty())
            s << "<option name=\"gridParameterDelta\" value=\"" << f.delta << "\"/>";
        if (!f.global.empty())
            s << "<option name=\"globalParameterRestrictions\" value=\"" << f.global << "\"/>";
        s << "</processOptions>\n";
    }
    if (f.earth)
        s << "<overrule><earthFigure proj4=\"+R=6378000\"/></overrule>\n";
    s << "<global_attributes><attribute name=\"title\" value=\"felt test\" type=\"string\"/>"
         "<attribute name=\"history\" value=\"none\" type=\"string\"/>"
         "<attribute name=\"min_time\" value=\"%MIN_DATETIME(%Y-%m-%d %H:%M:%SZ)%\" type=\"string\"/>"
         "<attribute name=\"max_time\" value=\"%MAX_DATETIME(%Y-%m-%d %H:%M:%SZ)%\" type=\"string\"/></global_attributes>\n<axes>\n";
    s << "<time id=\"time\" name=\"" << f.timeName << "\" type=\"" << f.timeType << "\">";
    if (!f.timeUnit.empty())
        s << "<attribute name=\"units\" value=\"" << f.timeUnit << "\" type=\"string\"/>";
    s << "</time>\n";
    for (int t = 1; t <= 6; t++)
        for (int y = 0; y < 2; y++)
            s << "<spatial_axis projection_felt_id=\"" << t << "\" id=\"" << (y ? "y" : "x") << "\" name=\"" << (t != f.g.type ? y ? "oy" : "ox" : y ? f.yName : f.xName)
              << "\" type=\"float\"><attribute name=\"units\" value=\"" << (t == 2 ? (y ? "degrees_north" : "degrees_east") : t == 3 ? "degrees" : "m")
              << "\" type=\"string\"/><attribute name=\"standard_name\" value=\""
              << (t == 2 ? (y ? "latitude" : "longitude") : t == 3 ? (y ? "grid_latitude" : "grid_longitude") : y ? "projection_y_coordinate" : "projection_x_coordinate")
              << "\" type=\"string\"/></spatial_axis>\n";
    s << "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>\n";
    for (auto& a : f.axisName) {
        s << "<vertical_axis id=\"" << a.second << "\" name=\"" << a.second << "\" felt_id=\"" << a.first << "\" type=\"" << f.axisType.at(a.first) << "\">";
        if (a.first == 10)
            s << "<values mode=\"hybridSigmaCalc(ap,b)\"/>"
                 "<additional_axis_variable name=\"ap\" type=\"double\" axis=\"hybrid\"><values mode=\"level2\" scale_factor=\"10.\"/></additional_axis_variable>"
                 "<additional_axis_variable name=\"b\" type=\"double\" axis=\"hybrid\"><values mode=\"hybridLevels\" scale_factor=\"0.0001\"/>"
                 "<attribute name=\"units\" value=\"1\" type=\"string\"/></additional_axis_variable>";
        else if (f.inlineLevels) {
            std::set<LP> l;
            for (auto& v : f.vars)
                if (v.vc == a.first)
                    l.insert(v.levels.begin(), v.levels.end());
            s << "<values>";
            int k = 0;
            for (auto& x : l) {
                (void)x;
                s << (k ? " " : "") << 7 * k + 3, k++;
            }
            s << "</values>";
        }
        s << "<attribute name=\"long_name\" value=\"vertical " << a.first << "\" type=\"string\"/></vertical_axis>\n";
    }
    s << "</axes>\n<variables>\n<parameter id=\"1999,7\" name=\"not_there\"/>\n";
    auto p = c.perm(f.vars.size());
    for (auto i : p) {
        const Var& v = f.vars[i];
        s << "<parameter id=\"" << v.id << "\" name=\"" << v.name << "\"";
        if (v.type != "short" || c.b())
            s << " type=\"" << v.type << "\"";
        s << "><attribute name=\"units\" value=\"1\" type=\"string\"/>";
        if (v.hasFill)
            s << "<attribute name=\"_FillValue\" value=\"" << g17(v.fill) << "\" type=\"" << v.type << "\"/>";
        if (v.cfgScale != 0)
            s << "<attribute name=\"scale_factor\" value=\"" << g17(v.cfgScale) << "\" type=\"float\"/>";
        s << "</parameter>\n";
    }
    s << "</variables>\n</cdm_felt_config>\n";
    return s.str();
}

CDMReader_p open(const std::string& name, const std::string& cfg)
{
    return CDMFileReaderFactory::create("felt", name, XMLInputString(cfg), std::vector<std::string>());
}

std::vector<int64_t> times(const File& f)
{
    std::set<int64_t> t;
    for (auto& v : f.vars)
        if (!v.timeless)
            for (auto& a : v.at)
                t.insert(a.first);
    return std::vector<int64_t>(t.begin(), t.end());
}

std::vector<LP> levelsOf(const File& f, int vc)
{
    std::set<LP> l;
    for (auto& v : f.vars)
        if (v.vc == vc)
            l.insert(v.levels.begin(), v.levels.end());
    return std::vector<LP>(l.begin(), l.end());
}

std::vector<int> membersOf(const File& f)
{
    std::set<int> m;
    for (auto& v : f.vars)
        m.insert(v.members.begin(), v.members.end());
    return std::vector<int>(m.begin(), m.end());
}

bool hasLevelAxis(const Var& v)
{
    if (v.levels.size() != 1)
        return true;
    int l = v.levels.begin()->first;
    return !((v.vc == 2 && (l == 1000 || l == 850 || l == 500 || l == 300)) || v.vc == 8 || v.vc == 3 || v.vc == 0);
}

double cfgFill(const Var& v)
{
    return v.type == "float" ? static_cast<double>(static_cast<float>(v.fill)) : v.fill;
}

//! expected values of one slice; empty: no data. used: the fields needed
dvec slice(const File& f, const Var& v, int64_t t, std::vector<size_t>* used = 0)
{
    dvec r;
    auto ti = v.timeless ? v.at.begin() : v.at.find(t);
    if (ti == v.at.end())
        return r;
    std::vector<LP> ls = hasLevelAxis(v) ? levelsOf(f, v.vc) : std::vector<LP>(v.levels.begin(), v.levels.end());
    std::vector<int> ms = v.members.size() > 1 ? membersOf(f) : v.members.empty() ? std::vector<int>(1, 0) : std::vector<int>(1, *v.members.begin());
    size_t n = size_t(f.g.nx) * f.g.ny;
    for (auto& l : ls)
        for (int m : ms) {
            auto li = ti->second.find(l);
            const Field* x = 0;
            if (li != ti->second.end() && li->second.count(m)) {
                x = &f.fields[li->second.at(m)];
                if (used)
                    used->push_back(li->second.at(m));
            }
            for (size_t i = 0; i < n; i++)
                r.push_back(!x || x->data[i] == -32767 ? NAN : v.type == "short" ? x->data[i] : x->data[i] * std::pow(10., x->scale));
        }
    return r;
}

void compare(Case& c, const Var& v, const dvec& want, DataPtr d, const std::string& what)
{
    c.check(bool(d), what + ": no data object");
    c.check(d->size() == want.size(), what + ": " + std::to_string(d->size()) + " values instead of " + std::to_string(want.size()));
    if (want.empty())
        return;
    auto a = d->asDouble();
    for (size_t i = 0; i < want.size(); i++) {
        double w = std::isnan(want[i]) ? cfgFill(v) : want[i];
        bool ok = v.type == "short" || std::isnan(want[i]) ? a[i] == w : close(a[i], w, v.type == "float" ? 1e-6 : 1e-12, 1e-30);
        if (!ok)
            c.fail(what + " value " + std::to_string(i) + ": " + g17(a[i]) + " instead of " + g17(w));
    }
}

std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v)
        s += (s.empty() ? "" : ",") + x;
    return s;
}

void show(Case& c, const File& f)
{
    c.show() << gridTypeLabel(f.g.type) << " " << f.g.nx << "x" << f.g.ny << " " << (f.swap ? "swapped " : "") << (f.packed ? "packed " : "") << "gap " << f.gapBlocks
             << "\n";
    for (auto& v : f.vars)
        c.show() << "  " << v.name << " id=" << v.id << " " << v.type << " fill " << (v.hasFill ? g17(v.fill) : "default") << " scale " << v.scale << " dtype " << v.dtype
                 << "\n";
    for (auto& x : f.fields)
        c.show() << "  field " << x.param << " vc " << x.vc << " lev " << x.l1 << "," << x.l2 << " +" << x.hours << "h ref " << x.ref << " dtype " << x.dtype << " scale "
                 << x.scale << " words " << x.first << ".." << x.last << "\n";
}

bool emptyVar(const Var& v)
{
    return v.at.empty();
}

void prepare(File& f)
{
    expected(f);
    // without any field, the variable is not there
    std::map<int, bool> seen;
    for (auto& v : f.vars)
        if (!emptyVar(v))
            seen[v.vc] = true;
}

void fields(Case& c)
{
    File f;
    gen(c, f);
    prepare(f);
    bool any = false;
    for (auto& v : f.vars)
        any = any || !emptyVar(v);
    c.assume(any);
    std::string name = write(c, f), cfg = config(c, f);
    show(c, f);
    CDMReader_p r = open(name, cfg);
    const CDM& cdm = r->getCDM();
    if (f.fields.size() > 1)
        c.nontrivial();
    // axes
    auto ts = times(f);
    auto vals = [&](const std::string& n) {
        c.check(cdm.hasVariable(n), "no variable " + n);
        DataPtr d = r->getData(n);
        c.check(bool(d), "no data of " + n);
        auto a = d->asDouble();
        return dvec(&a[0], &a[0] + d->size());
    };
    auto cmp = [&](const std::string& n, const dvec& want, double rel, double abs) {
        dvec got = vals(n);
        c.check(got.size() == want.size(), n + " has " + std::to_string(got.size()) + " values instead of " + std::to_string(want.size()));
        for (size_t i = 0; i < want.size(); i++)
            if (!close(got[i], want[i], rel, abs))
                c.fail(n + "[" + std::to_string(i) + "] = " + g17(got[i]) + " instead of " + g17(want[i]));
    };
    c.check(cdm.hasDimension(f.timeName) && cdm.getDimension(f.timeName).isUnlimited(), "the time dimension is not unlimited");
    c.check(cdm.getDimension(f.timeName).getLength() == ts.size(), "time has " + std::to_string(cdm.getDimension(f.timeName).getLength()) + " steps instead of " + std::to_string(ts.size()));
    dvec tw;
    for (auto t : ts)
        tw.push_back((t - f.unitEpoch) / f.unitSec);
    if (!ts.empty())
        cmp(f.timeName, tw, 1e-12, 1e-7);
    std::set<int> refs;
    for (auto& v : f.vars)
        for (auto& a : v.at)
            for (auto& l : a.second)
                for (auto& m : l.second)
                    refs.insert(f.fields[m.second].ref);
    c.check(cdm.hasVariable("forecast_reference_time") == (refs.size() == 1),
            refs.size() == 1 ? "the only reference time is not shown" : "a reference time is shown although there are several");
    if (refs.size() == 1)
        cmp("forecast_reference_time", dvec(1, (epoch(f.refs[*refs.begin()]) - f.unitEpoch) / f.unitSec), 1e-12, 1e-7);
    else
        c.label("two-reference-times");
    if (!ts.empty())
        for (int k = 0; k < 2; k++) {
            int64_t t = k ? ts.back() : ts.front();
            std::string b = cal::fromEpochMs(t * 1000).iso() + "Z";
            CDMAttribute a;
            c.check(cdm.getAttribute(cdm.globalAttributeNS(), k ? "max_time" : "min_time", a), "template attribute missing");
            c.check(a.getStringValue() == b, "time attribute " + a.getStringValue() + " instead of " + b);
        }
    // coordinates: float start and increment of the original parameters
    double mx = 0, my = 0;
    for (double x : f.g.x)
        mx = std::max(mx, std::fabs(x));
    for (double y : f.g.y)
        my = std::max(my, std::fabs(y));
    // Mercator and Lambert: the origin is given in degrees, kept as float
    double at = f.g.type >= 5 ? 3 : 1e-5;
    cmp(f.xName, f.g.x, 0, mx * 3e-6 + at);
    cmp(f.yName, f.g.y, 0, my * 3e-6 + at);
    // levels
    for (auto& a : f.axisName) {
        auto l = levelsOf(f, a.first);
        if (l.empty())
            continue;
        dvec w;
        if (a.first == 10) {
            dvec ap, b;
            for (auto& x : l) {
                ap.push_back(x.second * 10.);
                for (auto& fd : f.fields)
                    if (fd.vc == 10 && fd.var >= 0 && fd.l1 == x.first && fd.l2 == x.second) {
                        b.push_back(fd.misc * 0.0001);
                        break;
                    }
                w.push_back(ap.back() / 100000 + b.back());
            }
            cmp("ap", ap, 1e-9, 1e-9);
            cmp("b", b, 1e-6, 1e-9);
            c.label("hybrid");
        } else
            for (size_t k = 0; k < l.size(); k++)
                w.push_back(f.inlineLevels ? 7. * k + 3 : l[k].first);
        cmp(a.second, w, 1e-6, 1e-9);
    }
    auto mem = membersOf(f);
    c.check(cdm.hasDimension("ensemble_member") == !mem.empty(), "ensemble_member");
    if (!mem.empty()) {
        cmp("ensemble_member", dvec(mem.begin(), mem.end()), 0, 0);
        c.label("ensemble");
    }
    // longitude and latitude
    if (f.g.type != 2) {
        Pj pj(f.earth ? f.g.proj4.substr(0, f.g.proj4.find(" +R")) + " +R=6378000" : f.g.proj4, std::string("+proj=latlong ") + (f.earth ? "+R=6378000" : "+R=6371000"));
        dvec lon = vals("longitude"), lat = vals("latitude");
        c.check(lon.size() == size_t(f.g.nx) * f.g.ny && lat.size() == lon.size(), "size of longitude and latitude");
        for (int k = 0; k < 4; k++) {
            int i = k & 1 ? f.g.nx - 1 : 0, j = k & 2 ? f.g.ny - 1 : 0;
            double x = f.g.x[i], y = f.g.y[j];
            if (!pj.fwd(x, y))
                continue;
            double gx = lon[j * f.g.nx + i], gy = lat[j * f.g.nx + i];
            // as points on the sphere, coordinates are floats
            double tol = f.g.type == 3 ? 2e-4 : 2e-4 + (mx + my) * 5e-6 / 1e5;
            auto v3 = [](double lo, double la, double* v) {
                lo *= M_PI / 180, la *= M_PI / 180;
                v[0] = std::cos(la) * std::cos(lo), v[1] = std::cos(la) * std::sin(lo), v[2] = std::sin(la);
            };
            double a[3], b[3], d = 0;
            v3(x, y, a), v3(gx, gy, b);
            for (int q = 0; q < 3; q++)
                d += (a[q] - b[q]) * (a[q] - b[q]);
            if (std::sqrt(d) * 180 / M_PI > tol * 2)
                c.fail("grid point " + std::to_string(i) + "," + std::to_string(j) + " is at " + g17(gx) + "," + g17(gy) + " instead of " + g17(x) + "," + g17(y));
        }
    }
    // variables
    c.check(!cdm.hasVariable("not_there"), "a variable without fields");
    bool gap = false;
    for (auto& v : f.vars) {
        c.check(cdm.hasVariable(v.name) == !emptyVar(v), v.name + (emptyVar(v) ? " is there without any field" : " is not there"));
        if (emptyVar(v))
            continue;
        const CDMVariable& cv = cdm.getVariable(v.name);
        std::vector<std::string> shape = {f.xName, f.yName};
        if (v.members.size() > 1)
            shape.push_back("ensemble_member");
        if (hasLevelAxis(v))
            shape.push_back(f.axisName[v.vc]);
        if (!v.timeless)
            shape.push_back(f.timeName);
        if (v.timeless)
            c.label("timeless");
        c.check(cv.getShape() == shape, v.name + " has dimensions " + join(cv.getShape()) + " instead of " + join(shape));
        c.check(cv.getDataType() == (v.type == "short" ? CDM_SHORT : v.type == "float" ? CDM_FLOAT : CDM_DOUBLE), "type of " + v.name);
        double sc = (v.cfgScale != 0 ? v.cfgScale : 1) * (v.type == "short" ? std::pow(10., v.scale) : 1);
        CDMAttribute at;
        if (cdm.getAttribute(v.name, "scale_factor", at))
            c.check(close(at.getData()->asDouble()[0], sc, 1e-6, 0), v.name + " scale_factor " + g17(at.getData()->asDouble()[0]) + " instead of " + g17(sc));
        else
            c.check(sc == 1, v.name + " has no scale_factor " + g17(sc));
        c.check(close(cdm.getFillValue(v.name), cfgFill(v), 1e-7, 0), "fill value of " + v.name);
        if (v.timeless)
            compare(c, v, slice(f, v, 0), r->getDataSlice(v.name, 0), v.name);
        else
            for (size_t k : c.perm(ts.size())) {
                dvec w = slice(f, v, ts[k]);
                gap = gap || w.empty();
                compare(c, v, w, r->getDataSlice(v.name, k), v.name + " at time " + std::to_string(k));
            }
        if (!v.timeless && c.b(0.3)) {
            bool thrown = false;
            try {
                r->getDataSlice(v.name, ts.size() + c.i(0, 2));
            } catch (std::exception&) {
                thrown = true;
            }
            c.check(thrown, v.name + " read beyond the last time");
        }
    }
    if (gap)
        c.label("absent-time");
    unlink(name.c_str());
}

//! a file cut short: what is lost is reported, what is there is read
void cut(Case& c)
{
    File f;
    gen(c, f, true);
    prepare(f);
    bool any = false;
    for (auto& v : f.vars)
        any = any || !emptyVar(v);
    c.assume(any);
    std::string name = write(c, f), cfg = config(c, f);
    show(c, f);
    size_t data = (2 + f.indexBlocks) * 2048;
    size_t bytes = f.words * 2;
    size_t at = 0;
    switch (c.w({1, 1, 2, 8})) {
    case 0: at = c.i(0, 4095); break;
    case 1: at = c.i(2048, int(data) - 1); break;
    case 2: at = data + c.i(0, int(bytes - data) - 1); break;
    case 3: at = bytes - 1 - c.i(0, int(bytes - data) / 3); break;
    }
    c.show() << "cut to " << at << " of " << bytes << " bytes\n";
    if (truncate(name.c_str(), static_cast<off_t>(at)) != 0)
        throw Fail{"harness: truncate"};
    CDMReader_p r;
    try {
        r = open(name, cfg);
    } catch (std::exception& e) {
        c.label("refused");
        unlink(name.c_str());
        return;
    }
    c.check(at >= data, "a file with an incomplete index is accepted");
    c.label("opened");
    c.nontrivial();
    auto ts = times(f);
    for (auto& v : f.vars) {
        if (emptyVar(v))
            continue;
        c.check(r->getCDM().hasVariable(v.name), v.name + " is not there");
        size_t n = v.timeless ? 1 : ts.size();
        for (size_t k : c.perm(n)) {
            std::vector<size_t> used;
            dvec w = slice(f, v, v.timeless ? 0 : ts[k], &used);
            bool lost = false;
            for (size_t i : used)
                lost = lost || f.fields[i].last * 2 > at;
            DataPtr d;
            bool thrown = false;
            try {
                d = r->getDataSlice(v.name, k);
            } catch (std::exception&) {
                thrown = true;
            }
            bool gridLost = f.fields[v.first].last * 2 > at;
            c.check(!thrown || lost || (gridLost && !used.empty()), v.name + " complete in the file but cannot be read");
            if (thrown)
                c.label("reported");
            else if (lost)
                c.fail(v.name + " at " + std::to_string(k) + ": missing part of the file read as data");
            else
                compare(c, v, w, d, v.name + " at time " + std::to_string(k));
        }
    }
    unlink(name.c_str());
}

//! grids that differ within a variable, changing scale of integers, files being written
void refuse(Case& c)
{
    File f;
    gen(c, f, true);
    int kind = c.w({3, 3, 2, 1});
    int delta = 0, change = 0;
    size_t victim = 0;
    if (kind == 0) {
        delta = c.pick<int>({0, 0, 3, 8});
        change = c.i(1, 10);
        f.g.extra.clear();
        f.g.type = c.pick<int>({1, 2, 4});
        f.g.proj4 = "+";
        if (f.g.type == 2)
            f.g.a = 1000, f.g.b = 1000, f.g.c = 50, f.g.d = 50;
        else
            f.g.a = 1000, f.g.b = 1000, f.g.c = 500, f.g.d = 0;
        f.xName = f.g.type == 2 ? "longitude" : "x";
        f.yName = f.g.type == 2 ? "latitude" : "y";
        // first parameter counts hundredths: latitude (second grid parameter) or x of the pole (first)
        if (delta) {
            std::string d = std::to_string(delta * 0.01 + 0.002);
            f.delta = f.g.type == 2 ? "0 " + d + " 0 0 0 0" : d + " 0 0 0 0 0";
        }
    }
    expected(f);
    std::vector<size_t> cand;
    // the first field of a variable in the file defines its grid
    for (size_t vi = 0; vi < f.vars.size(); vi++) {
        bool first = true;
        for (size_t i = 0; i < f.fields.size(); i++) {
            const Field& x = f.fields[i];
            bool used = false;
            if (x.var != int(vi))
                continue;
            bool configured = false;
            for (auto& a : f.vars[vi].at)
                for (auto& l : a.second)
                    for (auto& m : l.second)
                        used = used || m.second == i;
            configured = (f.vars[vi].onlyLevel < 0 || x.l1 == f.vars[vi].onlyLevel) && x.prod == 88;
            if (!configured)
                continue;
            if (!first && used && (kind != 1 || f.vars[vi].type == "short"))
                cand.push_back(i);
            first = false;
        }
    }
    if (kind <= 1) {
        c.assume(!cand.empty());
        victim = cand[c.idx(cand.size())];
        if (kind == 0)
            f.fields[victim].ga = static_cast<short>(change);
        else
            f.fields[victim].scale += c.pick<int>({-1, 1, 2});
    }
    bool any = false;
    for (auto& v : f.vars)
        any = any || !emptyVar(v);
    c.assume(any);
    if (kind == 2)
        f.status = 1;
    std::string name = write(c, f), cfg = config(c, f);
    show(c, f);
    if (kind == 3) {
        unlink(name.c_str());
        std::ofstream(name) << (c.b() ? "" : "CDF\1 no felt file");
    }
    c.show() << "kind " << kind << " field " << victim << " change " << change << " delta " << delta << "\n";
    CDMReader_p r;
    try {
        r = open(name, cfg);
    } catch (std::exception& e) {
        if (kind < 2)
            c.fail(std::string("refused: ") + e.what());
        c.label(kind == 2 ? "being-written" : "no-felt");
        unlink(name.c_str());
        return;
    }
    c.check(kind < 2, kind == 2 ? "a file being written is read" : "a file that is not FELT is read");
    c.label(kind == 0 ? "grid" : "scale");
    c.nontrivial();
    bool bad = kind == 1 || change > delta;
    c.label(bad ? "refused" : "allowed");
    auto ts = times(f);
    for (auto& v : f.vars) {
        if (emptyVar(v))
            continue;
        size_t n = v.timeless ? 1 : ts.size();
        for (size_t k = 0; k < n; k++) {
            std::vector<size_t> used;
            dvec w = slice(f, v, v.timeless ? 0 : ts[k], &used);
            bool hit = bad && std::count(used.begin(), used.end(), victim);
            DataPtr d;
            bool thrown = false;
            try {
                d = r->getDataSlice(v.name, k);
            } catch (std::exception&) {
                thrown = true;
            }
            c.check(thrown == hit, v.name + " at " + std::to_string(k) + (hit ? ": a field that does not fit is read" : ": cannot be read"));
            if (!thrown)
                compare(c, v, w, d, v.name + " at time " + std::to_string(k));
        }
    }
    unlink(name.c_str());
}
} // namespace

std::string projDb;

//! contexts created before do without the database; the default context needs it for EPSG:4326
// a file with damaged words is refused or read, with a plausible number of values; memory errors and hangs are what this looks for
void damaged(Case& c)
{
    File f;
    gen(c, f, true);
    prepare(f);
    std::string name = write(c, f), cfg = config(c, f);
    show(c, f);
    std::fstream o(name, std::ios::binary | std::ios::in | std::ios::out);
    const int n = c.i(1, 4);
    for (int k = 0; k < n; ++k) {
        size_t word;
        bool small = false;
        switch (c.w({1, 4, 5, 1})) {
        case 0: word = c.i(0, 20); break;
        case 1: word = 2048 + c.i(0, int(f.fields.size()) * 16 + 15); break;
        case 2: {
            const int w = c.i(0, 19);
            word = f.fields[c.idx(f.fields.size())].first + w;
            small = w == 9 || w == 10; // a large grid needs memory, that is no error
            break;
        }
        default: word = c.i(0, int(f.words) - 1);
        }
        short value = small ? short(c.pick({0, 1, 2, 3, 5, 17, -1, -32767, 60})) : short(c.b(0.5) ? c.pick({0, 1, -1, 2, -32767, -32768, 32767, 1000, 999, 1024, 100}) : c.i(-32768, 32767));
        c.show() << "word " << word << "=" << value << " ";
        unsigned short u = value;
        if (f.swap)
            u = (unsigned short)((u >> 8) | (u << 8));
        o.seekp(std::streamoff(word * 2));
        o.write(reinterpret_cast<const char*>(&u), 2);
    }
    o.close();
    bool opened = false;
    try {
        CDMReader_p r = open(name, cfg);
        opened = true;
        for (auto& v : r->getCDM().getVariables()) {
            const bool un = r->getCDM().hasUnlimitedDim(v);
            size_t recs = un ? r->getCDM().getUnlimitedDim()->getLength() : 1, size = 1;
            for (auto& d : v.getShape())
                if (!un || d != r->getCDM().getUnlimitedDim()->getName())
                    size *= r->getCDM().getDimension(d).getLength();
            for (size_t k = 0; k < recs && k < 6; ++k) {
                DataPtr d;
                try {
                    d = r->getDataSlice(v.getName(), k);
                } catch (std::exception& e) {
                    continue;
                }
                c.check(!d || d->size() == 0 || d->size() == size, v.getName() + " has " + std::to_string(d ? d->size() : 0) + " values, expected " + std::to_string(size));
            }
        }
    } catch (std::exception& e) {
    }
    c.label(opened ? "opened" : "refused");
    c.nontrivial(opened);
    unlink(name.c_str());
}

void start()
{
    quiet();
    double x = 10, y = 60;
    reproject::reproject_values("+proj=latlong +R=6371000 +no_defs", "+proj=merc +R=6371000 +no_defs", &x, &y, 1);
    Pj pj("+proj=latlong +R=6371000", "+proj=merc +R=6371000");
    if (!projDb.empty())
        proj_context_set_database_path(0, projDb.c_str(), 0, 0);
}

int main(int argc, char** argv)
{
    {
        PJ_CONTEXT* ctx = proj_context_create();
        const char* p = proj_context_get_database_path(ctx);
        projDb = p ? p : "";
        proj_context_destroy(ctx);
        noProjDatabase();
    }
    Runner r("C26", "the file holds several fields; for cut files, the file can still be opened; for refusals, the field in question belongs to a readable variable");
    r.init(start);
    r.assumption("every field of a file has the same number of points");
    r.sub("fields", fields, 4000, 60000);
    r.sub("cut", cut, 2500, 40000);
    r.sub("refuse", refuse, 2500, 30000);
    r.sub("damaged", damaged, 2500, 60000);
    return r.main(argc, argv);
}
