// C16: times, time units, time and axis specifications, units
#include "fx.h"
#include "cal.h"
#include "fimex/TimeSpec.h"
#include "fimex/TimeUnit.h"
#include "fimex/TimeUtils.h"
#include "fimex/TokenizeDotted.h"
#include "fimex/Units.h"
#include "fimex/UnitsConverter.h"
#include "fimex/UnitsException.h"
#include <cstdio>

// both headers use the same include guard
#undef TIMESPEC_H_
#include "fimex/SpatialAxisSpec.h"

using namespace fx;
using namespace pbt;
using namespace cal;

static void timeUnit(Case& c)
{
    TU u = genTU(c);
    T t = genTime(c);
    c.show() << "unit '" << u.text << "', time " << t.iso(' ', true) << "\n";
    TimeUnit tu(u.text);
    const double exact = (t.epochMs() - u.ref) / (1000. * u.step); // the value of t in the unit
    const double secs = std::fabs(exact) * u.step;
    const double tolS = 1e-5 + secs * 1e-14 + std::fabs(t.epochMs() / 1000.) * 1e-14; // rounding of doubles, milliseconds are 1e-3
    c.nontrivial(t.epochMs() != u.ref && u.ref != 0);
    const double uv = tu.fimexTime2unitTime(t.fimex());
    c.check(close(uv, exact, 0, tolS / u.step), "fimexTime2unitTime(" + t.iso(' ', true) + ") = " + num(uv) + ", expected " + num(exact));
    const FimexTime back = tu.unitTime2fimexTime(exact);
    c.check(eq(back, t), "unitTime2fimexTime(" + num(exact) + ") = " + str(back) + ", expected " + t.iso(' ', true));
    const FimexTime rt = tu.unitTime2fimexTime(uv);
    c.check(eq(rt, t), "round trip gives " + str(rt) + ", expected " + t.iso(' ', true));
    const double es = tu.unitTime2epochSeconds(exact);
    c.check(close(es, t.epochMs() / 1000., 0, 1e-4 + secs * 1e-11), "unitTime2epochSeconds = " + num(es) + ", expected " + num(t.epochMs() / 1000.));
    const double ue = tu.epochSeconds2unitTime(t.epochMs() / 1000.);
    c.check(close(ue, exact, 1e-11, 1e-4 / u.step), "epochSeconds2unitTime = " + num(ue) + ", expected " + num(exact));
    if (t.ms == 0) {
        c.check(fimexTime2epochTime(t.fimex()) == t.epochMs() / 1000, "fimexTime2epochTime = " + std::to_string(fimexTime2epochTime(t.fimex())));
    }
    // special values
    c.check(std::isnan(tu.fimexTime2unitTime(FimexTime(2000, 13, 1))), "invalid time is not NaN");
    c.check(tu.fimexTime2unitTime(FimexTime(2000, 13, 1), 17.) == 17., "invalid time is not the given value");
    c.check(tu.fimexTime2unitTime(FimexTime(FimexTime::min_date_time)) < uv && tu.fimexTime2unitTime(FimexTime(FimexTime::max_date_time)) > uv, "special times are not the extremes");
    // two units
    TU u2 = genTU(c);
    double slope, offset;
    Units().convert(u.text, u2.text, slope, offset);
    const double e2 = (t.epochMs() - u2.ref) / (1000. * u2.step);
    c.check(close(exact * slope + offset, e2, 1e-10, (1e-4 + 1e-10 * std::fabs(u.ref - u2.ref) / 1000) / u2.step), "convert to '" + u2.text + "': " + num(exact * slope + offset) + ", expected " + num(e2));
    c.check(Units().isTime(u.text) && Units().areConvertible(u.text, u2.text) && !Units().isTime("s") && !Units().isTime("m"), "isTime");
}

static void fimexTime(Case& c)
{
    T a = genTime(c), b = c.b(0.3) ? a : genTime(c);
    if (c.b(0.4)) { // close neighbours
        b = a;
        int f = c.idx(7);
        T n = genTime(c);
        (f == 0 ? b.y : f == 1 ? b.h : f == 2 ? b.mi : f == 3 ? b.s : f == 4 ? b.ms : f == 5 ? b.d : b.mo) = f == 0 ? n.y : f == 1 ? n.h : f == 2 ? n.mi : f == 3 ? n.s : f == 4 ? n.ms : f == 5 ? std::min(n.d, 28) : n.mo;
        b.d = std::min(b.d, daysIn(b.y, b.mo));
    }
    c.show() << a.iso(' ', true) << " " << b.iso(' ', true) << "\n";
    c.nontrivial(a.epochMs() != b.epochMs());
    const FimexTime fa = a.fimex(), fb = b.fimex();
    const int64_t ea = a.epochMs(), eb = b.epochMs();
    c.check((fa < fb) == (ea < eb) && (fa > fb) == (ea > eb) && (fa == fb) == (ea == eb) && (fa != fb) == (ea != eb) && (fa <= fb) == (ea <= eb) && (fa >= fb) == (ea >= eb), "comparison of " + a.iso(' ', true) + " and " + b.iso(' ', true));
    const FimexTime lo(FimexTime::min_date_time), hi(FimexTime::max_date_time);
    c.check(lo < fa && fa < hi && lo < hi, "special times are not the extremes");
    c.check(FimexTime::fromEncoded(fa.toEncoded()) == fa && eq(FimexTime::fromEncoded(fa.toEncoded()), a), "encoding: " + str(FimexTime::fromEncoded(fa.toEncoded())));
    c.check((fa.toEncoded() < fb.toEncoded()) == (ea < eb), "order of encodings");
    // text
    std::ostringstream o;
    o << fa;
    c.check(o.str() == a.iso('T', a.ms > 0), "printed as " + o.str());
    c.check(make_time_string_extended(fa) == o.str(), "make_time_string_extended " + make_time_string_extended(fa));
    c.check(eq(string2FimexTime(o.str()), a), "parsing " + o.str() + ": " + str(string2FimexTime(o.str())));
    std::string text = a.iso(c.b() ? ' ' : 'T');
    T e = a;
    e.ms = 0;
    switch (c.idx(5)) {
    case 0: break;
    case 1: text = text.substr(0, 16), e.s = 0; break;
    case 2: text = text.substr(0, 10), e.h = e.mi = e.s = 0; break;
    case 3: {
        const int digits = c.i(1, 6);
        const int64_t f = c.i(0, std::pow(10, digits) - 1);
        char b2[16];
        snprintf(b2, sizeof b2, ".%0*ld", digits, (long)f);
        text += b2;
        e.ms = f * 1000 / std::pow(10, digits);
        break;
    }
    default: text = "  " + text + " ";
    }
    c.show() << "parse '" << text << "'\n";
    FimexTime p;
    c.check(p.parseISO8601(text), "not parsed: " + text);
    T e1 = e;
    e1.ms = std::min(999, e.ms + 1); // rounded or truncated
    c.check(eq(p, e) || (text.size() > 23 && eq(p, e1)), "parsed " + text + " as " + str(p) + ", expected " + e.iso(' ', true));
    FimexTime bad;
    for (const char* s : {"", "  ", "2000", "12:00", "2000-01", "2000-01-01 10", "2000-01-01 10:00:00 x"}) {
        bool ok;
        try {
            ok = bad.parseISO8601(s);
        } catch (std::exception&) {
            ok = false;
        }
        c.check(!ok, std::string("accepted '") + s + "'");
    }
    // points in time
    const int64_t sec = (ea - a.ms) / 1000;
    const time_point tp = asTimePoint(fa);
    c.check(timePoint2epochTime(tp) == sec, "asTimePoint is " + std::to_string(timePoint2epochTime(tp)) + ", expected " + std::to_string(sec));
    c.check(tp == make_time_point(a.y, a.mo, a.d, a.h, a.mi, a.s) && tp == make_time_from_timet(sec) && tp == make_time_from_string(a.iso()), "make_time_*");
    T a0 = a;
    a0.ms = 0;
    c.check(eq(fromTimePoint(tp), a0), "fromTimePoint " + str(fromTimePoint(tp)));
    c.check(make_time_string_extended(tp) == a0.iso('T'), "time string " + make_time_string_extended(tp));
    std::string shorts = a0.iso('T');
    shorts.erase(std::remove_if(shorts.begin(), shorts.end(), [](char k) { return k == '-' || k == ':'; }), shorts.end());
    c.check(make_time_string(tp) == shorts && make_time_string(fa) == shorts, "short time string " + make_time_string(tp) + " " + make_time_string(fa));
    c.check(!is_invalid_time_point(tp) && is_invalid_time_point(asTimePoint(FimexTime(2000, 13, 1))) && is_invalid_time_point(make_time_from_string("")), "invalid time points");
}

// list "v0,v1,...,vn,w" with expected values
struct Spec
{
    std::string text;
    dvec values;
};

static std::string ntext(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.10g", v);
    return b;
}

static void tokens(Case& c)
{
    const int kind = c.idx(3);
    std::string text;
    dvec exp;
    const double unit = kind == 0 ? 1 : c.pick({1., 0.5, 0.1, 0.01, 1000., 0.3});
    auto val = [&](int64_t k) { return k * unit; };
    auto add = [&](int64_t k) {
        text += (text.empty() ? "" : ",") + ntext(val(k));
        exp.push_back(val(k));
    };
    int64_t cur = c.i(-20, 20);
    const int groups = c.i(1, 3);
    for (int g = 0; g < groups; ++g) {
        if (c.b(0.6)) {
            int64_t step = c.i(1, 6) * (c.b(0.3) ? -1 : 1);
            add(cur);
            add(cur + step);
            int64_t n = c.i(0, 25);
            int64_t end = cur + step * (n + 1) + (step > 0 ? 1 : -1) * c.i(0, std::abs(step) - 1); // not always a multiple
            for (int64_t v = cur + 2 * step; step > 0 ? v < end : v > end; v += step)
                exp.push_back(val(v));
            text += ",...";
            add(end);
            cur = end;
            c.nontrivial();
        } else {
            for (int k = c.i(1, 3); k > 0; --k)
                add(cur = c.i(-30, 30));
        }
        cur += c.i(-9, 9);
    }
    c.show() << "'" << text << "'\n";
    dvec got;
    if (kind == 0) {
        for (int v : tokenizeDotted<int>(text))
            got.push_back(v);
    } else if (kind == 1) {
        got = tokenizeDotted<double>(text);
    } else {
        SpatialAxisSpec s(text);
        c.check(!s.requireStartEnd(), "absolute axis needs start and end");
        got = s.getAxisSteps();
    }
    c.check(got.size() == exp.size(), "'" + text + "' has " + std::to_string(got.size()) + " values " + vec(got) + ", expected " + vec(exp));
    for (size_t k = 0; k < exp.size(); ++k)
        c.check(close(got[k], exp[k], 1e-12, 1e-9 * unit), "'" + text + "': value " + std::to_string(k) + " is " + num(got[k]) + ", expected " + num(exp[k]));
}

static void badTokens(Case& c)
{
    const std::string text = c.picks({"...,5", "1,...,5", "...", "1,2,...,5a", "a", "1,2,x", "1,,2b", "1,2,...", "3,4,5,...", "5,5,...,3", "0,0,...,4", "2,2,...,2"});
    c.show() << "'" << text << "'\n";
    c.nontrivial();
    dvec got;
    try {
        got = tokenizeDotted<double>(text);
    } catch (std::exception&) {
        return;
    }
    // no way to continue: either an error, or just the given values
    c.check(text.find("5a") == std::string::npos && text != "a" && text.find('x') == std::string::npos && text.find('b') == std::string::npos && text.substr(0, 3) != "..." && text.substr(0, 5) != "1,...", "accepted as " + vec(got));
    c.check(got.size() <= 5, "'" + text + "' gives " + vec(got));
}

// value list relative to start and end: "0,d,...,x" with extra terms
static void relative(Case& c)
{
    const bool time = c.b(0.6);
    TU u = time ? genTU(c) : TU();
    if (time && u.step < 1)
        u.step = 1, u.text.replace(0, u.text.find(' '), "seconds");
    const double delta = time ? c.pick({1, 3, 6, 12, 24, 10}) : c.pick({1., 50000., 0.5, 2.5, 1000.});
    int64_t k0 = c.b(0.3) ? c.i(-40, -1) : c.i(0, 200000 / (time ? 24 : 1000)), kn = k0 + c.i(1, 30);
    const bool aligned = c.b(0.6);
    double f0 = aligned ? 0 : c.pick({0.25, 0.5, 0.75}), fn = aligned ? 0 : c.pick({0.5, 0.25, 0.75});
    double start = (k0 + f0) * delta, end = (kn + fn) * delta; // in the relative unit
    if (time) { // whole milliseconds
        T ts = fromEpochMs(u.ref + std::llround(start * u.step * 1000)), te = fromEpochMs(u.ref + std::llround(end * u.step * 1000));
        c.assume(ts.y >= 1600 && te.y < 2400);
    }
    // terms
    std::string text;
    std::vector<std::pair<int, double>> terms; // (0: from start, 1: from x, 2: dots, multiple of delta or plain number)
    double pre = c.b(0.3) ? -delta * c.i(1, 2) : 0;
    terms.push_back({0, pre});
    terms.push_back({0, pre + delta});
    terms.push_back({2, 0});
    terms.push_back({1, 0});
    for (int k = c.i(0, 2); k > 0; --k) {
        double plus = c.pick({delta, 2 * delta, 12.5, 0.5, 10., 123., 0.25});
        if (c.b(0.3) && terms.back().second == 0)
            terms.back().second = -delta * c.i(1, 2); // ... ,x-d
        else if (terms.back().second < plus)
            terms.push_back({1, plus});
    }
    for (auto& t : terms) {
        if (!text.empty())
            text += ",";
        if (t.first == 2)
            text += "...";
        else if (t.first == 0)
            text += ntext(t.second);
        else
            text += t.second == 0 ? "x" : t.second < 0 ? "x-" + ntext(-t.second) : "x+" + ntext(t.second);
    }
    c.show() << text << " start " << num(start) << " end " << num(end) << " delta " << delta;
    if (time)
        c.show() << " unit '" << u.text << "'";
    c.show() << "\n";
    c.label(time ? "time" : "axis");
    c.label(aligned ? "aligned" : "unaligned");
    c.label(k0 < 0 ? "negative" : "positive");
    // candidates: an unaligned start or end may be rounded down or up to a multiple of delta
    dvec got;
    FimexTime fs, fe;
    std::vector<FimexTime> steps;
    TU out = genTU(c);
    if (time) {
        fs = fromEpochMs(u.ref + std::llround(start * u.step * 1000)).fimex();
        fe = fromEpochMs(u.ref + std::llround(end * u.step * 1000)).fimex();
        const bool withUnit = c.b();
        TimeSpec ts(text + ";relativeUnit=" + u.text + (withUnit ? ";unit=" + out.text : ""), fs, fe);
        if (withUnit)
            c.check(ts.getUnitString() == out.text, "unit " + ts.getUnitString());
        steps = ts.getTimeSteps();
        for (auto& f : steps) {
            T t;
            t.y = f.getYear(), t.mo = f.getMonth(), t.d = f.getMDay(), t.h = f.getHour(), t.mi = f.getMinute(), t.s = f.getSecond(), t.ms = f.getMSecond();
            got.push_back((t.epochMs() - u.ref) / 1000. / u.step);
        }
    } else {
        SpatialAxisSpec s(text + ";relativeStart=0");
        c.check(s.requireStartEnd(), "relative axis does not need start and end");
        s.setStartEnd(start, end);
        c.check(!s.requireStartEnd(), "start and end not known");
        got = s.getAxisSteps();
    }
    std::string first;
    for (int up0 = 0; up0 < (aligned ? 1 : 2); ++up0)
        for (int upn = 0; upn < (aligned ? 1 : 2); ++upn) {
            const double o = (k0 + up0) * delta, x = (kn + upn) * delta;
            dvec exp;
            for (size_t k = 0; k < terms.size(); ++k) {
                if (terms[k].first != 2) {
                    exp.push_back((terms[k].first == 0 ? o : x) + terms[k].second);
                } else {
                    const double stop = x + terms[k + 1].second;
                    for (double v = exp.back() + delta; v < stop - delta * 1e-4; v += delta)
                        exp.push_back(v);
                }
            }
            bool ok = got.size() == exp.size();
            for (size_t k = 0; ok && k < exp.size(); ++k)
                ok = close(got[k], exp[k], 1e-11, time ? 0.0011 / u.step : 1e-9 * delta);
            if (ok) {
                c.nontrivial(exp.size() > 3);
                return;
            }
            if (first.empty())
                first = vec(exp);
        }
    c.fail("'" + text + "' gives " + vec(got) + ", expected " + first);
}

static void absolute(Case& c)
{
    TU out = genTU(c);
    const bool withUnit = c.b();
    std::string text;
    std::vector<T> exp;
    T t0 = genTime(c, 2, 1700, 2300);
    int64_t cur = t0.epochMs();
    auto add = [&](int64_t ms) {
        exp.push_back(fromEpochMs(ms));
        text += (text.empty() ? "" : ",") + exp.back().iso(c.b(0.3) ? 'T' : ' ');
    };
    for (int g = c.i(1, 2); g > 0; --g) {
        if (c.b(0.7)) {
            int64_t step = c.pick({3600, 10800, 86400, 60, 1, 21600, 3601}) * 1000LL;
            int64_t n = c.i(0, 30), end = cur + (n + 1) * step + (step > 1000 ? c.i(0, step / 1000 - 1) * 1000 * c.i(0, 1) : 0);
            add(cur);
            add(cur + step);
            for (int64_t v = cur + 2 * step; v < end; v += step)
                exp.push_back(fromEpochMs(v));
            text += ",...";
            add(end);
            cur = end;
        } else
            add(cur);
        cur += c.i(1, 100) * 3600000LL;
    }
    c.show() << text << " unit " << (withUnit ? out.text : "-") << "\n";
    c.nontrivial(exp.size() > 2);
    TimeSpec ts(text + (withUnit ? ";unit=" + out.text : ""), FimexTime(), FimexTime());
    if (withUnit)
        c.check(ts.getUnitString() == out.text, "unit " + ts.getUnitString());
    auto& got = ts.getTimeSteps();
    c.check(got.size() == exp.size(), std::to_string(got.size()) + " times, expected " + std::to_string(exp.size()));
    for (size_t k = 0; k < exp.size(); ++k)
        c.check(eq(got[k], exp[k]), "time " + std::to_string(k) + " is " + str(got[k]) + ", expected " + exp[k].iso());
    // the unit string of the result is a time unit that reproduces the times
    TimeUnit tu(ts.getUnitString());
    c.check(eq(tu.unitTime2fimexTime(tu.fimexTime2unitTime(got[0])), exp[0]), "unit of the specification");
    for (std::string bad : {text + ";foo=bar", text + ";" + text, text + ";unit=m", text + ";unit=a=b", std::string("yesterday"), std::string("2000-01-01 00:00:00,...,2000-01-02")})
        try {
            TimeSpec b(bad, FimexTime(2000, 1, 1), FimexTime(2000, 1, 2));
            c.fail("accepted '" + bad + "'");
        } catch (std::exception&) {
        }
}

// ---- units ----
struct Dim
{
    std::vector<std::pair<const char*, double>> units; // value of one unit in SI
};
static const std::vector<Dim>& dims()
{
    static const std::vector<Dim> d = {
        {{{"m", 1}, {"km", 1e3}, {"cm", 1e-2}, {"mm", 1e-3}, {"foot", 0.3048}, {"inch", 0.0254}, {"um", 1e-6}, {"nautical_mile", 1852}, {"Mm", 1e6}, {"light_year", 9.46073e15}}},
        {{{"s", 1}, {"h", 3600}, {"min", 60}, {"day", 86400}, {"ms", 1e-3}, {"hour", 3600}}},
        {{{"kg", 1}, {"g", 1e-3}, {"mg", 1e-6}, {"tonne", 1e3}, {"ug", 1e-9}, {"pound", 0.45359237}}},
        {{{"Pa", 1}, {"hPa", 100}, {"mbar", 100}, {"bar", 1e5}, {"kPa", 1e3}, {"N m-2", 1}, {"kg m-1 s-2", 1}}},
        {{{"K", 1}, {"mK", 1e-3}, {"kelvin", 1}}},
        {{{"J", 1}, {"kJ", 1e3}, {"N m", 1}, {"W s", 1}, {"kg m2 s-2", 1}, {"MJ", 1e6}}},
        {{{"mol", 1}, {"mmol", 1e-3}}},
    };
    return d;
}

static void units(Case& c)
{
    Units u;
    const size_t mode = c.w({6, 2, 2, 2});
    if (mode == 0) {
        std::string a, b;
        double fa = 1, fb = 1;
        std::vector<size_t> p = c.perm(dims().size());
        const int n = c.i(1, 3);
        int style = c.idx(3);
        for (int k = 0; k < n; ++k) {
            const Dim& d = dims()[p[k]];
            int pow = c.pick({1, -1, 2, -2, 3, -1});
            if (k == 0)
                pow = std::abs(pow);
            auto ua = c.pick(d.units), ub = c.pick(d.units);
            auto app = [&](std::string& s, double& f, std::pair<const char*, double> x) {
                if (!s.empty())
                    s += style == 1 ? "." : " ";
                std::string nm = x.first;
                if (nm.find(' ') != std::string::npos && pow != 1)
                    nm = "(" + nm + ")";
                s += nm;
                if (pow != 1)
                    s += (style == 2 || nm[0] == '(' ? "^" : style == 1 ? "**" : "") + std::to_string(pow);
                f *= std::pow(x.second, pow);
            };
            app(a, fa, ua);
            app(b, fb, ub);
        }
        c.show() << "'" << a << "' to '" << b << "'\n";
        c.label("product");
        c.nontrivial(a != b);
        const double exp = fa / fb;
        c.check(u.areConvertible(a, b) && u.areConvertible(b, a), "not convertible");
        double slope = 0, offset = 1;
        u.convert(a, b, slope, offset);
        c.check(close(slope, exp, 1e-5, 0) && (a.find("light") != std::string::npos || b.find("light") != std::string::npos || close(slope, exp, 1e-9, 0)), "slope " + num(slope) + ", expected " + num(exp));
        c.check(std::fabs(offset) <= 1e-9 * exp, "offset " + num(offset));
        UnitsConverter_p conv = u.getConverter(a, b);
        c.check(conv->isLinear(), "not linear");
        const double x = c.d(-1000, 1000);
        c.check(close(conv->convert(x), x * slope, 1e-9, 0) && (std::fabs(x * slope) > 1e37 || close(conv->convert(float(x)), float(x) * slope, 1e-5, 1e-36)), "convert(" + num(x) + ") = " + num(conv->convert(x)) + ", expected " + num(x * slope));
        UnitsConverter_p same = u.getConverter(a, a);
        c.check(same->convert(x) == x, "conversion to itself");
    } else if (mode == 1) {
        struct Temp
        {
            const char* n;
            double s, o;
        };
        static const std::vector<Temp> ts = {{"K", 1, 0}, {"degC", 1, 273.15}, {"Celsius", 1, 273.15}, {"degF", 5 / 9., 459.67 * 5 / 9.}, {"mK", 1e-3, 0}, {"K @ 100", 1, 100}};
        Temp a = c.pick(ts), b = c.pick(ts);
        c.show() << "'" << a.n << "' to '" << b.n << "'\n";
        c.label("temperature");
        c.nontrivial(std::string(a.n) != b.n);
        double slope, offset;
        u.convert(a.n, b.n, slope, offset);
        const double es = a.s / b.s, eo = (a.o - b.o) / b.s;
        c.check(close(slope, es, 1e-8, 0) && close(offset, eo, 1e-9, 1e-6), "slope " + num(slope) + " offset " + num(offset) + ", expected " + num(es) + " " + num(eo));
        const double x = c.d(-300, 300);
        c.check(close(u.getConverter(a.n, b.n)->convert(x), x * es + eo, 1e-9, 1e-7), "convert(" + num(x) + ")");
        c.check(close(u.getConverter(a.n, b.n)->convert(float(x)), float(x) * es + eo, 1e-5, 1e-3), "convert(" + num(x) + "f)");
    } else if (mode == 2) {
        // logarithmic
        struct L
        {
            const char *from, *to;
            double f; // y = log_base(x * f) * k
            double k;
        };
        static const std::vector<L> ls = {{"hPa", "ln(re 1Pa)", 100, 1}, {"Pa", "lg(re 1Pa)", 1, 1 / std::log(10.)}, {"kPa", "ln(re 1hPa)", 10, 1}, {"Pa", "0.1 lg(re 1Pa)", 1, 10 / std::log(10.)}, {"m", "lb(re 1 m)", 1, 1 / std::log(2.)}};
        L l = c.pick(ls);
        const double x = c.dfine(0.1, 2000);
        c.show() << "'" << l.from << "' to '" << l.to << "' of " << num(x) << "\n";
        c.label("logarithmic");
        c.nontrivial();
        c.check(u.areConvertible(l.from, l.to), "not convertible");
        UnitsConverter_p f = u.getConverter(l.from, l.to), r = u.getConverter(l.to, l.from);
        const double e = std::log(x * l.f) * l.k;
        c.check(close(f->convert(x), e, 1e-9, 1e-9), "convert is " + num(f->convert(x)) + ", expected " + num(e));
        c.check(close(r->convert(e), x, 1e-9, 0), "inverse is " + num(r->convert(e)) + ", expected " + num(x));
        for (auto& k : {f, r}) {
            c.check(!k->isLinear(), "said to be linear");
            double s, o;
            try {
                k->getScaleOffset(s, o);
                c.fail("scale and offset of a logarithm");
            } catch (UnitException&) {
            }
        }
    } else {
        static const std::vector<const char*> bad = {"m", "s", "kg", "m s-1", "m-1", "hours since 2000-01-01", "K", "nonsense_unit", "m //", "degree", "1"};
        size_t x = c.idx(bad.size()), y = c.idx(bad.size());
        const std::string a = bad[x], b = bad[y];
        c.assume(x != y && !(a == "s" && b.find("since") != std::string::npos) && !(b == "s" && a.find("since") != std::string::npos) && !(a == "m" && b == "m-1") && !(a == "m-1" && b == "m") && !(a == "degree" && b == "1") && !(a == "1" && b == "degree"));
        c.show() << "'" << a << "' to '" << b << "'\n";
        c.label("not convertible");
        c.nontrivial();
        c.check(!u.areConvertible(a, b), "said to be convertible");
        double s, o;
        try {
            u.convert(a, b, s, o);
            c.fail("converted");
        } catch (UnitException&) {
        }
    }
}

int main(int argc, char** argv)
{
    Runner r("C16", "two different times, a specification with repeated steps, units that differ, or a specification without meaning");
    r.init(quiet);
    r.assumption("years 1600 to 2399; time zones in whole hours");
    r.assumption("an unaligned start or end of a relative specification may be rounded to either neighbouring multiple of the step");
    r.sub("time units", timeUnit, 20000, 2000000);
    r.sub("times", fimexTime, 20000, 2000000);
    r.sub("value lists", tokens, 10000, 1000000);
    r.sub("lists without meaning", badTokens, 300, 3000);
    r.sub("relative specifications", relative, 8000, 800000);
    r.sub("absolute specifications", absolute, 3000, 300000);
    r.sub("units", units, 20000, 2000000);
    return r.main(argc, argv);
}
