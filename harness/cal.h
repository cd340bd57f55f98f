// Calendar and time units computed from their definition, shared by the harnesses.
#pragma once
#include "fx.h"
#include "fimex/FimexTime.h"
#include <cstdio>

namespace cal {
using namespace fx;
using pbt::Case;

// ---- calendar oracle (proleptic Gregorian, from the definition) ----
inline int64_t daysFromCivil(int64_t y, int m, int d)
{
    y -= m <= 2;
    const int64_t era = (y >= 0 ? y : y - 399) / 400;
    const int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
static const int monthDays[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
inline int daysIn(int y, int m)
{
    return monthDays[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)));
}

struct T
{
    int y = 2000, mo = 1, d = 1, h = 0, mi = 0, s = 0, ms = 0;
    int64_t epochMs() const { return (((daysFromCivil(y, mo, d) * 24 + h) * 60 + mi) * 60 + s) * 1000 + ms; }
    FimexTime fimex() const { return FimexTime(y, mo, d, h, mi, s, ms); }
    std::string iso(char sep = ' ', bool withMs = false) const
    {
        char b[64];
        int n = snprintf(b, sizeof b, "%04d-%02d-%02d%c%02d:%02d:%02d", y, mo, d, sep, h, mi, s);
        if (withMs)
            snprintf(b + n, sizeof b - n, ".%03d", ms);
        return b;
    }
};
inline T fromEpochMs(int64_t e)
{
    T t;
    auto fd = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
    int64_t days = fd(e, 86400000), rest = e - days * 86400000;
    // search the year and month by definition
    int y = 1970 + fd(days, days < 0 ? 365 : 366) - 1;
    while (daysFromCivil(y + 1, 1, 1) <= days)
        ++y;
    t.y = y;
    int64_t doy = days - daysFromCivil(y, 1, 1);
    t.mo = 1;
    while (doy >= daysIn(y, t.mo))
        doy -= daysIn(y, t.mo++);
    t.d = doy + 1;
    t.ms = rest % 1000;
    rest /= 1000;
    t.s = rest % 60;
    rest /= 60;
    t.mi = rest % 60;
    t.h = rest / 60;
    return t;
}
inline std::string str(const FimexTime& f)
{
    T t;
    t.y = f.getYear(), t.mo = f.getMonth(), t.d = f.getMDay(), t.h = f.getHour(), t.mi = f.getMinute(), t.s = f.getSecond(), t.ms = f.getMSecond();
    return t.iso(' ', true);
}
inline bool eq(const FimexTime& f, const T& t)
{
    return f.getYear() == t.y && f.getMonth() == t.mo && f.getMDay() == t.d && f.getHour() == t.h && f.getMinute() == t.mi && f.getSecond() == t.s && f.getMSecond() == t.ms;
}

inline T genTime(Case& c, int level = 3, int ylo = 1600, int yhi = 2399)
{
    T t;
    t.y = c.b(0.6) ? c.i(1950, 2060) : c.b(0.3) ? c.pick({1600, 1700, 1900, 1970, 2000, 2100}) : c.i(ylo, yhi);
    t.y = std::max(ylo, std::min(yhi, t.y));
    t.mo = c.b(0.3) ? c.pick({2, 12, 3}) : c.i(1, 12);
    t.d = c.b(0.3) ? c.pick({1, daysIn(t.y, t.mo), 28}) : c.i(1, daysIn(t.y, t.mo));
    if (level > 0 && c.b(0.8))
        t.h = c.b(0.2) ? 23 : c.i(0, 23);
    if (level > 1 && c.b(0.6)) {
        t.mi = c.b(0.2) ? 59 : c.i(0, 59);
        if (c.b(0.7))
            t.s = c.b(0.2) ? 59 : c.i(0, 59);
    }
    if (level > 2 && c.b(0.4))
        t.ms = c.b(0.2) ? 999 : c.i(0, 999);
    return t;
}

struct TU
{
    std::string text;
    double step; // seconds
    int64_t ref; // ms
};
inline TU genTU(Case& c)
{
    struct U
    {
        const char* n;
        double s;
    };
    static const std::vector<U> us = {{"seconds", 1}, {"hours", 3600}, {"days", 86400}, {"minutes", 60}, {"second", 1}, {"hour", 3600}, {"h", 3600}, {"day", 86400}, {"s", 1}, {"min", 60}, {"milliseconds", 0.001}, {"weeks", 604800}};
    U u = c.pick(us);
    T r = genTime(c, 2);
    TU tu;
    tu.step = u.s;
    tu.ref = r.epochMs();
    tu.text = std::string(u.n) + " since ";
    const bool dayOnly = r.h == 0 && r.mi == 0 && r.s == 0 && c.b(0.6);
    tu.text += dayOnly ? r.iso().substr(0, 10) : r.iso(c.b(0.3) ? 'T' : ' ');
    if (!dayOnly && c.b(0.3)) {
        const int z = c.pick({0, 1, -5, 12});
        char b[16];
        if (z == 0)
            tu.text += c.b() ? " +00:00" : " UTC";
        else {
            snprintf(b, sizeof b, " %c%02d:00", z < 0 ? '-' : '+', std::abs(z));
            tu.text += b;
            tu.ref -= z * 3600000LL;
        }
    }
    return tu;
}

} // namespace cal
