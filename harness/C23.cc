// C23: GRIB files show every message's values at the position, level, member and time the message states
// LINK: libfimex-io-grib -lproj -leccodes -lprotobuf
#include "gribmsg.h"
#include "ncmodel.h"

#include "cdm.pb.h"
#include "fimex/ProtobufCDM.h"
#include "noprojdb.h"

#include "GribCDMIndexer.h"
#include "GribFileIndex.h"
#include "GribProtobufIndexWriter.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/ChunkReaderFactory.h"
#include "fimex/FileUtils.h"
#include "fimex/XMLInputString.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"

#include <cstring>
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace gribm;
using namespace pbt;

namespace {
const double UNDEF = std::nan("");
struct Conf
{
    std::string name;
    int edition = 1;
    std::map<std::string, std::vector<long>> crit; // criteria other than stepType, by attribute name
    std::string stepType;
    long process = -1; // extraKey generatingProcessIdentifier
    CDMDataType type = CDM_DOUBLE;
    double scale = 0, off = 0;
    double fill = UNDEF;
    bool constantTime = false;
    std::string vecDir, vecPart;
    bool dated = false; // has a templated attribute
    std::string dotted; // levelNo with dots
};
struct MX
{
    Msg m;
    int grid = 0, file = 0;
    dvec got; // what ecCodes reads, in order of the message
    std::string shortName;
    int64_t valid = 0; // epoch seconds
    std::string var;
    const Conf* conf = nullptr;
};
const char* tnames[] = {"double", "float", "short", "int"};
const CDMDataType ttypes[] = {CDM_DOUBLE, CDM_FLOAT, CDM_SHORT, CDM_INT};
int64_t unitSec(long u, int edition)
{
    if (edition == 1 && u == 13)
        return 900;
    switch (u) {
    case 0: return 60;
    case 1: return 3600;
    case 2: return 86400;
    case 10: return 10800;
    case 11: return 21600;
    case 12: return 43200;
    default: return 1;
    }
}
struct DS
{
    std::vector<Grid> grids;
    std::vector<Conf> confs;
    std::vector<MX> msgs;
    std::vector<std::string> files, memberNames;
    bool definedOnly = false, dblAxes = true;
    std::string timeUnits;
    double timeFactor = 1, timeZero = 0;
    int64_t ref = 0;
    std::vector<std::pair<int, long>> vert; // configured vertical axes
    std::string config;
    bool hybrid = false;
};

bool matches(const Conf& k, const MX& x)
{
    const Msg& m = x.m;
    if (k.edition != m.edition)
        return false;
    for (auto& cr : k.crit) {
        long v;
        if (cr.first == "indicatorOfParameter" || cr.first == "parameterNumber")
            v = m.id[0];
        else if (cr.first == "gribTablesVersionNo" || cr.first == "parameterCategory")
            v = m.id[1];
        else if (cr.first == "identificationOfOriginatingGeneratingCentre")
            v = m.members > 0 ? 98 : m.id[2];
        else if (cr.first == "discipline")
            v = m.id[2];
        else if (cr.first == "typeOfLevel")
            v = m.levtype;
        else if (cr.first == "levelNo")
            v = m.level;
        else // timeRangeIndicator, of grib1 only
            v = m.accum ? 4 : 0;
        if (std::find(cr.second.begin(), cr.second.end(), v) == cr.second.end())
            return false;
    }
    if (!k.stepType.empty() && k.stepType != (m.accum ? "accum" : "instant"))
        return false;
    return k.process < 0 || k.process == m.process;
}

std::string writeConfig(const DS& ds)
{
    std::ostringstream o;
    o << "<?xml version=\"1.0\"?>\n<cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">\n<processOptions><option name=\"selectParameters\" value=\""
      << (ds.definedOnly ? "definedOnly" : "all") << "\"/></processOptions>\n<overrule></overrule>\n<global_attributes>\n"
      << "<attribute name=\"Conventions\" value=\"CF-1.0\" type=\"string\"/><attribute name=\"min_time\" value=\"%MIN_DATETIME(%Y-%m-%d %H:%M:%SZ)%\" type=\"string\"/>"
      << "<attribute name=\"max_time\" value=\"%MAX_DATETIME(%Y-%m-%d %H:%M:%SZ)%\" type=\"string\"/></global_attributes>\n<axes>\n<time id=\"time\" name=\"time\" type=\"double\">";
    if (!ds.timeUnits.empty())
        o << "<attribute name=\"units\" value=\"" << ds.timeUnits << "\" type=\"string\"/>";
    o << "</time>\n";
    const char* ty = ds.dblAxes ? "double" : "float";
    for (const char* g : {"regular_ll", "rotated_ll", "lambert", "polar_stereographic", "mercator"}) {
        const bool ll = !strcmp(g, "regular_ll"), rot = !strcmp(g, "rotated_ll");
        o << "<spatial_axis typeOfGrid=\"" << g << "\" id=\"x\" name=\"" << (ll ? "longitude" : rot ? "rlon" : "x") << "\" type=\"" << ty << "\"><attribute name=\"units\" value=\""
          << (ll ? "degrees_east" : rot ? "degrees" : "m") << "\" type=\"string\"/>"
          << (ll ? "" : std::string("<attribute name=\"standard_name\" type=\"string\" value=\"") + (rot ? "grid_longitude" : "projection_x_coordinate") + "\"/>") << "</spatial_axis>\n"
          << "<spatial_axis typeOfGrid=\"" << g << "\" id=\"y\" name=\"" << (ll ? "latitude" : rot ? "rlat" : "y") << "\" type=\"" << ty << "\"><attribute name=\"units\" value=\""
          << (ll ? "degrees_north" : rot ? "degrees" : "m") << "\" type=\"string\"/>"
          << (ll ? "" : std::string("<attribute name=\"standard_name\" type=\"string\" value=\"") + (rot ? "grid_latitude" : "projection_y_coordinate") + "\"/>") << "</spatial_axis>\n";
    }
    o << "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>\n";
    for (auto& v : ds.vert) {
        o << "<vertical_axis id=\"lev" << v.first << "_" << v.second << "\" name=\"lev\" grib" << v.first << "_id=\"" << v.second << "\" type=\"double\">"
          << "<attribute name=\"positive\" value=\"up\" type=\"string\"/>";
        if (ds.hybrid && v.second == (v.first == 1 ? 109 : 105))
            o << "<additional_axis_variable name=\"ap\" type=\"double\" axis=\"k\"><attribute name=\"units\" value=\"Pa\" type=\"string\"/><values mode=\"extraHalvLevel1\"/></additional_axis_variable>"
              << "<additional_axis_variable name=\"b\" type=\"double\" axis=\"k\"><values mode=\"extraHalvLevel2\" scale_factor=\"1\"/></additional_axis_variable>"
              << "<additional_axis_variable name=\"ah\" type=\"double\" axis=\"k\"><values mode=\"extraLevel1\"/></additional_axis_variable>"
              << "<additional_axis_variable name=\"bh\" type=\"double\" axis=\"k\"><values mode=\"extraLevel2\"/></additional_axis_variable>";
        o << "</vertical_axis>\n";
    }
    o << "</axes>\n<variables>\n";
    for (auto& k : ds.confs) {
        o << "<parameter name=\"" << k.name << "\"";
        for (int t = 0; t < 4; ++t)
            if (ttypes[t] == k.type)
                o << " type=\"" << tnames[t] << "\"";
        if (k.constantTime)
            o << " constantTime=\"true\"";
        o << ">\n <grib" << k.edition;
        for (auto& cr : k.crit) {
            o << " " << cr.first << "=\"";
            if (cr.first == "levelNo" && !k.dotted.empty())
                o << k.dotted;
            else
                for (size_t i = 0; i < cr.second.size(); ++i)
                    o << (i ? "," : "") << cr.second[i];
            o << "\"";
        }
        if (!k.stepType.empty())
            o << " stepType=\"" << k.stepType << "\"";
        o << ">";
        if (k.process >= 0)
            o << "<extraKey name=\"generatingProcessIdentifier\" value=\"" << k.process << "\"/>";
        o << "</grib" << k.edition << ">\n";
        if (k.scale != 0)
            o << " <precision scale_factor=\"" << cf::g17(k.scale) << "\"" << (k.off != 0 ? " add_offset=\"" + cf::g17(k.off) + "\"" : "") << "/>\n";
        if (!k.vecDir.empty())
            o << " <spatial_vector direction=\"" << k.vecDir << "\" counterpart=\"" << k.vecPart << "\"/>\n";
        o << " <attribute name=\"long_name\" value=\"config " << k.name << "\" type=\"string\"/>\n";
        if (k.dated)
            o << " <attribute name=\"until\" value=\"%MAX_DATETIME(%Y%m%d%H%M%S)%\" type=\"string\"/>\n";
        if (!std::isnan(k.fill))
            for (int t = 0; t < 4; ++t)
                if (ttypes[t] == k.type)
                    o << " <attribute name=\"_FillValue\" value=\"" << cf::g17(k.fill) << "\" type=\"" << tnames[t] << "\"/>\n";
        o << "</parameter>\n";
    }
    o << "</variables>\n</cdmGribReaderConfig>\n";
    return o.str();
}

struct Opt
{
    bool members = true; // members by file name
};
DS gen(Case& c, const Opt& opt = Opt())
{
    DS ds;
    const int ng = c.w({3, 1}) + 1;
    const int ed0 = c.i(1, 2);
    for (int g = 0; g < ng; ++g) {
        ds.grids.push_back(genGrid(c, c.b(0.8) ? ed0 : 3 - ed0));
        c.show() << "grid " << g << ": " << str(ds.grids.back()) << "\n";
        c.label(ds.grids.back().gridType());
        if (g && str(ds.grids[0]) == str(ds.grids[1]))
            ds.grids.pop_back();
    }
    ds.dblAxes = c.b(0.6);
    ds.definedOnly = c.b(0.3);
    // reference time
    cal::T t;
    t.y = c.i(1995, 2035), t.mo = c.i(1, 12), t.d = c.i(1, 28), t.h = c.pick<int>({0, 6, 12, 18, 23}), t.mi = c.pick<int>({0, 0, 30});
    const long rd = t.y * 10000 + t.mo * 100 + t.d, rt = t.h * 100 + t.mi;
    ds.ref = t.epochMs() / 1000;
    switch (c.w({2, 1, 1, 1})) {
    case 0: break;
    case 1: ds.timeUnits = "seconds since 1970-01-01 00:00:00 +00:00"; break;
    case 2:
        ds.timeUnits = "hours since 2000-03-01 06:00:00";
        ds.timeFactor = 3600;
        ds.timeZero = cal::T{2000, 3, 1, 6}.epochMs() / 1000.;
        break;
    case 3:
        ds.timeUnits = "days since 1990-01-01";
        ds.timeFactor = 86400;
        ds.timeZero = cal::T{1990, 1, 1}.epochMs() / 1000.;
        break;
    }
    const long unit = c.pick<long>({1, 1, 0, 10, 11, 12, 2, 13, 14});
    std::vector<long> steps;
    const int nt = c.i(1, 4);
    for (int i = 0; i < nt; ++i)
        steps.push_back((steps.empty() ? c.i(0, 3) : steps.back() + c.i(1, 4)));
    const int memberMode = c.w({3, 2, opt.members ? 1 : 0}); // none, encoded, by file name
    const int nmem = memberMode ? c.i(2, 4) : 0;
    const int nfiles = memberMode == 2 ? nmem : c.i(1, 3);
    const std::string dir = c.tmpdir() + "/case";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directory(dir);
    for (int f = 0; f < nfiles; ++f) {
        ds.files.push_back(dir + "/part_" + std::string(1, 'a' + f) + ".grb");
        if (memberMode == 2)
            ds.memberNames.push_back("run" + std::string(f + 1, 'x'));
    }
    c.show() << "reference " << t.iso() << " unit " << unit << " steps " << vec(dvec(steps.begin(), steps.end())) << " members " << nmem << (memberMode == 2 ? " (file names)" : "") << " files "
             << nfiles << (ds.definedOnly ? " definedOnly" : "") << " time units '" << ds.timeUnits << "'\n";
    // variables
    const long ids1[][2] = {{11, 2}, {33, 2}, {34, 2}, {61, 2}, {52, 2}}; // parameter, table
    const long ids2[][3] = {{0, 0, 0}, {2, 2, 0}, {3, 2, 0}, {8, 1, 0}, {0, 3, 0}};
    const int nv = c.i(1, 3);
    auto used = c.perm(5);
    double base = 0;
    const int nlevHyb = c.i(2, 5);
    dvec pv;
    for (int i = 0; i <= nlevHyb; ++i)
        pv.push_back(100. * i * (nlevHyb - i + 1));
    for (int i = 0; i <= nlevHyb; ++i)
        pv.push_back(double(i) / nlevHyb);
    for (int v = 0; v < nv; ++v) {
        const int gi = c.i(0, ds.grids.size() - 1);
        const Grid& g = ds.grids[gi];
        Msg p;
        p.edition = g.edition;
        if (g.edition == 1) {
            p.id[0] = ids1[used[v]][0], p.id[1] = ids1[used[v]][1], p.id[2] = 88;
        } else
            for (int k = 0; k < 3; ++k)
                p.id[k] = ids2[used[v]][k];
        const bool e1 = g.edition == 1;
        const int lt = c.w({3, 2, 1, 1, 2});
        p.levtype = lt == 0 ? 100 : lt == 1 ? (e1 ? 105 : 103) : lt == 2 ? (e1 ? 103 : 102) : lt == 3 ? 1 : (e1 ? 109 : 105);
        std::vector<long> levels;
        if (lt == 3)
            levels = {0};
        else if (lt == 4) {
            p.pv = pv;
            for (int l = 1; l <= nlevHyb; ++l)
                if (c.b(0.8))
                    levels.push_back(l);
            if (levels.empty())
                levels = {1};
        } else
            for (int l = 0, n = c.i(1, 4), x = c.i(1, 10); l < n; ++l, x += c.i(1, 20) * 10)
                levels.push_back(lt == 0 ? x * 10 : x);
        p.accum = c.b(0.25);
        p.refDate = rd, p.refTime = rt, p.unit = unit == 14 ? (e1 ? 254 : 13) : unit;
        p.process = c.i(1, 3);
        p.bits = c.pick<int>({12, 16, 24});
        p.members = memberMode == 1 && c.b(0.8) ? nmem : 0;
        const bool missing = c.b(0.3);
        const double amp = c.pick<double>({1, 100, 1000}), baseV = c.pick<double>({0, 250, -20});
        c.show() << "variable " << v << ": grid " << gi << " id " << p.id[0] << "," << p.id[1] << "," << p.id[2] << " level type " << p.levtype << " levels "
                 << vec(dvec(levels.begin(), levels.end())) << (p.accum ? " accum" : "") << (p.members ? " members" : "") << (missing ? " missing" : "") << " process " << p.process
                 << " values " << baseV << "+" << amp << "\n";
        std::vector<MX> mine;
        for (long s : steps)
            for (long l : levels)
                for (int e = 0; e < (memberMode == 2 ? nmem : std::max(1L, p.members)); ++e) {
                    if (c.b(0.2) && !(mine.empty() && s == steps.back() && l == levels.back()))
                        continue;
                    MX x;
                    x.m = p;
                    x.m.level = l;
                    x.m.end = s;
                    x.m.member = e;
                    x.grid = gi;
                    x.file = memberMode == 2 ? e : c.i(0, nfiles - 1);
                    base += 1;
                    for (long k = 0; k < g.ni * g.nj; ++k)
                        x.m.values.push_back(missing && c.b(0.15) ? UNDEF : baseV + amp * std::fmod(base * 0.618034 + k * 0.377, 1.0));
                    mine.push_back(x);
                }
        // configuration of this variable
        auto conf = [&](const std::string& name) {
            Conf k;
            k.name = name;
            k.edition = g.edition;
            k.crit[e1 ? "indicatorOfParameter" : "parameterNumber"] = {p.id[0]};
            k.crit[e1 ? "gribTablesVersionNo" : "parameterCategory"] = {p.id[1]};
            if (!e1)
                k.crit["discipline"] = {p.id[2]};
            return k;
        };
        if (c.b(0.35)) { // an entry before which looks similar but is for something else
            Conf k = conf("decoy" + std::to_string(v));
            switch (c.w({1, 1, 1, 1, 1, 1})) {
            case 0: k.crit["typeOfLevel"] = {p.levtype + 1}; break;
            case 1: k.stepType = p.accum ? "instant" : "accum"; break;
            case 2: k.process = p.process + 1; break;
            case 3: k.crit[e1 ? "gribTablesVersionNo" : "parameterCategory"] = {p.id[1] + 7}; break;
            case 4:
                if (e1)
                    k.crit["identificationOfOriginatingGeneratingCentre"] = {77};
                else
                    k.crit["discipline"] = {p.id[2] + 1};
                break;
            case 5: // takes some of the levels away
                k.crit["levelNo"] = {levels[0], 9999};
                break;
            }
            ds.confs.push_back(k);
        }
        if (c.b(0.75)) {
            Conf k = conf("var" + std::to_string(v));
            if (c.b(0.3))
                k.crit["typeOfLevel"] = {p.levtype, p.levtype + 3};
            if (c.b(0.2))
                k.stepType = p.accum ? "accum" : "instant";
            if (c.b(0.2) && e1)
                k.crit["timeRangeIndicator"] = {p.accum ? 4 : 0};
            if (c.b(0.2))
                k.process = p.process;
            if (c.b(0.15)) {
                k.crit["levelNo"].clear();
                for (long l = 0; l <= 1000; ++l)
                    k.crit["levelNo"].push_back(l);
                k.dotted = "0,1,...,1000";
            }
            const int ti = c.w({2, 2, 2, 1});
            k.type = ttypes[ti];
            if (ti >= 2) { // packed
                k.scale = amp / 1000;
                k.off = c.b() ? baseV : 0;
                if (k.off == 0 && std::fabs(baseV) / k.scale > 30000)
                    k.off = baseV;
                if (c.b(0.6))
                    k.fill = c.pick<double>({-32767, 32767, -32000});
            } else {
                if (c.b(0.3))
                    k.scale = amp / 64;
                if (c.b(0.5))
                    k.fill = c.pick<double>({-999, 1e20, 9999});
            }
            k.constantTime = mine.size() && c.b(0.1) && steps.size() == 1;
            k.dated = c.b(0.3);
            if (c.b(0.3)) {
                k.vecDir = c.b() ? "x" : "y";
                k.vecPart = "other";
            }
            ds.confs.push_back(k);
        }
        for (auto& x : mine)
            ds.msgs.push_back(x);
        if (c.b(0.7)) {
            std::pair<int, long> vx(g.edition, p.levtype);
            // ap and b can be configured for the hybrid levels of one edition only
            const std::pair<int, long> hyb[] = {{1, 109}, {2, 105}};
            const bool clash = (vx == hyb[0] && std::count(ds.vert.begin(), ds.vert.end(), hyb[1])) || (vx == hyb[1] && std::count(ds.vert.begin(), ds.vert.end(), hyb[0]));
            if (!clash && std::find(ds.vert.begin(), ds.vert.end(), vx) == ds.vert.end())
                ds.vert.push_back(vx);
        }
    }
    ds.hybrid = c.b(0.7);
    c.assume(!ds.msgs.empty());
    ds.config = writeConfig(ds);
    // the files, messages in any order
    auto order = c.perm(ds.msgs.size());
    std::vector<std::string> content(nfiles);
    for (size_t k : order) {
        MX& x = ds.msgs[k];
        std::string b = encode(x.m, ds.grids[x.grid]);
        H h(b.data(), b.size());
        x.got = h.values();
        x.shortName = h.gs("shortName");
        if (x.shortName == "unknown")
            x.shortName = std::to_string(x.m.id[0]) + "_" + std::to_string(x.m.id[1]) + "_" + std::to_string(x.m.edition == 1 && x.m.members > 0 ? 98 : x.m.id[2]);
        x.valid = ds.ref + x.m.end * unitSec(x.m.unit, x.m.edition);
        for (auto& k : ds.confs)
            if (matches(k, x)) {
                x.conf = &k;
                break;
            }
        if (x.conf)
            x.var = x.conf->name;
        else if (!ds.definedOnly)
            x.var = "ga_" + x.shortName + "_" + std::to_string(x.m.levtype);
        content[x.file] += b;
    }
    for (auto& x : ds.msgs) // ds may have moved
        x.conf = nullptr;
    for (int f = 0; f < nfiles; ++f)
        std::ofstream(ds.files[f], std::ios::binary) << content[f];
    c.show() << "config:\n" << ds.config.substr(ds.config.find("<variables>")) << "\n";
    return ds;
}

double tolDeg(const DS& ds, const Grid& g)
{
    return ds.dblAxes ? (g.degree() ? 2e-6 : 3e-6) : (g.degree() ? 5e-5 : 1e-4);
}

std::string sattr(const CDM& cdm, const std::string& v, const std::string& n)
{
    CDMAttribute a;
    return cdm.getAttribute(v, n, a) ? a.getStringValue() : "(none)";
}

bool kvNonTrivial(const DS& ds)
{
    std::map<std::string, int> n;
    for (auto& x : ds.msgs)
        if (!x.var.empty() && ++n[x.var] > 1)
            return true;
    return false;
}

void checkAll(Case& c, CDMReader& rd, const DS& ds0, int reads)
{
    const DS& ds = ds0;
    const CDM& cdm = rd.getCDM();
    std::map<std::string, std::vector<const MX*>> vars;
    std::set<int64_t> times;
    auto confOf = [&](const std::string& n) -> const Conf* {
        for (auto& k : ds.confs)
            if (k.name == n)
                return &k;
        return nullptr;
    };
    for (auto& x : ds.msgs)
        if (!x.var.empty()) {
            vars[x.var].push_back(&x);
            const Conf* k = confOf(x.var);
            if (!k || !k->constantTime)
                times.insert(x.valid);
        }
    // time axis
    const std::vector<int64_t> tv(times.begin(), times.end());
    {
        dvec t = rawValues(rd.getData("time"));
        c.check(t.size() == tv.size(), "time axis has " + std::to_string(t.size()) + " values instead of " + std::to_string(tv.size()) + ": " + vec(t) + " expected " + vec(dvec(tv.begin(), tv.end())));
        for (size_t i = 0; i < t.size(); ++i)
            c.check(std::fabs(t[i] * ds.timeFactor + ds.timeZero - tv[i]) < 0.01, "time " + std::to_string(i) + " is " + num(t[i]) + " " + ds.timeUnits + ", expected epoch " + std::to_string(tv[i]));
        CDMAttribute a;
        if (ds.timeUnits.empty())
            c.check(sattr(cdm, "time", "units").find("seconds since 1970-01-01") == 0, "default units of time");
        if (!vars.empty()) {
            c.check(cdm.hasVariable("forecast_reference_time"), "no reference time");
            DataPtr r = rd.getScaledDataInUnit("forecast_reference_time", "seconds since 1970-01-01 00:00:00");
            c.check(r->size() == 1 && std::fabs(r->asDouble()[0] - ds.ref) < 0.5, "reference time is " + num(r->asDouble()[0]) + ", expected " + std::to_string(ds.ref));
        }
        if (!tv.empty()) {
            auto iso = [](int64_t s) { return cal::fromEpochMs(s * 1000).iso() + "Z"; };
            c.check(sattr(cdm, CDM::globalAttributeNS(), "min_time") == iso(tv.front()), "min_time is " + sattr(cdm, CDM::globalAttributeNS(), "min_time") + " expected " + iso(tv.front()));
            c.check(sattr(cdm, CDM::globalAttributeNS(), "max_time") == iso(tv.back()), "max_time is " + sattr(cdm, CDM::globalAttributeNS(), "max_time") + " expected " + iso(tv.back()));
        }
    }
    for (auto& v : cdm.getVariables()) {
        const std::string& n = v.getName();
        if (n.compare(0, 3, "ga_") == 0 || n.compare(0, 3, "var") == 0 || n.compare(0, 5, "decoy") == 0)
            c.check(vars.count(n), "variable " + n + " belongs to no message");
    }
    for (auto& kv : vars) {
        const std::string& name = kv.first;
        const Conf* k = confOf(name);
        const MX& x0 = *kv.second[0];
        const Grid& g = ds.grids[x0.grid];
        c.check(cdm.hasVariable(name), "no variable " + name);
        const CDMVariable& var = cdm.getVariable(name);
        const auto shape = var.getShape();
        const bool hasTime = !(k && k->constantTime);
        const bool ens = x0.m.members > 1 || !ds.memberNames.empty();
        c.check(shape.size() == 3u + hasTime + ens, name + " has " + std::to_string(shape.size()) + " dimensions");
        CDMAttribute a;
        if (k) {
            c.check(var.getDataType() == k->type, name + " has the wrong type");
            c.check(sattr(cdm, name, "long_name") == "config " + name, "attribute of " + name);
            c.check(var.isSpatialVector() == !k->vecDir.empty(), name + (k->vecDir.empty() ? " is a vector" : " is no vector"));
            if (!k->vecDir.empty())
                c.check(var.getSpatialVectorCounterpart() == "other" && (var.getSpatialVectorDirection() == CDMVariable::SPATIAL_VECTOR_X) == (k->vecDir == "x"), name + ": vector direction or counterpart");
            if (k->dated && !tv.empty()) {
                cal::T m = cal::fromEpochMs(tv.back() * 1000);
                char b[32];
                snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02d", m.y, m.mo, m.d, m.h, m.mi, m.s);
                c.check(sattr(cdm, name, "until") == b, "attribute until of " + name + " is " + sattr(cdm, name, "until") + " expected " + b);
            }
        }
        // horizontal position of each point
        const size_t nx = cdm.getDimension(shape[0]).getLength(), ny = cdm.getDimension(shape[1]).getLength();
        c.check(nx == size_t(g.ni) && ny == size_t(g.nj), name + ": size of the grid");
        dvec xs = rawValues(rd.getData(shape[0])), ys = rawValues(rd.getData(shape[1]));
        c.check(xs.size() == nx && ys.size() == ny, "size of axes");
        dvec lon, lat;
        g.lonLat(lon, lat);
        c.check(cdm.getAttribute(name, "grid_mapping", a), name + " has no grid_mapping");
        Projection_cp pr = cdm.getProjectionOf(name);
        c.check(!!pr, name + " has no projection");
        std::vector<double> px, py;
        for (size_t j = 0; j < ny; ++j)
            for (size_t i = 0; i < nx; ++i)
                px.push_back(xs[i]), py.push_back(ys[j]);
        if (g.type == LL) {
        } else {
            cf::Pj pj(pr->getProj4String(), "+proj=latlong " + g.earth.proj());
            for (size_t i = 0; i < px.size(); ++i) {
                if (g.type == ROT)
                    ; // degrees in, as PROJ takes for ob_tran of longlat via crs
                c.check(pj.fwd(px[i], py[i]), "PROJ cannot convert the position");
            }
        }
        const double tol = tolDeg(ds, g);
        for (size_t i = 0; i < px.size(); ++i) {
            const double dl = std::fabs(std::remainder(px[i] - lon[i], 360.)) * std::cos(lat[i] * M_PI / 180), db = std::fabs(py[i] - lat[i]);
            if (!(dl <= tol && db <= tol))
                c.fail(name + ": point " + std::to_string(i) + " (x=" + num(xs[i % nx]) + ", y=" + num(ys[i / nx]) + ") is at " + num(px[i]) + "," + num(py[i]) + ", the message says " + num(lon[i]) +
                       "," + num(lat[i]) + "; " + pr->getProj4String());
        }
        if (g.type != LL) {
            c.check(cdm.getAttribute(name, "coordinates", a), name + " has no coordinates");
            std::istringstream is(a.getStringValue());
            std::string ln, lt;
            is >> ln >> lt;
            dvec l1 = rawValues(rd.getData(ln)), l2 = rawValues(rd.getData(lt));
            c.check(l1.size() == nx * ny && l2.size() == nx * ny, "size of " + ln + ", " + lt);
            for (size_t i = 0; i < l1.size(); ++i)
                c.check(std::fabs(std::remainder(l1[i] - lon[i], 360.)) * std::cos(lat[i] * M_PI / 180) < 1e-4 && std::fabs(l2[i] - lat[i]) < 1e-4,
                        ln + "/" + lt + " of point " + std::to_string(i) + " are " + num(l1[i]) + "," + num(l2[i]) + ", the message says " + num(lon[i]) + "," + num(lat[i]));
        } else {
            for (size_t i = 1; i < xs.size(); ++i)
                c.check((xs[i] > xs[i - 1]) == (xs[1] > xs[0]), "longitude axis is not monotonous");
        }
        // levels
        const std::string& ld = shape[2 + ens];
        std::set<long> lev;
        for (auto x : kv.second)
            lev.insert(x->m.level);
        dvec lv = rawValues(rd.getData(ld));
        c.check(lv.size() == lev.size(), name + ": number of levels");
        std::vector<long> levs(lev.begin(), lev.end());
        const bool hyb = !x0.m.pv.empty() && ds.hybrid && std::count(ds.vert.begin(), ds.vert.end(), std::make_pair(x0.m.edition, x0.m.levtype));
        for (size_t i = 0; i < lv.size(); ++i)
            c.check(std::fabs(lv[i] - levs[i]) < 1e-4, name + ": level " + std::to_string(i) + " is " + num(lv[i]) + " instead of " + std::to_string(levs[i]));
        if (hyb) {
            const std::string id = "lev" + std::to_string(x0.m.edition) + "_" + std::to_string(x0.m.levtype);
            c.check(ld.compare(0, id.size(), id) == 0, "name of the level dimension " + ld);
            const std::string ext = ld.substr(id.size());
            const dvec& pv = x0.m.pv;
            const size_t half = pv.size() / 2;
            for (const char* n : {"ap", "b", "ah", "bh"}) {
                c.check(cdm.hasVariable(n + ext), "no variable " + (n + ext));
                dvec d = rawValues(rd.getData(n + ext));
                c.check(d.size() == levs.size(), "size of " + (n + ext));
                for (size_t i = 0; i < levs.size(); ++i) {
                    const size_t o = (n[0] == 'b' ? half : 0) + levs[i];
                    const double e = n[1] == 'h' ? pv[o - 1] : (pv[o - 1] + pv[o]) / 2;
                    c.check(pbt::close(d[i], e, 1e-5, 1e-4), n + ext + " of level " + std::to_string(levs[i]) + " is " + num(d[i]) + " instead of " + num(e));
                }
            }
        }
        // the whole array
        const size_t nl = levs.size(), ne = ens ? cdm.getDimension(shape[2]).getLength() : 1, nt = hasTime ? tv.size() : 1;
        if (ens)
            c.check(ne == (ds.memberNames.empty() ? size_t(x0.m.members) : ds.memberNames.size()), "number of members is " + std::to_string(ne));
        const size_t nxy = nx * ny;
        dvec exp(nxy * ne * nl * nt, UNDEF);
        for (auto x : kv.second) {
            const size_t it = hasTime ? std::find(tv.begin(), tv.end(), x->valid) - tv.begin() : 0;
            const size_t il = std::find(levs.begin(), levs.end(), x->m.level) - levs.begin();
            const size_t ie = ens ? x->m.member : 0;
            for (long j = 0; j < g.nj; ++j)
                for (long i = 0; i < g.ni; ++i) {
                    double v = x->got[g.at(i, j)];
                    exp[((it * nl + il) * ne + ie) * nxy + j * nx + i] = v == 1e30 ? UNDEF : v;
                }
        }
        const double fv = cdm.getFillValue(name);
        const bool packed = k && k->scale != 0 && k->type != CDM_DOUBLE && k->type != CDM_FLOAT;
        std::vector<size_t> sizes = {nx, ny};
        if (ens)
            sizes.push_back(ne);
        sizes.push_back(nl);
        if (hasTime)
            sizes.push_back(nt);
        auto cmp = [&](DataPtr d, const dvec& e, bool scaled, const std::string& how) {
            c.check(d && d->size() == e.size(), how + ": size " + std::to_string(d ? d->size() : 0) + " instead of " + std::to_string(e.size()));
            auto got = d->asDouble();
            for (size_t i = 0; i < e.size(); ++i) {
                double gv = got[i];
                const bool und = std::isnan(gv) || (!scaled && (gv == fv || (k && k->type == CDM_FLOAT && float(gv) == float(fv))));
                bool ok;
                if (std::isnan(e[i]))
                    ok = und;
                else if (und)
                    ok = false;
                else {
                    double t = 1e-6 * std::fabs(e[i]) + 1e-9;
                    if (packed && !scaled)
                        gv = gv * k->scale + k->off;
                    if (k && k->scale != 0) {
                        t += 0.5 * k->scale * (1 + 1e-4);
                        if (!packed)
                            ok = std::fabs(std::remainder(gv, k->scale)) < 1e-5 * std::fabs(gv) + 1e-6 * k->scale;
                        else
                            ok = true;
                    } else
                        ok = true;
                    ok = ok && std::fabs(gv - e[i]) <= t;
                }
                if (!ok)
                    c.fail(how + ": element " + std::to_string(i) + " is " + num(gv) + (und ? " (undefined)" : "") + ", the message has " + num(e[i]));
            }
        };
        cmp(rd.getData(name), exp, false, "getData(" + name + ")");
        cmp(rd.getScaledData(name), exp, true, "getScaledData(" + name + ")");
        for (int r = 0; r < reads; ++r) {
            if (hasTime && c.b(0.25)) {
                const size_t t = c.idx(nt);
                const size_t n = exp.size() / nt;
                cmp(rd.getDataSlice(name, t), dvec(exp.begin() + t * n, exp.begin() + (t + 1) * n), false, "getDataSlice(" + name + "," + std::to_string(t) + ")");
                continue;
            }
            SliceBuilder sb(cdm, name);
            std::vector<size_t> st(sizes.size(), 0), n(sizes);
            std::string how = "slice of " + name;
            for (size_t d = 0; d < sizes.size(); ++d) {
                if (c.b(0.4))
                    continue;
                st[d] = c.idx(sizes[d]);
                n[d] = c.i(1, sizes[d] - st[d]);
                sb.setStartAndSize(shape[d], st[d], n[d]);
                how += " " + shape[d] + "[" + std::to_string(st[d]) + "+" + std::to_string(n[d]) + "]";
            }
            dvec e;
            size_t total = 1;
            for (size_t x : n)
                total *= x;
            for (size_t q = 0; q < total; ++q) {
                size_t rest = q, pos = 0, stride = 1;
                for (size_t d = 0; d < sizes.size(); ++d) {
                    pos += (st[d] + rest % n[d]) * stride;
                    rest /= n[d];
                    stride *= sizes[d];
                }
                e.push_back(exp[pos]);
            }
            const bool sc = c.b(0.3);
            cmp(sc ? rd.getScaledDataSlice(name, sb) : rd.getDataSlice(name, sb), e, sc, how);
        }
    }
    if (!ds.memberNames.empty() && !vars.empty()) {
        c.check(cdm.hasVariable("ensemble_member_names"), "no names of members");
        CDMAttribute a;
        std::string e;
        for (auto& n : ds.memberNames)
            e += (e.empty() ? "" : " ") + n;
        c.check(sattr(cdm, "ensemble_member", "flag_meanings") == e, "flag_meanings " + sattr(cdm, "ensemble_member", "flag_meanings"));
    }
    if (kvNonTrivial(ds))
        c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    samples();
    pbt::Runner r("C23", "at least two messages for one variable");
    r.init(quiet);
    r.sub("read", [](Case& c) {
        DS ds = gen(c);
        std::vector<std::string> args;
        for (size_t f = 1; f < ds.files.size(); ++f)
            args.push_back(ds.files[f]);
        for (size_t f = 0; f < ds.memberNames.size(); ++f)
            args.push_back(c.b() ? "memberName:part_" + std::string(1, 'a' + f) + ":" + ds.memberNames[f] : "memberRegex:.*part_" + std::string(1, 'a' + f) + ".*:" + ds.memberNames[f]);
        XMLInputString cfg(ds.config);
        std::string first = ds.files[0];
        if (args.size() && c.b(0.3)) {
            const int how = c.i(0, 2);
            args.erase(args.begin(), args.begin() + ds.files.size() - 1);
            if (how == 0) {
                first = "many:;";
                for (size_t f = 0; f < ds.files.size(); ++f)
                    first += (f ? ";" : "") + ds.files[f];
            } else if (how == 1) {
                first = "glob:" + ds.files[0].substr(0, ds.files[0].rfind('/')) + "/part_?.grb";
            } else {
                const std::string lf = ds.files[0].substr(0, ds.files[0].rfind('/')) + "/list.txt";
                std::ofstream o(lf);
                for (auto& f : ds.files)
                    o << f << "\n";
                first = "list:" + lf;
            }
            c.label(first.substr(0, 4));
        }
        CDMReader_p rd = CDMFileReaderFactory::create("grib", first, cfg, args);
        checkAll(c, *rd, ds, 6);
    }, 700, 40000);
    r.sub("index", [](Case& c) {
        DS ds = gen(c);
        const std::string dir = ds.files[0].substr(0, ds.files[0].rfind('/'));
        std::vector<std::pair<std::string, std::string>> members;
        for (size_t f = 0; f < ds.memberNames.size(); ++f)
            members.push_back(std::make_pair(ds.memberNames[f], ".*part_" + std::string(1, 'a' + f) + ".*"));
        auto ca = createDefaultChunkReaderFactory();
        XMLInputString cfg(ds.config);
        if (c.b()) {
            c.label("grbml");
            std::map<std::string, std::string> opts;
            for (auto& k : ds.confs)
                if (k.process >= 0)
                    opts["extraKeys"] = "generatingProcessIdentifier";
            const std::string ix = dir + "/all.grbml";
            bool have = false;
            for (auto& f : ds.files) {
                std::ostringstream o;
                auto rx = GribCDMIndexer::makeMembersRegex(members);
                if (have)
                    o << GribFileIndex(ca, f, ix, rx, opts);
                else
                    o << GribFileIndex(ca, f, rx, opts);
                std::ofstream(ix) << o.str();
                have = true;
            }
            std::vector<std::string> args;
            for (auto& m : members)
                args.push_back("memberRegex:" + m.second + ":" + m.first);
            CDMReader_p rd = CDMFileReaderFactory::create("grbml", ix, cfg, args);
            checkAll(c, *rd, ds, 3);
        } else {
            c.label("grbfp");
            auto cdm = std::make_shared<CDM>();
            auto gi = std::make_shared<GribCDMIndexer::grib_indexed>();
            GribCDMIndexer ind(cfg, members, ca);
            ind.load(ds.files);
            ind.build(cdm, gi);
            const std::string ix = dir + "/all.grbfp";
            GribProtobufIndexWriter().write(*cdm, *gi, ix);
            CDMReader_p rd = CDMFileReaderFactory::create("grbfp", ix);
            checkAll(c, *rd, ds, 3);
        }
    }, 300, 20000);
    r.sub("broken", [](Case& c) {
        DS ds = gen(c);
        XMLInputString cfg(ds.config);
        const std::string file = ds.files[c.idx(ds.files.size())];
        std::string b;
        {
            std::ifstream in(file, std::ios::binary);
            b.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
        }
        c.assume(!b.empty());
        std::vector<size_t> start;
        for (size_t p = 0; p < b.size();) {
            start.push_back(p);
            const bool g1 = b[p + 7] == 1;
            size_t n = 0;
            for (int i = 0; i < (g1 ? 3 : 8); ++i)
                n = n << 8 | (unsigned char)b[p + (g1 ? 4 : 8) + i];
            p += n;
        }
        const size_t k = c.idx(start.size()), p = start[k], next = k + 1 < start.size() ? start[k + 1] : b.size();
        const bool g1 = b[p + 7] == 1;
        const bool indexed = c.b(0.3);
        const std::string ix = file + "ml";
        if (indexed) {
            std::ostringstream o;
            o << GribFileIndex(createDefaultChunkReaderFactory(), file, std::vector<std::pair<std::string, std::regex>>(), std::map<std::string, std::string>());
            std::ofstream(ix) << o.str();
        }
        const int how = indexed ? 0 : c.w({4, 1, 1, 1, 1});
        switch (how) {
        case 0: { // somewhere inside of the message
            const size_t at = c.b(0.3) ? p + c.i(1, 20) : c.b(0.3) ? next - c.i(1, 5) : p + 1 + c.idx(next - p - 1);
            b.resize(at);
            break;
        }
        case 1: b[p + c.i(0, 3)] ^= 1 << c.i(0, 7); break;
        case 2: b[p + 7] = c.pick<int>({0, 3, 255, 'B'}); break;
        case 3: // size 0, or too small
            for (int i = 0; i < (g1 ? 3 : 8); ++i)
                b[p + (g1 ? 4 : 8) + i] = 0;
            b[p + (g1 ? 6 : 15)] = c.i(0, 12);
            break;
        default: // size beyond the end
            b[p + (g1 ? 4 : 8 + c.i(0, 4))] |= 0x40;
        }
        std::ofstream(file, std::ios::binary) << b;
        c.show() << "message " << k << " of " << start.size() << " damaged, kind " << how << (indexed ? " after indexing" : "") << "\n";
        c.label(indexed ? "indexed" : how ? "header" : "truncated");
        c.nontrivial();
        bool refused = false;
        try {
            CDMReader_p rd = CDMFileReaderFactory::create(indexed ? "grbml" : "grib", indexed ? ix : file, cfg, std::vector<std::string>());
            for (auto& v : rd->getCDM().getVariables())
                rd->getScaledData(v.getName());
        } catch (pbt::Fail&) {
            throw;
        } catch (std::exception& e) {
            refused = true;
        }
        const bool used = !(ds.definedOnly && indexed); // a damaged message nobody asks for can go unnoticed after indexing
        c.check(refused || !used, "the damaged file was read without an error");
    }, 250, 15000);
    r.sub("shipped", [](Case& c) {
        // levels and units of the configuration that comes with fimex agree with the WMO code tables
        const std::string dir = c.tmpdir() + "/case";
        std::filesystem::remove_all(dir);
        std::filesystem::create_directory(dir);
        const int edition = c.i(1, 2);
        const bool e1 = edition == 1;
        Grid g = genGrid(c, edition);
        Msg m;
        m.edition = edition;
        const int kind = c.w({3, 1, 1, 1});
        m.levtype = kind == 0 ? 100 : kind == 1 ? (e1 ? 103 : 102) : kind == 2 ? (e1 ? 105 : 103) : (e1 ? 113 : 107);
        m.id[0] = e1 ? 11 : 0, m.id[1] = e1 ? 2 : 0, m.id[2] = e1 ? 88 : 0;
        m.refDate = 20200101, m.refTime = 0;
        m.values.assign(g.ni * g.nj, 270.);
        std::set<long> levels;
        for (int n = c.i(1, 4); n > 0; --n)
            levels.insert(kind == 0 ? c.i(1, 1100) : c.i(2, 500));
        std::string b;
        for (long l : levels) {
            m.level = l;
            b += encode(m, g);
        }
        c.show() << "grib" << edition << " level type " << m.levtype << " levels " << vec(dvec(levels.begin(), levels.end())) << "\n";
        std::ofstream(dir + "/a.grb", std::ios::binary) << b;
        const char* repo = getenv("VERIF_REPO");
        CDMReader_p rd = CDMFileReaderFactory::create("grib", dir + "/a.grb", std::string(repo ? repo : "/repo") + "/share/etc/cdmGribReaderConfig.xml");
        const CDM& cdm = rd->getCDM();
        const std::string axis = kind == 0 ? "pressure" : kind == 1 ? "height_above_msl" : kind == 2 ? "height" : "theta";
        c.check(cdm.hasVariable(axis), "no variable " + axis);
        dvec got = rawValues(rd->getScaledDataInUnit(axis, kind == 0 ? "Pa" : kind == 3 ? "K" : "m"));
        std::sort(got.begin(), got.end());
        c.check(got.size() == levels.size(), "number of levels is " + std::to_string(got.size()));
        size_t i = 0;
        for (long l : levels) {
            c.check(pbt::close(got[i], kind == 0 ? 100. * l : l, 1e-6, 1e-6), axis + " is " + num(got[i]) + " for level " + std::to_string(l));
            i++;
        }
        c.nontrivial();
    }, 60, 3000);
    r.sub("cdm", [](Case& c) {
        Model m = genModel(c, true);
        Source src(m);
        std::map<std::string, std::pair<std::string, int>> vec;
        for (auto& v : m.vars)
            if (c.b(0.3)) {
                const int d = c.i(1, 4);
                vec[v.name] = std::make_pair(m.vars[c.idx(m.vars.size())].name, d);
                src.cdm().getVariable(v.name).setAsSpatialVector(vec[v.name].first, CDMVariable::SpatialVectorDirection(d));
            }
        for (auto& v : m.vars) // text in memory, too
            if ((v.type == CDM_STRING || v.type == CDM_STRINGS) && std::count(v.missing.begin(), v.missing.end(), 1) == 0 && c.b()) {
                v.inMemory = true;
                src.cdm().getVariable(v.name).setData(dataOf(v));
            }
        if (!m.vars.empty())
            c.nontrivial();
        fimex_index::CDM f, g;
        ProtobufCDM::writeCDM(&f, src.getCDM());
        std::string bytes;
        c.check(f.SerializeToString(&bytes), "cannot be serialised");
        c.check(g.ParseFromString(bytes), "cannot be parsed");
        CDM cdm;
        ProtobufCDM::readCDM(cdm, g);
        c.check(cdm.getDimensions().size() == m.dims.size(), "number of dimensions");
        for (size_t k = 0; k < m.dims.size(); ++k) {
            auto& d = cdm.getDimensions()[k];
            c.check(d.getName() == m.dims[k].name && d.getLength() == m.dims[k].len && (bool)d.isUnlimited() == m.dims[k].unlim, "dimension " + d.getName());
        }
        auto ga = cdm.getAttributes(CDM::globalAttributeNS());
        c.check(ga.size() == m.gatts.size(), "number of global attributes");
        for (size_t k = 0; k < ga.size(); ++k)
            checkAtt(c, ga[k], m.gatts[k]);
        c.check(cdm.getVariables().size() == m.vars.size(), "number of variables");
        for (size_t k = 0; k < m.vars.size(); ++k) {
            const V& v = m.vars[k];
            const CDMVariable& x = cdm.getVariables()[k];
            c.check(x.getName() == v.name && x.getDataType() == v.type && x.getShape() == v.shape, "variable " + v.name + " has another name, type or shape");
            auto as = cdm.getAttributes(v.name);
            c.check(as.size() == v.atts.size(), v.name + ": number of attributes");
            for (size_t i = 0; i < as.size(); ++i)
                checkAtt(c, as[i], v.atts[i]);
            c.check(x.isSpatialVector() == (vec.count(v.name) > 0), v.name + ": vector");
            if (vec.count(v.name))
                c.check(x.getSpatialVectorCounterpart() == vec[v.name].first && x.getSpatialVectorDirection() == vec[v.name].second, v.name + ": part of vector");
            const size_t n = prod(m.sizes(v));
            if (v.inMemory && n > 0) {
                c.check(x.hasData() && x.getData()->size() == n, v.name + ": number of values kept");
                if (v.type == CDM_STRING)
                    c.check(x.getData()->asString() == v.text, v.name + ": text kept");
                else if (v.type == CDM_STRINGS) {
                    auto s = x.getData()->asStrings();
                    for (size_t i = 0; i < n; ++i)
                        c.check(s[i] == v.strs[i], v.name + ": string kept is '" + s[i] + "', expected '" + v.strs[i] + "'");
                } else
                    same(c, v.name + " kept", rawValues(x.getData()), v.v);
            } else
                c.check(!x.hasData() || x.getData()->size() == 0, v.name + ": values from nowhere");
        }
    }, 1500, 100000);
    return r.main(argc, argv);
}
