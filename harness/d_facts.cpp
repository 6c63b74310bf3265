// Satellites and channels, sampling grids, times and calendar
#include "drv.h"
#include <memory>
#include <sstream>
#include <time.h>
#include <msat/facts.h>
#include <msat/hrit/MSG_time_cds.h>
#include <msat/hrit/MSG_spacecraft.h>
#include <msat/hrit/MSG_channel.h>
using namespace msat;

static json real(double v)
{
    if (v != v) return "NaN";
    char b[40]; snprintf(b, 40, "%.17g", v);
    return b;
}
static double num(const json& j) { return j.is_string() ? strtod(j.get<std::string>().c_str(), nullptr) : (double)j.get<int>(); }

static std::unique_ptr<MSG_time_cds_short> shorts;
static std::unique_ptr<MSG_time_cds> cds;
static std::unique_ptr<MSG_time_cds_expanded> expanded;
static std::unique_ptr<MSG_time_cuc> cuc;
static std::unique_ptr<MSG_time_generalized> general;

static void zone(const std::string& tz)
{
    if (tz.empty()) unsetenv("TZ"); else setenv("TZ", tz.c_str(), 1);
    tzset();
}

void reset_case()
{
    shorts.reset(new MSG_time_cds_short); cds.reset(new MSG_time_cds); expanded.reset(new MSG_time_cds_expanded);
    cuc.reset(new MSG_time_cuc); general.reset(new MSG_time_generalized);
    zone("");
}

static json unixj(time_t t)
{
    long long d = t / 86400, s = t % 86400;
    if (s < 0) { s += 86400; --d; }
    return {{"day", (int)d}, {"sec", (int)s}};
}
static json tmj(const struct tm* t)
{
    return {{"y", t->tm_year + 1900}, {"m", t->tm_mon + 1}, {"d", t->tm_mday}, {"H", t->tm_hour}, {"M", t->tm_min}, {"S", t->tm_sec}};
}
template <typename T> static json told(T& t)
{
    const T& ct = t;
    std::string s = t.get_timestring();
    json out = {{"text", codes(s)}, {"unix", unixj(t.get_unixtime())}, {"tm", tmj(t.get_timestruct())}};
    out["char"] = codes(t.get_timechar());
    out["ctext"] = codes(ct.get_timestring());
    std::ostringstream o; o << t;
    out["shown"] = o.str().find(s) != std::string::npos;
    return out;
}

json run_op(const std::string& op, const json& in)
{
    if (op == "sat")
    {
        int id = in["id"];
        return {{"wmo", facts::spacecraftIDFromHRIT(id)}, {"hrit", facts::spacecraftIDToHRIT(id)}, {"name", facts::spacecraftName(id)},
                {"sensor", facts::sensorName(id)}, {"label", MSG_spacecraft_name((t_enum_MSG_spacecraft)id)}};
    }
    if (op == "satname") return {{"id", facts::spacecraftID(in["name"].get<std::string>())}};
    if (op == "chan")
    {
        int s = in["sat"], c = in["chan"];
        return {{"name", facts::channelName(s, c)}, {"unit", facts::channelUnit(s, c)}, {"level", facts::channelLevel(s, c)},
                {"digits", facts::significantDigitsForChannel(c)}, {"packed", real(facts::defaultPackedMissing(c))}, {"scaled", real(facts::defaultScaledMissing(c))}};
    }
    if (op == "label") return {{"label", MSG_channel_name((t_enum_MSG_spacecraft)in["sat"].get<int>(), in["chan"].get<int>())}};
    if (op == "wave")
        return {{"length", real(facts::channel_central_wavelength(in["sat"], in["chan"]))}, {"number", real(facts::channel_central_wave_number(in["sat"], in["chan"]))}};
    if (op == "ofwave") return {{"chan", facts::channel_from_central_wavelength(in["sat"], num(in["w"]))}};
    if (op == "ofnumber") return {{"chan", facts::channel_from_central_wave_number(in["sat"], num(in["w"]))}};
    if (op == "grid")
    {
        std::string f = in["f"];
        double x = num(in["x"]);
        if (f == "size") return {{"h", real(facts::pixelHSizeFromCFAC(x))}, {"v", real(facts::pixelVSizeFromLFAC(x))}};
        if (f == "fac") return {{"h", real(facts::CFACFromPixelHSize(x))}, {"v", real(facts::LFACFromPixelVSize(x))}};
        if (f == "disc") return {{"h", facts::seviriDXFromPixelHSize(x)}, {"v", facts::seviriDYFromPixelVSize(x)}};
        if (f == "discoffac") return {{"h", facts::seviriDXFromCFAC(x)}, {"v", facts::seviriDYFromLFAC(x)}, {"h2", facts::seviriDXFromColumnRes(x)}, {"v2", facts::seviriDYFromLineRes(x)}};
        int d = (int)lrint(x);
        if (f == "facofdisc") return {{"h", real(facts::CFACFromSeviriDX(d))}, {"v", real(facts::LFACFromSeviriDY(d))}, {"h2", real(facts::columnResFromSeviriDX(d))}, {"v2", real(facts::lineResFromSeviriDY(d))}};
        if (f == "sizeofdisc") return {{"h", real(facts::pixelHSizeFromSeviriDX(d))}, {"v", real(facts::pixelVSizeFromSeviriDY(d))}};
    }
    if (op == "jday") return {{"jday", facts::jday(in["y"], in["m"], in["d"])}};
    if (op == "sun")
    {
        int j = in["jday"], H = in["H"], M = in["M"];
        double lat = num(in["lat"]), lon = num(in["lon"]);
        return {{"date", real(facts::cos_sol_za(in["y"].get<int>(), in["m"].get<int>(), in["d"].get<int>(), H, M, lat, lon))},
                {"day", real(facts::cos_sol_za(j, H, M, lat, lon))}, {"hour", real(facts::cos_sol_za(j, H + M / 60.0, lat, lon))},
                {"sat", real(facts::sat_za(lat, lon))}};
    }
    if (op == "tz") { zone(in["tz"]); return json::object(); }
    if (op == "tread")
    {
        std::string b = text(in["bytes"]);
        b.push_back(0);
        const unsigned char* p = (const unsigned char*)b.data();
        std::string k = in["kind"];
        bool fresh = in.value("fresh", 0);
        int n = 0;
        if (k == "short") { if (fresh) { shorts.reset(new MSG_time_cds_short(p)); n = 6; } else n = shorts->read_from(p); }
        else if (k == "cds") { if (fresh) { cds.reset(new MSG_time_cds(p)); n = 8; } else n = cds->read_from(p); }
        else if (k == "expanded") { if (fresh) { expanded.reset(new MSG_time_cds_expanded(p)); n = 10; } else n = expanded->read_from(p); }
        else if (k == "cuc") { if (fresh) { cuc.reset(new MSG_time_cuc(p)); n = 7; } else n = cuc->read_from(p); }
        else { if (fresh) { general.reset(new MSG_time_generalized(p)); n = 15; } else n = general->read_from(p); }
        return {{"n", n}};
    }
    if (op == "told")
    {
        std::string k = in["kind"];
        if (k == "short") return told(*shorts);
        if (k == "cds") { json o = told(*cds); o["us"] = cds->get_microsecs(); return o; }
        if (k == "expanded") { json o = told(*expanded); o["us"] = expanded->get_microsecs(); o["ns"] = expanded->get_nanosecs(); return o; }
        if (k == "cuc") return {{"coarse", codes(cuc->get_coarse_time())}, {"fine", codes(cuc->get_fine_time())}, {"value", real(cuc->get_time_cuc_r8())}};
        return told(*general);
    }
    throw "bad op";
}
