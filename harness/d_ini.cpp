// Drives the ini parser and the DB1 reader built on it.
#include "drv.h"
#include <msat/iniparser.h>
#include <msat/thornsds_db1/thornsds_db1.h>
#include <sstream>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>

static std::string scratch;
static dictionary* d = 0;
static MSG_db1_data* db = 0;

static void wipe(const std::string& p)
{
    if (DIR* h = opendir(p.c_str()))
    {
        while (dirent* e = readdir(h))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string q = p + "/" + n;
            struct stat st;
            if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(q); rmdir(q.c_str()); }
            else unlink(q.c_str());
        }
        closedir(h);
    }
}
void reset_case()
{
    if (d) iniparser_free(d);
    d = 0;
    delete db;
    db = 0;
    if (!scratch.empty()) { wipe(scratch); rmdir(scratch.c_str()); scratch.clear(); }
}
static std::string dir()
{
    if (scratch.empty())
    {
        const char* t = getenv("TMPDIR");
        std::string p = std::string(t ? t : "/tmp") + "/iniXXXXXX";
        if (!mkdtemp(&p[0])) abort();
        scratch = p;
    }
    return scratch;
}
static void put(const std::string& p, const std::string& s)
{
    FILE* f = fopen(p.c_str(), "w");
    if (!s.empty()) fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
static std::string slurp(const std::string& p)
{
    std::ifstream f(p);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static char* C(const std::string& s) { return const_cast<char*>(s.c_str()); }
static json str(const char* s) { return s ? codes(s) : json::array({-1}); }
static json th(float v) { return scaled(v, 1000); }

static json ask()
{
    json o;
    o["ok"] = db->is_data_ok() ? 1 : 0;
    o["aoi"] = {db->get_AoI_npixels(), db->get_AoI_nlines(), db->get_AoI_cfac(), db->get_AoI_lfac(), db->get_AoI_coff(), db->get_AoI_loff()};
    o["names"] = {str(db->get_AoI_name()), str(db->get_AoI_projection()), str(db->get_INFO_station_name()), str(db->get_INFO_satellite_name()),
                  str(db->get_INFO_schedule_start()), str(db->get_INFO_schedule_end()), str(db->get_INFO_schedule_location()),
                  str(db->get_INFO_schedule_slot()), str(db->get_INFO_image_sensor())};
    o["ints"] = {db->get_INFO_satellite_id(), db->get_INFO_satellite_orbit(), db->get_INFO_image_pixels(), db->get_INFO_image_lines(),
                 db->get_INFO_image_bitsperpixel(), db->get_INFO_image_nchannels(), db->get_INFO_image_nproducts()};
    o["bools"] = {(int)db->get_INFO_schedule_northsouth(), (int)db->get_INFO_schedule_day(), (int)db->get_INFO_image_protected()};
    o["elev"] = th(db->get_INFO_schedule_elevation());
    o["ch"] = {str(db->get_channel_INFO_name()), str(db->get_channel_INFO_variable()), str(db->get_channel_INFO_variable_code()), str(db->get_channel_INFO_units())};
    o["chbits"] = db->get_channel_INFO_bitsperpixel();
    o["chtable"] = (int)db->get_channel_INFO_table();
    o["coeff"] = {th(db->get_channel_Calibration_Slope()), th(db->get_channel_Calibration_TargetCount()), th(db->get_channel_Calibration_Vc()),
                  th(db->get_channel_Calibration_A()), th(db->get_channel_Calibration_B())};
    o["size"] = db->get_raw_data_size();
    int n = db->get_raw_data_nvals();
    o["nvals"] = n;
    o["raw"] = json::array();
    unsigned short* r = db->get_RAW_data();
    o["has"] = r ? 1 : 0;
    if (r) for (int i = 0; i < n; ++i) o["raw"].push_back((int)r[i]);
    int nc = db->get_number_of_calibration();
    o["ncal"] = nc;
    o["cal"] = json::array();
    float* c = db->get_calibration();
    o["hascal"] = c ? 1 : 0;
    if (c) for (int i = 0; i < nc; ++i) if (c[i] != 0) o["cal"].push_back({i, th(c[i])});
    return o;
}

json run_op(const std::string& op, const json& in)
{
    std::cerr.setstate(std::ios::failbit);
    if (op == "read" || op == "absent")
    {
        if (d) iniparser_free(d);
        std::string p = dir() + "/f.ini";
        unlink(p.c_str());
        if (op == "read") put(p, text(in["text"]));
        d = iniparser_new(C(p));
        return {{"ok", d ? 1 : 0}};
    }
    if (op == "get")
    {
        static char def[] = "default";
        std::string key = text(in["key"]);
        char* s = iniparser_getstring(d, C(key), def);
        json o;
        o["kind"] = s == def ? "default" : s ? "value" : "null";
        o["s"] = s && s != def ? codes(s) : json::array();
        char* g = iniparser_getstr(d, C(key));
        o["same"] = (g == 0) == (s == 0 || s == def) && (!g || !strcmp(g, s)) ? 1 : 0;
        o["find"] = iniparser_find_entry(d, C(key));
        o["int"] = iniparser_getint(d, C(key), -7777);
        o["real"] = scaled(iniparser_getdouble(d, C(key), -7777), 1000);
        o["bool"] = iniparser_getboolean(d, C(key), -7777);
        return o;
    }
    if (op == "set")
    {
        std::string key = text(in["key"]), v = text(in["v"]);
        int r = iniparser_setstr(d, C(key), in["null"].get<int>() ? 0 : C(v));
        return {{"r", r}};
    }
    if (op == "unset")
    {
        std::string key = text(in["key"]);
        iniparser_unset(d, C(key));
        return {{"r", 0}};
    }
    if (op == "dump" || op == "save" || op == "reload")
    {
        std::string p = dir() + "/out.ini";
        FILE* f = fopen(p.c_str(), "w");
        if (op == "dump") iniparser_dump(d, f); else iniparser_dump_ini(d, f);
        fclose(f);
        json o = {{"text", codes(slurp(p))}};
        if (op == "reload")
        {
            iniparser_free(d);
            d = iniparser_new(C(p));
        }
        return o;
    }
    if (op == "sections")
    {
        json o;
        o["n"] = iniparser_getnsec(d);
        o["names"] = json::array();
        for (int k = 0; k < o["n"].get<int>(); ++k) o["names"].push_back(str(iniparser_getsecname(d, k)));
        o["after"] = iniparser_getsecname(d, o["n"].get<int>()) || iniparser_getsecname(d, -1) ? 1 : 0;
        return o;
    }
    // the DB1 reader
    if (!db) db = new MSG_db1_data;
    if (op == "dir")
    {
        std::string p = dir() + "/" + in["d"].get<std::string>();
        mkdir(p.c_str(), 0755);
        wipe(p);
        for (auto& f : in["files"]) put(p + "/" + f["n"].get<std::string>(), text(f["text"]));
        for (auto& f : in["raws"])
        {
            std::string s;
            for (auto& v : f["v"]) { unsigned short x = v.get<int>(); s.append((const char*)&x, 2); }
            if (f["odd"].get<int>()) s.push_back('x');
            put(p + "/" + f["n"].get<std::string>() + ".RAW", s);
        }
        return {{"r", 0}};
    }
    if (op == "open") { std::string p = dir() + "/" + in["d"].get<std::string>(); db->open(C(p)); return {{"r", 0}}; }
    if (op == "close") { db->close(); return {{"r", 0}}; }
    std::string ch = in.contains("ch") ? in["ch"].get<std::string>() : "";
    if (op == "has") return {{"r", db->has_channel(C(ch)) ? 1 : 0}};
    if (op == "setch") { db->set_channel(C(ch)); return {{"r", db->is_data_ok() ? 1 : 0}}; }
    if (op == "ask") return ask();
    if (op == "print") { std::ostringstream s; s << *db; return {{"text", codes(s.str())}}; }
    if (op == "value") return {{"v", th(db->get_channel_Calibration_value_calibrated(in["count"].get<int>()))}};
    throw std::runtime_error("op");
}
