// Drives the reader of OpenMTP files.
#define private public
#include <msat/openmtp/OpenMTP.h>
#undef private
#include "drv.h"
#include <map>
#include <sstream>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>

static OpenMTP* o = 0;
static std::string scratch;
static bool there = false;  // a file was read

static std::string file(int n)
{
    if (scratch.empty())
    {
        const char* t = getenv("TMPDIR");
        std::string p = std::string(t ? t : "/tmp") + "/mtpXXXXXX";
        if (!mkdtemp(&p[0])) abort();
        scratch = p;
    }
    return scratch + "/f" + std::to_string(n);
}
void reset_case()
{
    delete o;
    o = 0;
    there = false;
    if (!scratch.empty())
    {
        for (int n = 0; n < 4; ++n) unlink(file(n).c_str());
        rmdir(scratch.c_str());
        scratch.clear();
    }
}
template<class T> static json be(T v)
{
    unsigned char b[sizeof v];
    memcpy(b, &v, sizeof v);
    json r = json::array();
    for (int i = sizeof v - 1; i >= 0; --i) r.push_back((int)b[i]);
    return r;
}
static json str(const char* s) { return s ? codes(s) : json::array({-1}); }

// what the printed header says
static json parsed(const std::string& said, const json& in)
{
    std::istringstream t(said);
    std::string l;
    std::map<std::string, std::string> m;
    while (std::getline(t, l))
    {
        size_t p = l.find('\t');
        if (p == std::string::npos) continue;
        size_t q = l.find_first_not_of('\t', p);
        m[l.substr(0, p)] = q == std::string::npos ? "" : l.substr(q);
    }
    json r = json::array();
    for (auto& n : in["labels"])
    {
        auto it = m.find(n.get<std::string>());
        long v = it == m.end() ? 0 : strtol(it->second.c_str(), 0, 10);
        r.push_back(it == m.end() ? json::array({-1}) : be((int)v));
    }
    json x = json::array(), t2 = json::array();
    for (auto& n : in["reals"])
    {
        auto it = m.find(n.get<std::string>());
        x.push_back(it == m.end() ? json::array({-1}) : limbs(strtod(it->second.c_str(), 0)));
    }
    json y = json::array();
    for (auto& n : in["cells"])
    {
        auto it = m.find(n[2].get<std::string>());
        y.push_back(it == m.end() ? json::array({-1}) : limbs(strtod(it->second.c_str(), 0)));
    }
    for (auto& n : in["words"]) t2.push_back(codes(m[n.get<std::string>()]));
    return {{"v", r}, {"x", x}, {"y", y}, {"t", t2}};
}
// OpenMTP_info, as it is run
static json tool(const std::string& name, const json& in)
{
    const char* path = getenv("T_OpenMTP_info");
    std::string out = name + ".out", err = name + ".err";
    pid_t p = fork();
    if (!p)
    {
        dup2(open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 1);
        dup2(open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
        execl(path, path, name.c_str(), (char*)0);
        _exit(126);
    }
    int st;
    waitpid(p, &st, 0);
    auto slurp = [](const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); };
    std::string said = slurp(out), bad = slurp(err);
    unlink(out.c_str());
    unlink(err.c_str());
    json r = {{"status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000}, {"said", bad.size() > 1 ? 1 : 0}};
    if (bad.find("Sanitizer") != std::string::npos || bad.find("runtime error") != std::string::npos) { std::cerr << bad.substr(0, 2000) << std::endl; r["status"] = 2000; }
    if (r["status"] != 0) return r;
    // the text, the header, the pixels
    size_t h = said.find("Product Type\t"), x = said.find("\nPixel (", h == std::string::npos ? 0 : h);
    if (h == std::string::npos) return r;
    r["ascii"] = codes(said.substr(0, h));
    r.update(parsed(said.substr(h, x == std::string::npos ? x : x + 1 - h), in));
    std::map<std::string, std::string> m;
    int n = 0;
    if (x != std::string::npos)
    {
        std::istringstream t(said.substr(x + 1));
        for (std::string l; std::getline(t, l); ++n)
        {
            size_t q = l.find('\t');
            m[l.substr(0, q)] = q == std::string::npos ? "" : l.substr(q + 1);
        }
    }
    r["n"] = n;
    r["px"] = json::array();
    for (auto& q : in["px"])
    {
        auto it = m.find("Pixel (" + std::to_string(q[0].get<int>()) + "," + std::to_string(q[1].get<int>()) + ")");
        r["px"].push_back(it == m.end() ? json::array({-1}) : limbs(strtod(it->second.c_str(), 0)));
    }
    return r;
}

json run_op(const std::string& op, const json& in)
{
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
    if (op == "file")
    {
        // every byte follows from the seed, but those of the runs
        long len = in["len"];
        int seed = in["seed"];
        std::string s(len, 0);
        for (long p = 0; p < len; ++p) s[p] = (char)((p * 7 + p / 256 * 13 + seed) % 256);
        for (auto& r : in["runs"])
        {
            long p = r["at"];
            for (auto& v : r["v"]) { if (p < len) s[p] = (char)v.get<int>(); ++p; }
        }
        std::ofstream f(file(in["n"]), std::ios::binary);
        f.write(s.data(), s.size());
        return {{"r", 0}};
    }
    if (op == "fresh") { delete o; o = 0; there = false; return {{"r", 0}}; }
    if (op == "tool") return tool(file(in["n"]), in);
    if (!o) o = new OpenMTP;
    if (op == "open") { std::string p = file(in["n"]); there = false; o->open(&p[0]); there = true; return {{"r", 0}}; }
    if (!there && op != "line") return {{"r", 0}};
    OpenMTP_binary_header& h = o->binary_header;
    if (op == "header")
    {
        json r;
        r["scalars"] = json::array();
        r["arrays"] = json::array();
        r["flags"] = json::array();
        int a = 0;
#define SCALAR(n) r["scalars"].push_back(be(h.n()));
#define ARRAY(n, c) { auto* p = h.n(); json q = json::array(); for (auto& e : in["some"][a++]) q.push_back(be(p[e.get<int>()])); r["arrays"].push_back(q); }
#define FLAG(n) r["flags"].push_back(h.n() ? 1 : 0);
#include "mtp_fields.inc"
        r["more"] = {h.is_rectified() ? 1 : 0, h.is_vis_data() ? 1 : 0, h.is_ir_data() ? 1 : 0, h.is_wv_data() ? 1 : 0};
        bool* st = h.urec_status_flags();
        r["status"] = json::array();
        for (int i = 0; i < 11; ++i) r["status"].push_back(st[i] ? 1 : 0);
        r["cal"] = {scaled(h.mpef_calibration_coefficient(), 100000), scaled(h.mpef_calibration_space_count(), 10), h.mpef_calibration_day(), h.mpef_calibration_slot()};
        r["texts"] = {codes(std::string(h.field_name())), codes(std::string(h.satellite_name())), codes(std::string(h.rectification_method_name())), codes(std::string(h.phenomena_index()))};
        r["lines"] = json::array();
        for (auto& q : in["ask"]) r["lines"].push_back({h.is_line_present(q.get<int>()) ? 1 : 0, h.is_line_present_VISn(q.get<int>()) ? 1 : 0});
        r["tables"] = json::array();
        for (auto& q : in["table"]) r["tables"].push_back({(int)(unsigned char)h.missing_line_table()[q.get<int>()], (int)(unsigned char)h.missing_line_table_VISn()[q.get<int>()]});
        return r;
    }
    if (op == "print")
    {
        std::ostringstream s;
        s << h;
        return parsed(s.str(), in);
    }
    if (op == "info")
    {
        json r;
        tm t = o->get_datetime();
        r["date"] = {t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec};
        r["text"] = codes(std::string(o->get_datatimestr()).substr(0, 19));
        r["stamp"] = codes(o->get_timestr());
        r["code"] = codes(o->get_satellite_code());
        r["field"] = codes(o->get_field_name());
        r["size"] = {o->nlines(), o->npixels(), o->bits_per_pixel()};
        r["is"] = {o->is_A_format() ? 1 : 0, o->is_B_format() ? 1 : 0, o->is_subwindow() ? 1 : 0, o->is_vis_data() ? 1 : 0, o->is_ir_data() ? 1 : 0, o->is_wv_data() ? 1 : 0};
        r["radius"] = (int)lrint(o->orbit_radius());
        r["ssp"] = be(o->subsatellite_point());
        try { r["name"] = codes(o->get_satellite_name()); } catch (const char*) { r["name"] = json::array({-1}); }
        try { r["chan"] = {codes(o->get_chname()), codes(o->get_chunit())}; } catch (const char*) { r["chan"] = json::array(); }
        return r;
    }
    if (op == "image")
    {
        json r;
        r["px"] = json::array();
        unsigned char* p = o->get_image();
        for (auto& q : in["px"]) r["px"].push_back((int)p[(long)q[0].get<int>() * o->npixels() + q[1].get<int>()]);
        r["cal"] = json::array();
        float* c = o->get_calibration();
        for (auto& q : in["counts"]) r["cal"].push_back(limbs(c[q.get<int>()]));
        return r;
    }
    if (op == "line")
    {
        std::ifstream f(file(in["n"]), std::ios::binary);
        f.seekg(in["at"].get<int>());
        OpenMTP_image_line l(f, in["npix"].get<int>());
        json r = {{"head", {be(l.slot_number()), be(l.line_number()), be(l.errps()), be(l.radpos()), be(l.radpos_start())}}};
        r["px"] = json::array();
        for (auto& q : in["px"]) r["px"].push_back((int)l.linevals()[q.get<int>()]);
        return r;
    }
    throw std::runtime_error("op");
}
