// The commands that show and draw xRIT and native files, as they are run.
#include "drv.h"
#include <filesystem>
#include <algorithm>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "hritgen.h"
#include <iomanip>
#include <ctime>
#define private public
#include <msat/msg-native/MSG_native.h>
#undef private
#include "fieldfmt.h"
namespace fs = std::filesystem;

void reset_case() { fs::remove_all("db"); }

struct Ran { int status; bool said; std::string out; };
// run in "out", with nothing around that could be found by chance
static Ran run(const char* tool, const json& args, const json& in)
{
    const char* path = getenv(tool);
    if (!path) throw "no tool";
    fs::remove_all("out");
    fs::create_directory("out");
    std::vector<std::string> a{path};
    for (auto& s : args) a.push_back(text(s));
    pid_t p = fork();
    if (!p)
    {
        int n = open("/dev/null", O_RDONLY), o = open("tool.out", O_WRONLY | O_CREAT | O_TRUNC, 0666), e = open("tool.err", O_WRONLY | O_CREAT | O_TRUNC, 0666);
        dup2(n, 0); dup2(o, 1); dup2(e, 2);
        if (chdir("out")) _exit(127);
        std::vector<char*> argv;
        for (auto& s : a) argv.push_back((char*)s.c_str());
        argv.push_back(nullptr);
        execv(path, argv.data());
        _exit(126);
    }
    int st;
    waitpid(p, &st, 0);
    auto slurp = [](const char* f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); };
    Ran r{WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), false, slurp("tool.out")};
    std::string err = slurp("tool.err");
    r.said = err.size() > 1;
    if (r.status > 255) std::cerr << err.substr(0, 3000) << std::endl;
    if (err.find("Sanitizer") != std::string::npos || err.find("runtime error") != std::string::npos) { std::cerr << err.substr(0, 3000) << std::endl; r.status = 2000; }
    return r;
}

// a PGM: samples scaled to 16 bits
static json pgm(const std::string& f)
{
    std::ifstream p(f, std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(p)), std::istreambuf_iterator<char>());
    size_t at = 0;
    std::vector<long> head;
    if (all.substr(0, 2) != "P5") return {{"what", "bad"}};
    at = 2;
    while (head.size() < 3 && at < all.size())
    {
        if (all[at] == '#') { while (at < all.size() && all[at] != '\n') ++at; }
        else if (isdigit((unsigned char)all[at])) { long v = 0; while (at < all.size() && isdigit((unsigned char)all[at])) v = v * 10 + all[at++] - '0'; head.push_back(v); }
        else ++at;
    }
    ++at;
    if (head.size() < 3 || head[2] < 1) return {{"what", "bad"}};
    size_t w = head[0], h = head[1], d = head[2] > 255 ? 2 : 1;
    if (all.size() - at != w * h * d) return {{"what", "size"}};
    json rows = json::array();
    if (w * h <= 60000)
        for (size_t y = 0; y < h; ++y)
        {
            json r = json::array();
            for (size_t x = 0; x < w; ++x)
            {
                size_t k = at + (y * w + x) * d;
                long v = d == 2 ? ((unsigned char)all[k]) << 8 | (unsigned char)all[k + 1] : (unsigned char)all[k];
                r.push_back((int)((v * 65535 + head[2] / 2) / head[2]));
            }
            rows.push_back(r);
        }
    return {{"what", "image"}, {"xs", w}, {"ys", h}, {"rows", rows}};
}
static json drawn(const Ran& r)
{
    json o = {{"status", r.status}, {"said", r.said}, {"files", json::array()}, {"img", {{"what", "none"}, {"xs", 0}, {"ys", 0}, {"rows", json::array()}}}};
    std::vector<std::string> names;
    for (auto& e : fs::directory_iterator("out")) names.push_back(e.path().filename().string());
    std::sort(names.begin(), names.end());
    for (auto& f : names)
    {
        o["files"].push_back(f);
        if (f.size() > 4 && f.substr(f.size() - 4) == ".pgm") { json i = pgm("out/" + f); o["img"].update(i); }
    }
    fs::remove_all("out");
    return o;
}

json run_op(const std::string& op, const json& in)
{
    if (op == "product")
    {
        fs::remove_all("p"); fs::create_directory("p");
        hrit::Product p;
        p.dir = "p";
        bool hrv = in["hrv"];
        p.p2 = hrv ? "HRV" : "IR_108";
        p.chan = hrv ? 12 : 9;
        p.cols = in["cols"]; p.segl = in["segl"]; p.end = in["end"]; p.cfac = in["cfac"]; p.lfac = in["lfac"];
        p.bpp = in["bpp"];
        if (!fs::exists("shared_pro")) { hrit::write_prologue(p, hrit::Pro()); fs::rename(hrit::aux_name(p, "PRO"), "shared_pro"); }
        if (!in.value("nopro", false)) fs::create_hard_link("shared_pro", hrit::aux_name(p, "PRO"));
        hrit::write_epilogue(p, in["cov"].get<std::vector<int>>());
        for (auto& g : in["segs"])
        {
            hrit::Product q = p;
            q.cols = g.value("cols", p.cols); q.segl = g.value("segl", p.segl); q.end = g.value("end", p.end); q.format = g.value("format", 2);
            q.flat = g.value("flat", -1);
            hrit::write_segment(q, g["file"], g["seq"], g.value("cut", 0));
            // damage: less of the file than its header says
            if (g.contains("keep"))
            {
                std::string n = hrit::seg_name(q, g["file"]);
                fs::resize_file(n, std::min<uintmax_t>(fs::file_size(n), g["keep"].get<int>()));
            }
        }
        return {{"done", true}};
    }
    if (op == "dump")
    {
        json args = json::array();
        for (auto& f : in["files"]) args.push_back("../" + f.get<std::string>());
        Ran r = run("T_xritdump", args, in);
        json lines = json::array();
        size_t at = 0;
        while (at < r.out.size())
        {
            size_t e = std::min(r.out.find('\n', at), r.out.size());
            std::string l = r.out.substr(at, e - at);
            for (auto& c : l) if (c < 32 || c > 126) c = '?';
            lines.push_back(l);
            at = e + 1;
        }
        fs::remove_all("out");
        return {{"status", r.status}, {"said", r.said}, {"lines", lines}};
    }
    if (op == "draw")
    {
        if (in.contains("overlay"))
        {
            auto& v = in["overlay"];
            int w = v["w"], h = v["h"];
            std::ofstream o("overlay.pgm", std::ios::binary);
            o << "P5\n" << w << " " << h << "\n65535\n";
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
            {
                int s = ((x * v["a"].get<int>() + y * v["b"].get<int>()) % v["n"].get<int>()) * v["k"].get<int>();
                o.put(s >> 8); o.put(s & 255);
            }
        }
        return drawn(run("T_XRIT2Image", in["args"], in));
    }
    if (op == "dbdir")
    {
        std::string d = "db/" + in["d"].get<std::string>();
        fs::create_directories(d);
        for (auto& f : in["files"]) std::ofstream(d + "/" + f["n"].get<std::string>(), std::ios::binary) << text(f["text"]);
        for (auto& f : in["raws"])
        {
            std::ofstream o(d + "/" + f["n"].get<std::string>() + ".RAW", std::ios::binary);
            for (auto& v : f["v"]) { unsigned short x = v.get<int>(); o.write((const char*)&x, 2); }
            if (f["odd"].get<int>()) o << 'x';
        }
        return {{"done", true}};
    }
    if (op == "dbdraw")
    {
        std::ofstream("overlay.pgm", std::ios::binary) << "P5\n1 1\n255\n" << '\x05';
        json o = drawn(run("T_db1_to_image", in["args"], in)), names = json::array();
        for (auto& f : o["files"]) names.push_back(codes(f.get<std::string>()));
        o["files"] = names;
        return o;
    }
    if (op == "nfile") { std::ofstream("f", std::ios::binary) << described(in["d"]); return {{"done", true}}; }
    if (op == "ndraw") return drawn(run("T_native2Image", in["args"], in));
    if (op == "ndump")
    {
        Ran r = run("T_nativedump", json::array({"../f"}), in);
        fs::remove_all("out");
        return {{"status", r.status}, {"said", r.said}, {"much", r.out.size() > 1000}};
    }
    throw "bad op";
}
