// OpenMTP-IDS images, and the tools for them (T_pgm, T_sector, T_write, T_debug)
#include "drv.h"
#include <map>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <msat/omtp-ids/OpenMTP-IDS.hh>

static std::map<std::string, OpenMTP_IDS> slots;

void reset_case()
{
    slots.clear();
    for (auto f : {"f", "g", "h", "in", "test.omtp-ids", "omtp-ids-sector.ids", "vis.pgm", "ir.pgm", "wv.pgm", "unknown-channel.pgm"}) unlink(f);
}

static std::string slurp(const char* f)
{
    std::ifstream i(f, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
static json two(const char* p) { return json::array({(int)(unsigned char)p[0], (int)(unsigned char)p[1]}); }
static json line(const ScanLine& l)
{
    const LineHeader& h = l.lineheader();
    json px = json::array();
    for (unsigned k = 0; k < l.linepixel().size(); ++k)
        px.push_back(l[k] == l.linepixel()[k] ? (int)l.linepixel()[k] : -1);
    return {{"nums", {h.length(), h.line(), h.start(), h.no_pixels(), h.channel_id(), h.quality(), h.pad()[0], h.pad()[1]}}, {"px", px}};
}
static json image(const OpenMTP_IDS& m)
{
    const FileHeader& h = m.fileheader();
    json recs = json::array();
    for (auto& r : m.record())
    {
        json ls = json::array();
        for (auto& l : r.scanline()) ls.push_back(line(l));
        const RecordHeader& rh = r.recordheader();
        recs.push_back({{"fortran", two(rh.fortran())}, {"nums", {rh.record_header_length(), rh.no_scanlines(), rh.record_length(), rh.zero()}}, {"lines", ls}});
    }
    std::string sat(h.satellite());
    sat.resize(8);
    return {{"fortran", two(h.fortran())}, {"sat", codes(sat)}, {"recs", recs},
            {"nums", {h.no_records(), h.year(), h.julian_day(), h.hour(), h.minute(), h.process_year(), h.process_julian_day(), h.process_hour(), h.process_minute(),
                      h.no_channels(), h.vis_id(), h.wv_id(), h.ir_id(), h.satellite_id(), h.record_length(), h.no_vis_average(), h.no_wv_average(), h.no_ir_average(),
                      h.averaging_type(), h.sample_interval(), h.ir_calibration(), h.wv_calibration(), h.fine_adjustment(), h.ir_space_count(), h.wv_space_count()}}};
}
static void set(FileHeader& h, int i, int v)
{
    typedef void (FileHeader::*S)(int);
    static const S f[] = {&FileHeader::no_records, &FileHeader::year, &FileHeader::julian_day, &FileHeader::hour, &FileHeader::minute, &FileHeader::process_year,
        &FileHeader::process_julian_day, &FileHeader::process_hour, &FileHeader::process_minute, &FileHeader::no_channels, &FileHeader::vis_id, &FileHeader::wv_id,
        &FileHeader::ir_id, &FileHeader::satellite_id, &FileHeader::record_length, &FileHeader::no_vis_average, &FileHeader::no_wv_average, &FileHeader::no_ir_average,
        &FileHeader::averaging_type, &FileHeader::sample_interval, &FileHeader::ir_calibration, &FileHeader::wv_calibration, &FileHeader::fine_adjustment,
        &FileHeader::ir_space_count, &FileHeader::wv_space_count};
    (h.*f[i - 1])(v);
}
static void set(RecordHeader& h, int i, int v)
{
    typedef void (RecordHeader::*S)(int);
    static const S f[] = {&RecordHeader::record_header_length, &RecordHeader::no_scanlines, &RecordHeader::record_length, &RecordHeader::zero};
    (h.*f[i - 1])(v);
}
static void set(LineHeader& h, int i, int v)
{
    typedef void (LineHeader::*S)(int);
    static const S f[] = {&LineHeader::length, &LineHeader::line, &LineHeader::start, &LineHeader::no_pixels, &LineHeader::channel_id, &LineHeader::quality};
    if (i <= 6) return (h.*f[i - 1])(v);
    int pad[2] = {h.pad()[0], h.pad()[1]};
    pad[i - 7] = v;
    h.pad(pad);
}

static int tool(const std::string& which, const char* file)
{
    const char* path = getenv(("T_" + which).c_str());
    if (!path) throw "no tool";
    pid_t p = fork();
    if (!p)
    {
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0); dup2(n, 1);
        execl(path, path, file, (char*)0);
        _exit(126);
    }
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static json pgm(const char* f)
{
    struct stat sb;
    if (stat(f, &sb)) return {{"what", "none"}};
    std::string a = slurp(f);
    size_t at = 0;
    std::vector<std::string> head;
    while (head.size() < 3)
    {
        size_t e = a.find('\n', at);
        if (e == std::string::npos) return {{"what", "bad"}};
        if (a[at] != '#') head.push_back(a.substr(at, e - at));
        at = e + 1;
    }
    int w = 0, h = 0;
    if (head[0] != "P5" || sscanf(head[1].c_str(), "%d %d", &w, &h) != 2 || head[2] != "255" || a.size() - at != (size_t)w * h) return {{"what", "bad"}};
    json rows = json::array();
    for (int y = 0; y < h; ++y) rows.push_back(codes(a.substr(at + (size_t)y * w, w)));
    return {{"what", "image"}, {"rows", rows}};
}
static unsigned u2(const std::string& s, size_t p) { return p + 1 < s.size() ? (unsigned char)s[p] << 8 | (unsigned char)s[p + 1] : 0; }
static void p2(std::string& s, unsigned v) { s.push_back((char)(v >> 8)); s.push_back((char)v); }

json run_op(const std::string& op, const json& in)
{
    if (op == "oput")
    {
        std::ofstream(in["file"].get<std::string>(), std::ios::binary) << text(in["bytes"]);
        return {{"ok", true}};
    }
    if (op == "ofile") return {{"bytes", codes(slurp(in["file"].get<std::string>().c_str()))}};
    if (op == "otool")
    {
        std::string t = in["tool"];
        for (auto f : {"test.omtp-ids", "omtp-ids-sector.ids", "vis.pgm", "ir.pgm", "wv.pgm", "unknown-channel.pgm"}) unlink(f);
        int e = tool(t, in["file"].get<std::string>().c_str());
        if (e >= 1000) abort();     // killed
        json r = {{"exit", e}};
        if (t == "write") r["bytes"] = codes(slurp("test.omtp-ids"));
        if (t == "pgm") for (auto f : {"vis.pgm", "ir.pgm", "wv.pgm", "unknown-channel.pgm"}) r["files"][f] = pgm(f);
        return r;
    }
    if (op == "osector")
    {
        const json& p = in["p"];
        int n = p["lines"], per = p["per"], w = p["w"], pad = p["pad"], a = p["a"], b = p["b"], c = p["c"];
        std::string s("\0\1", 2);
        const json& h = p["head"];
        int recs = (n + per - 1) / per;
        for (int k = 0; k < 25; ++k)
        {
            if (k == 13) s += "METEO  5";
            p2(s, k == 0 ? recs + 1 : k == 14 ? 100 : h[k].get<int>());
        }
        s.resize(102);
        for (int r = 0; r < recs; ++r)
        {
            int m = std::min(per, n - r * per);
            s += std::string("\0\1", 2);
            p2(s, 8); p2(s, m); p2(s, 99); p2(s, 0);
            for (int i = r * per; i < r * per + m; ++i)
            {
                int np = i == p["short"] ? p["shortw"].get<int>() : w;
                for (int v : {w + 16 + pad, i, i % 7, np, 1 + i % 3, i % 11, i % 13, i % 17}) p2(s, v);
                for (int x = 0; x < np; ++x) s.push_back((char)((a * i + b * x + c) % 251));
                s.append(w + pad - np, (char)0xee);
            }
        }
        std::ofstream("in", std::ios::binary) << s;
        unlink("omtp-ids-sector.ids");
        int e = tool("sector", "in");
        if (e >= 1000) abort();
        json r = {{"exit", e}};
        if (e) return r;
        // what was written, read without the library
        s = slurp("omtp-ids-sector.ids");
        json head = json::array(), rs = json::array(), ls = json::array();
        for (int k = 0; k < 13; ++k) head.push_back(u2(s, 2 + 2 * k));
        for (int k = 0; k < 12; ++k) head.push_back(u2(s, 36 + 2 * k));
        size_t at = head[14].get<int>() + 2;
        for (int k = 1; k < head[0].get<int>() && at < s.size(); ++k)
        {
            rs.push_back({{"nums", {u2(s, at + 2), u2(s, at + 4), u2(s, at + 6), u2(s, at + 8)}}});
            int m = u2(s, at + 4);
            at += 10;
            for (int j = 0; j < m && at < s.size(); ++j)
            {
                json nums = json::array(), px = json::array();
                for (int q = 0; q < 8; ++q) nums.push_back(u2(s, at + 2 * q));
                int i = 2655 + (int)ls.size();
                for (int q = 0; q < 12; ++q)
                {
                    size_t x = at + 16 + (37 * i + 11 * q) % 256;
                    px.push_back(x < s.size() ? (int)(unsigned char)s[x] : -1);
                }
                ls.push_back({{"nums", nums}, {"px", px}});
                at += nums[0].get<int>();
            }
        }
        r["head"] = head; r["recs"] = rs; r["lines"] = ls; r["whole"] = at == s.size();
        return r;
    }
    if (op == "oassign") { slots[in["slot"]] = slots[in["from"]]; return {{"ok", true}}; }
    OpenMTP_IDS& m = slots[in["slot"]];
    if (op == "oread" || op == "oreadnone")
    {
        std::string f = op == "oread" ? in["file"].get<std::string>() : "not/there";
        // (what a refused read leaves behind is not looked at)
        try { return {{"ok", m.read(f.c_str())}}; } catch (...) { m = OpenMTP_IDS(); throw; }
    }
    if (op == "owrite") return {{"ok", m.write(in["file"].get<std::string>().c_str())}};
    if (op == "ofull") return {{"ok", m.write("/dev/full")}};
    if (op == "odump") return {{"image", image(m)}};
    if (op == "olines")
    {
        std::vector<ScanLine> v = in["which"] == "all" ? m.scanline() : in["which"] == "one" ? m.scanline(in["from"].get<unsigned>()) : m.scanline(in["from"].get<unsigned>(), in["to"].get<unsigned>());
        json r = json::array();
        for (auto& l : v) r.push_back(line(l));
        return {{"lines", r}};
    }
    if (op == "oset") { set(m.fileheader(), in["i"], in["v"]); return {{"ok", true}}; }
    if (op == "osat") { m.fileheader().satellite(text(in["text"]).c_str()); return {{"ok", true}}; }
    if (op == "odroprec") { if (m.record().empty()) return {{"ok", false}}; m.record().pop_back(); return {{"ok", true}}; }
    unsigned k = in["rec"].get<unsigned>() - 1;
    if (k >= m.record().size()) return {{"ok", false}};
    Record& r = m.record()[k];
    if (op == "orset") { set(r.recordheader(), in["i"], in["v"]); return {{"ok", true}}; }
    if (op == "oaddrec") { Record x = r; m.record().push_back(x); return {{"ok", true}}; }
    if (op == "odropline") { if (r.scanline().empty()) return {{"ok", false}}; r.scanline().pop_back(); return {{"ok", true}}; }
    unsigned j = in["line"].get<unsigned>() - 1;
    if (j >= r.scanline().size()) return {{"ok", false}};
    ScanLine& l = r[j];
    if (op == "olset") { set(l.lineheader(), in["i"], in["v"]); return {{"ok", true}}; }
    if (op == "opx") { std::string t = text(in["px"]); l.linepixel(std::vector<unsigned char>(t.begin(), t.end())); return {{"ok", true}}; }
    if (op == "oaddline") { ScanLine x = l; r.scanline().push_back(x); return {{"ok", true}}; }
    throw "bad op";
}
