// Writes HRIT files: image segments, prologues and epilogues of level 1.5 data.
// The format is described from the LRIT/HRIT specification (MSG/SPE/057), not
// taken from the code under test.
#pragma once
#include <nlohmann/json.hpp>
#include <string>
#include <vector>
#include <fstream>
#include <cstring>
#include <cstdint>
#include <stdexcept>
#include <unistd.h>
#include <sys/stat.h>
namespace hrit {
typedef std::vector<unsigned char> Buf;
inline void u1(Buf& b, unsigned v) { b.push_back(v & 0xff); }
inline void u2(Buf& b, unsigned v) { u1(b, v >> 8); u1(b, v); }
inline void u4(Buf& b, uint32_t v) { u2(b, v >> 16); u2(b, v); }
inline void u8(Buf& b, uint64_t v) { u4(b, v >> 32); u4(b, (uint32_t)v); }
inline void str(Buf& b, const std::string& s, size_t n) { for (size_t i = 0; i < n; ++i) u1(b, i < s.size() ? (unsigned char)s[i] : 0); }
inline void put2(Buf& b, size_t o, unsigned v) { b[o] = v >> 8; b[o + 1] = v; }
inline void put4(Buf& b, size_t o, uint32_t v) { put2(b, o, v >> 16); put2(b, o + 2, v & 0xffff); }
inline void putr4(Buf& b, size_t o, float f) { uint32_t v; memcpy(&v, &f, 4); put4(b, o, v); }
inline void putr8(Buf& b, size_t o, double f) { uint64_t v; memcpy(&v, &f, 8); put4(b, o, v >> 32); put4(b, o + 4, (uint32_t)v); }
inline void save(const std::string& path, const Buf& b)
{
    std::ofstream o(path, std::ios::binary);
    o.write((const char*)b.data(), b.size());
    o.close();
    if (!o) throw std::runtime_error("cannot write " + path);
}
inline std::string pad(std::string s, size_t n) { s.resize(n, '_'); return s; }

// primary header + secondary headers + data
inline Buf file(int type, const Buf& hdr, const Buf& data)
{
    Buf b;
    u1(b, 0); u2(b, 16); u1(b, type); u4(b, 16 + hdr.size()); u8(b, (uint64_t)data.size() * 8);
    b.insert(b.end(), hdr.begin(), hdr.end());
    b.insert(b.end(), data.begin(), data.end());
    return b;
}
inline void annotation(Buf& h, const std::string& text) { u1(h, 4); u2(h, 64); str(h, text, 61); }
inline void timestamp(Buf& h, unsigned day, uint32_t ms) { u1(h, 5); u2(h, 10); u1(h, 64); u2(h, day); u4(h, ms); }

struct Product
{
    std::string dir = ".", res = "H", sat = "MSG1__", p1 = "MSG1", p2 = "IR_108", time = "200611141200";
    int sc = 321, chan = 9, bpp = 10, cols = 8, segl = 464, start = 1, end = 8, format = 2, compr = 1;
    int32_t cfac = -13642337, lfac = -13642337, coff = 1856, loff = 1856;
    std::string proj = "GEOS<+000.0>";
    bool navig = true;
    int flat = -1;      // all samples the same
};
// the sample at (segment, line in it, column): known to the specification too
inline unsigned sample(int seq, int l, int c, int max) { return 1 + (seq * 331 + l * 37 + c * 7) % (max - 1); }

inline std::string seg_name(const Product& p, int fileno)
{
    char n[16]; snprintf(n, 16, "%06d", fileno);
    return p.dir + "/" + p.res + "-000-" + pad(p.sat, 6) + "-" + pad(p.p1, 12) + "-" + pad(p.p2, 9) + "-" + pad(n, 9) + "-" + p.time + "-C_";
}
inline std::string aux_name(const Product& p, const std::string& what)
{
    return p.dir + "/" + p.res + "-000-" + pad(p.sat, 6) + "-" + pad(p.p1, 12) + "-_________-" + pad(what, 9) + "-" + p.time + "-__";
}
inline void write_segment(const Product& p, int fileno, int seq, int cut = 0, int max = 0)
{
    Buf h, d;
    if (!max) max = (1 << p.bpp) > 1021 ? 1021 : (1 << p.bpp);
    u1(h, 1); u2(h, 9); u1(h, p.bpp); u2(h, p.cols); u2(h, p.segl); u1(h, p.compr);
    if (p.navig) { u1(h, 2); u2(h, 51); str(h, p.proj, 32); u4(h, p.cfac); u4(h, p.lfac); u4(h, p.coff); u4(h, p.loff); }
    std::string n = seg_name(p, fileno);
    annotation(h, n.substr(n.rfind('/') + 1));
    timestamp(h, 17849, 43200000);
    u1(h, 128); u2(h, 13); u2(h, p.sc); u1(h, p.chan); u2(h, seq); u2(h, p.start); u2(h, p.end); u1(h, p.format);
    u1(h, 129); u2(h, 3 + 13 * p.segl);
    for (int i = 0; i < p.segl; ++i) { u4(h, seq * p.segl + i); u2(h, 17849); u4(h, 43200000); u1(h, 1); u1(h, 1); u1(h, 1); }
    d.reserve((size_t)p.segl * p.cols * 2);
    for (int l = 0; l < p.segl; ++l)
        for (int c = 0; c < p.cols; ++c) u2(d, p.flat >= 0 ? p.flat : sample(seq, l, c, max));
    d.resize(d.size() - cut);
    save(n, file(0, h, d));
}

struct Pro
{
    unsigned day = 17849; uint32_t ms = 43200000;
    float vis_ls = 3.0004031f, vis_cs = 3.0004031f, hrv_ls = 1.0001343f, hrv_cs = 1.0001343f;
    std::vector<double> slope = std::vector<double>(12, 0.02), offset = std::vector<double>(12, -1.0);
};
inline void write_prologue(const Product& p, const Pro& v)
{
    Buf h, d(425461, 0);
    std::string n = aux_name(p, "PRO");
    annotation(h, n.substr(n.rfind('/') + 1));
    timestamp(h, 17849, 43200000);
    put2(d, 60134, v.day); put4(d, 60136, v.ms);
    d[386892] = 1;
    put4(d, 386897, 3712); put4(d, 386901, 3712); putr4(d, 386905, v.vis_ls); putr4(d, 386909, v.vis_cs); d[386913] = 2;
    put4(d, 386914, 11136); put4(d, 386918, 11136); putr4(d, 386922, v.hrv_ls); putr4(d, 386926, v.hrv_cs); d[386930] = 2;
    for (int i = 0; i < 12; ++i) { putr8(d, 386993 + 72 + i * 16, v.slope[i]); putr8(d, 386993 + 72 + i * 16 + 8, v.offset[i]); }
    save(n, file(128, h, d));
}
// cov: lower south, north, east, west; upper south, north, east, west
inline void write_epilogue(const Product& p, const std::vector<int>& cov)
{
    Buf h, d(380325, 0);
    std::string n = aux_name(p, "EPI");
    annotation(h, n.substr(n.rfind('/') + 1));
    timestamp(h, 17849, 43200000);
    for (size_t i = 0; i < cov.size(); ++i) put4(d, 309 + i * 4, cov[i]);
    save(n, file(129, h, d));
}
}
