// How the fields of records are shown to the specification: as the bytes they were written with
#pragma once
#include <functional>
#include <map>
#include <sstream>
template <int N, typename T> static json be(T v)
{
    unsigned long long u = (unsigned long long)v;
    json r = json::array();
    for (int k = N - 1; k >= 0; --k) r.push_back((int)((u >> (8 * k)) & 0xff));
    return r;
}
template <typename T> static json f_u1(const T& v) { return be<1>((unsigned)v & 0xff); }
template <typename T> static json f_b1(const T& v) { return json::array({v ? 1 : 0}); }
template <typename T> static json f_u2(const T& v) { return be<2>((long long)v); }
template <typename T> static json f_u4(const T& v) { return be<4>((long long)v); }
template <typename T> static json f_i4(const T& v) { return be<4>((long long)v); }
static json f_f4(const float& v) { uint32_t u; memcpy(&u, &v, 4); return be<4>(u); }
static json f_f8(const double& v) { uint64_t u; memcpy(&u, &v, 8); return be<8>(u); }
static json cat(json a, const json& b) { for (auto& x : b) a.push_back(x); return a; }
static json f_cds6(const MSG_time_cds_short& t) { return cat(be<2>(t.get_day_from_epoch()), be<4>(t.get_msec_in_day())); }
static json f_cds8(const MSG_time_cds& t) { return cat(f_cds6(t), be<2>(const_cast<MSG_time_cds&>(t).get_microsecs())); }
static json f_cds10(const MSG_time_cds_expanded& t)
{
    MSG_time_cds_expanded& m = const_cast<MSG_time_cds_expanded&>(t);
    return cat(cat(f_cds6(t), be<2>(m.get_microsecs())), be<2>(m.get_nanosecs()));
}
static json f_cuc7(const MSG_time_cuc& t)
{
    std::istringstream s(t.get_coarse_time() + " " + t.get_fine_time());
    json r = json::array();
    int v;
    while (s >> v) r.push_back(v);
    return r;
}
static json f_gt15(const MSG_time_generalized& t)
{
    // "YYYY-mm-dd HH:MM:SS" back to the written form
    json r = json::array();
    for (char c : t.get_timestring()) if (c >= '0' && c <= '9') r.push_back((int)c);
    r.push_back((int)'Z');
    return r;
}
static json raw(const void* p, size_t n)
{
    json r = json::array();
    for (size_t k = 0; k < n; ++k) r.push_back((int)((const unsigned char*)p)[k]);
    return r;
}
template <typename T> static json f_raw63(const T& v) { return raw(&v, 24); } // what there is room for
template <typename T> static json f_raw2(const T& v) { return raw(&v, 2); }

#include "hrit_fields.inc"

// a file described by a pattern with some places given
inline std::string described(const json& d)
{
    long long n = d["n"];
    int a = d["a"], b = d["b"], seed = d["seed"];
    std::string body(n, 0);
    for (long long k = 0; k < n; ++k) body[k] = (char)((k * a + (k / 256) * b + seed) % 256);
    for (auto& p : d["patch"])
    {
        long long at = p["at"];
        for (auto& v : p["is"]) { if (at < n) body[at] = (char)v.get<int>(); ++at; }
    }
    return body;
}
// the fields of a record (path of steps, each with a name and indices) and their values
template <typename M, typename R> inline json field_values(const M& fields, const R& rec, const json& paths)
{
    json vals = json::array();
    for (auto& p : paths)
    {
        std::string key;
        std::vector<int> idx;
        for (auto& st : p)
        {
            key += (key.empty() ? "" : ".") + st["f"].template get<std::string>();
            for (auto& i : st["i"]) idx.push_back(i);
        }
        vals.push_back(fields.at(key)(rec, idx));
    }
    return vals;
}
