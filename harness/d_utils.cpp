// The helpers on texts.
#include "drv.h"
#include <msat/utils/string.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace msat;
void reset_case() {}
static json tokens(const std::string& s, const std::string& p, bool skip)
{
    json r = json::array();
    str::Split sp(s, p, skip);
    for (auto i = sp.begin(); i != sp.end(); ++i)
    {
        r.push_back(codes(*i));
        if (i->size() != (*i).size() || r.size() > 5000) return "bad";
    }
    return r;
}
json run_op(const std::string& op, const json& in)
{
    std::string s = text(in["s"]), p = text(in["p"]);
    json o;
    o["lstrip"] = codes(str::lstrip(s));
    o["rstrip"] = codes(str::rstrip(s));
    o["strip"] = codes(str::strip(s));
    o["upper"] = codes(str::upper(s));
    o["lower"] = codes(str::lower(s));
    o["starts"] = str::startswith(s, p);
    o["ends"] = str::endswith(s, p);
    o["split"] = tokens(s, p, false);
    o["full"] = tokens(s, p, true);
    {
        str::Split sp(s, p);
        auto i = sp.begin();
        o["rest"] = codes(i.remainder());
        // iterators are values
        json r = json::array();
        std::vector<std::string> v;
        for (auto j = i; j != sp.end();) { auto k = j; ++j; r.push_back(codes(*k)); v.push_back(*k); if (r.size() > 5000) break; }
        o["again"] = r;
        std::string a = str::join(p, v), b = str::join(p, v.begin(), v.end());
        o["join"] = a == b ? codes(a) : json("differ");
    }
    o["base"] = codes(str::basename(s));
    o["dir"] = codes(str::dirname(s));
    std::string d = s, e = s;
    str::appendpath(d, p);
    str::appendpath(e, p.c_str());
    o["append"] = d == e || p.find('\0') != std::string::npos ? codes(d) : json("differ");
    o["append3"] = codes(str::joinpath(s, p, s));
    o["norm"] = codes(str::normpath(s));
    o["normj"] = codes(str::normpath(str::joinpath(s, p)));
    o["encc"] = codes(str::encode_cstring(s));
    size_t n = 99999;
    std::string dc = str::decode_cstring(s, n);
    o["decc"] = {{"text", codes(dc)}, {"read", (int)n}};
    o["encu"] = codes(str::encode_url(s));
    o["decu"] = codes(str::decode_url(s));
    std::string e64 = str::encode_base64(s);
    o["enc64"] = e64 == str::encode_base64(s.data(), s.size()) ? codes(e64) : json("differ");
    o["dec64"] = codes(str::decode_base64(s));
    return o;
}
