// Shared main() of the drivers: reads cases (ndjson), performs their operations
// on the real code, writes one record per operation with what was observed.
#pragma once
#include <nlohmann/json.hpp>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <unistd.h>
#include <signal.h>
typedef nlohmann::json json;

// implemented by each driver
void reset_case();
json run_op(const std::string& op, const json& in);

inline json codes(const std::string& s)
{
    json r = json::array();
    for (unsigned char c : s) r.push_back((int)c);
    return r;
}
inline std::string text(const json& j)
{
    std::string r;
    if (j.is_string()) return j.get<std::string>();
    for (auto& c : j) r.push_back((char)c.get<int>());
    return r;
}
// IEEE double as four 16-bit limbs, most significant first: bit-exact in TLA+
inline json limbs(double v)
{
    uint64_t u; memcpy(&u, &v, 8);
    if (v != v) return json::array({-1});
    return json::array({(int)(u >> 48), (int)((u >> 32) & 0xffff), (int)((u >> 16) & 0xffff), (int)(u & 0xffff)});
}
// a 64 bit integer as hi*10^9+mid*... : sign and base-10^6 digits
inline json wide(long long v)
{
    json r = json::array();
    r.push_back(v < 0 ? -1 : 1);
    unsigned long long u = v < 0 ? -(unsigned long long)v : (unsigned long long)v;
    r.push_back((int)(u / 1000000000000ULL));
    r.push_back((int)(u / 1000000ULL % 1000000ULL));
    r.push_back((int)(u % 1000000ULL));
    return r;
}
// a real scaled and rounded to an int that TLC can hold, or a marker
inline json scaled(double v, double k)
{
    if (v != v) return "nan";
    double s = v * k;
    if (!(std::fabs(s) < 2147483000.0)) return s > 0 ? "+big" : "-big";
    return (int)std::lrint(s);
}

int main(int argc, const char** argv)
{
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    unsigned al = getenv("DRV_ALARM") ? atoi(getenv("DRV_ALARM")) : 60;
    std::string line;
    while (std::getline(in, line))
    {
        json c = json::parse(line);
        reset_case();
        int k = 0;
        out << json{{"op", "begin"}, {"case", c["case"]}}.dump() << "\n" << std::flush;
        for (auto& o : c["ops"])
        {
            json rec = o;
            rec["case"] = c["case"];
            rec["k"] = k++;
            alarm(al);
            try {
                rec["out"] = run_op(o["op"].get<std::string>(), o);
            } catch (std::exception& e) {
                rec["out"] = {{"exc", "std"}};
                rec["_what"] = e.what();
            } catch (const char* e) {
                rec["out"] = {{"exc", "cstr"}};
                rec["_what"] = std::string(e);
            } catch (...) {
                rec["out"] = {{"exc", "other"}};
            }
            alarm(0);
            out << rec.dump(-1, ' ', false, json::error_handler_t::replace) << "\n" << std::flush;
        }
    }
    reset_case();
    out.close();
    _exit(0);
}
