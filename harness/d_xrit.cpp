#include "drv.h"
#include <msat/xrit/fileaccess.h>
#include <msat/xrit/dataaccess.h>
#include <msat/hrit/MSG_HRIT.h>
#include <filesystem>
#include <memory>
#include <sys/stat.h>
#include "hritgen.h"
extern int decode_count;
using namespace msat::xrit;
namespace fs = std::filesystem;

static json fa_json(const FileAccess& fa)
{
    return {{"dir", codes(fa.directory)}, {"res", codes(fa.resolution)}, {"p1", codes(fa.productid1)},
            {"p2", codes(fa.productid2)}, {"time", codes(fa.timing)}};
}

static std::unique_ptr<DataAccess> da;
static hrit::Product prod;

void reset_case()
{
    da.reset();
}

static hrit::Product product_of(const json& in)
{
    hrit::Product p;
    p.dir = "p";
    bool hrv = in["hrv"];
    p.p2 = hrv ? "HRV" : "IR_108";
    p.chan = hrv ? 12 : 9;
    if (in.contains("chan")) p.chan = in["chan"];
    p.cols = in["cols"]; p.segl = in["segl"]; p.end = in["end"]; p.cfac = in["cfac"]; p.lfac = in["lfac"];
    p.bpp = in["bpp"];
    return p;
}

json run_op(const std::string& op, const json& in)
{
    if (op == "valid") return {{"valid", isValid(text(in["name"]))}};
    if (op == "parse") { FileAccess fa(text(in["name"])); return fa_json(fa); }
    if (op == "other") { FileAccess fa(text(in["name"])); FileAccess o(fa, text(in["chan"])); return fa_json(o); }
    if (op == "complete")
    {
        try { FileAccess fa(text(in["name"])); fa.ensureComplete(); return {{"complete", true}}; }
        catch (std::exception&) { return {{"complete", false}}; }
    }
    if (op == "find")
    {
        fs::remove_all("d"); fs::create_directory("d");
        for (auto& f : in["files"]) std::ofstream("d/" + text(f)) << "x";
        FileAccess fa;
        fa.directory = "d"; fa.resolution = text(in["res"]); fa.productid1 = text(in["p1"]);
        fa.productid2 = text(in["p2"]); fa.timing = text(in["time"]);
        auto base = [](const std::string& s) {
            if (s.compare(0, 2, "d/") != 0) throw "path outside the directory";
            return codes(s.substr(2)); };
        json out;
        try { out["pro"] = {{"ok", true}, {"name", base(fa.prologueFile())}}; } catch (std::exception&) { out["pro"] = {{"ok", false}}; }
        try { out["epi"] = {{"ok", true}, {"name", base(fa.epilogueFile())}}; } catch (std::exception&) { out["epi"] = {{"ok", false}}; }
        try {
            json n = json::array();
            for (auto& f : fa.segmentFiles()) n.push_back(base(f));
            out["seg"] = {{"ok", true}, {"names", n}};
        } catch (std::exception&) { out["seg"] = {{"ok", false}}; }
        fs::remove_all("d");
        return out;
    }
    if (op == "product")
    {
        da.reset();
        fs::remove_all("p"); fs::create_directory("p");
        prod = product_of(in);
        // prologue and full-disc epilogue are the same for all: written once
        std::string pro = hrit::aux_name(prod, "PRO"), epi = hrit::aux_name(prod, "EPI");
        if (!fs::exists("shared_pro")) { hrit::write_prologue(prod, hrit::Pro()); fs::rename(pro, "shared_pro"); }
        fs::create_hard_link("shared_pro", pro);
        hrit::write_epilogue(prod, in["cov"].get<std::vector<int>>());
        for (auto& g : in["segs"])
        {
            hrit::Product q = prod;
            if (g.contains("format")) q.format = g["format"];
            hrit::write_segment(q, g["file"], g["seq"], g.value("cut", 0));
        }
        FileAccess fa("p/H:MSG1:" + prod.p2 + ":200611141200");
        std::unique_ptr<DataAccess> n(new DataAccess);
        MSG_data mpro, mepi;
        MSG_header h;
        n->scan(fa, mpro, mepi, h);
        da = std::move(n);
        return {{"columns", da->columns}, {"lines", da->lines}, {"hrv", da->hrv}};
    }
    if (op == "line")
    {
        std::vector<MSG_SAMPLE> buf(da->columns, 0xabcd);
        decode_count = 0;
        size_t n = in["n"].get<int>();
        da->line_read(n, buf.data());
        return {{"samples", buf}, {"start", da->line_start(n)}, {"decoded", decode_count}};
    }
    if (op == "runs")
    {
        json st = json::array();
        for (int n = in["first"]; n < in["last"]; ++n) st.push_back(da->line_start(n));
        return {{"starts", st}};
    }
    throw "bad op";
}
