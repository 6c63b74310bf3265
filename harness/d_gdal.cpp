// Driver of the GDAL side: xRIT and GRIB drivers, derived products, calibrated
// datasets, translation, georeferencing.  Datasets are numbered by the caller.
#include "drv.h"
#include "hritgen.h"
#include <gdal_priv.h>
#include <ogr_spatialref.h>
#include <cpl_conv.h>
#include <grib_api.h>
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
#include <filesystem>
#include <sstream>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <map>
#include <memory>
namespace fs = std::filesystem;
extern int decode_count;
extern "C" { void GDALRegister_MsatXRIT(); void GDALRegister_MsatGRIB(); void GDALRegister_MEM(); void GDALRegister_VRT(); void GDALRegister_GTiff(); }

static std::map<int, GDALDataset*> dss;
static std::map<int, msat::dataset::GeoReferencer*> grs;
static std::map<int, std::vector<unsigned char>> raws;
static std::vector<int> order;
static std::map<int, int> aliases;
static int errors;
static void CPL_STDCALL on_error(CPLErr e, CPLErrorNum, const char*) { if (e >= CE_Failure) ++errors; }

static void put(int id, GDALDataset* d) { dss[id] = d; order.push_back(id); }

static void init()
{
    static bool done = false;
    if (done) return;
    done = true;
    CPLSetErrorHandler(on_error);
    GDALRegister_GTiff(); GDALRegister_MEM(); GDALRegister_VRT();
    GDALRegister_MsatXRIT(); GDALRegister_MsatGRIB();
}

void reset_case()
{
    init();
    // views before what they look at
    for (auto i = order.rbegin(); i != order.rend(); ++i)
    {
        auto d = dss.find(*i);
        if (d == dss.end()) continue;
        if (d->second) GDALClose(d->second);
        dss.erase(d);
    }
    dss.clear(); order.clear(); aliases.clear();
    for (auto& g : grs) delete g.second;
    grs.clear();
    for (auto& e : fs::directory_iterator(".")) if (e.path().filename() != "shared") fs::remove_all(e.path());
}

static json num(double v)
{
    if (v == std::floor(v) && std::fabs(v) < 2147483647.0 && !(v == 0 && std::signbit(v))) return (int)v;
    if (v == 0) return 0;
    char b[40]; snprintf(b, 40, "%.17g", v);
    return b;
}
static double real(const json& j) { return j.is_string() ? strtod(j.get<std::string>().c_str(), 0) : j.get<double>(); }
static json nums(const double* v, size_t n) { json r = json::array(); for (size_t i = 0; i < n; ++i) r.push_back(num(v[i])); return r; }

static hrit::Product product_of(const json& in)
{
    hrit::Product p;
    p.dir = in.value("dir", "p");
    bool hrv = in["hrv"];
    p.chan = in["chan"];
    p.p2 = in.value("p2", hrv ? "HRV" : "IR_108");
    p.p1 = in.value("p1", "MSG1"); p.res = in.value("res", "H"); p.time = in.value("time", "200611141200"); p.sat = in.value("sat", "MSG1__");
    p.cols = in["cols"]; p.segl = in["segl"]; p.end = in["end"]; p.cfac = in["cfac"]; p.lfac = in["lfac"];
    p.bpp = in["bpp"]; p.sc = in["sc"];
    p.proj = in.value("proj", "GEOS<+000.0>");
    return p;
}

static json mdlist(GDALMajorObject* o)
{
    json r = json::array();
    if (char** md = o->GetMetadata(""))
        for (char** s = md; *s; ++s) r.push_back(*s);
    std::sort(r.begin(), r.end());
    return r;
}
static json item(GDALMajorObject* o, const char* k)
{
    const char* v = o->GetMetadataItem(k, "");
    return v ? json(v) : json("(none)");
}

static json info(GDALDataset* d)
{
    json o;
    o["xs"] = d->GetRasterXSize(); o["ys"] = d->GetRasterYSize(); o["nb"] = d->GetRasterCount();
    double gt[6];
    if (d->GetGeoTransform(gt) == CE_None) o["gt"] = nums(gt, 6); else o["gt"] = json::array();
    const OGRSpatialReference* s = d->GetSpatialRef();
    if (s && s->GetAttrValue("PROJECTION"))
    {
        o["srs"] = {{"proj", s->GetAttrValue("PROJECTION")}, {"lon", num(s->GetProjParm("central_meridian", -999))},
                    {"h", num(s->GetProjParm("satellite_height", -1))}, {"fe", num(s->GetProjParm("false_easting", -1))},
                    {"fn", num(s->GetProjParm("false_northing", -1))}, {"a", num(s->GetSemiMajor())}, {"rf", num(s->GetInvFlattening())}};
    } else o["srs"] = {{"proj", s ? "(other)" : "(none)"}};
    o["datetime"] = item(d, "MSAT_DATETIME"); o["scid"] = item(d, "MSAT_SPACECRAFTID"); o["sc"] = item(d, "MSAT_SPACECRAFT");
    o["drv"] = d->GetDriver() ? d->GetDriver()->GetDescription() : "(none)";
    o["md"] = mdlist(d);
    o["gcps"] = json::array();
    for (int k = 0; k < d->GetGCPCount(); ++k) { const GDAL_GCP& g = d->GetGCPs()[k]; double v[5] = {g.dfGCPPixel, g.dfGCPLine, g.dfGCPX, g.dfGCPY, g.dfGCPZ}; o["gcps"].push_back(nums(v, 5)); }
    o["bands"] = json::array();
    for (int i = 1; i <= d->GetRasterCount(); ++i)
    {
        GDALRasterBand* b = d->GetRasterBand(i);
        json r;
        int ok;
        r["type"] = GDALGetDataTypeName(b->GetRasterDataType());
        r["chan"] = item(b, "MSAT_CHANNEL"); r["chid"] = item(b, "MSAT_CHANNELID");
        r["desc"] = b->GetDescription(); r["unit"] = b->GetUnitType();
        r["scale"] = num(b->GetScale(&ok)); r["hasscale"] = ok != 0;
        r["ofs"] = num(b->GetOffset(&ok)); r["hasofs"] = ok != 0;
        r["nodata"] = num(b->GetNoDataValue(&ok)); r["hasnodata"] = ok != 0;
        int bx, by; b->GetBlockSize(&bx, &by);
        r["bx"] = bx; r["by"] = by;
        r["md"] = mdlist(b);
        o["bands"].push_back(r);
    }
    return o;
}

static json opened(int id, GDALDataset* d, int e0)
{
    if (!d) return {{"ok", false}, {"err", errors > e0}, {"nb", 0}};
    put(id, d);
    return {{"ok", true}, {"err", errors > e0}, {"nb", d->GetRasterCount()}};
}

static GDALDataset* get(const json& in, const char* k = "ds")
{
    int id = in[k].get<int>();
    while (!dss.count(id) && aliases.count(id)) id = aliases[id];
    auto i = dss.find(id);
    // the result of a request that may have been refused, or its source
    if ((i == dss.end() || !i->second) && in.contains("maybe")) { id = in["maybe"]; while (!dss.count(id) && aliases.count(id)) id = aliases[id]; i = dss.find(id); }
    if (i == dss.end() || !i->second) throw "no such dataset";
    return i->second;
}

// the test pattern of memory datasets
static int pattern(int b, int x, int y, int m) { return (b * 7 + x * 13 + y * 29 + (x * y) % 5) % m; }

// ground control points
struct Points
{
    std::vector<GDAL_GCP> v;
    Points(const json& in)
    {
        v.resize(in.size());
        GDALInitGCPs(v.size(), v.data());
        for (size_t k = 0; k < v.size(); ++k) { v[k].dfGCPPixel = real(in[k][0]); v[k].dfGCPLine = real(in[k][1]); v[k].dfGCPX = real(in[k][2]); v[k].dfGCPY = real(in[k][3]); v[k].dfGCPZ = real(in[k][4]); }
    }
    ~Points() { GDALDeinitGCPs(v.size(), v.data()); }
};
static GDALDataset* mem(const json& in)
{
    GDALDriver* drv = GetGDALDriverManager()->GetDriverByName(in.value("file", std::string()).empty() ? "MEM" : "GTiff");
    int xs = in["xs"], ys = in["ys"], nb = in["nb"], mod = in["mod"];
    bool each = in.contains("each"), file = !in.value("file", std::string()).empty();
    GDALDataType t = GDALGetDataTypeByName(in["type"].get<std::string>().c_str());
    CPLStringList copts;
    if (in.contains("copts")) for (auto& o : in["copts"]) copts.AddString(o.get<std::string>().c_str());
    GDALDataset* d = drv->Create(in.value("file", std::string()).c_str(), xs, ys, each && !file ? 0 : nb, t, copts.List());
    if (!d) throw "cannot create";
    if (each && !file) for (auto& b : in["each"]) d->AddBand(GDALGetDataTypeByName(b.value("type", in["type"]).get<std::string>().c_str()), nullptr);
    if (in.contains("gt") && !in["gt"].empty()) { double gt[6]; for (int i = 0; i < 6; ++i) gt[i] = real(in["gt"][i]); d->SetGeoTransform(gt); }
    if (in.contains("srs"))
    {
        OGRSpatialReference s;
        if (in["srs"].contains("lon")) {
            s.SetGEOS(real(in["srs"]["lon"]), real(in["srs"].value("h", json(35785831))), 0, 0);
            s.SetGeogCS(NULL, NULL, NULL, 6378169, 295.488065897, NULL, 0, NULL, 0);
        } else s.SetWellKnownGeogCS("WGS84");
        s.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
        d->SetSpatialRef(&s);
    }
    if (in.contains("gcps"))
    {
        Points g(in["gcps"]);
        d->SetGCPs(g.v.size(), g.v.data(), "");
    }
    if (in.contains("md")) for (auto& kv : in["md"]) d->SetMetadataItem(kv[0].get<std::string>().c_str(), kv[1].get<std::string>().c_str());
    for (int b = 1; b <= nb; ++b)
    {
        GDALRasterBand* rb = d->GetRasterBand(b);
        if (in.contains("bmd")) for (auto& kv : in["bmd"]) rb->SetMetadataItem(kv[0].get<std::string>().c_str(), kv[1].get<std::string>().c_str());
        if (in.contains("ct"))
        {
            GDALColorTable ct;
            int k = 0;
            for (auto& e : in["ct"]) { GDALColorEntry c = {e[0], e[1], e[2], e[3]}; ct.SetColorEntry(k++, &c); }
            rb->SetColorTable(&ct);
        }
        if (in.contains("desc")) rb->SetDescription(in["desc"][b - 1].get<std::string>().c_str());
        if (in.contains("scale")) rb->SetScale(real(in["scale"]));
        if (in.contains("ofs")) rb->SetOffset(real(in["ofs"]));
        if (in.contains("nodata")) rb->SetNoDataValue(real(in["nodata"]));
        if (in.contains("unit")) rb->SetUnitType(in["unit"].get<std::string>().c_str());
        if (each)
        {
            auto& e = in["each"][b - 1];
            if (e.contains("scale")) rb->SetScale(real(e["scale"]));
            if (e.contains("ofs")) rb->SetOffset(real(e["ofs"]));
            if (e.contains("unit")) rb->SetUnitType(e["unit"].get<std::string>().c_str());
            if (e.contains("desc")) rb->SetDescription(e["desc"].get<std::string>().c_str());
            if (e.contains("nodata") && e["nodata"].size()) rb->SetNoDataValue(real(e["nodata"][0]));
            if (e.contains("chan")) { rb->SetMetadataItem("MSAT_CHANNEL", e["chan"].get<std::string>().c_str()); rb->SetMetadataItem("MSAT_CHANNELID", e["chid"].get<std::string>().c_str()); }
        }
        std::vector<double> row(xs);
        for (int y = 0; y < ys; ++y)
        {
            for (int x = 0; x < xs; ++x) row[x] = ((in.value("flat", -1) >= 0 ? in["flat"].get<int>() : pattern(b, x, y, mod)) - in.value("lift", 0)) * real(in.value("mul", json(1)));
            if (rb->RasterIO(GF_Write, 0, y, xs, 1, row.data(), xs, 1, GDT_Float64, 0, 0) != CE_None) throw "cannot write";
        }
    }
    d->FlushCache(false);
    return d;
}

// --- the msat tool (T_msat), run in out/
extern "C" { void GDALRegister_PNG(); void GDALRegister_JPEG(); }
static std::string slurp(const fs::path& f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static std::map<std::string, std::string> outside()
{
    std::map<std::string, std::string> r;
    for (auto& e : fs::recursive_directory_iterator("."))
    {
        std::string p = e.path().string();
        if (!e.is_regular_file() || p.rfind("./out/", 0) == 0 || p.rfind("./shared/", 0) == 0 || p.rfind("./tool.", 0) == 0) continue;
        struct stat st;
        stat(p.c_str(), &st);
        std::string c = slurp(p);
        r[p.substr(2)] = std::to_string(std::hash<std::string>()(c)) + ":" + std::to_string(c.size());
    }
    return r;
}
static json all_pixels(GDALDataset* d)
{
    json r = json::array();
    int w = d->GetRasterXSize(), h = d->GetRasterYSize();
    if (w * h > 400) return r;
    for (int b = 1; b <= d->GetRasterCount(); ++b)
    {
        std::vector<double> v((size_t)w * h);
        if (d->GetRasterBand(b)->RasterIO(GF_Read, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0) != CE_None) { r.push_back(json::array()); continue; }
        r.push_back(nums(v.data(), v.size()));
    }
    return r;
}
static json gray(const std::string& f)
{
    GDALDataset* d = (GDALDataset*)GDALOpenEx(f.c_str(), GDAL_OF_RASTER, nullptr, nullptr, nullptr);
    if (!d) return {{"what", "bad"}};
    json r = {{"what", "img"}, {"xs", d->GetRasterXSize()}, {"ys", d->GetRasterYSize()}, {"v", json::array()}};
    int w = d->GetRasterXSize(), h = d->GetRasterYSize();
    GDALRasterBand* b = d->GetRasterBand(1);
    const char* nb = b->GetMetadataItem("NBITS", "IMAGE_STRUCTURE");
    double top = nb ? (1 << atoi(nb)) - 1 : b->GetRasterDataType() == GDT_UInt16 ? 65535 : 255;
    if (w * h <= 400)
    {
        std::vector<double> v((size_t)w * h);
        if (b->RasterIO(GF_Read, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0) != CE_None) r["what"] = "bad";
        for (double& x : v) { if (auto* t = b->GetColorTable()) x = t->GetColorEntry((int)x)->c1; else x = x * 255 / top; }
        r["v"] = nums(v.data(), v.size());
    }
    GDALClose(d);
    return r;
}
static bool starts(const std::string& l, const char* p, std::string& rest)
{
    if (l.rfind(p, 0)) return false;
    rest = l.substr(strlen(p));
    return true;
}
// what --view prints
static json views(const std::string& text)
{
    json r = json::array();
    std::istringstream in(text);
    std::string l, v;
    bool band = false, md = false;
    int gt = 0;
    auto cur = [&]() -> json& { return band ? r.back()["bands"].back() : r.back(); };
    while (std::getline(in, l))
    {
        if (starts(l, "Dataset: ", v)) { r.push_back({{"xs", -1}, {"ys", -1}, {"bands", json::array()}, {"md", json::array()}, {"gt", json::array()}}); band = md = false; continue; }
        if (r.empty()) continue;
        if (gt) {
            double a, b, c; char k, m;
            std::istringstream q(l);
            if (q >> a >> k >> b >> m >> c) { for (double x : {a, b, c}) r.back()["gt"].push_back(num(x)); }
            --gt; continue;
        }
        if (starts(l, "Raster band ", v))
        {
            size_t c = v.find(": ");
            r.back()["bands"].push_back({{"nth", v.substr(0, c)}, {"name", c == std::string::npos ? "?" : v.substr(c + 2)}, {"xs", -1}, {"ys", -1}, {"type", "?"}, {"ofs", -12345}, {"scale", -12345}, {"unit", "?"}, {"md", json::array()}, {"range", json::array()}});
            band = true; md = false; continue;
        }
        std::string t = band && l.rfind("  ", 0) == 0 ? l.substr(2) : l;
        if (md && t.rfind("  ", 0) == 0) { cur()["md"].push_back(t.substr(2)); continue; }
        md = false;
        if (starts(t, "Size: ", v)) { int a = 0, b = 0; sscanf(v.c_str(), "%dx%d", &a, &b); cur()["xs"] = a; cur()["ys"] = b; }
        else if (starts(t, "Type: ", v)) cur()["type"] = v;
        else if (starts(t, "Offset: ", v)) cur()["ofs"] = num(strtod(v.c_str(), 0));
        else if (starts(t, "Scale: ", v)) cur()["scale"] = num(strtod(v.c_str(), 0));
        else if (starts(t, "Unit: ", v)) cur()["unit"] = v;
        else if (starts(t, "Geotransform matrix", v)) gt = 2;
        else if (t == "Metadata:") md = true;
        else if (starts(t, "Metadata (", v)) { md = false; }
        else if (starts(t, "Pixel range: ", v)) { double a, b, c, d; if (sscanf(v.c_str(), "min %lf max %lf mean %lf stddev %lf", &a, &b, &c, &d) == 4) cur()["range"] = json::array({num(a), num(b), num(c), num(d)}); }
    }
    return r;
}
static json msat_tool(const json& in)
{
    GDALRegister_PNG(); GDALRegister_JPEG();
    const char* path = getenv("T_msat");
    if (!path) throw "no tool";
    fs::remove_all("out");
    fs::create_directories("out");
    auto before = outside();
    std::vector<std::string> args{path};
    for (auto& a : in["args"]) args.push_back(text(a));
    int err[2];
    if (pipe(err)) throw "no pipe";
    pid_t p = fork();
    if (!p)
    {
        int n = open("/dev/null", O_RDONLY), o = open("tool.out", O_WRONLY | O_CREAT | O_TRUNC, 0666);
        dup2(n, 0); dup2(o, 1); dup2(err[1], 2);
        close(err[0]); close(err[1]);
        setenv("GDAL_DRIVER_PATH", "disable", 1);
        // a disk with no room
        if (in.contains("limit"))
        {
            rlim_t l = in["limit"].get<int>();
            struct rlimit rl = {l, l};
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &rl);
        }
        if (in.contains("full")) { int f = open("/dev/full", O_WRONLY); dup2(f, 1); }
        if (chdir("out")) _exit(127);
        std::vector<char*> argv;
        for (auto& a : args) argv.push_back((char*)a.c_str());
        argv.push_back(nullptr);
        execv(path, argv.data());
        _exit(126);
    }
    close(err[1]);
    std::string said;
    char buf[4096];
    for (ssize_t n; (n = read(err[0], buf, sizeof buf)) > 0; ) said.append(buf, n);
    close(err[0]);
    int st;
    waitpid(p, &st, 0);
    json r = {{"status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)}, {"said", said.size() > 1}, {"touched", json::array()}, {"outs", json::array()}};
    auto after = outside();
    for (auto& e : before) if (!after.count(e.first) || after[e.first] != e.second) r["touched"].push_back(e.first);
    for (auto& e : after) if (!before.count(e.first)) r["touched"].push_back(e.first);
    r["views"] = views(slurp("tool.out"));
    std::vector<std::string> names;
    for (auto& e : fs::directory_iterator("out")) { std::string f = e.path().filename().string(); if (f.size() < 8 || f.substr(f.size() - 8) != ".aux.xml") names.push_back(f); }
    std::sort(names.begin(), names.end());
    for (auto& f : names)
    {
        std::string ext = f.substr(f.rfind('.') == std::string::npos ? f.size() : f.rfind('.')), full = "out/" + f;
        json o;
        if (ext == ".png" || ext == ".jpg") o = gray(full);
        else if (GDALDataset* d = (GDALDataset*)GDALOpenEx(full.c_str(), GDAL_OF_RASTER, nullptr, nullptr, nullptr))
        {
            o = {{"what", "ds"}, {"info", info(d)}, {"px", all_pixels(d)}};
            GDALClose(d);
        }
        else o = {{"what", "bad"}};
        o["name"] = f;
        r["outs"].push_back(o);
    }
    if (r["status"].get<int>() > 255) { std::cerr << said.substr(0, 3000) << std::endl; }
    return r;
}

static json run(const std::string& op, const json& in)
{
    int e0 = errors;
    if (op == "product")
    {
        hrit::Product p = product_of(in);
        fs::create_directories(p.dir);
        hrit::Pro v;
        v.day = in["day"]; v.ms = in["ms"];
        v.vis_cs = real(in["step"]); v.hrv_cs = real(in["stephrv"]); v.vis_ls = real(in["lstep"]); v.hrv_ls = real(in["lstephrv"]);
        // every channel its own calibration
        for (int i = 0; i < 12; ++i) v.slope[i] = real(in["slope"]) + 0.001 * (i + 1);
        for (int i = 0; i < 12; ++i) v.offset[i] = real(in["ofs"]) - 0.25 * (i + 1);
        std::string pro = hrit::aux_name(p, "PRO"), epi = hrit::aux_name(p, "EPI");
        if (in.value("nopro", false)) ; else hrit::write_prologue(p, v);
        if (in.value("noepi", false)) ; else hrit::write_epilogue(p, in["cov"].get<std::vector<int>>());
        for (auto& g : in["segs"])
            hrit::write_segment(p, g["file"], g["seq"], g.value("cut", 0), in["big"].get<int>());
        return {{"done", true}};
    }
    if (op == "rm") { fs::remove(in["file"].get<std::string>()); return {{"done", true}}; }
    if (op == "open")
    {
        CPLStringList oo;
        if (in.contains("opts")) for (auto& o : in["opts"]) oo.AddString(o.get<std::string>().c_str());
        GDALDataset* d = (GDALDataset*)GDALOpenEx(text(in["name"]).c_str(), GDAL_OF_RASTER | GDAL_OF_VERBOSE_ERROR, nullptr, oo.List(), nullptr);
        return opened(in["ds"], d, e0);
    }
    // our drivers alone, as the plugin is asked: NULL without an error means "not mine"
    if (op == "identify")
    {
        GDALOpenInfo oi(text(in["name"]).c_str(), GA_ReadOnly);
        CPLStringList oo;
        if (in.contains("opts")) for (auto& o : in["opts"]) oo.AddString(o.get<std::string>().c_str());
        oi.papszOpenOptions = oo.List();
        GDALDataset* d = GetGDALDriverManager()->GetDriverByName(in["drv"].get<std::string>().c_str())->pfnOpen(&oi);
        oi.papszOpenOptions = nullptr;
        return opened(in["ds"], d, e0);
    }
    // a number for the result of a request, or for its source if there is no result
    if (op == "alias") { aliases[in["ds"].get<int>()] = in["src"].get<int>(); return {{"done", true}}; }
    if (op == "info") return info(get(in));
    // what a band says about its least and greatest value
    if (op == "stats") { get(in)->GetRasterBand(1)->SetStatistics(real(in["lo"]), real(in["hi"]), real(in["lo"]), 1); return {{"done", true}}; }
    if (op == "ends")
    {
        int a, b;
        GDALRasterBand* rb = get(in)->GetRasterBand(1);
        double lo = rb->GetMinimum(&a), hi = rb->GetMaximum(&b);
        return {{"lo", a ? json::array({num(lo)}) : json::array()}, {"hi", b ? json::array({num(hi)}) : json::array()}};
    }
    if (op == "close")
    {
        auto i = dss.find(in["ds"].get<int>());
        if (i != dss.end()) { GDALClose(i->second); dss.erase(i); }
        return {{"done", true}};
    }
    if (op == "flush") { get(in)->FlushCache(false); return {{"done", true}}; }
    if (op == "read")
    {
        bool all = in.value("all", false);
        int w = all ? get(in)->GetRasterXSize() : in["w"].get<int>(), h = all ? get(in)->GetRasterYSize() : in["h"].get<int>();
        int ow = in.value("ow", w), oh = in.value("oh", h);
        std::vector<double> b((size_t)ow * oh, -777.25);
        GDALRasterBand* rb = get(in)->GetRasterBand(in.value("band", 1));
        if (!rb) throw "no such band";
        decode_count = 0;
        CPLErr r = rb->RasterIO(GF_Read, in.value("x", 0), in.value("y", 0), w, h, b.data(), ow, oh, GDT_Float64, 0, 0);
        if (r != CE_None) return {{"ok", false}, {"err", errors > e0}};
        return {{"ok", true}, {"err", errors > e0}, {"v", nums(b.data(), b.size())}};
    }
    if (op == "checksum")   // minimum, maximum and number of non-zero pixels of a band
    {
        GDALDataset* d = get(in);
        GDALRasterBand* rb = d->GetRasterBand(1);
        std::vector<double> b(d->GetRasterXSize());
        double mi = 1e300, ma = -1e300; int nz = 0, bad = 0;
        for (int y = 0; y < d->GetRasterYSize(); ++y)
        {
            if (rb->RasterIO(GF_Read, 0, y, b.size(), 1, b.data(), b.size(), 1, GDT_Float64, 0, 0) != CE_None) { ++bad; continue; }
            for (double v : b) { if (v < mi) mi = v; if (v > ma) ma = v; if (v != 0) ++nz; if (v != v) ++bad; }
        }
        return {{"min", num(mi)}, {"max", num(ma)}, {"nz", nz}, {"bad", bad}};
    }
    if (op == "calib") { put(in["ds"], new msat::dataset::CalibratedDataset(*get(in, "src"))); return {{"ok", true}}; }
    if (op == "mem") { put(in["ds"], mem(in)); return {{"ok", true}}; }
    if (op == "xlate" || op == "xlatemany")
    {
        GDALTranslate t;
        std::string ox, oy;
        if (in.contains("srcwin")) for (int i = 0; i < 4; ++i) t.anSrcWin[i] = in["srcwin"][i];
        if (in.contains("projwin")) { t.dfULX = real(in["projwin"][0]); t.dfULY = real(in["projwin"][1]); t.dfLRX = real(in["projwin"][2]); t.dfLRY = real(in["projwin"][3]); }
        if (in.contains("outsize")) { ox = in["outsize"][0]; oy = in["outsize"][1]; t.pszOXSize = ox.c_str(); t.pszOYSize = oy.c_str(); }
        if (in.contains("bands"))
        {
            t.nBandCount = in["bands"].size();
            t.panBandList = (int*)CPLMalloc(sizeof(int) * t.nBandCount);
            for (int i = 0; i < t.nBandCount; ++i) t.panBandList[i] = in["bands"][i];
        }
        if (in.contains("scale"))
        {
            t.bScale = TRUE;
            auto& s = in["scale"];
            if (s.size() == 4) { t.bHaveScaleSrc = TRUE; t.dfScaleSrcMin = real(s[0]); t.dfScaleSrcMax = real(s[1]); t.dfScaleDstMin = real(s[2]); t.dfScaleDstMax = real(s[3]); }
            else if (s.size() == 2) { t.dfScaleDstMin = real(s[0]); t.dfScaleDstMax = real(s[1]); }
        }
        if (in.contains("nodata")) { t.bSetNoData = TRUE; t.dfNoDataReal = real(in["nodata"]); }
        if (in.contains("ullr")) { t.bGotBounds = TRUE; for (int i = 0; i < 4; ++i) t.adfULLR[i] = real(in["ullr"][i]); }
        if (in.contains("ot")) t.eOutputType = GDALGetDataTypeByName(in["ot"].get<std::string>().c_str());
        if (in.contains("mo")) for (auto& m : in["mo"]) t.papszMetadataOptions = CSLAddString(t.papszMetadataOptions, m.get<std::string>().c_str());
        // points of its own, a projection of its own, colours for indices
        if (in.contains("gcps")) { Points g(in["gcps"]); t.nGCPCount = g.v.size(); t.pasGCPs = GDALDuplicateGCPs(g.v.size(), g.v.data()); }
        std::string wkt;
        if (in.contains("osrs"))
        {
            OGRSpatialReference s;
            s.SetGEOS(real(in["osrs"]["lon"]), 35785831, 0, 0);
            s.SetGeogCS(NULL, NULL, NULL, 6378169, 295.488065897, NULL, 0, NULL, 0);
            char* w = nullptr;
            s.exportToWkt(&w);
            wkt = w;
            CPLFree(w);
            t.pszOutputSRS = (char*)wkt.c_str();
        }
        t.nRGBExpand = in.value("expand", 0);
        // the same request over several datasets
        json res = json::array();
        for (auto& pair : in["pairs"])
        {
            int e1 = errors;
            GDALDataset* src = get(pair, "src");
            GDALDataset* d = t.translate(src);
            bool same = d == src;
            if (!d) { res.push_back({{"ok", false}, {"err", errors > e1}, {"same", false}}); continue; }
            if (!same) put(pair["ds"], d);
            res.push_back({{"ok", true}, {"err", errors > e1}, {"same", same}});
        }
        return {{"res", res}};
    }
    if (op == "recode")
    {
        using namespace msat::proj;
        GDALDriver* drv = GetGDALDriverManager()->GetDriverByName(in["drv"].get<std::string>().c_str());
        GDALDataset* d;
        std::string f = in["file"];
        ImageBox box;
        if (in.contains("box")) box = ImageBox(ImagePoint(in["box"][0], in["box"][1]), ImagePoint(in["box"][2], in["box"][3]));
        if (in.contains("box") && in.contains("size")) d = msat::dataset::recode(get(in, "src"), box, in["size"][0], in["size"][1], f, drv);
        else if (in.contains("box")) d = msat::dataset::recode(get(in, "src"), box, f, drv);
        else d = msat::dataset::recode(get(in, "src"), in["size"][0].get<int>(), in["size"][1].get<int>(), f, drv);
        return opened(in["ds"], d, e0);
    }
    if (op == "copy")
    {
        CPLStringList oo;
        if (in.contains("opts")) for (auto& o : in["opts"]) oo.AddString(o.get<std::string>().c_str());
        GDALDriver* drv = GetGDALDriverManager()->GetDriverByName(in["drv"].get<std::string>().c_str());
        GDALDataset* d = drv->CreateCopy(in["file"].get<std::string>().c_str(), get(in, "src"), FALSE, oo.List(), nullptr, nullptr);
        json r = opened(in["ds"], d, e0);
        r["file"] = fs::exists(in["file"].get<std::string>());
        return r;
    }
    if (op == "georef")
    {
        auto* g = new msat::dataset::GeoReferencer;
        grs[in["gr"].get<int>()] = g;
        return {{"ok", g->init(get(in, "src")) == CE_None}, {"err", errors > e0}};
    }
    if (op == "geo")
    {
        auto* g = grs.at(in["gr"].get<int>());
        int x = in["x"], y = in["y"];
        double px, py, lat = 0, lon = 0;
        g->pixelToProjected(x, y, px, py);
        int bx, by;
        g->projectedToPixel(px, py, bx, by);
        json r = {{"px", num(px)}, {"py", num(py)}, {"bx", bx}, {"by", by}};
        bool ok = g->pixelToLatlon(x, y, lat, lon) == CE_None;
        ok = ok && std::isfinite(lat) && std::isfinite(lon);
        r["ok"] = ok;
        if (ok)
        {
            r["lat"] = num(lat); r["lon"] = num(lon);
            int cx = -1, cy = -1;
            bool ok2 = g->latlonToPixel(lat, lon, cx, cy) == CE_None;
            r["ok2"] = ok2; r["cx"] = cx; r["cy"] = cy;
        }
        return r;
    }
    if (op == "decodegt")
    {
        int a, b; double p, q;
        msat::dataset::decodeGeotransform(get(in), a, b, p, q);
        return {{"xs", a}, {"ys", b}, {"psx", num(p)}, {"psy", num(q)}};
    }
    if (op == "invgt")
    {
        double a[6], b[6] = {0, 0, 0, 0, 0, 0};
        for (int i = 0; i < 6; ++i) a[i] = real(in["gt"][i]);
        bool ok = msat::dataset::invertGeoTransform(a, b) == CE_None;
        return {{"ok", ok}, {"err", errors > e0}, {"inv", ok ? nums(b, 6) : json::array()}};
    }
    // a file after something happened to it
    if (op == "mutate")
    {
        std::string f = in["file"], w = in["what"];
        std::string was;
        if (!fs::exists(f)) return {{"done", true}};
        { std::ifstream i(f, std::ios::binary); was.assign(std::istreambuf_iterator<char>(i), {}); }
        int n = in["n"];
        if (w == "cut") was.resize(std::min<size_t>(n >= 0 ? n : was.size() + n, was.size() - 1));
        if (w == "prefix") was.insert(0, std::string(n, 'x'));
        if (w == "append") { std::ifstream i(in["other"].get<std::string>(), std::ios::binary); was.append(std::istreambuf_iterator<char>(i), {}); }
        std::ofstream o(f, std::ios::binary);
        o.write(was.data(), was.size());
        return {{"done", true}};
    }
    // a message of another kind
    if (op == "sample")
    {
        grib_handle* h = grib_handle_new_from_samples(nullptr, in["sample"].get<std::string>().c_str());
        const void* b; size_t n;
        if (!h || grib_get_message(h, &b, &n)) throw "no such sample";
        std::ofstream o(in["file"].get<std::string>(), std::ios::binary);
        o.write((const char*)b, n);
        grib_handle_delete(h);
        return {{"done", true}};
    }
    if (op == "msat") return msat_tool(in);
    // damaged or foreign files
    if (op == "bytes")
    {
        fs::path f(in["file"].get<std::string>());
        if (f.has_parent_path()) fs::create_directories(f.parent_path());
        std::ofstream o(f, std::ios::binary);
        std::string s = text(in["content"]);
        o.write(s.data(), s.size());
        return {{"done", true}};
    }
    throw "bad op";
}

json run_op(const std::string& op, const json& in)
{
    json r = run(op, in);
    return r;
}
