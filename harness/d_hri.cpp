// HRI: headers, images and files of the METEOSAT High Resolution Image dissemination
#include "drv.h"
#include <memory>
#include <sstream>
#include <msat/hri/HRI.h>

static std::unique_ptr<HRI_image> im;
static std::unique_ptr<Hri> hri;

void reset_case() { im.reset(); hri.reset(); unlink("hri.dat"); }

static std::vector<char> bytes(const json& j, size_t n)
{
    std::vector<char> r(n, 0);
    for (size_t i = 0; i < j.size() && i < n; ++i) r[i] = (char)j[i].get<int>();
    return r;
}
static json u16(unsigned v) { return json::array({(int)(v >> 16), (int)(v & 0xffff)}); }
static json flags(std::vector<bool> v) { json r = json::array(); for (bool b : v) r.push_back(b ? 1 : 0); return r; }
static double unlimb(const json& j)
{
    uint64_t u = 0;
    for (auto& x : j) u = (u << 16) | (uint64_t)x.get<int>();
    double d; memcpy(&d, &u, 8);
    return d;
}

static json label(const json& in)
{
    std::vector<char> b = bytes(in["bytes"], 24);
    HRI_subframe_label l(b.data());
    json o;
    o["nums"] = {l.number_of_frames_in_subframe, l.total_number_of_subframes, l.current_subframe_number, l.image_line_number,
        l.format_indicator, l.VISs_indicator, l.VISn_indicator, l.IR_indicator, l.WV_indicator, l.grid_indicator, l.encryption_indicator, l.scan_direction_indicator,
        l.key_number_VIS_s_indicator, l.key_number_VIS_n_indicator, l.key_number_IR_indicator, l.key_number_WV_indicator};
    o["image"] = u16(l.image_number_from_mission_start);
    o["flags"] = flags({l.is_A_format(), l.is_B_format(), l.is_X_format(), l.is_VISs_present(), l.is_VISn_present(), l.is_IR_present(), l.is_WV_present(),
        l.is_VISs_1st_half_present(), l.is_VISs_2nd_half_present(), l.is_VISn_1st_half_present(), l.is_VISn_2nd_half_present(), l.is_VISs_reduced(), l.is_VISn_reduced(),
        l.is_grid_present(), l.is_VISs_encrypted(), l.is_VISn_encrypted(), l.is_IR_encrypted(), l.is_WV_encrypted(),
        l.is_scan_SN_EW(), l.is_scan_NS_EW(), l.is_scan_SN_WE(), l.is_scan_NS_WE()});
    o["err"] = 0; o["code"] = "";
    try { o["code"] = l.format_code(); } catch (std::exception&) { o["err"] = 1; }
    std::stringstream ss; ss << l;
    return o;
}
static void zone(const json& in)
{
    setenv("TZ", in["tz"].get<std::string>().c_str(), 1);
    tzset();
}
static json date(const struct tm& t) { return {t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min}; }
static json ident(const json& in)
{
    zone(in);
    std::vector<char> b = bytes(in["bytes"], 32);
    json o = {{"err", 1}, {"name", ""}, {"date", {0, 0, 0, 0, 0}}, {"tm", {0, 0, 0, 0, 0}}, {"text", ""}, {"day", 0}, {"time", 0}, {"col", 0}, {"line", 0}, {"lon", 0}, {"is", json::array()}};
    try {
        HRI_subframe_identification i(b.data());
        o["err"] = 0;
        o["name"] = i.satellite;
        o["date"] = {i.year, i.month, i.day, i.hour, i.minute};
        o["tm"] = date(i.tmtime);
        std::string t = i.datetime;
        while (!t.empty() && t.back() == '\n') t.pop_back();
        o["text"] = t;
        o["day"] = i.julian_day; o["time"] = i.nominal_time; o["col"] = i.column_offset; o["line"] = i.line_offset;
        o["lon"] = scaled(i.longitude, 1);
        o["is"] = flags({i.is_Meteosat(), i.is_GOES_E(), i.is_GOES_W(), i.is_GMS(), i.is_GOMS()});
        std::stringstream ss; ss << i;
    } catch (std::exception&) {}
    return o;
}
static json reals(std::vector<double> v) { json r = json::array(); for (double d : v) r.push_back(limbs(d)); return r; }
// the number printed after a heading
static int printed(const std::string& s, const std::string& head)
{
    size_t p = s.find(head);
    if (p == std::string::npos) return -99999;
    p = s.find(':', p);
    return p == std::string::npos ? -99999 : atoi(s.c_str() + p + 1);
}
static json interp(const json& in)
{
    std::vector<char> b = bytes(in["bytes"], 1360);
    std::string msg = in["msg"].get<std::string>();
    memcpy(b.data() + 560, msg.data(), std::min<size_t>(msg.size(), 800));
    std::unique_ptr<HRI_subframe_interpretation> pi(new HRI_subframe_interpretation(b.data()));
    auto& c = pi->cal; auto& p = pi->oper; auto& m = pi->imag;
    json o;
    o["dec"] = reals({c.bbc1ir, c.bbsd1i, c.bbc1wv, c.bbsd1w, c.bb1t, c.bb2t, c.bbc2ir, c.bbsd2i, c.bbc2wv, c.bbsd2w, c.calir, c.irspc, c.calwv, c.wvspc});
    o["ints"] = {c.time1_day, c.time1_slot, c.time2_day, c.time2_slot, c.time3_day, c.time3_slot, c.ir_gain, c.wv_gain, c.v1_gain, c.v2_gain};
    o["r8"] = reals({p.degsra, p.degsde, p.degnra, p.degnde, p.finatt_x, p.finatt_y, p.finatt_z, p.farade_1, p.farade_2,
        m.satdis, m.sorbof_x, m.sorbof_y, m.sorbof_z, m.norbof_x, m.norbof_y, m.norbof_z});
    o["r4"] = reals({p.spndur, m.xddifm, m.yddifm, m.xscm, m.yscm, m.mvis1, m.mvis2, m.snnom_ir, m.snnom_v1, m.snnom_v2, m.snnom_wv,
        m.snrep_ir, m.snrep_v1, m.snrep_v2, m.snrep_wv, m.snrwp_ir, m.snrwp_v1, m.snrwp_v2, m.snrwp_wv,
        m.swmnep_ir, m.swmnep_v1, m.swmnep_v2, m.swmnep_wv, m.swmnwp_ir, m.swmnwp_v1, m.swmnwp_v2, m.swmnwp_wv});
    o["i4"] = {u16((unsigned)p.nrslot), u16((unsigned)m.snnlin)};
    o["i2"] = {m.limhor_1, m.limhor_2, m.limhor_3, m.limhor_4, m.limhor_5, m.limhor_6, m.limhor_7, m.limhor_8, m.limhor_9, m.limhor_10, m.limhor_11, m.limhor_12,
        m.lowdyn_ir, m.lowdyn_v1, m.lowdyn_v2, m.lowdyn_wv, m.higdyn_ir, m.higdyn_v1, m.higdyn_v2, m.higdyn_wv,
        m.snmxep_ir, m.snmxep_v1, m.snmxep_v2, m.snmxep_wv, m.snmxwp_ir, m.snmxwp_v1, m.snmxwp_v2, m.snmxwp_wv};
    o["flags"] = flags({p.flecl, p.fldec, p.flman, p.flmode, p.flir1, p.flir2, p.flwv1, p.flwv2, p.flvis1, p.flvis2, p.flvis3, p.flvis4,
        m.imstat_1, m.imstat_2, m.imstat_3, m.imstat_4, m.imstat_5, m.imstat_6, m.imstat_7, m.imstat_8, m.imstat_9, m.imstat_10, m.imstat_11,
        m.conds_1, m.conds_2, m.conds_3, m.conds_4});
    const char* am = pi->mesg.admin_message;
    o["msg"] = std::string(am, strnlen(am, 800));
    std::stringstream ss; ss << *pi;
    std::string s = ss.str();
    o["v2"] = {printed(s, "Max space count east V2"), printed(s, "Max space count west V2")};
    size_t at = s.find("Administrative Messages");
    at = s.find('\n', at); at = s.find('\n', at + 1) + 1;
    size_t end = s.rfind("\n-----------------------------\n");
    o["printed"] = end != std::string::npos && end >= at ? s.substr(at, end - at) : "?";
    return o;
}
static std::vector<char> slots(const json& given)
{
    std::vector<char> b(1440, 0);
    for (auto& g : given)
        for (int i = 0; i < 12; ++i) b[g[0].get<int>() * 12 + i] = (char)g[1 + i].get<int>();
    return b;
}
static json keys(const json& in)
{
    std::vector<char> b = slots(in["slots"]);
    HRI_subframe_keyslot k(b.data());
    json got = json::array();
    for (auto& q : in["ask"])
    {
        int st = q[0], key = q[1];
        HRI_keyslot s = k.get_key(st, key);
        json mk = json::array();
        for (int i = 0; i < 8; ++i) mk.push_back(s.message_key[i]);
        got.push_back({{"has", k.has_keys(st) ? 1 : 0}, {"usage", s.usage ? 1 : 0}, {"num", s.key_number}, {"st", s.station_number}, {"key", mk}});
    }
    return {{"got", got}};
}

static HRI_image_satellite satellite(const std::string& s)
{
    return s == "METEOSAT" ? METEOSAT : s == "GOES-E" ? GOES_E : s == "GOES-W" ? GOES_W : s == "GMS" ? GMS : INDOX;
}
static HRI_image_band band_of(const std::string& s) { return s == "IR" ? IR_BAND : s == "WV" ? WV_BAND : s == "VIS" ? VIS_BAND : VH_BAND; }
static HRI_image_format format_of(const std::string& s) { return s == "A" ? A_FORMAT : s == "B" ? B_FORMAT : X_FORMAT; }

static json image_op(const std::string& op, const json& in)
{
    if (op == "inew")
    {
        json o = {{"err", 1}, {"w", 0}, {"h", 0}, {"units", ""}, {"step", {0, 0}}, {"band", 0}};
        bool again = in["again"].get<int>() && im;
        std::string f = in["fmt"], b = in["band"], s = in["sat"];
        try {
            if (again) im->set_format_band(satellite(s), format_of(f), band_of(b));
            else { im.reset(); im.reset(new HRI_image(satellite(s), format_of(f), band_of(b))); }
            o = {{"err", 0}, {"w", im->npixels}, {"h", im->nlines}, {"units", im->units}, {"step", {scaled(im->samplex, 1), scaled(im->sampley, 1)}}, {"band", im->get_image_band()}};
        } catch (std::exception&) { im.reset(); }
        return o;
    }
    json o = {{"err", 0}, {"v", 0}, {"vs", json::array()}, {"whole", json::array()}};
    if (!im) return o;
    try {
        if (op == "iput" || op == "ihalf")
        {
            int n = in["n"], seed = in["seed"];
            std::vector<unsigned char> l(n > 0 ? n : 0);
            for (int i = 0; i < n; ++i) l[i] = (i * 7 + seed) & 255;
            if (op == "iput") im->put_line(l.data(), n, in["y"].get<int>());
            else im->put_halfline(l.data(), n, in["y"].get<int>(), in["half"].get<int>() == 1);
        }
        else if (op == "ipixel") o["v"] = im->get_pixel(in["y"].get<int>(), in["x"].get<int>());
        else if (op == "iline")
        {
            int y = in["y"];
            unsigned char* l = im->get_line(y);
            unsigned char* a = im->get_image();
            for (auto& x : in["xs"])
            {
                int i = x;
                bool in_ = i >= 0 && i < im->npixels;
                o["vs"].push_back(in_ ? l[i] : 0);
                o["whole"].push_back(in_ ? a[y * im->npixels + i] : 0);
            }
        }
        else if (op == "icoeff")
        {
            calibration_coefficients c;
            c.mpef_absolute = (float)unlimb(in["cc"]); c.space_count = (float)unlimb(in["sc"]);
            im->set_calibration(&c);
        }
        else if (op == "ical")
        {
            float* t = im->get_calibration();
            for (auto& n : in["ns"]) o["vs"].push_back(limbs(t[n.get<int>()]));
        }
        else throw std::string("unknown op");
    } catch (std::exception&) { o["err"] = 1; }
    return o;
}

static void put_file(const json& in)
{
    bool tec = in["tec"].get<int>();
    int id = in["id"], v = in["v"], cut = in["cut"], bad = in["bad"];
    bool A = id == 112;
    long head = tec ? 2048 + (A ? 1536 : 0) : 364 * (A ? 8 : 4);
    long line = tec ? (A ? 3072 : 1536) : 364 * (A ? 8 : 4);
    long total = head + line * in["lines"].get<int>();
    std::vector<unsigned char> b(total);
    for (long p = 0; p < total; ++p) b[p] = (p * 37 + (p / 364) * 11 + (p / 4096) * 5 + v) & 255;
    long off = tec ? 512 : 0;
    memset(b.data(), 0, head);
    // syncs
    std::vector<long> syncs;
    if (tec) { syncs.push_back(512); for (long p = head; p < total; p += line) syncs.push_back(p); }
    else for (long p = 0; p < total; p += 364) syncs.push_back(p);
    for (long p : syncs) { b[p] = 5; b[p + 1] = 0x0c; b[p + 2] = 0xdf; b[p + 3] = id; }
    auto put = [&](long at, const json& j) { for (size_t i = 0; i < j.size(); ++i) b[at + i] = (unsigned char)j[i].get<int>(); };
    put(off + 4, in["label"]);
    put(off + 28, in["seed"]);
    put(off + 36, in["ident"]);
    std::vector<char> ip(1360, 0);
    for (size_t i = 0; i < in["caltext"].size(); ++i) ip[46 + i] = (char)in["caltext"][i].get<int>();
    for (int i = 0; i < 8; ++i) ip[272 + i] = (char)in["satdis"][i].get<int>();
    std::vector<char> ks = slots(in["slots"]);
    if (tec)
    {
        memcpy(&b[off + 84], ip.data(), 1360);
        if (A) memcpy(&b[off + 84 + 1360], ks.data(), 1440);
    }
    else
    {
        memcpy(&b[84], ip.data(), 280);
        for (int k = 0; k < 3; ++k) memcpy(&b[364 * (k + 1) + 4], ip.data() + 280 + 360 * k, 360);
        if (A) for (int k = 0; k < 4; ++k) memcpy(&b[364 * (k + 4) + 4], ks.data() + 360 * k, 360);
    }
    if (bad >= 0 && (size_t)bad < syncs.size()) { long p = syncs[bad]; b[p] = 0x11; b[p + 1] = 0x22; b[p + 2] = 0x33; }
    if (cut >= 0 && cut < total) b.resize(cut);
    std::ofstream f("hri.dat", std::ios::binary);
    f.write((const char*)b.data(), b.size());
}
static json file(const json& in)
{
    zone(in);
    put_file(in);
    if (!in["same"].get<int>() || !hri) hri.reset(new Hri());
    json o = {{"err", 1}, {"fmt", ""}, {"sat", ""}, {"area", ""}, {"lon", 0}, {"tm", {0, 0, 0, 0, 0}}, {"geo", {0, 0, 0, 0}}, {"bits", 0}, {"orbit", limbs(0)},
        {"seed", json::array()}, {"images", json::array()}, {"px", json::array()}, {"keys", json::array()}};
    // the reader tells the format on standard output
    std::streambuf* was = std::cout.rdbuf();
    std::stringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    try { char name[] = "hri.dat"; hri->readfrom(name, in["tec"].get<int>()); }
    catch (std::exception&) { std::cout.rdbuf(was); hri.reset(); return o; }
    std::cout.rdbuf(was);
    o["err"] = 0;
    o["fmt"] = hri->get_format();
    o["sat"] = hri->get_satellite_name();
    o["area"] = hri->get_area_name();
    o["lon"] = scaled(hri->get_satellite_longitude(), 1);
    o["tm"] = date(*hri->get_datetime());
    geolocation* g = hri->get_geolocation();
    o["geo"] = {g->CFAC, g->LFAC, g->COFF, g->LOFF};
    o["bits"] = hri->get_bits_per_pixel();
    o["orbit"] = limbs(hri->get_orbit_radius());
    for (int i = 0; i < 8; ++i) o["seed"].push_back(hri->seed[i]);
    for (int k = 0; k < hri->nimages; ++k)
    {
        HRI_image& m = hri->image[k];
        json cal = json::array();
        float* t = m.get_calibration();
        for (auto& n : in["ns"]) cal.push_back(limbs(t[n.get<int>()]));
        o["images"].push_back({{"w", m.npixels}, {"h", m.nlines}, {"units", m.units}, {"band", m.get_image_band()}, {"step", {scaled(m.samplex, 1), scaled(m.sampley, 1)}}, {"cal", cal}});
    }
    for (auto& q : in["px"])
    {
        int k = q[0], y = q[1], x = q[2];
        int v = -1;
        if (k < hri->nimages && y < hri->image[k].nlines && x < hri->image[k].npixels)
            try { v = hri->image[k].get_pixel(y, x); } catch (std::exception&) { v = -2; }
        o["px"].push_back(v);
    }
    std::stringstream ss; ss << *hri;
    std::string l;
    int st = 0;
    while (std::getline(ss, l))
    {
        if (l.compare(0, 14, "Station number") == 0) st = printed(l, "Station");
        if (l.compare(0, 10, "Key number") == 0) o["keys"].push_back({st, printed(l, "Key")});
    }
    return o;
}

json run_op(const std::string& op, const json& in)
{
    if (op == "label") return label(in);
    if (op == "ident") return ident(in);
    if (op == "interp") return interp(in);
    if (op == "keys") return keys(in);
    HRI_machine m;
    if (op == "r4" || op == "r8")
    {
        // in a block of its own, so that reading past it is seen
        size_t n = op == "r4" ? 4 : 8;
        std::unique_ptr<unsigned char[]> b(new unsigned char[n]);
        for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)in["bytes"][i].get<int>();
        return {{"v", limbs(n == 4 ? m.r4_from_buff(b.get()) : m.r8_from_buff(b.get()))}};
    }
    if (op == "file") return file(in);
    return image_op(op, in);
}
