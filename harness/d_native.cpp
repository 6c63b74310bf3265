// MSG images in native format
#include "drv.h"
#include <memory>
#include <iomanip>
#include <ctime>
#define private public
#include <msat/msg-native/MSG_native.h>
#undef private
#include "fieldfmt.h"

static std::unique_ptr<MSG_native> n;

void reset_case()
{
    n.reset(new MSG_native);
}

static json packet(const IMPF_Packet_Header& h)
{
    const GP_Packet_Header& g = h.gp_packet_header;
    const GP_Packet_subHeader& s = h.gp_packet_subheader;
    return {{"HeaderVersionNo", be<1>(g.HeaderVersionNo)}, {"PacketType", be<1>(g.PacketType)}, {"SubHeaderType", be<1>(g.SubHeaderType)},
            {"SourceFacilityId", be<1>(g.SourceFacilityId)}, {"SourceEnvId", be<1>(g.SourceEnvId)}, {"SourceInstanceId", be<1>(g.SourceInstanceId)},
            {"SourceSUId", be<4>(g.SourceSUId)}, {"SourceCPUId", raw(g.SourceCPUId, 4)}, {"DestFacilityId", be<1>(g.DestFacilityId)},
            {"DestEnvId", be<1>(g.DestEnvId)}, {"SequenceCount", be<2>(g.SequenceCount)}, {"PacketLength", be<4>(g.PacketLength)},
            {"SubHeaderVersionNo", be<1>(s.SubHeaderVersionNo)}, {"ChecksumFlag", be<1>(s.ChecksumFlag)}, {"Acknowledgement", raw(s.Acknowledgement, 4)},
            {"ServiceType", be<1>(s.ServiceType)}, {"ServiceSubtype", be<1>(s.ServiceSubtype)}, {"PacketTime", f_cds6(s.PacketTime)},
            {"SpacecraftId", be<2>(s.SpacecraftId)}};
}
static json line_header(const MSG_native_lineheader& h)
{
    return {{"LINE1_5Version", be<1>(h.LINE1_5Version)}, {"SatelliteId", be<2>(h.SatelliteId)}, {"TrueRepeatCycleStart", f_cds10(h.TrueRepeatCycleStart)},
            {"LineNumberInGrid", be<4>(h.LineNumberInGrid)}, {"ChannelId", be<1>(h.ChannelId)}, {"L10LineMeanAcquisitionTime", f_cds6(h.L10LineMeanAcquisitionTime)},
            {"LineValidity", be<1>(h.LineValidity.value)}, {"LineRadiometricQuality", be<1>(h.LineRadiometricQuality.value)},
            {"LineGeometricQuality", be<1>(h.LineGeometricQuality.value)}};
}
static json rows(const unsigned short* s, int w, int h)
{
    json r = json::array();
    for (int y = 0; y < h; ++y)
    {
        json l = json::array();
        for (int x = 0; x < w; ++x) l.push_back((int)s[(size_t)y * w + x]);
        r.push_back(l);
    }
    return r;
}

json run_op(const std::string& op, const json& in)
{
    if (op == "nopen" || op == "nmissing")
    {
        if (op == "nopen") std::ofstream("f", std::ios::binary) << described(in["d"]);
        char name[16];
        strcpy(name, op == "nopen" ? "f" : "missing");
        return {{"ok", n->open(name)}};
    }
    if (op == "nread") { n->read(); return {{"ok", true}}; }
    if (op == "nclose") { n->close(); return {{"ok", true}}; }
    if (op == "nsize")
    {
        int c = in["ch"];
        return {{"lines", n->lines(c)}, {"pixels", n->pixels(c)}};
    }
    if (op == "ndata")
    {
        int c = in["ch"];
        std::unique_ptr<unsigned short[]> s(n->data(c));
        if (!s) return {{"what", "none"}};
        return {{"what", "image"}, {"rows", rows(s.get(), n->pixels(c), n->lines(c))}};
    }
    if (op == "npgm")
    {
        char name[16];
        strcpy(name, "f.pgm");
        unlink(name);
        if (!n->pgmdump(in["ch"], name)) return {{"what", "none"}};
        std::ifstream p(name, std::ios::binary);
        std::string all((std::istreambuf_iterator<char>(p)), std::istreambuf_iterator<char>());
        unlink(name);
        // P5, comments, size, greatest value, samples of two bytes
        size_t at = 0;
        std::vector<std::string> head;
        while (head.size() < 3 && at < all.size())
        {
            size_t e = all.find('\n', at);
            if (e == std::string::npos) break;
            std::string l = all.substr(at, e - at);
            if (l.empty() || l[0] != '#') head.push_back(l);
            at = e + 1;
        }
        int w = 0, h = 0;
        if (head.size() < 3 || head[0] != "P5" || sscanf(head[1].c_str(), "%d %d", &w, &h) != 2) return {{"what", "bad"}};
        if (all.size() - at != (size_t)w * h * 2) return {{"what", "size"}};
        std::vector<unsigned short> s((size_t)w * h + 1);
        for (size_t k = 0; k < (size_t)w * h; ++k) s[k] = ((unsigned char)all[at + 2 * k]) << 8 | (unsigned char)all[at + 2 * k + 1];
        return {{"what", "image"}, {"rows", rows(s.data(), w, h)}};
    }
    if (op == "nlines")
    {
        // the packets of a channel
        json r = json::array();
        int c = in["ch"];
        for (auto& l : n->line[c])
        {
            long ns = 0;
            unsigned short* s = nullptr;
            l.data.to_sample(&s, &ns);
            json v = json::array();
            // (of long lines, the first and the last samples)
            for (long k = 0; k < ns; ++k) if (k < 60 || k >= ns - 4) v.push_back((int)s[k]);
            delete[] s;
            r.push_back({{"packet", packet(l.pkh)}, {"head", line_header(l.header)}, {"n", ns}, {"samples", v}});
        }
        return {{"list", r}};
    }
    if (op == "ntext")
    {
        json r = json::array();
        for (auto& s : n->header.mph_sph_header.mphinfo) r.push_back(codes(s));
        return {{"texts", r}, {"hpacket", packet(n->header.impf_packet_header)}, {"tpacket", packet(n->trailer.impf_packet_header)}};
    }
    if (op == "nheader") return {{"vals", field_values(header_fields, n->header.l15, in["paths"])}};
    if (op == "ntrailer") return {{"vals", field_values(trailer_fields, n->trailer.l15, in["paths"])}};
    if (op == "nprint")
    {
        std::ostringstream o;
        o << *n;
        return {{"ok", o.str().size() > 1000}};
    }
    throw "bad op";
}
