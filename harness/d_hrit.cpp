// HRIT files: headers, data fields, and the fields of prologue and epilogue
#include "drv.h"
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <iomanip>
#include <ctime>
#define private public
#include <msat/hrit/MSG_HRIT.h>
#include <msat/hrit/MSG_data.h>
#include <msat/hrit/MSG_header.h>
#undef private

#include "fieldfmt.h"

static std::unique_ptr<MSG_header> held;
static std::unique_ptr<MSG_data> data;

void reset_case()
{
    held.reset(new MSG_header);
    data.reset();
}

static json bits32(float v)
{
    uint32_t u; memcpy(&u, &v, 4);
    return json::array({(int)(u >> 16), (int)(u & 0xffff)});
}
static json one(json v) { json r = json::array(); r.push_back(v); return r; }
static json cds(json r, const MSG_time_cds_short& t)
{
    r["day"] = (int)t.get_day_from_epoch();
    r["ms"] = be<4>(t.get_msec_in_day());
    return r;
}

static json header_json(const MSG_header& h)
{
    json p;
    for (const char* k : {"struct", "navig", "func", "annot", "time", "ancil", "key", "seg", "qual"}) p[k] = json::array();
    if (auto s = h.image_structure)
        p["struct"] = one({{"bpp", (int)s->number_of_bits_per_pixel}, {"cols", (int)s->number_of_columns}, {"lines", (int)s->number_of_lines},
                           {"compr", (int)s->compression_flag & 0xff}});
    if (auto n = h.image_navigation)
    {
        json r = {{"name", codes(n->pname)}, {"cfac", be<4>(n->CFAC)}, {"lfac", be<4>(n->LFAC)}, {"coff", be<4>(n->COFF)}, {"loff", be<4>(n->LOFF)}};
        if (n->column_scaling_factor != n->CFAC || n->line_scaling_factor != n->LFAC || n->column_offset != n->COFF || n->line_offset != n->LOFF)
            r["name"] = "the two copies of the factors differ";
        if (!n->pname.empty() && n->pname[0] == 'G') r["lon"] = bits32(n->subsatellite_longitude);
        if (n->pname.size() > 1 && n->pname[0] == 'P' && n->pname[1] == 'O') { r["plane"] = bits32(n->projection_plane); r["plon"] = bits32(n->projection_longitude); }
        p["navig"] = one(r);
    }
    if (auto f = h.image_data_function) p["func"] = one(codes(f->data_definition_block));
    if (auto a = h.annotation)
        p["annot"] = one({{"all", codes(a->annotation)}, {"channel", codes(a->xrit_channel_id)}, {"version", codes(a->annotation_version)},
                          {"sc", codes(a->disseminating_s_c)}, {"p1", codes(a->product_id_1)}, {"p2", codes(a->product_id_2)},
                          {"p3", codes(a->product_id_3)}, {"p4", codes(a->product_id_4)}, {"flags", codes(a->flags)}});
    if (auto t = h.timestamp) p["time"] = one(cds(json::object(), *t));
    if (auto t = h.ancillary_text) p["ancil"] = one(codes(t->ancillary_text));
    if (auto k = h.key) p["key"] = one({{"number", (int)k->key_number}, {"seed", be<8>(k->seed)}});
    if (auto s = h.segment_id)
        p["seg"] = one({{"sc", (int)s->spacecraft_id}, {"chan", (int)s->spectral_channel_id}, {"seq", (int)s->sequence_number},
                        {"start", (int)s->planned_start_segment_sequence_number}, {"end", (int)s->planned_end_segment_sequence_number},
                        {"format", (int)s->data_field_format & 0xff}});
    if (auto q = h.segment_quality)
    {
        json r = json::array();
        for (int k = 0; k < q->nlines; ++k)
            r.push_back(cds({{"line", be<4>(q->lq[k].line_number_in_grid)}, {"valid", (int)q->lq[k].line_validity & 0xff},
                             {"radio", (int)q->lq[k].line_radiometric_quality & 0xff}, {"geom", (int)q->lq[k].line_geometric_quality & 0xff}},
                            q->lq[k].line_mean_acquisition));
        p["qual"] = one(r);
    }
    return {{"type", (int)h.f_typecode & 0xff}, {"hlen", (int)h.total_header_length}, {"dlen", be<8>(h.data_field_length)}, {"parts", p}};
}

static void write_file(const json& in)
{
    std::string s = text(in["head"]);
    if (in.contains("d"))
    {
        s += described(in["d"]);
    }
    std::ofstream("f", std::ios::binary) << s;
}

json run_op(const std::string& op, const json& in)
{
    if (op == "hread")
    {
        write_file(in);
        std::ifstream f("f", std::ios::binary);
        held->read_from(f);
        return header_json(*held);
    }
    if (op == "fread")
    {
        data.reset();
        write_file(in);
        std::ifstream f("f", std::ios::binary);
        MSG_header h;
        h.read_from(f);
        std::string dump;
        if (h.annotation) dump = h.annotation->annotation + ".bin";
        if (!dump.empty()) unlink(dump.c_str());
        std::unique_ptr<MSG_data> d(new MSG_data);
        try { d->read_from(f, h); } catch (...) { if (!dump.empty()) unlink(dump.c_str()); throw; }
        json out = {{"header", header_json(h)}};
        if (in.value("print", 0))
        {
            std::ostringstream o;
            o << h;
            if (h.f_typecode != MSG_FILE_IMAGE_DATA || d->image->len < 10000) o << *d;
        }
        if (h.f_typecode == MSG_FILE_GTS_MESSAGE || h.f_typecode == MSG_FILE_BINARY_MESSAGE)
        {
            std::ifstream r(dump, std::ios::binary);
            std::string all((std::istreambuf_iterator<char>(r)), std::istreambuf_iterator<char>());
            out["what"] = "dump"; out["bytes"] = codes(all);
            unlink(dump.c_str());
        }
        else if (d->image) { out["what"] = "samples"; out["n"] = (int)d->image->len; }
        else if (d->text_message) { out["what"] = "text"; out["bytes"] = raw(d->text_message->tbuff, d->text_message->tsize); }
        else if (d->key_message)
        {
            json ks = json::array();
            for (int k = 0; k < d->key_message->nkeys; ++k)
            {
                const MSG_encryption_key& e = d->key_message->keys[k];
                ks.push_back({{"station", be<2>(e.User_Station_number)}, {"number", (int)(unsigned char)e.Key_Number}, {"key", raw(e.Public_key, 192)}, {"crc", be<2>(e.Public_Key_CRC)}});
            }
            out["what"] = "keys"; out["n"] = d->key_message->nkeys; out["keys"] = ks;
        }
        else if (d->prologue) out["what"] = "prologue";
        else if (d->epilogue) out["what"] = "epilogue";
        else if (d->sdsprologue) { out["what"] = "sgs"; out["n"] = (int)d->sdsprologue->SGSProductSpecificHeader.ImageProductSpecificHeader.ImageProductSpecificHeaderLenght; }
        else out["what"] = "nothing";
        data = std::move(d);
        return out;
    }
    if (op == "fields")
    {
        if (data->prologue) return {{"vals", field_values(header_fields, *data->prologue, in["paths"])}};
        return {{"vals", field_values(trailer_fields, *data->epilogue, in["paths"])}};
    }
    throw "bad op";
}
