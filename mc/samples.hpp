// Small intact files of every kind that the library reads, and ways to damage them. Included by one source file.
#pragma once
#include "imagegen.hpp"
#include "explore.hpp"
#include "features.hpp"
#include "fontgen.hpp"
#include <algorithm>
#include <set>
using namespace mc;
using std::to_string;
enum Kind { FONT, IMAGE, ICC, OTHER };
struct Sample {
    string name;
    Kind kind;
    string ext, data;
    int nglyphs = 0;
    bool png = false;
    bool fourbyte = true;
    std::vector<std::pair<size_t, size_t>> where; // ranges of structural bytes; empty: all
};
static string hex(uint64_t v) {
    char b[20];
    snprintf(b, sizeof b, "%llx", (unsigned long long)v);
    return b;
}
static string ttc(const string &a, const string &b) {
    string o = "ttcf";
    auto p32 = [](string &s, uint32_t v) { for(int k = 24; k >= 0; k -= 8) s += (char)(v >> k); };
    auto g = [](const string &s, size_t p) { return (uint32_t)(unsigned char)s[p] << 24 | (uint32_t)(unsigned char)s[p + 1] << 16 | (uint32_t)(unsigned char)s[p + 2] << 8 | (unsigned char)s[p + 3]; };
    p32(o, 0x10000); p32(o, 2); p32(o, 20); p32(o, (uint32_t)(20 + a.size()));
    for(auto *f : {&a, &b}) {
        string x = *f;
        auto base = (uint32_t)o.size();
        size_t n = (size_t)((unsigned char)x[4] << 8 | (unsigned char)x[5]);
        for(size_t k = 0; k < n; ++k) {
            string v;
            p32(v, g(x, 12 + 16 * k + 8) + base);
            x.replace(12 + 16 * k + 8, 4, v);
        }
        o += x;
    }
    return o;
}
static string png_crc(string s) { // makes every checksum right
    size_t p = 8;
    while(p + 12 <= s.size()) {
        uint32_t n = (uint32_t)(unsigned char)s[p] << 24 | (uint32_t)(unsigned char)s[p + 1] << 16 | (uint32_t)(unsigned char)s[p + 2] << 8 | (unsigned char)s[p + 3];
        if(n > s.size() || p + 12 + n > s.size()) break;
        auto c = (uint32_t)crc32(0, (const Bytef *)s.data() + p + 4, n + 4);
        for(size_t k = 0; k < 4; ++k) s[p + 8 + n + k] = (char)(c >> (24 - 8 * k));
        p += 12 + n;
    }
    return s;
}
static std::vector<Sample> samples(bool all) {
    std::vector<Sample> r;
    auto font = [&](const string &n, const string &d, int g, const string &ext = ".ttf") { r.push_back({n, FONT, ext, d, g, false, true, {}}); };
    TtSpec t;
    t.nglyphs = 9;
    font("truetype", make_ttf(t), t.nglyphs);
    t.loca = 1; t.words = 1; t.scale = 3; t.instructions = true; t.overlap = true; t.nhm = 3; t.kern = false;
    auto other = make_ttf(t);
    font("truetype deep", other, t.nglyphs);
    CffSpec c;
    font("cff", make_cff_otf(c), c.nglyphs, ".otf");
    c.cid = false; c.charset = 1; c.subrs = 2; c.upem = 2048;
    font("cff name keyed", make_cff_otf(c), c.nglyphs, ".otf");
    if(all) {
        t.scale = 2; t.words = 0; t.loca = 0;
        font("truetype scaled", make_ttf(t), t.nglyphs);
        c = {}; c.nfd = 2; c.fdselect = 0; c.charset = 2; c.subrs = 3;
        font("cff two dictionaries", make_cff_otf(c), c.nglyphs, ".otf");
    }
    auto coll = ttc(make_ttf(TtSpec{}), other);
    r.push_back({"collection", FONT, ".ttc", coll, 12, false, true, {{0, 20 + 12 + 16 * 10}}});
    if(all) r.back().where.clear();
    // The structural beginnings of real fonts.
    for(auto n : {"AmstelVar-Roman.ttf", "NotoSans-Regular.ttf", "P052-Roman.otf"}) {
        auto d = read_file(repo_dir() + "/testdata/fonts/" + n);
        Sample s{n, FONT, ".ttf", d, 0, false, true, {{0, 12}}};
        size_t nt = (size_t)((unsigned char)d[4] << 8 | (unsigned char)d[5]);
        s.where.push_back({12, 12 + 16 * nt});
        auto g = [&](size_t p) { return (size_t)(unsigned char)d[p] << 24 | (size_t)(unsigned char)d[p + 1] << 16 | (size_t)(unsigned char)d[p + 2] << 8 | (size_t)(unsigned char)d[p + 3]; };
        for(size_t k = 0; k < nt; ++k) {
            auto tag = d.substr(12 + 16 * k, 4);
            size_t o = g(12 + 16 * k + 8), l = g(12 + 16 * k + 12);
            if(all || tag == "head" || tag == "hhea" || tag == "maxp") s.where.push_back({o, o + std::min<size_t>(l, all ? 80 : 54)});
        }
        r.push_back(s);
    }
    // Images
    auto image = [&](const string &n, const string &ext, const string &d) { r.push_back({n, IMAGE, ext, d, 0, ext == ".png", true, {}}); };
    auto px = [](int spp, int depth, uint32_t w, uint32_t h) { return pattern((size_t)spp * w * h, depth, 5); };
    for(auto &k : PNGS) {
        int n = k.type == PNG_COLOR_TYPE_RGB ? 3 : k.type == PNG_COLOR_TYPE_RGBA ? 4 : k.type == PNG_COLOR_TYPE_GA ? 2 : 1;
        if(!all && k.depth != 8 && k.depth != 1) continue;
        image("png " + to_string(k.type) + " " + to_string(k.depth), ".png", png_file(k.type, k.depth, 3, 2, px(n, k.depth, 3, 2), false, {}, {}, nullptr, k.type == PNG_COLOR_TYPE_GRAY && k.depth == 8 ? gray_icc() : ""));
    }
    std::vector<png_color> bw{{0, 0, 0}, {255, 255, 255}};
    image("png mono", ".png", png_file(PNG_COLOR_TYPE_PALETTE, 1, 17, 3, px(1, 1, 17, 3), false, bw, {}, nullptr, ""));
    image("png mono alpha", ".png", png_file(PNG_COLOR_TYPE_PALETTE, 1, 9, 3, px(1, 1, 9, 3), false, bw, {0, 255}, nullptr, ""));
    image("png palette", ".png", png_file(PNG_COLOR_TYPE_PALETTE, 2, 9, 3, px(1, 2, 9, 3), true, {{0, 0, 0}, {255, 255, 255}, {1, 2, 3}, {4, 5, 6}}, {9}, nullptr, ""));
    image("png palette one bit alpha", ".png", png_file(PNG_COLOR_TYPE_PALETTE, 2, 9, 3, px(1, 2, 9, 3), false, {{0, 0, 0}, {255, 255, 255}, {1, 2, 3}, {4, 5, 6}}, {255, 255, 0}, nullptr, ""));
    static const int COMP[] = {COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_ADOBE_DEFLATE, COMPRESSION_PACKBITS};
    size_t x = 0;
    for(auto &k : TIFFS) {
        if(k.photometric == PHOTOMETRIC_PALETTE) { image("tiff palette", ".tif", tiff_file(k, 4, 3, 8, px(1, 8, 4, 3), COMPRESSION_NONE, false, false, false, 3, "")); if(!all) { auto n = r.back().data.size(); r.back().where = {{0, 60}, {n - 240, n}}; } continue; }
        for(int v = 0; v < (all ? 4 : 1); ++v, ++x)
            image("tiff " + to_string(k.photometric) + " " + to_string(k.spp) + " " + to_string(v), ".tif",
                  tiff_file(k, 4, 3, v == 3 ? 1 : 8, px(k.spp, v == 3 ? 1 : 8, 4, 3), COMP[x % 4], v == 1, x % 2, v == 2, 2, x % 3 == 1 && k.cs == GRAY ? gray_icc() : x % 3 == 2 && k.cs == CMYK ? cmyk_icc() : ""));
    }
    for(auto &k : JPEGS) {
        if(!all && (&k - &JPEGS[0]) % 2) continue;
        image("jpeg " + to_string(k.file) + to_string(k.adobe), ".jpg", jpeg_file(k, 9, 8, false, 0, true, k.cs == GRAY ? gray_icc() : ""));
    }
    image("jpeg progressive", ".jpg", jpeg_file(JPEGS[1], 17, 9, true, 1, true, cmyk_icc()));
    r.push_back({"icc gray", ICC, ".icc", gray_icc(), 0, false, true, {}});
    r.push_back({"icc cmyk", ICC, ".icc", cmyk_icc(), 0, false, true, {}});
    {
        auto d = read_file(repo_dir() + "/testdata/icc/compatibleWithAdobeRGB1998.icc");
        r.push_back({"icc rgb", ICC, ".icc", d, 0, false, true, {}});
    }
    return r;
}
static const std::vector<Sample> &SAMPLES() {
    static const auto v = samples(thorough());
    return v;
}

// Loads the file and uses what it contains in every way. gens: the call that makes the generator.
static Script use_script(const Sample &sm, const string &data, size_t &gens) {
    auto name = "in" + sm.ext;
    write_file(scratch() + "/" + name, data);
    auto path = "$OUT/" + name;
    B b;
    auto &s = b.s;
    b.md = s("document_properties_new");
    auto pp = s("page_properties_new");
    s("page_properties_set_pagebox", pp, 0, 0.0, 0.0, 200.0, 200.0);
    s("document_properties_set_default_page_properties", b.md, pp);
    if(sm.kind == ICC) {
        int cs = sm.name == "icc rgb" ? 0 : sm.name == "icc gray" ? 1 : 2;
        s("document_properties_set_device_profile", b.md, cs, path);
        s("document_properties_set_colorspace", b.md, cs);
        s("document_properties_set_pdfx", b.md, 4);
        s("document_properties_set_output_intent", b.md, "x");
    }
    gens = s.size();
    b.gen = s("generator_new", "$OUT/out.pdf", b.md);
    b.dc = s("page_draw_context_new", b.gen);
    std::vector<V> raws;
    if(sm.kind == FONT) {
        for(int sub = 0; sub < (sm.ext == ".ttc" ? 2 : 1); ++sub) {
            V f;
            if(sm.ext == ".ttc") {
                auto fp = s("font_properties_new");
                s("font_properties_set_subfont", fp, sub);
                f = s("generator_load_font", b.gen, path, fp);
            } else f = s("generator_load_font", b.gen, path, null);
            s("generator_text_width", b.gen, "abc", f, 12.0);
            auto n = sm.nglyphs ? sm.nglyphs : 6;
            for(int g = 1; g < n; ++g) s("dc_render_text", b.dc, string(1, (char)('a' + g - 1)), f, 12.0, 1.0, 2.0);
            s("dc_render_text", b.dc, "A", f, 12.0, 1.0, 2.0);
            for(int gid : {0, 1, n - 1, n, 65535}) {
                auto t = s("dc_text_new", b.dc);
                s("text_cmd_Tf", t, f, 9.0);
                auto q = s("text_sequence_new");
                s("text_sequence_append_raw_glyph", q, gid, (int)'z');
                s("text_cmd_TJ", t, q);
                s("dc_render_text_obj", b.dc, t);
            }
        }
    } else if(sm.kind == IMAGE) {
        for(int how = 0; how < 2; ++how) {
            V im = how ? s("generator_load_image_from_memory", b.gen, data) : s("generator_load_image", b.gen, path);
            raws.push_back(im);
            s("raster_image_get_size", im);
            s("raster_image_get_colorspace", im);
            s("raster_image_has_profile", im);
            auto p = s("image_pdf_properties_new");
            if(how) s("image_pdf_properties_set_mask", p, 1);
            V id = s("generator_add_image", b.gen, im, p);
            s("dc_cmd_Do_image", b.dc, id);
        }
        auto again = s("generator_load_image", b.gen, path);
        auto conv = s("generator_convert_image", b.gen, again, 1, 0);
        auto p = s("image_pdf_properties_new");
        s("dc_cmd_Do_image", b.dc, s("generator_add_image", b.gen, conv, p));
    } else if(sm.kind == ICC) {
        auto id = s("generator_load_icc_profile", b.gen, path);
        auto c = s("color_new");
        s("color_set_icc", c, id, std::vector<double>(sm.name == "icc rgb" ? 3 : sm.name == "icc gray" ? 1 : 4, 0.5));
        s("dc_set_nonstroke", b.dc, c);
        s("generator_add_icc_profile", b.gen, data, sm.name == "icc rgb" ? 3 : sm.name == "icc gray" ? 1 : 4);
        auto rgb = s("color_new");
        s("color_set_rgb", rgb, 0.1, 0.2, 0.3);
        s("dc_set_stroke", b.dc, rgb);
    }
    s("generator_add_page", b.gen, b.dc);
    s("generator_write", b.gen);
    return s;
}
static const std::vector<size_t> &positions(size_t si) {
    static std::map<size_t, std::vector<size_t>> memo;
    auto &v = memo[si];
    if(v.empty()) {
        auto &s = SAMPLES()[si];
        if(s.where.empty()) for(size_t k = 0; k <= s.data.size(); ++k) v.push_back(k);
        else
            for(auto &[a, b] : s.where)
                for(size_t k = a; k < b && k < s.data.size(); ++k) v.push_back(k);
    }
    return v;
}
// Fonts whose tables are missing, doubled, exchanged or cut, with a directory that says so.
struct Tab { string tag, data; };
static std::vector<Tab> tables(const string &f) {
    auto g = [&](size_t p) { return (size_t)(unsigned char)f[p] << 24 | (size_t)(unsigned char)f[p + 1] << 16 | (size_t)(unsigned char)f[p + 2] << 8 | (size_t)(unsigned char)f[p + 3]; };
    std::vector<Tab> r;
    size_t n = (size_t)((unsigned char)f[4] << 8 | (unsigned char)f[5]);
    for(size_t k = 0; k < n; ++k) r.push_back({f.substr(12 + 16 * k, 4), f.substr(g(12 + 16 * k + 8), g(12 + 16 * k + 12))});
    return r;
}
static string assemble(const string &version, const std::vector<Tab> &t) {
    string o = version, body;
    auto p16 = [&](size_t v) { o += (char)(v >> 8); o += (char)v; };
    auto p32 = [&](size_t v) { p16(v >> 16); p16(v & 0xffff); };
    p16(t.size()); p16(0); p16(0); p16(0);
    size_t base = 12 + 16 * t.size();
    for(auto &x : t) {
        o += x.tag;
        p32(0); p32(base + body.size()); p32(x.data.size());
        body += x.data;
        while(body.size() % 4) body += '\0';
    }
    return o + body;
}
static size_t LIM() { return thorough() ? 700 : 200; }
static size_t table_cases(size_t si) {
    size_t n = 0;
    for(auto &t : tables(SAMPLES()[si].data)) n += std::min<size_t>(t.data.size(), LIM()) + 4;
    return n;
}
static string table_file(size_t si, size_t i, string &what) {
    auto &s = SAMPLES()[si];
    auto t = tables(s.data);
    size_t k = 0;
    while(i >= std::min<size_t>(t[k].data.size(), LIM()) + 4) i -= std::min<size_t>(t[k].data.size(), LIM()) + 4, ++k;
    auto v = s.data.substr(0, 4);
    auto len = t[k].data.size();
    auto tag = t[k].tag;
    if(i < std::min<size_t>(len, LIM())) { t[k].data.resize(i); what = "cut to " + to_string(i); }
    else switch(i - std::min<size_t>(len, LIM())) {
    case 0: t.erase(t.begin() + (long)k); what = "removed"; break;
    case 1: t.insert(t.begin() + (long)k, t[k]); what = "doubled"; break;
    case 2: std::swap(t[k].data, t[(k + 1) % t.size()].data); what = "exchanged with the next"; break;
    default: t[k].data += t[k].data; what = "has its contents twice"; break;
    }
    what = "table " + tag + " " + what;
    return assemble(v, t);
}
