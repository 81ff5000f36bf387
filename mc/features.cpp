#include "features.hpp"
#include "config.hpp"
#include <cstdlib>
namespace mc {

void B::props(double w, double h) {
    md = s("document_properties_new");
    auto pp = s("page_properties_new");
    s("page_properties_set_pagebox", pp, E("CAPY_BOX_MEDIA"), 0.0, 0.0, w, h);
    s("document_properties_set_default_page_properties", md, pp);
    s("page_properties_destroy", pp);
}
void B::start() {
    gen = s("generator_new", file, md);
    dc = s("page_draw_context_new", gen);
}
void B::page() {
    s("generator_add_page", gen, dc);
    s("dc_destroy", dc);
    ++npages;
    dc = s("page_draw_context_new", gen);
}
void B::finish() {
    s("generator_add_page", gen, dc);
    s("dc_destroy", dc);
    ++npages;
    s("generator_write", gen);
}
V B::res(const std::string &name, const std::function<V()> &mk) {
    auto it = memo.find(name);
    if(it != memo.end()) return it->second;
    V v = mk();
    memo[name] = v;
    return v;
}
V B::gray_color(double g) {
    auto c = s("color_new");
    s("color_set_gray", c, g);
    return c;
}
V B::rgb_color(double r, double g, double b) {
    auto c = s("color_new");
    s("color_set_rgb", c, r, g, b);
    return c;
}
static V color_n(B &b, int n, double v) {
    auto c = b.s("color_new");
    if(n == 1) b.s("color_set_gray", c, v);
    else if(n == 3) b.s("color_set_rgb", c, v, v / 2, 1 - v);
    else b.s("color_set_cmyk", c, v, v / 2, 1 - v, v / 4);
    return c;
}
V B::fn2(int n) {
    return res("fn2_" + std::to_string(n), [&] {
        auto f = s("type2_function_new", std::vector<double>{0, 1}, color_n(*this, n, 0.25), color_n(*this, n, 0.75), 1.5);
        return s("generator_add_function", gen, f);
    });
}
V B::font(const std::string &p) {
    return res("font_" + p, [&] { return s("generator_load_font", gen, "$REPO/testdata/fonts/" + p, null); });
}
V B::image(int w, int h, int comps, int alpha, int depth) {
    return res("img_" + std::to_string(w) + "_" + std::to_string(h) + "_" + std::to_string(comps) + "_" + std::to_string(alpha) + "_" + std::to_string(depth), [&] {
        auto rb = s("raster_image_builder_new");
        s("raster_image_builder_set_size", rb, w, h);
        s("raster_image_builder_set_pixel_depth", rb, depth);
        s("raster_image_builder_set_colorspace", rb, comps == 1 ? E("CAPY_IMAGE_CS_GRAY") : comps == 3 ? E("CAPY_IMAGE_CS_RGB") : E("CAPY_IMAGE_CS_CMYK"));
        std::string px((size_t)((w * comps * depth + 7) / 8 * h), 0);
        for(size_t i = 0; i < px.size(); ++i) px[i] = (char)(i * 37 + 11);
        s("raster_image_builder_set_pixel_data", rb, px);
        if(alpha) {
            s("raster_image_builder_set_alpha_depth", rb, alpha);
            std::string al((size_t)((w * alpha + 7) / 8 * h), 0);
            for(size_t i = 0; i < al.size(); ++i) al[i] = (char)(i * 53 + 7);
            s("raster_image_builder_set_alpha_data", rb, al);
        }
        auto im = s("raster_image_builder_build", rb);
        auto ip = s("image_pdf_properties_new");
        return s("generator_add_image", gen, im, ip);
    });
}
V B::ocg(const std::string &name) {
    return res("ocg_" + name, [&] {
        auto o = s("optional_content_group_new", name);
        return s("generator_add_optional_content_group", gen, o);
    });
}
V B::icc() {
    return res("icc", [&] { return s("generator_load_icc_profile", gen, "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc"); });
}
V B::sep() {
    return res("sep", [&] {
        auto f = s("type4_function_new", std::vector<double>{0, 1}, std::vector<double>{0, 1, 0, 1, 0, 1, 0, 1},
                   "{dup 0.78 mul exch dup 0.05 mul exch 0.2 mul dup}");
        return s("generator_add_separation", gen, "Gold", E("CAPY_DEVICE_CS_CMYK"), s("generator_add_function", gen, f));
    });
}
V B::lab() {
    return res("lab", [&] { return s("generator_add_lab_colorspace", gen, 0.9505, 1.0, 1.089, -100.0, 100.0, -110.0, 110.0); });
}

static V trgroup(B &b) {
    return b.res("trgroup", [&] {
        auto g = b.s("transparency_group_new", b.gen, 0.0, 0.0, 50.0, 50.0);
        b.s("dc_cmd_re", g, 1.0, 1.0, 20.0, 20.0);
        b.s("dc_cmd_f", g);
        auto tp = b.s("transparency_group_properties_new");
        b.s("transparency_group_properties_set_CS", tp, E("CAPY_DEVICE_CS_GRAY"));
        b.s("transparency_group_properties_set_I", tp, 1);
        b.s("transparency_group_properties_set_K", tp, 0);
        b.s("dc_set_transparency_group_properties", g, tp);
        return b.s("generator_add_transparency_group", b.gen, g);
    });
}
static V form(B &b, const std::string &key = "form") {
    return b.res(key, [&] {
        auto f = b.s("form_xobject_new", b.gen, 0.0, 0.0, 10.0, 12.0);
        b.s("dc_cmd_re", f, 1.0, 1.0, 5.0, 5.0);
        b.s("dc_cmd_S", f);
        return b.s("generator_add_form_xobject", b.gen, f);
    });
}
static V transition(B &b, int v) {
    auto t = b.s("transition_new");
    if(v >= 0) {
        b.s("transition_set_S", t, v % 12);
        b.s("transition_set_D", t, 0.5 + v);
        b.s("transition_set_Dm", t, v % 2);
        b.s("transition_set_M", t, (v / 2) % 2);
        b.s("transition_set_Di", t, 90 * (v % 4));
        b.s("transition_set_SS", t, 0.5);
        b.s("transition_set_B", t, v % 2);
    }
    return t;
}
static V embedded(B &b, const std::string &name, bool unicode) {
    return b.res("ef_" + name, [&] {
        auto e = b.s("embedded_file_new");
        b.s("embedded_file_set_contents", e, "file contents of " + name);
        b.s("embedded_file_set_pdf_name", e, unicode ? name + "\xc3\xa4.txt" : name + ".txt");
        b.s("embedded_file_set_subtype", e, "text/plain");
        return b.s("generator_embed_file", b.gen, e);
    });
}

const std::vector<Feature> &features() {
    static const std::vector<Feature> f = {
        {"path", 12, [](B &b, int v) {
             auto dc = b.dc;
             b.s("dc_cmd_m", dc, 1.0, 2.0);
             b.s("dc_cmd_l", dc, 3.5, -4.25);
             b.s("dc_cmd_c", dc, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0);
             b.s("dc_cmd_v", dc, 1.0, 2.0, 3.0, 4.0);
             b.s("dc_cmd_y", dc, 1.0, 2.0, 3.0, 4.0);
             if(v % 2) b.s("dc_cmd_h", dc);
             if(v % 3 == 1) b.s("dc_cmd_W", dc);
             if(v % 3 == 2) b.s("dc_cmd_Wstar", dc);
             const char *p[] = {"b", "B", "bstar", "Bstar", "f", "fstar", "n", "s", "S", "S", "n", "f"};
             b.s(std::string("dc_cmd_") + p[v], dc);
         }},
        {"gstate_ops", 4, [](B &b, int v) {
             auto dc = b.dc;
             b.s("dc_cmd_w", dc, 0.5 * v);
             b.s("dc_cmd_M", dc, 2.0 + v);
             b.s("dc_cmd_j", dc, v % 3);
             b.s("dc_cmd_J", dc, (v + 1) % 3);
             b.s("dc_cmd_i", dc, 1.0);
             b.s("dc_cmd_ri", dc, v);
             b.s("dc_cmd_d", dc, v == 0 ? std::vector<double>{1} : v == 1 ? std::vector<double>{2, 0.5} : std::vector<double>{1, 2, 3, 4.75}, 0.25 * v);
             b.s("dc_cmd_cm", dc, 1.0, 0.0, 0.0, 1.0, 10.0 * v, 5.0);
         }},
        {"qQ", 3, [](B &b, int v) {
             for(int i = 0; i <= v; ++i) b.s("dc_cmd_q", b.dc);
             b.s("dc_cmd_re", b.dc, 1.0, 2.0, 3.0, 4.0);
             b.s("dc_cmd_f", b.dc);
             for(int i = 0; i <= v; ++i) b.s("dc_cmd_Q", b.dc);
         }},
        {"device_color", 3, [](B &b, int v) {
             if(v == 0) { b.s("dc_cmd_RG", b.dc, 0.1, 0.2, 0.3); b.s("dc_cmd_rg", b.dc, 1.0, 0.0, 0.5); }
             if(v == 1) { b.s("dc_cmd_G", b.dc, 0.1); b.s("dc_cmd_g", b.dc, 1.0); }
             if(v == 2) { b.s("dc_cmd_K", b.dc, 0.1, 0.2, 0.3, 0.4); b.s("dc_cmd_k", b.dc, 1.0, 0.0, 0.5, 0.0); }
         }},
        {"color_obj", 12, [](B &b, int v) {
             auto c = b.s("color_new");
             switch(v / 2) {
             case 0: b.s("color_set_rgb", c, 0.1, 0.2, 0.3); break;
             case 1: b.s("color_set_gray", c, 0.6); break;
             case 2: b.s("color_set_cmyk", c, 0.1, 0.2, 0.3, 0.4); break;
             case 3: b.s("color_set_icc", c, b.icc(), std::vector<double>{0.1, 0.2, 0.3}); break;
             case 4: b.s("color_set_separation", c, b.sep(), 0.4); break;
             case 5: b.s("color_set_lab", c, b.lab(), 50.0, -20.0, 30.0); break;
             }
             b.s(v % 2 ? "dc_set_stroke" : "dc_set_nonstroke", b.dc, c);
             b.s("dc_cmd_re", b.dc, 1.0, 2.0, 3.0, 4.0);
             b.s(v % 2 ? "dc_cmd_S" : "dc_cmd_f", b.dc);
         }},
        {"image", 10, [](B &b, int v) {
             static const int comps[] = {1, 3, 4, 1, 3, 4, 1, 1, 3, 1}, alpha[] = {0, 0, 0, 8, 8, 8, 1, 0, 1, 8}, depth[] = {8, 8, 8, 8, 8, 8, 8, 1, 8, 1};
             auto im = b.image(5 + v, 3, comps[v], alpha[v], depth[v]);
             b.s("dc_cmd_q", b.dc);
             b.s("dc_cmd_cm", b.dc, 10.0, 0.0, 0.0, 10.0, 1.0, 2.0);
             b.s("dc_cmd_Do_image", b.dc, im);
             b.s("dc_cmd_Q", b.dc);
         }},
        {"image_props", 4, [](B &b, int v) {
             auto rb = b.s("raster_image_builder_new");
             b.s("raster_image_builder_set_size", rb, 9, 2);
             b.s("raster_image_builder_set_pixel_depth", rb, v == 0 ? 1 : 8);
             b.s("raster_image_builder_set_colorspace", rb, E("CAPY_IMAGE_CS_GRAY"));
             b.s("raster_image_builder_set_pixel_data", rb, v == 0 ? std::string("\xa5\x80\x5a\x00", 4) : std::string(18, 'x'));
             auto im = b.s("raster_image_builder_build", rb);
             auto ip = b.s("image_pdf_properties_new");
             if(v == 0) b.s("image_pdf_properties_set_mask", ip, 1);
             b.s("image_pdf_properties_set_interpolate", ip, v % 3);
             b.s("dc_cmd_Do_image", b.dc, b.s("generator_add_image", b.gen, im, ip));
         }},
        {"image_file", 10, [](B &b, int v) {
             static const char *fn[] = {"rgb_tiff.tif", "cmyk_tiff.tif", "capylogo_web.png", "simple.jpg", "flame_gradient.png", "1bit_alpha.png", "1bit_noalpha.png", "gray_alpha.png", "object_gradient.png", "comic-lines.png"};
             auto im = b.s("generator_load_image", b.gen, std::string("$REPO/testdata/images/") + fn[v]);
             auto ip = b.s("image_pdf_properties_new");
             b.s("dc_cmd_Do_image", b.dc, b.s("generator_add_image", b.gen, im, ip));
         }},
        {"text", 14, [](B &b, int v) {
             auto f = b.font(v % 3 == 0 ? "NotoSans-Regular.ttf" : v % 3 == 1 ? "P052-Roman.otf" : "NotoSerif-Regular.ttf");
             b.s("dc_render_text", b.dc, std::string("Text ") + (char)('A' + v), f, 10.0 + v, 1.0, 2.0);
         }},
        {"text_obj", 9, [](B &b, int v) {
             auto f = b.font();
             auto t = b.s("dc_text_new", b.dc);
             b.s("text_cmd_Tf", t, f, 12.0);
             b.s("text_cmd_Td", t, 5.0, 6.0);
             switch(v) {
             case 0: b.s("text_cmd_Tj", t, "Hello"); break;
             case 1: {
                 auto q = b.s("text_sequence_new");
                 b.s("text_sequence_append_string", q, "AV");
                 b.s("text_sequence_append_kerning", q, 100);
                 b.s("text_sequence_append_codepoint", q, 0x56);
                 b.s("text_cmd_TJ", t, q);
                 break;
             }
             case 2: b.s("text_cmd_TL", t, 12.0); b.s("text_cmd_Tj", t, "a"); b.s("text_cmd_Tstar", t); b.s("text_cmd_TD", t, 1.0, 2.0); b.s("text_cmd_Tj", t, "b"); break;
             case 3: b.s("text_cmd_Tm", t, 1.0, 0.0, 0.0, 1.0, 5.0, 5.0); b.s("text_cmd_Tc", t, 0.5); b.s("text_cmd_Tr", t, 2); b.s("text_cmd_Tj", t, "c"); break;
             case 4: b.s("text_cmd_w", t, 0.5); b.s("text_cmd_M", t, 3.0); b.s("text_cmd_j", t, 1); b.s("text_cmd_J", t, 2); b.s("text_cmd_d", t, std::vector<double>{1, 2}, 0.0); b.s("text_cmd_Tj", t, "d"); break;
             case 5: b.s("text_set_nonstroke", t, b.rgb_color(1, 0, 0)); b.s("text_set_stroke", t, b.gray_color(0.5)); b.s("text_cmd_Tj", t, "e"); break;
             case 6: {
                 auto gs = b.s("graphics_state_new");
                 b.s("graphics_state_set_ca", gs, 0.5);
                 b.s("text_cmd_gs", t, b.s("generator_add_graphics_state", b.gen, gs));
                 b.s("text_cmd_Tj", t, "f");
                 break;
             }
             case 7: {
                 auto q = b.s("text_sequence_new");
                 b.s("text_sequence_append_string", q, "x");
                 b.s("text_sequence_append_actualtext_start", q, "actual\xc3\xa4(");
                 b.s("text_sequence_append_codepoint", q, 0x59);
                 b.s("text_sequence_append_actualtext_end", q);
                 b.s("text_sequence_append_raw_glyph", q, 40, 0x45);
                 b.s("text_sequence_append_ligature_glyph", q, 50, "ffi");
                 b.s("text_cmd_TJ", t, q);
                 break;
             }
             case 8: {
                 auto c = b.s("color_new");
                 b.s("color_set_icc", c, b.icc(), std::vector<double>{0.1, 0.2, 0.3});
                 b.s("text_set_nonstroke", t, c);
                 auto c2 = b.s("color_new");
                 b.s("color_set_cmyk", c2, 0.1, 0.2, 0.3, 0.4);
                 b.s("text_set_stroke", t, c2);
                 b.s("text_cmd_Tj", t, "g");
                 break;
             }
             }
             b.s("dc_render_text_obj", b.dc, t);
         }},
        {"gstate_obj", 47, [](B &b, int v) {
             auto g = b.s("graphics_state_new");
             if(v < 16) b.s("graphics_state_set_BM", g, v);
             if(v == 16) { b.s("graphics_state_set_CA", g, 0.5); b.s("graphics_state_set_ca", g, 0.25); }
             if(v == 17) { b.s("graphics_state_set_op", g, 1); b.s("graphics_state_set_OP", g, 0); b.s("graphics_state_set_OPM", g, 1); }
             if(v == 18) { b.s("graphics_state_set_FL", g, 1.0); b.s("graphics_state_set_SM", g, 0.5); }
             if(v == 19) { b.s("graphics_state_set_AIS", g, 1); b.s("graphics_state_set_TK", g, 0); }
             if(v == 20 || v == 24 || v == 25) b.s("graphics_state_set_blackpoint_compensation", g, v == 20 ? 1 : v == 24 ? 0 : 2);
             if(v >= 26) { auto h = b.s("halftone_new"); b.s("halftone_set_type1", h, 60.0, 45.0, v - 26); b.s("graphics_state_set_HT", g, h); }
             if(v == 21) { auto h = b.s("halftone_new"); b.s("halftone_set_default", h); b.s("graphics_state_set_HT", g, h); }
             if(v == 22) { auto h = b.s("halftone_new"); b.s("halftone_set_type1", h, 60.0, 45.0, E("CAPY_HT_FUNC_ROUND")); b.s("graphics_state_set_HT", g, h); }
             if(v == 23) {
                 auto sm = b.s("soft_mask_new", E("CAPY_SOFT_MASK_LUMINOSITY"), trgroup(b));
                 b.s("graphics_state_set_SMask", g, b.s("generator_add_soft_mask", b.gen, sm));
             }
             b.s("dc_cmd_gs", b.dc, b.s("generator_add_graphics_state", b.gen, g));
         }},
        {"shading", 8, [](B &b, int v) {
             V sh;
             const int cs = v % 3 == 0 ? E("CAPY_DEVICE_CS_RGB") : v % 3 == 1 ? E("CAPY_DEVICE_CS_GRAY") : E("CAPY_DEVICE_CS_CMYK");
             const int n = v % 3 == 0 ? 3 : v % 3 == 1 ? 1 : 4;
             if(v < 3) {
                 sh = b.s("type2_shading_new", cs, 1.0, 2.0, 30.0, 40.0, b.fn2(n));
                 if(v) b.s("shading_set_extend", sh, v & 1, !!(v & 2));
                 if(v == 2) b.s("shading_set_domain", sh, 0.0, 1.0);
             } else if(v < 6) {
                 sh = b.s("type3_shading_new", cs, std::vector<double>{1, 2, 3, 4, 5, 6}, b.fn2(n));
                 b.s("shading_set_extend", sh, 1, v & 1);
             } else if(v == 6) {
                 sh = b.s("type4_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 100.0, 100.0);
                 auto c = b.rgb_color(1, 0, 0);
                 b.s("type4_shading_add_triangle", sh, std::vector<double>{0, 0, 50, 100, 100, 0}, std::vector<V>{c, c, c});
                 b.s("type4_shading_extend", sh, 2, std::vector<double>{80, 80}, c);
                 b.s("type4_shading_extend", sh, 1, std::vector<double>{90, 80}, c);
             } else {
                 sh = b.s("type6_shading_new", E("CAPY_DEVICE_CS_CMYK"), 0.0, 0.0, 100.0, 100.0);
                 auto c = b.s("color_new");
                 b.s("color_set_cmyk", c, 0.1, 0.2, 0.3, 0.4);
                 std::vector<double> co;
                 for(int i = 0; i < 24; ++i) co.push_back(i * 4);
                 b.s("type6_shading_add_patch", sh, co, std::vector<V>{c, c, c, c});
                 b.s("type6_shading_extend", sh, 1, std::vector<double>(co.begin(), co.begin() + 16), std::vector<V>{c, c});
             }
             b.s("dc_cmd_sh", b.dc, b.s("generator_add_shading", b.gen, sh));
         }},
        {"function3", 2, [](B &b, int v) {
             auto f = b.s("type3_function_new", std::vector<double>{0, 1}, std::vector<V>{b.fn2(3), b.fn2(3)}, std::vector<double>{0.5}, std::vector<double>{0, 1, 0, 1});
             auto fid = b.s("generator_add_function", b.gen, f);
             auto sh = b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 1.0 + v, 1.0, fid);
             b.s("dc_cmd_sh", b.dc, b.s("generator_add_shading", b.gen, sh));
         }},
        {"shading_pattern", 2, [](B &b, int v) {
             auto sh = b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 30.0, 40.0, b.fn2(3));
             auto p = b.s("shading_pattern_new", b.s("generator_add_shading", b.gen, sh));
             if(v) b.s("shading_pattern_set_matrix", p, 1.0, 0.5, 0.0, 1.0, 3.0, 4.0);
             auto c = b.s("color_new");
             b.s("color_set_pattern", c, b.s("generator_add_shading_pattern", b.gen, p));
             b.s(v ? "dc_set_nonstroke" : "dc_set_stroke", b.dc, c);
         }},
        {"tiling_pattern", 2, [](B &b, int v) {
             auto p = b.s("tiling_pattern_context_new", b.gen, 0.0, 0.0, 10.0, 10.0 + v);
             b.s("dc_cmd_rg", p, 1.0, 0.0, 0.0);
             b.s("dc_cmd_re", p, 1.0, 1.0, 3.0, 3.0);
             b.s("dc_cmd_f", p);
             if(v) b.s("dc_render_text", p, "pat", b.font(), 3.0, 1.0, 1.0);
             auto c = b.s("color_new");
             b.s("color_set_pattern", c, b.s("generator_add_tiling_pattern", b.gen, p));
             b.s("dc_set_nonstroke", b.dc, c);
         }},
        {"trgroup", 2, [](B &b, int v) {
             auto g = trgroup(b);
             b.s("dc_cmd_Do_trgroup", b.dc, g);
             if(v) {
                 auto g2 = b.s("transparency_group_new", b.gen, -1.5, 0.0, 50.25, 50.0);
                 b.s("dc_cmd_Do_trgroup", g2, g);
                 b.s("dc_set_group_matrix", g2, 1.0, 0.0, 0.0, 1.0, 5.0, 5.0);
                 b.s("dc_cmd_Do_trgroup", b.dc, b.s("generator_add_transparency_group", b.gen, g2));
             }
         }},
        {"ocg", 3, [](B &b, int v) {
             for(int i = 0; i <= v; ++i) {
                 b.s("dc_cmd_BDC_ocg", b.dc, b.ocg("Layer" + std::to_string(i)));
                 b.s("dc_cmd_re", b.dc, 1.0, 1.0, 1.0, 1.0);
                 b.s("dc_cmd_EMC", b.dc);
             }
         }},
        {"bmc", 1, [](B &b, int) {
             b.s("dc_cmd_BMC", b.dc, "Tag");
             b.s("dc_cmd_EMC", b.dc);
         }},
        {"bdc_testing", 1, [](B &b, int v) {
             auto t = b.s("bdc_tags_new");
             b.s("bdc_tags_add_tag", t, "Key", "Value");
             b.s("bdc_tags_add_tag", t, "Other", "x(y");
             b.s("dc_cmd_BDC_testing", b.dc, v ? "Artifact" : "Arti fact", t);
             b.s("dc_cmd_EMC", b.dc);
         }},
        {"structure", 4, [](B &b, int v) {
             auto root = b.res("structroot", [&] { return b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null); });
             for(int i = 0; i <= v; ++i) {
                 V ex;
                 if(i == 1) {
                     ex = b.s("struct_item_extra_data_new");
                     b.s("struct_item_extra_data_set_t", ex, "ttl");
                     b.s("struct_item_extra_data_set_lang", ex, "en-US");
                     b.s("struct_item_extra_data_set_alt", ex, "alt\xc3\xa4");
                     b.s("struct_item_extra_data_set_actual_text", ex, "actual");
                 }
                 auto it = b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_P") + i, root, i == 1 ? mkval(ex) : mkval(null));
                 b.s("dc_cmd_BDC_builtin", b.dc, it, null);
                 b.s("dc_cmd_re", b.dc, 1.0, 1.0, 1.0, 1.0);
                 b.s("dc_cmd_f", b.dc);
                 b.s("dc_cmd_EMC", b.dc);
             }
         }, false},
        {"role", 1, [](B &b, int) {
             auto root = b.res("structroot", [&] { return b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null); });
             auto r = b.res("role", [&] { return b.s("generator_add_rolemap_entry", b.gen, "MyRole", E("CAPY_STRUCTURE_TYPE_H1")); });
             auto it = b.s("generator_add_custom_structure_item", b.gen, r, root, null);
             auto t = b.s("dc_text_new", b.dc);
             b.s("text_cmd_Tf", t, b.font(), 12.0);
             b.s("text_cmd_BDC_builtin", t, it);
             b.s("text_cmd_Tj", t, "R");
             b.s("text_cmd_EMC", t);
             b.s("dc_render_text_obj", b.dc, t);
         }, false},
        {"form_xobject", 1, [](B &b, int) { form(b); }},
        {"annotations", 8, [](B &b, int v) {
             V a;
             switch(v) {
             case 0: a = b.s("text_annotation_new", "contents \xe2\x82\xac"); b.s("annotation_set_flags", a, E("CAPY_ANNOTATION_FLAG_PRINT")); break;
             case 1: a = b.s("link_annotation_new"); b.s("annotation_set_uri", a, "https://example.com/(a)"); break;
             case 2: {
                 a = b.s("link_annotation_new");
                 auto d = b.s("destination_new");
                 b.s("destination_set_page_fit", d, 0);
                 b.s("annotation_set_destination", a, d);
                 break;
             }
             case 3:
                 a = b.s("line_annotation_new", "line", 1.0, 2.0, 3.0, 4.0);
                 b.s("annotation_set_line_leader", a, 2.0, 3.0);
                 b.s("annotation_set_line_endings", a, E("CAPY_LINE_ANNOTATION_END_SQUARE"), E("CAPY_LINE_ANNOTATION_END_SLASH"));
                 break;
             case 4: a = b.s("file_attachment_annotation_new", embedded(b, "attach", false)); break;
             case 5: a = b.s("printers_mark_annotation_new", form(b)); break;
             case 6: {
                 auto st = b.s("3d_stream_new", "$REPO/testdata/3d/toruses.u3d", 0);
                 a = b.s("3d_annotation_new");
                 b.s("annotation_set_3d_stream", a, b.s("generator_add_3d_stream", b.gen, st));
                 break;
             }
             case 7: {
                 a = b.s("link_annotation_new");
                 auto d = b.s("destination_new");
                 b.s("destination_set_page_xyz", d, 0, 10.0, null, 2.0);
                 b.s("annotation_set_destination", a, d);
                 break;
             }
             }
             b.s("annotation_set_rectangle", a, 10.0, 20.0, 30.0, 40.5);
             b.s("dc_annotate", b.dc, b.s("generator_add_annotation", b.gen, a));
         }, false},
        {"form_field", 4, [](B &b, int v) {
             auto f = b.s("form_field_new", v % 3);
             b.s("form_field_set_T", f, "field\xc3\xa4" + std::to_string(v));
             if(v == 1) { b.s("form_field_set_V", f, "value"); b.s("form_field_set_Ff", f, 4096); }
             if(v == 2) { b.s("form_field_add_Opt_entry", f, "one"); b.s("form_field_add_Opt_entry", f, "two"); b.s("form_field_set_Ff", f, 131072); }
             auto fid = b.s("generator_add_form_field", b.gen, f);
             if(v == 3) {
                 auto f2 = b.s("form_field_new", 1);
                 b.s("form_field_set_T", f2, "child");
                 b.s("form_field_set_parent", f2, fid);
                 fid = b.s("generator_add_form_field", b.gen, f2);
             }
             auto w = b.s("widget_annotation_new");
             b.s("annotation_set_rectangle", w, 10.0, 20.0, 30.0, 40.5);
             b.s("annotation_set_parent_field", w, fid);
             if(v == 0) b.s("annotation_set_widget_button_appearance", w, form(b, "on"), form(b, "off"), "checked");
             b.s("dc_annotate", b.dc, b.s("generator_add_annotation", b.gen, w));
         }, false},
        {"outline", 4, [](B &b, int v) {
             V prev;
             for(int i = 0; i <= v; ++i) {
                 auto o = b.s("outline_new");
                 b.s("outline_set_title", o, "T\xc3\xb6 " + std::to_string(i));
                 if(i % 2 == 0) {
                     auto d = b.s("destination_new");
                     b.s("destination_set_page_fit", d, 0);
                     b.s("outline_set_destination", o, d);
                 }
                 if(i == 1) { b.s("outline_set_C", o, 1.0, 0.5, 0.0); b.s("outline_set_F", o, 3); }
                 if(i >= 2) b.s("outline_set_parent", o, prev);
                 prev = b.s("generator_add_outline", b.gen, o);
             }
         }, false},
        {"embed_file", 2, [](B &b, int v) { embedded(b, "emb" + std::to_string(v), v == 1); }, false},
        {"page_label", 6, [](B &b, int v) {
             if(v < 5) b.s("generator_add_page_labeling", b.gen, b.npages, v, "pre", 1 + v);
             else b.s("generator_add_page_labeling", b.gen, b.npages, null, null, null);
         }, false},
        {"transition", 13, [](B &b, int v) { b.s("dc_set_page_transition", b.dc, transition(b, v - 1)); }, false},
        {"navigation", 2, [](B &b, int v) {
             for(auto n : {"N1", "N2"}) {
                 b.s("dc_cmd_BDC_ocg", b.dc, b.ocg(n));
                 b.s("dc_cmd_EMC", b.dc);
             }
             b.s("dc_add_simple_navigation", b.dc, std::vector<V>{b.ocg("N1"), b.ocg("N2")}, v ? mkval(transition(b, 3)) : mkval(null));
         }, false},
        {"page_props", 3, [](B &b, int v) {
             auto p = b.s("page_properties_new");
             if(v == 0) b.s("page_properties_set_pagebox", p, E("CAPY_BOX_MEDIA"), 0.0, 0.0, 300.0, 400.5);
             if(v == 1)
                 for(int i = 0; i < 5; ++i) b.s("page_properties_set_pagebox", p, i, 1.0 * i, 2.0 * i, 200.0 - i, 300.0 - i);
             if(v == 2) {
                 b.s("page_properties_set_pagebox", p, E("CAPY_BOX_MEDIA"), 0.0, 0.0, 300.0, 400.5);
                 auto t = b.s("transparency_group_properties_new");
                 b.s("transparency_group_properties_set_CS", t, E("CAPY_DEVICE_CS_RGB"));
                 b.s("transparency_group_properties_set_I", t, 0);
                 b.s("transparency_group_properties_set_K", t, 1);
                 b.s("page_properties_set_transparency_group_properties", p, t);
             }
             b.s("dc_set_custom_page_properties", b.dc, p);
         }, false},
        {"viewport", 2, [](B &b, int v) {
             auto vp = b.s("viewport_new", 1.0, 2.0, 3.0, 4.0);
             if(v) {
                 auto m = b.s("measure_new");
                 for(auto k : {"X", "Y", "D", "A"}) b.s(std::string("measure_append_") + k, m, b.s("number_format_new", "mm", 0.5));
                 b.s("viewport_set_measure", vp, m);
             }
             b.s("dc_append_viewport", b.dc, vp);
         }, false},
        {"collection", 2, [](B &b, int v) {
             auto e = embedded(b, "coll", false);
             (void)e;
             auto c = b.s("collection_new");
             b.s("collection_set_view", c, v);
             if(v) {
                 b.s("collection_set_D", c, "coll.txt");
                 auto sc = b.s("collection_schema_new");
                 auto f = b.s("collection_field_new", 0, "Name");
                 b.s("collection_field_set_O", f, 1);
                 b.s("collection_field_set_V", f, 1);
                 b.s("collection_field_set_E", f, 0);
                 b.s("collection_schema_add_entry", sc, "nm", f);
                 b.s("collection_set_schema", c, sc);
             }
             b.s("generator_set_collection", b.gen, c);
         }, false},
        {"extra_page", 2, [](B &b, int v) {
             for(int i = 0; i <= v; ++i) b.page();
         }, false},
        {"separation_all", 1, [](B &b, int) {
             auto c = b.s("color_new");
             b.s("color_set_separation", c, b.sep(), 1.0);
             b.s("dc_set_stroke", b.dc, c);
         }},
    };
    return f;
}

std::string config_name(const Config &c) {
    return "sub" + std::to_string(c.sub) + "-cs" + std::to_string(c.cs) + (c.tagged ? "-tagged" : "") + (c.debug ? "-debug" : "");
}
void apply_config(B &b, const Config &c) {
    if(c.debug) setenv("CAPY_DEBUG_PDF", "1", 1);
    else unsetenv("CAPY_DEBUG_PDF");
    b.props();
    static const char *cs[] = {"CAPY_DEVICE_CS_RGB", "CAPY_DEVICE_CS_GRAY", "CAPY_DEVICE_CS_CMYK"};
    b.s("document_properties_set_colorspace", b.md, E(cs[c.cs]));
    if(c.tagged) {
        b.s("document_properties_set_tagged", b.md, 1);
        b.s("document_properties_set_language", b.md, "en-GB");
    }
    if(c.sub) {
        // PDF/X and PDF/A need an output profile of the output colour space; there is none for gray here.
        if(c.cs == 0) b.s("document_properties_set_device_profile", b.md, E(cs[0]), "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc");
        if(c.cs == 2) b.s("document_properties_set_device_profile", b.md, E(cs[2]), "$REPO/testdata/icc/FOGRA29L.icc");
        b.s("document_properties_set_output_intent", b.md, "Uncoated Fogra 29");
        if(c.sub <= 12) b.s("document_properties_set_pdfx", b.md, c.sub - 1);
        else b.s("document_properties_set_pdfa", b.md, c.sub - 13);
    }
}
void clear_config_env() { unsetenv("CAPY_DEBUG_PDF"); }
} // namespace mc
