#include "rejects.hpp"
namespace mc {
typedef std::vector<double> D;
static const D d01{0, 1};

static V ann(B &b, bool rect = true) {
    auto a = b.s("text_annotation_new", "note");
    if(rect) b.s("annotation_set_rectangle", a, 1.0, 1.0, 20.0, 20.0);
    return a;
}
static V ctx_of(B &b, int kind) {
    switch(kind) {
    case 0: return b.s("page_draw_context_new", b.gen);
    case 1: return b.s("form_xobject_new", b.gen, 0.0, 0.0, 10.0, 10.0);
    case 2: return b.s("transparency_group_new", b.gen, 0.0, 0.0, 10.0, 10.0);
    default: return b.s("tiling_pattern_context_new", b.gen, 0.0, 0.0, 10.0, 10.0);
    }
}
static const char *KIND[] = {"page", "form", "group", "tiling"};
static V add_ctx(B &b, int kind, V c) {
    switch(kind) {
    case 0: b.s("generator_add_page", b.gen, c); return c;
    case 1: return b.s("generator_add_form_xobject", b.gen, c);
    case 2: return b.s("generator_add_transparency_group", b.gen, c);
    default: return b.s("generator_add_tiling_pattern", b.gen, c);
    }
}
static void other_gen(B &b, std::function<void(V)> f) {
    f(b.res("gen2", [&] { return b.s("generator_new", "$OUT/other.pdf", b.md); }));
}
static V image_with(B &b, int w, int h, int depth, const char *cs, std::string px, int alpha = 0, std::string al = "") {
    auto rb = b.s("raster_image_builder_new");
    b.s("raster_image_builder_set_size", rb, w, h);
    b.s("raster_image_builder_set_pixel_depth", rb, depth);
    b.s("raster_image_builder_set_colorspace", rb, E(cs));
    if(!px.empty()) b.s("raster_image_builder_set_pixel_data", rb, px);
    if(alpha) {
        b.s("raster_image_builder_set_alpha_depth", rb, alpha);
        b.s("raster_image_builder_set_alpha_data", rb, al);
    }
    return b.s("raster_image_builder_build", rb);
}
static V item(B &b, const char *key = "item") {
    return b.res(key, [&] {
        auto doc = b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null);
        return b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_P"), doc, null);
    });
}
static void tagged(B &b) { b.s("document_properties_set_tagged", b.md, 1); }
static V form(B &b) {
    return b.res("rform", [&] {
        auto f = b.s("form_xobject_new", b.gen, 0.0, 0.0, 10.0, 12.0);
        b.s("dc_cmd_n", f);
        return b.s("generator_add_form_xobject", b.gen, f);
    });
}
static V efile(B &b) {
    return b.res("refile", [&] {
        auto e = b.s("embedded_file_new");
        b.s("embedded_file_set_contents", e, "data");
        b.s("embedded_file_set_pdf_name", e, "a.txt");
        return b.s("generator_embed_file", b.gen, e);
    });
}
static V color(B &b, int n) {
    auto c = b.s("color_new");
    if(n == 1) b.s("color_set_gray", c, 0.5);
    else if(n == 3) b.s("color_set_rgb", c, 0.5, 0.25, 0.75);
    else b.s("color_set_cmyk", c, 0.5, 0.25, 0.75, 0.1);
    return c;
}

static std::vector<Reject> make() {
    std::vector<Reject> r;
    auto add = [&](std::string n, std::function<void(B &)> bad, std::function<void(B &)> setup = nullptr, std::function<void(B &)> md = nullptr, bool w = false) { r.push_back({n, bad, setup, md, w}); };

    // booleans
    struct Bool { const char *maker, *fn; };
    for(int v : {-1, 2, 256, INT32_MAX, INT32_MIN}) {
        auto n = "." + std::to_string(v);
        for(auto fn : {"op", "OP", "AIS", "TK"})
            add(std::string("bool.gs_") + fn + n, [=](B &b) { auto g = b.s("graphics_state_new"); b.s(std::string("graphics_state_set_") + fn, g, v); });
        for(auto fn : {"I", "K"})
            add(std::string("bool.tgroup_") + fn + n, [=](B &b) { auto g = b.s("transparency_group_properties_new"); b.s(std::string("transparency_group_properties_set_") + fn, g, v); });
        add("bool.transition_B" + n, [=](B &b) { auto t = b.s("transition_new"); b.s("transition_set_B", t, v); });
        add("bool.tagged" + n, [=](B &b) { auto t = b.s("document_properties_new"); b.s("document_properties_set_tagged", t, v); });
        add("bool.image_mask" + n, [=](B &b) { auto t = b.s("image_pdf_properties_new"); b.s("image_pdf_properties_set_mask", t, v); });
        for(int w = 0; w < 2; ++w)
            add("bool.extend" + std::to_string(w) + n, [=](B &b) { auto s = b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 1.0, 1.0, b.fn2(3)); b.s("shading_set_extend", s, w ? 0 : v, w ? v : 0); }, [](B &b) { b.fn2(3); });
        add("bool.field_V" + n, [=](B &b) { auto t = b.s("collection_field_new", E("CAPY_COLLECTION_SUB_S"), "x"); b.s("collection_field_set_V", t, v); });
        add("bool.field_E" + n, [=](B &b) { auto t = b.s("collection_field_new", E("CAPY_COLLECTION_SUB_S"), "x"); b.s("collection_field_set_E", t, v); });
    }

    // operators, in every kind of context and through text objects
    struct Op1 { const char *name; std::function<void(B &, V)> f; };
    std::vector<Op1> ops = {
        {"w-negative", [](B &b, V c) { b.s("dc_cmd_w", c, -0.5); }},
        {"d-empty", [](B &b, V c) { b.s("dc_cmd_d", c, D{}, 0.0); }},
        {"d-negative", [](B &b, V c) { b.s("dc_cmd_d", c, D{1, -1}, 0.0); }},
        {"d-negative0", [](B &b, V c) { b.s("dc_cmd_d", c, D{-1, 1, 2}, 0.0); }},
        {"d-negative2", [](B &b, V c) { b.s("dc_cmd_d", c, D{3, -1}, 0.0); }},
        {"i-negative", [](B &b, V c) { b.s("dc_cmd_i", c, -0.1); }},
        {"i-big", [](B &b, V c) { b.s("dc_cmd_i", c, 100.5); }},
        {"EMC-alone", [](B &b, V c) { b.s("dc_cmd_EMC", c); }},
        {"Q-alone", [](B &b, V c) { b.s("dc_cmd_Q", c); }},
        {"BMC-slash", [](B &b, V c) { b.s("dc_cmd_BMC", c, "/tag"); }},
        {"BMC-empty", [](B &b, V c) { b.s("dc_cmd_BMC", c, ""); }},
        {"missing-glyph", [](B &b, V c) { b.s("dc_render_text", c, "a\xe2\x9b\x84", b.font(), 12.0, 1.0, 1.0); }},
        {"text-foreign-context", [](B &b, V c) { auto o = b.s("page_draw_context_new", b.gen); auto t = b.s("dc_text_new", o); b.s("dc_render_text_obj", c, t); }},
        {"text-no-font", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_Tj", t, "x"); b.s("dc_render_text_obj", c, t); }},
        {"text-no-font-TJ", [](B &b, V c) { auto t = b.s("dc_text_new", c); auto q = b.s("text_sequence_new"); b.s("text_sequence_append_string", q, "x"); b.s("text_cmd_TJ", t, q); b.s("dc_render_text_obj", c, t); }},
        {"text-EMC", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_EMC", t); b.s("dc_render_text_obj", c, t); }},
        {"text-glyph-late", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_Tf", t, b.font(), 10.0); b.s("text_cmd_Tj", t, "xyz"); b.s("text_cmd_Tj", t, "\xe2\x9b\x84"); b.s("dc_render_text_obj", c, t); }},
        {"text-codepoint", [](B &b, V c) { auto t = b.s("dc_text_new", c); auto q = b.s("text_sequence_new"); b.s("text_sequence_append_string", q, "qw"); b.s("text_sequence_append_codepoint", q, 0x26c4); b.s("text_cmd_Tf", t, b.font(), 10.0); b.s("text_cmd_TJ", t, q); b.s("dc_render_text_obj", c, t); }},
        {"text-w", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_Tf", t, b.font(), 10.0); b.s("text_cmd_Tj", t, "Q"); b.s("text_cmd_w", t, -1.0); b.s("dc_render_text_obj", c, t); }},
        {"text-d", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_Tf", t, b.font(), 10.0); b.s("text_cmd_Tj", t, "Q"); b.s("text_cmd_d", t, D{-1}, 0.0); b.s("dc_render_text_obj", c, t); }},
        {"text-d-negative2", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_Tf", t, b.font(), 10.0); b.s("text_cmd_Tj", t, "Q"); b.s("text_cmd_d", t, D{3, -1}, 0.0); b.s("dc_render_text_obj", c, t); }},
        {"text-d-negative3", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_d", t, D{-1, 2, 3}, 0.0); b.s("dc_render_text_obj", c, t); }},
        {"text-d-empty", [](B &b, V c) { auto t = b.s("dc_text_new", c); b.s("text_cmd_d", t, D{}, 0.0); b.s("dc_render_text_obj", c, t); }},
        {"icc-count", [](B &b, V c) { auto k = b.s("color_new"); b.s("color_set_icc", k, b.icc(), D{0.1, 0.2}); b.s("dc_set_stroke", c, k); }},
        {"icc-count4", [](B &b, V c) { auto k = b.s("color_new"); b.s("color_set_icc", k, b.icc(), D{0.1, 0.2, 0.3, 0.4}); b.s("dc_set_nonstroke", c, k); }},
        {"text-icc-count", [](B &b, V c) { auto k = b.s("color_new"); b.s("color_set_icc", k, b.icc(), D{0.1}); auto t = b.s("dc_text_new", c); b.s("text_set_stroke", t, k); b.s("dc_render_text_obj", c, t); }},
        {"BDC-testing-slash", [](B &b, V c) { b.s("dc_cmd_BDC_testing", c, "/name", null); }},
    };
    auto shared = [](B &b) { b.font(); b.icc(); };
    for(int k = 0; k < 4; ++k)
        for(auto &o : ops) {
            if(std::string(o.name) == "BDC-testing-slash") continue;
            auto f = o.f;
            add(std::string("op.") + o.name + "." + KIND[k], [=](B &b) { f(b, k == 0 ? b.dc : b.res(std::string("ctx") + KIND[k], [&] { return ctx_of(b, k); })); },
                [=](B &b) {
                    shared(b);
                    if(k) b.res(std::string("ctx") + KIND[k], [&] { return ctx_of(b, k); });
                });
            // inside a saved graphics state and marked content
            if(k == 0 && std::string(o.name) != "EMC-alone" && std::string(o.name) != "Q-alone" && std::string(o.name) != "text-EMC")
                add(std::string("op.") + o.name + ".nested", [=](B &b) { f(b, b.dc); }, [=](B &b) { shared(b); b.s("dc_cmd_q", b.dc); });
        }
    add("op.BMC-nested", [](B &b) { auto c = ctx_of(b, 0); b.s("dc_cmd_BMC", c, "tag"); b.s("dc_cmd_BMC", c, "tag2"); });
    add("op.BDC-nested", [](B &b) { auto c = ctx_of(b, 0); b.s("dc_cmd_BMC", c, "tag"); b.s("dc_cmd_BDC_builtin", c, item(b), null); }, [](B &b) { item(b); }, tagged);
    add("op.BDC-text-nested", [](B &b) { auto c = ctx_of(b, 0); b.s("dc_cmd_BMC", c, "tag"); auto t = b.s("dc_text_new", c); b.s("text_cmd_BDC_builtin", t, item(b)); b.s("dc_render_text_obj", c, t); }, [](B &b) { item(b); }, tagged);
    add("op.EMC-over-q", [](B &b) { auto c = ctx_of(b, 0); b.s("dc_cmd_BMC", c, "tag"); b.s("dc_cmd_q", c); b.s("dc_cmd_EMC", c); });
    add("op.Q-over-BMC", [](B &b) { auto c = ctx_of(b, 0); b.s("dc_cmd_q", c); b.s("dc_cmd_BMC", c, "tag"); b.s("dc_cmd_Q", c); });
    add("op.structure-reuse", [](B &b) { b.s("dc_cmd_BDC_builtin", b.dc, item(b), null); }, [](B &b) { b.s("dc_cmd_BDC_builtin", b.dc, item(b), null); b.s("dc_cmd_EMC", b.dc); }, tagged);
    add("op.structure-reuse-text", [](B &b) { auto t = b.s("dc_text_new", b.dc); b.s("text_cmd_BDC_builtin", t, item(b)); b.s("dc_render_text_obj", b.dc, t); }, [](B &b) { b.s("dc_cmd_BDC_builtin", b.dc, item(b), null); b.s("dc_cmd_EMC", b.dc); }, tagged);
    add("op.annotation-reuse", [](B &b) { b.s("dc_annotate", b.dc, b.res("an", [&] { return b.s("generator_add_annotation", b.gen, ann(b)); })); },
        [](B &b) { b.s("dc_annotate", b.dc, b.res("an", [&] { return b.s("generator_add_annotation", b.gen, ann(b)); })); });
    add("op.viewport-form", [](B &b) { auto c = ctx_of(b, 1); auto v = b.s("viewport_new", 0.0, 0.0, 1.0, 1.0); b.s("dc_append_viewport", c, v); });

    // contexts
    for(int mk = 0; mk < 4; ++mk)
        for(int ad = 0; ad < 4; ++ad)
            if(mk != ad) add(std::string("context.") + KIND[mk] + "-as-" + KIND[ad], [=](B &b) { auto c = ctx_of(b, mk); b.s("dc_cmd_n", c); add_ctx(b, ad, c); });
    for(int k = 0; k < 4; ++k) {
        add(std::string("context.open-q.") + KIND[k], [=](B &b) { auto c = ctx_of(b, k); b.s("dc_cmd_q", c); add_ctx(b, k, c); });
        add(std::string("context.open-BMC.") + KIND[k], [=](B &b) { auto c = ctx_of(b, k); b.s("dc_cmd_BMC", c, "tag"); add_ctx(b, k, c); });
        add(std::string("context.open-qBMC.") + KIND[k], [=](B &b) { auto c = ctx_of(b, k); b.s("dc_cmd_q", c); b.s("dc_cmd_BMC", c, "tag"); add_ctx(b, k, c); });
        add(std::string("context.other-document.") + KIND[k], [=](B &b) { B o; o.s = b.s; (void)o; V c; other_gen(b, [&](V g) { V keep = b.gen; b.gen = g; c = ctx_of(b, k); b.gen = keep; }); b.s("dc_cmd_n", c); add_ctx(b, k, c); },
            [](B &b) { other_gen(b, [](V) {}); });
        if(k != 0) {
            add(std::string("context.transition.") + KIND[k], [=](B &b) { auto c = ctx_of(b, k); b.s("dc_set_page_transition", c, b.s("transition_new")); });
            add(std::string("context.navigation.") + KIND[k], [=](B &b) { auto c = ctx_of(b, k); b.s("dc_add_simple_navigation", c, std::vector<V>{b.ocg("L")}, null); }, [](B &b) { b.ocg("L"); });
            add(std::string("context.custom-props.") + KIND[k], [=](B &b) { auto c = ctx_of(b, k); auto p = b.s("page_properties_new"); b.s("page_properties_set_pagebox", p, E("CAPY_BOX_MEDIA"), 0.0, 0.0, 5.0, 5.0); b.s("dc_set_custom_page_properties", c, p); });
        } else
            add("context.matrix.page", [=](B &b) { auto c = ctx_of(b, 0); b.s("dc_set_group_matrix", c, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0); });
        if(k == 1 || k == 3)
            add(std::string("context.group-props.") + KIND[k], [=](B &b) { auto c = ctx_of(b, k); b.s("dc_set_transparency_group_properties", c, b.s("transparency_group_properties_new")); });
    }
    for(auto &[n, l, bt, rr, t] : std::vector<std::tuple<std::string, double, double, double, double>>{{"x", 10, 0, 10, 5}, {"y", 0, 5, 5, 5}, {"xneg", 10, 0, 0, 5}, {"yneg", 0, 9, 5, 5}}) {
        auto L = l, Bo = bt, R = rr, T = t;
        add("bbox.form." + n, [=](B &b) { b.s("form_xobject_new", b.gen, L, Bo, R, T); });
        add("bbox.group." + n, [=](B &b) { b.s("transparency_group_new", b.gen, L, Bo, R, T); });
        add("bbox.tiling." + n, [=](B &b) { b.s("tiling_pattern_context_new", b.gen, L, Bo, R, T); });
    }
    add("navigation.unused-ocg", [](B &b) { b.s("dc_add_simple_navigation", b.dc, std::vector<V>{b.ocg("L1"), b.ocg("L2")}, null); },
        [](B &b) { b.s("dc_cmd_BDC_ocg", b.dc, b.ocg("L1")); b.s("dc_cmd_EMC", b.dc); b.ocg("L2"); });
    add("navigation.twice", [](B &b) { b.s("dc_add_simple_navigation", b.dc, std::vector<V>{b.ocg("L1")}, null); },
        [](B &b) { b.s("dc_cmd_BDC_ocg", b.dc, b.ocg("L1")); b.s("dc_cmd_EMC", b.dc); b.s("dc_add_simple_navigation", b.dc, std::vector<V>{b.ocg("L1")}, null); });

    // colours
    for(double v : {-0.25, 1.25}) add("color.separation" + std::to_string(v), [=](B &b) { auto c = b.s("color_new"); b.s("color_set_separation", c, b.sep(), v); }, [](B &b) { b.sep(); });

    // images
    add("image.zero-width", [](B &b) { b.s("generator_add_image", b.gen, image_with(b, 0, 2, 8, "CAPY_IMAGE_CS_GRAY", "ab"), b.s("image_pdf_properties_new")); });
    add("image.zero-height", [](B &b) { b.s("generator_add_image", b.gen, image_with(b, 2, 0, 8, "CAPY_IMAGE_CS_GRAY", "ab"), b.s("image_pdf_properties_new")); });
    add("image.no-pixels", [](B &b) { b.s("generator_add_image", b.gen, image_with(b, 2, 1, 8, "CAPY_IMAGE_CS_GRAY", ""), b.s("image_pdf_properties_new")); });
    add("image.mask-and-alpha", [](B &b) { auto p = b.s("image_pdf_properties_new"); b.s("image_pdf_properties_set_mask", p, 1); b.s("generator_add_image", b.gen, image_with(b, 8, 1, 1, "CAPY_IMAGE_CS_GRAY", "a", 8, "12345678"), p); });
    add("image.mask-zero-size", [](B &b) { auto p = b.s("image_pdf_properties_new"); b.s("image_pdf_properties_set_mask", p, 1); b.s("generator_add_image", b.gen, image_with(b, 8, 0, 1, "CAPY_IMAGE_CS_GRAY", "a"), p); });
    add("image.mask-no-pixels", [](B &b) { auto p = b.s("image_pdf_properties_new"); b.s("image_pdf_properties_set_mask", p, 1); b.s("generator_add_image", b.gen, image_with(b, 8, 1, 1, "CAPY_IMAGE_CS_GRAY", ""), p); });
    add("image.mask-8bit", [](B &b) { auto p = b.s("image_pdf_properties_new"); b.s("image_pdf_properties_set_mask", p, 1); b.s("generator_add_image", b.gen, image_with(b, 2, 1, 8, "CAPY_IMAGE_CS_GRAY", "ab"), p); });
    add("image.mask-rgb", [](B &b) { auto p = b.s("image_pdf_properties_new"); b.s("image_pdf_properties_set_mask", p, 1); b.s("generator_add_image", b.gen, image_with(b, 2, 1, 8, "CAPY_IMAGE_CS_RGB", "abcdef"), p); });
    for(int n : {0, 5, 9, 100}) add("image.memory-short" + std::to_string(n), [=](B &b) { b.s("generator_load_image_from_memory", b.gen, std::string((size_t)n, 'x')); });
    add("image.missing-file", [](B &b) { b.s("generator_load_image", b.gen, "$OUT/nothing"); });
    for(auto e : {"png", "jpg", "tif", "PNG", "JPG", "TIF", "jpeg", "tiff"}) add(std::string("image.missing-file-") + e, [=](B &b) { b.s("generator_load_image", b.gen, std::string("$OUT/nothing.") + e); });
    add("image.not-an-image", [](B &b) { b.s("generator_load_image", b.gen, "$REPO/meson.build"); });
    add("image.convert-no-profile", [](B &b) { b.s("generator_convert_image", b.gen, image_with(b, 2, 1, 8, "CAPY_IMAGE_CS_RGB", "abcdef"), E("CAPY_DEVICE_CS_CMYK"), 0); });
    for(int v = 1; v <= 12; ++v)
        for(int raw : {0, 1})
            add((raw ? "image.rgb-raw-in-pdfx" : "image.rgb-jpg-in-pdfx") + std::to_string(v), [=](B &b) { auto im = raw ? image_with(b, 2, 1, 8, "CAPY_IMAGE_CS_RGB", "abcdef") : b.s("generator_load_image", b.gen, "$REPO/testdata/images/simple.jpg"); b.s("generator_add_image", b.gen, im, b.s("image_pdf_properties_new")); }, nullptr,
                [=](B &b) { b.s("document_properties_set_pdfx", b.md, v - 1); b.s("document_properties_set_colorspace", b.md, E("CAPY_DEVICE_CS_CMYK")); b.s("document_properties_set_output_intent", b.md, "intent"); b.s("document_properties_set_device_profile", b.md, E("CAPY_DEVICE_CS_CMYK"), "$REPO/testdata/icc/FOGRA29L.icc"); });

    // functions and shadings
    for(int x : {1, 3, 4})
        for(int y : {1, 3, 4})
            if(x != y) add("function.colorspaces" + std::to_string(x) + std::to_string(y), [=](B &b) { b.s("generator_add_function", b.gen, b.s("type2_function_new", d01, color(b, x), color(b, y), 1.0)); });
    add("function.type3-empty", [](B &b) { b.s("generator_add_function", b.gen, b.s("type3_function_new", d01, std::vector<V>{}, D{}, D{})); });
    add("function.separation-not-type4", [](B &b) { b.s("generator_add_separation", b.gen, "Gold", E("CAPY_DEVICE_CS_RGB"), b.fn2(3)); }, [](B &b) { b.fn2(3); });
    add("function.separation-not-ascii", [](B &b) { b.s("generator_add_separation", b.gen, "G\xc3\xb6ld", E("CAPY_DEVICE_CS_CMYK"), b.res("f4", [&] { return b.s("generator_add_function", b.gen, b.s("type4_function_new", d01, D{0, 1, 0, 1, 0, 1, 0, 1}, "{dup dup dup}")); })); },
        [](B &b) { b.res("f4", [&] { return b.s("generator_add_function", b.gen, b.s("type4_function_new", d01, D{0, 1, 0, 1, 0, 1, 0, 1}, "{dup dup dup}")); }); });
    auto t2 = [](B &b) { return b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 1.0, 1.0, b.fn2(3)); };
    auto t4 = [](B &b) { return b.s("type4_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 10.0, 10.0); };
    auto t6 = [](B &b) { return b.s("type6_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 10.0, 10.0); };
    auto f2 = [](B &b) { b.fn2(3); };
    D tri{0, 0, 5, 9, 9, 0}, patch(24, 1.0);
    for(int i = 0; i < 12; ++i) patch[(size_t)i * 2] = i;
    auto c3 = [](B &b) { return std::vector<V>{color(b, 3), color(b, 3), color(b, 3)}; };
    auto c4 = [](B &b) { return std::vector<V>{color(b, 3), color(b, 3), color(b, 3), color(b, 3)}; };
    add("shading.extend-type4", [=](B &b) { b.s("shading_set_extend", t4(b), 1, 1); });
    add("shading.domain-type4", [=](B &b) { b.s("shading_set_domain", t4(b), 0.0, 1.0); });
    add("shading.extend-type6", [=](B &b) { b.s("shading_set_extend", t6(b), 1, 1); });
    add("shading.domain-type6", [=](B &b) { b.s("shading_set_domain", t6(b), 0.0, 1.0); });
    add("shading.triangle-type2", [=](B &b) { b.s("type4_shading_add_triangle", t2(b), tri, c3(b)); }, f2);
    add("shading.triangle-type6", [=](B &b) { b.s("type4_shading_add_triangle", t6(b), tri, c3(b)); });
    add("shading.extend4-type6", [=](B &b) { b.s("type4_shading_extend", t6(b), 1, D{3, 3}, color(b, 3)); });
    add("shading.patch-type2", [=](B &b) { b.s("type6_shading_add_patch", t2(b), patch, c4(b)); }, f2);
    add("shading.patch-type4", [=](B &b) { b.s("type6_shading_add_patch", t4(b), patch, c4(b)); });
    add("shading.extend6-type4", [=](B &b) { b.s("type6_shading_extend", t4(b), 1, D(16, 1.0), std::vector<V>{color(b, 3), color(b, 3)}); });
    for(int f : {1, 2}) add("shading.strip-start4." + std::to_string(f), [=](B &b) { b.s("type4_shading_extend", t4(b), f, D{3, 3}, color(b, 3)); });
    for(int f : {0, 3, -1, 4, 255}) add("shading.flag4." + std::to_string(f), [=](B &b) { auto s = t4(b); b.s("type4_shading_add_triangle", s, tri, c3(b)); b.s("type4_shading_extend", s, f, D{3, 3}, color(b, 3)); });
    for(int f : {1, 2, 3}) add("shading.strip-start6." + std::to_string(f), [=](B &b) { b.s("type6_shading_extend", t6(b), f, D(16, 1.0), std::vector<V>{color(b, 3), color(b, 3)}); });
    for(int f : {0, -1, 4, 255}) add("shading.flag6." + std::to_string(f), [=](B &b) { auto s = t6(b); b.s("type6_shading_add_patch", s, patch, c4(b)); b.s("type6_shading_extend", s, f, D(16, 1.0), std::vector<V>{color(b, 3), color(b, 3)}); });
    add("gstate.FL-negative", [](B &b) { b.s("graphics_state_set_FL", b.s("graphics_state_new"), -1.0); });
    add("gstate.SM-negative", [](B &b) { b.s("graphics_state_set_SM", b.s("graphics_state_new"), -0.5); });
    add("gstate.SM-big", [](B &b) { b.s("graphics_state_set_SM", b.s("graphics_state_new"), 1.5); });

    // annotations and forms
    add("annotation.no-rectangle", [](B &b) { b.s("generator_add_annotation", b.gen, ann(b, false)); });
    struct A { const char *name; std::function<V(B &)> mk; };
    std::vector<A> kinds = {{"text", [](B &b) { return b.s("text_annotation_new", "x"); }}, {"link", [](B &b) { return b.s("link_annotation_new"); }}, {"line", [](B &b) { return b.s("line_annotation_new", "x", 0.0, 0.0, 1.0, 1.0); }},
        {"file", [](B &b) { return b.s("file_attachment_annotation_new", efile(b)); }}, {"widget", [](B &b) { return b.s("widget_annotation_new"); }},
        {"mark", [](B &b) { return b.s("printers_mark_annotation_new", form(b)); }}, {"3d", [](B &b) { return b.s("3d_annotation_new"); }}};
    struct S { const char *name, *ok; std::function<void(B &, V)> f; };
    std::vector<S> sets = {{"destination", "link", [](B &b, V a) { auto d = b.s("destination_new"); b.s("destination_set_page_fit", d, 0); b.s("annotation_set_destination", a, d); }},
        {"uri", "link", [](B &b, V a) { b.s("annotation_set_uri", a, "http://x.example/"); }},
        {"3d_stream", "3d", [](B &b, V a) { b.s("annotation_set_3d_stream", a, b.res("r3d", [&] { return b.s("generator_add_3d_stream", b.gen, b.s("3d_stream_new", "$REPO/testdata/3d/toruses.u3d", E("CAPY_3D_UDF"))); })); }},
        {"leader", "line", [](B &b, V a) { b.s("annotation_set_line_leader", a, 1.0, 1.0); }},
        {"endings", "line", [](B &b, V a) { b.s("annotation_set_line_endings", a, 0, 0); }},
        {"parent", "widget", [](B &b, V a) { b.s("annotation_set_parent_field", a, b.res("rff", [&] { auto f = b.s("form_field_new", E("CAPY_FORM_FIELD_TYPE_BTN")); b.s("form_field_set_T", f, "f"); return b.s("generator_add_form_field", b.gen, f); })); }},
        {"button", "widget", [](B &b, V a) { b.s("annotation_set_widget_button_appearance", a, form(b), form(b), "/On"); }}};
    for(auto &k : kinds)
        for(auto &q : sets)
            if(std::string(q.ok) != k.name) {
                auto mk = k.mk;
                auto f = q.f;
                add(std::string("annotation.") + q.name + "-on-" + k.name, [=](B &b) { f(b, mk(b)); },
                    [=](B &b) { form(b); efile(b); b.res("r3d", [&] { return b.s("generator_add_3d_stream", b.gen, b.s("3d_stream_new", "$REPO/testdata/3d/toruses.u3d", E("CAPY_3D_UDF"))); });
                        b.res("rff", [&] { auto f = b.s("form_field_new", E("CAPY_FORM_FIELD_TYPE_BTN")); b.s("form_field_set_T", f, "f"); return b.s("generator_add_form_field", b.gen, f); }); });
            }
    for(const char *t : {"CAPY_FORM_FIELD_TYPE_BTN", "CAPY_FORM_FIELD_TYPE_TX"}) add(std::string("form.option-") + t, [=](B &b) { b.s("form_field_add_Opt_entry", b.s("form_field_new", E(t)), "x"); });
    add("annotation.uri-not-ascii", [](B &b) { b.s("annotation_set_uri", b.s("link_annotation_new"), "http://\xc3\xa4"); });
    add("structure.lang-not-ascii", [](B &b) { b.s("struct_item_extra_data_set_lang", b.s("struct_item_extra_data_new"), "\xc3\xa4"); });
    add("metadata.lang-not-ascii", [](B &b) { b.s("document_properties_set_language", b.s("document_properties_new"), "\xc3\xa4"); });
    add("embedded.subtype-not-ascii", [](B &b) { b.s("embedded_file_set_subtype", b.s("embedded_file_new"), "\xc3\xa4"); });
    add("bdc_tags.key-not-ascii", [](B &b) { b.s("bdc_tags_add_tag", b.s("bdc_tags_new"), "\xc3\xa4", "v"); });
    add("bdc_tags.value-not-ascii", [](B &b) { b.s("bdc_tags_add_tag", b.s("bdc_tags_new"), "k", "\xc3\xa4"); });
    add("collection.entry-not-ascii", [](B &b) { b.s("collection_schema_add_entry", b.s("collection_schema_new"), "\xc3\xa4", b.s("collection_field_new", E("CAPY_COLLECTION_SUB_S"), "x")); });
    add("collection.entry-slash", [](B &b) { b.s("collection_schema_add_entry", b.s("collection_schema_new"), "/x", b.s("collection_field_new", E("CAPY_COLLECTION_SUB_S"), "x")); });
    add("collection.entry-empty", [](B &b) { b.s("collection_schema_add_entry", b.s("collection_schema_new"), "", b.s("collection_field_new", E("CAPY_COLLECTION_SUB_S"), "x")); });
    add("collection.twice", [](B &b) { b.s("generator_set_collection", b.gen, b.s("collection_new")); }, [](B &b) { b.s("generator_set_collection", b.gen, b.s("collection_new")); });
    add("embedded.duplicate-name", [](B &b) { auto e = b.s("embedded_file_new"); b.s("embedded_file_set_contents", e, "other"); b.s("embedded_file_set_pdf_name", e, "a.txt"); b.s("generator_embed_file", b.gen, e); }, [](B &b) { efile(b); });
    add("embedded.missing-file", [](B &b) { b.s("embedded_file_load_file", b.s("embedded_file_new"), "$OUT/nothing"); });
    add("3d.missing-file", [](B &b) { b.s("3d_stream_new", "$OUT/nothing", E("CAPY_3D_UDF")); });

    // structure roles, outlines, page labels, destinations
    add("role.slash", [](B &b) { b.s("generator_add_rolemap_entry", b.gen, "/Role", E("CAPY_STRUCTURE_TYPE_P")); }, nullptr, tagged);
    add("role.empty", [](B &b) { b.s("generator_add_rolemap_entry", b.gen, "", E("CAPY_STRUCTURE_TYPE_P")); }, nullptr, tagged);
    add("role.twice", [](B &b) { b.s("generator_add_rolemap_entry", b.gen, "Role", E("CAPY_STRUCTURE_TYPE_H")); }, [](B &b) { b.s("generator_add_rolemap_entry", b.gen, "Role", E("CAPY_STRUCTURE_TYPE_P")); }, tagged);
    add("outline.no-title", [](B &b) { b.s("generator_add_outline", b.gen, b.s("outline_new")); });
    add("outline.empty-title", [](B &b) { auto o = b.s("outline_new"); b.s("outline_set_title", o, ""); b.s("generator_add_outline", b.gen, o); });
    add("outline.bad-page", [](B &b) { b.s("generator_write", b.gen); }, [](B &b) { auto o = b.s("outline_new"); b.s("outline_set_title", o, "t"); auto d = b.s("destination_new"); b.s("destination_set_page_fit", d, 77); b.s("outline_set_destination", o, d); b.s("generator_add_outline", b.gen, o); b.page(); }, nullptr, true);
    add("link.bad-page", [](B &b) { b.s("generator_write", b.gen); }, [](B &b) { auto o = b.s("link_annotation_new"); b.s("annotation_set_rectangle", o, 0.0, 0.0, 5.0, 5.0); auto d = b.s("destination_new"); b.s("destination_set_page_fit", d, 77); b.s("annotation_set_destination", o, d); b.s("dc_annotate", b.dc, b.s("generator_add_annotation", b.gen, o)); b.page(); }, nullptr, true);
    add("write.no-pages", [](B &b) { b.s("generator_write", b.gen); }, nullptr, nullptr, true);
    add("write.twice", [](B &b) { b.s("generator_write", b.gen); }, [](B &b) { b.page(); b.s("generator_write", b.gen); }, nullptr, true);
    for(uint32_t n : {0u, 2u}) add("labels.sequence" + std::to_string(n), [=](B &b) { b.s("generator_add_page_labeling", b.gen, (int)n, null, null, null); }, [](B &b) { b.s("generator_add_page_labeling", b.gen, 2, null, null, null); });
    for(int p : {-1, -100, INT32_MIN}) {
        add("destination.fit" + std::to_string(p), [=](B &b) { b.s("destination_set_page_fit", b.s("destination_new"), p); });
        add("destination.xyz" + std::to_string(p), [=](B &b) { b.s("destination_set_page_xyz", b.s("destination_new"), p, null, null, null); });
    }

    // properties
    add("properties.no-mediabox", [](B &b) { b.s("document_properties_set_default_page_properties", b.s("document_properties_new"), b.s("page_properties_new")); });
    add("properties.metadata-producer", [](B &b) { b.s("document_properties_set_metadata_xml", b.s("document_properties_new"), "<xml/>"); });
    for(int x = 0; x < 12; ++x) {
        add("properties.pdfx-no-profile" + std::to_string(x), [=](B &b) { auto m = b.s("document_properties_new"); b.s("document_properties_set_pdfx", m, x); b.s("document_properties_set_output_intent", m, "i"); b.s("generator_new", "$OUT/no.pdf", m); });
        add("properties.pdfx-no-intent" + std::to_string(x), [=](B &b) { auto m = b.s("document_properties_new"); b.s("document_properties_set_pdfx", m, x); b.s("document_properties_set_colorspace", m, E("CAPY_DEVICE_CS_CMYK")); b.s("document_properties_set_device_profile", m, E("CAPY_DEVICE_CS_CMYK"), "$REPO/testdata/icc/FOGRA29L.icc"); b.s("generator_new", "$OUT/no.pdf", m); });
    }
    for(int x = 0; x < 10; ++x) {
        add("properties.pdfa-no-profile" + std::to_string(x), [=](B &b) { auto m = b.s("document_properties_new"); b.s("document_properties_set_pdfa", m, x); b.s("document_properties_set_output_intent", m, "i"); b.s("generator_new", "$OUT/no.pdf", m); });
        add("properties.pdfa-no-intent" + std::to_string(x), [=](B &b) { auto m = b.s("document_properties_new"); b.s("document_properties_set_pdfa", m, x); b.s("document_properties_set_device_profile", m, E("CAPY_DEVICE_CS_RGB"), "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc"); b.s("generator_new", "$OUT/no.pdf", m); });
    }
    add("properties.cmyk-no-profile", [](B &b) { auto m = b.s("document_properties_new"); b.s("document_properties_set_colorspace", m, E("CAPY_DEVICE_CS_CMYK")); b.s("generator_new", "$OUT/no.pdf", m); });
    add("properties.profile-missing", [](B &b) { auto m = b.s("document_properties_new"); b.s("document_properties_set_device_profile", m, E("CAPY_DEVICE_CS_RGB"), "$OUT/nothing.icc"); b.s("generator_new", "$OUT/no.pdf", m); });
    add("properties.profile-not-icc", [](B &b) { auto m = b.s("document_properties_new"); b.s("document_properties_set_device_profile", m, E("CAPY_DEVICE_CS_RGB"), "$REPO/meson.build"); b.s("generator_new", "$OUT/no.pdf", m); });
    add("icc.missing", [](B &b) { b.s("generator_load_icc_profile", b.gen, "$OUT/nothing.icc"); });
    add("icc.not-icc", [](B &b) { b.s("generator_load_icc_profile", b.gen, "$REPO/meson.build"); });
    add("icc.not-icc-memory", [](B &b) { b.s("generator_add_icc_profile", b.gen, "not a profile", 3); });
    for(int n : {0, 1, 2, 4, 5, -1}) add("icc.channels" + std::to_string(n), [=](B &b) { b.s("generator_add_icc_profile", b.gen, read_file(repo_dir() + "/testdata/icc/compatibleWithAdobeRGB1998.icc"), n); });

    // fonts
    add("font.missing", [](B &b) { b.s("generator_load_font", b.gen, "$OUT/nothing.ttf", null); });
    add("font.not-a-font", [](B &b) { b.s("generator_load_font", b.gen, "$REPO/meson.build", null); });
    for(int n : {1, 7, 65535}) add("font.subfont" + std::to_string(n), [=](B &b) { auto p = b.s("font_properties_new"); b.s("font_properties_set_subfont", p, n); b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/NotoSans-Regular.ttf", p); });
    for(int n : {-1, 65536, INT32_MAX, INT32_MIN}) add("font.subfont-range" + std::to_string(n), [=](B &b) { b.s("font_properties_set_subfont", b.s("font_properties_new"), n); });
    add("font.axis-unknown", [](B &b) { auto p = b.s("font_properties_new"); b.s("font_properties_set_variation", p, "zzzz", 500); b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/AmstelVar-Roman.ttf", p); });
    add("font.no-variations", [](B &b) { auto p = b.s("font_properties_new"); b.s("font_properties_set_variation", p, "wght", 500); b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/NotoSans-Regular.ttf", p); });
    add("font.no-instances", [](B &b) { auto p = b.s("font_properties_new"); b.s("font_properties_set_named_instance", p, 1); b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/NotoSans-Regular.ttf", p); });
    for(int n : {1000, 60000}) add("font.instance-range" + std::to_string(n), [=](B &b) { auto p = b.s("font_properties_new"); b.s("font_properties_set_named_instance", p, n); b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/AmstelVar-Roman.ttf", p); });
    add("text.raw-glyph-zero", [](B &b) { b.s("text_sequence_append_raw_glyph", b.s("text_sequence_new"), 0, 65); });
    add("text.ligature-zero", [](B &b) { b.s("text_sequence_append_ligature_glyph", b.s("text_sequence_new"), 0, "fi"); });
    add("text.actualtext-end-alone", [](B &b) { auto q = b.s("text_sequence_new"); b.s("text_sequence_append_string", q, "x"); b.s("text_sequence_append_actualtext_end", q); });
    add("text.actualtext-end-twice", [](B &b) { auto q = b.s("text_sequence_new"); b.s("text_sequence_append_actualtext_start", q, "y"); b.s("text_sequence_append_actualtext_end", q); b.s("text_sequence_append_actualtext_end", q); });
    add("text.actualtext-nested", [](B &b) { auto q = b.s("text_sequence_new"); b.s("text_sequence_append_actualtext_start", q, "y"); b.s("text_sequence_append_actualtext_start", q, "z"); });
    add("text.actualtext-open", [](B &b) { auto q = b.s("text_sequence_new"); b.s("text_sequence_append_actualtext_start", q, "y"); b.s("text_sequence_append_string", q, "x"); auto t = b.s("dc_text_new", b.dc); b.s("text_cmd_TJ", t, q); });
    add("number_format.name-invalid", [](B &b) { b.s("number_format_new", SZ{"a\xff", 2}, 1.0); });
    add("embedded.negative-size", [](B &b) { b.s("embedded_file_set_contents", b.s("embedded_file_new"), SZ{"abc", -5}); });
    return r;
}
const std::vector<Reject> &rejects() {
    static const auto r = make();
    return r;
}
} // namespace mc
