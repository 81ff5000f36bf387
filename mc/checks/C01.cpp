// uses: features.cpp
#include "explore.hpp"
#include "features.hpp"
#include "lint.hpp"
#include "config.hpp"
#include <regex>
using namespace mc;

struct FV { int f, v; };
static std::vector<FV> all_fv() {
    std::vector<FV> r;
    for(size_t i = 0; i < features().size(); ++i)
        for(int v = 0; v < features()[i].variants; ++v) r.push_back({(int)i, v});
    return r;
}
// Image files that take long to encode are used alone only.
static bool heavy(FV x) { return features()[x.f].name == "image_file" && x.v != 3 && x.v != 6; }
static std::vector<FV> light_fv() {
    std::vector<FV> r;
    for(auto x : all_fv())
        if(!heavy(x)) r.push_back(x);
    return r;
}
static std::string fvname(FV x) { return features()[x.f].name + "." + std::to_string(x.v); }

static void check_doc(const Script &s, Ctx &cx, bool must_succeed) {
    pdf::Doc d;
    if(must_succeed) {
        if(!run_good(s, cx, d)) return;
    } else {
        cx.script(s);
        auto r = run_pdf(s);
        cx.transitions(s.size());
        cx.traces();
        if(r.bytes.empty()) {
            cx.state("refused");
            return;
        }
        d = pdf::Doc::parse(r.bytes);
    }
    for(auto &m : pdf::lint(d)) cx.violation("invalid document: " + std::regex_replace(m, std::regex("\\(\\d+\\)|: \\d+$"), ""), m);
    cx.state(d.canon());
    cx.sample(s.text());
}


// A representative subset: two variants of every feature.
static std::vector<FV> rep_fv(int per) {
    std::vector<FV> r;
    for(size_t i = 0; i < features().size(); ++i) {
        int n = features()[i].variants;
        for(int k = 0; k < std::min(per, n); ++k) {
            FV x{(int)i, k == 0 ? 0 : n - 1};
            if(features()[i].name == "image_file") x.v = k == 0 ? 3 : 6;
            r.push_back(x);
        }
    }
    return r;
}
static std::vector<FV> drawing_fv() {
    std::vector<FV> r;
    for(auto x : all_fv())
        if(features()[x.f].drawing && !heavy(x)) r.push_back(x);
    return r;
}
static void add(B &b, FV x) { features()[x.f].add(b, x.v); }

// Uses of the API that may legitimately occur only once in a document.
static bool once(FV x) {
    auto &n = features()[x.f].name;
    return n == "collection";
}
static bool clash(FV a, FV b2) {
    auto &n = features()[a.f].name, &m = features()[b2.f].name;
    return n == m && (once(a) || n == "navigation" || n == "page_label" || n == "embed_file");
}

static V in_context(B &b, int kind, const std::function<void()> &body) {
    V save = b.dc, out;
    if(kind == 0) b.dc = b.s("form_xobject_new", b.gen, 0.0, 0.0, 100.0, 100.0);
    if(kind == 1) b.dc = b.s("transparency_group_new", b.gen, 0.0, 0.0, 100.0, 100.0);
    if(kind == 2) b.dc = b.s("tiling_pattern_context_new", b.gen, 0.0, 0.0, 10.0, 10.0);
    V ctx = b.dc;
    body();
    b.dc = save;
    if(kind == 0) {
        out = b.s("generator_add_form_xobject", b.gen, ctx);
        auto a = b.s("printers_mark_annotation_new", out);
        b.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
        auto aid = b.s("generator_add_annotation", b.gen, a);
        (void)aid;
    } else if(kind == 1) {
        out = b.s("generator_add_transparency_group", b.gen, ctx);
        b.s("dc_cmd_Do_trgroup", b.dc, out);
    } else {
        out = b.s("generator_add_tiling_pattern", b.gen, ctx);
        auto c = b.s("color_new");
        b.s("color_set_pattern", c, out);
        b.s("dc_set_nonstroke", b.dc, c);
    }
    return out;
}

// n objects of one kind
static void many(B &b, int kind, int n) {
    V root, prev;
    if(kind == 5) root = b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null);
    for(int i = 0; i < n; ++i) {
        auto num = std::to_string(i);
        switch(kind) {
        case 0: b.s("dc_cmd_w", b.dc, 1.0 * i); b.page(); break;
        case 1: {
            auto o = b.s("outline_new");
            b.s("outline_set_title", o, "o" + num);
            if(i % 7 == 3) b.s("outline_set_parent", o, prev);
            prev = b.s("generator_add_outline", b.gen, o);
            break;
        }
        case 2: {
            auto e = b.s("embedded_file_new");
            b.s("embedded_file_set_contents", e, num);
            b.s("embedded_file_set_pdf_name", e, "f" + num);
            b.s("embedded_file_set_subtype", e, "a/b");
            b.s("generator_embed_file", b.gen, e);
            break;
        }
        case 3: {
            auto a = b.s("text_annotation_new", "a" + num);
            b.s("annotation_set_rectangle", a, 1.0 * i, 1.0, 2.0 * i, 3.0);
            b.s("dc_annotate", b.dc, b.s("generator_add_annotation", b.gen, a));
            break;
        }
        case 4: {
            auto f = b.s("form_field_new", 1);
            b.s("form_field_set_T", f, "f" + num);
            auto fid = b.s("generator_add_form_field", b.gen, f);
            auto w = b.s("widget_annotation_new");
            b.s("annotation_set_rectangle", w, 10.0, 20.0, 30.0, 40.5);
            b.s("annotation_set_parent_field", w, fid);
            b.s("dc_annotate", b.dc, b.s("generator_add_annotation", b.gen, w));
            break;
        }
        case 5:
            b.s("dc_cmd_BDC_builtin", b.dc, b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_P"), root, null), null);
            b.s("dc_cmd_EMC", b.dc);
            if(i % 50 == 49) b.page();
            break;
        case 6: b.s("dc_cmd_BDC_ocg", b.dc, b.ocg("L" + num)); b.s("dc_cmd_EMC", b.dc); break;
        case 7: {
            auto g = b.s("graphics_state_new");
            b.s("graphics_state_set_CA", g, i / 2000.0);
            b.s("dc_cmd_gs", b.dc, b.s("generator_add_graphics_state", b.gen, g));
            break;
        }
        case 8: b.s("dc_cmd_Do_image", b.dc, b.image(1 + i % 16, 1 + i / 16, 1)); break;
        case 9: b.s("dc_cmd_BMC", b.dc, "T" + num); b.s("dc_cmd_EMC", b.dc); break;
        case 10: b.s("generator_add_page_labeling", b.gen, b.npages, i % 5, "p" + num, 1); b.page(); break;
        }
    }
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C01";
    c.bounds = "All feature variants alone; all ordered pairs of feature variants (large image files excepted) on one page, split over two pages and separated by a page commit; all "
               "drawing features inside form XObjects, transparency groups and tiling patterns, nested to depth 2; all 276 document configurations "
               "(PDF/X and PDF/A type x output colour space x tagging x debug mode) x features; all ordered triples of representative features.";
    c.assumptions = {"The grammar table in mc/lint.cpp transcribes ISO 32000-2 for the objects the library can emit.",
                     "Arguments are finite numbers; strings are from the alphabets in mc/features.cpp (string contents are explored by C07)."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        auto fv = all_fv();
        size_t N = fv.size();
        f.push_back({"single", N, [=](size_t i, Ctx &cx) {
            B b;
            b.props();
            b.start();
            add(b, fv[i]);
            b.finish();
            check_doc(b.s, cx, true);
        }, [=](size_t i) { return fvname(fv[i]); }});
        fv = light_fv();
        N = fv.size();
        auto pairname = [=](size_t i) { return fvname(fv[i / N]) + "+" + fvname(fv[i % N]); };
        f.push_back({"pair", N * N, [=](size_t i, Ctx &cx) {
            B b;
            b.props();
            b.start();
            add(b, fv[i / N]);
            add(b, fv[i % N]);
            b.finish();
            check_doc(b.s, cx, !clash(fv[i / N], fv[i % N]));
        }, pairname});
        f.push_back({"pages", N * N, [=](size_t i, Ctx &cx) {
            B b;
            b.props();
            b.start();
            add(b, fv[i / N]);
            b.page();
            add(b, fv[i % N]);
            b.finish();
            check_doc(b.s, cx, !clash(fv[i / N], fv[i % N]) || features()[fv[i % N].f].name == "navigation" || features()[fv[i % N].f].name == "page_label");
        }, pairname});
        auto dv = drawing_fv();
        const size_t D = dv.size();
        f.push_back({"context", D * 3 * 4, [=](size_t i, Ctx &cx) {
            B b;
            b.props();
            b.start();
            const size_t outer = i / D % 4, inner = i / D / 4;
            auto body = [&] { in_context(b, (int)inner, [&] { add(b, dv[i % D]); }); };
            if(outer == 3) body();
            else in_context(b, (int)outer, body);
            b.finish();
            check_doc(b.s, cx, true);
        }, [=](size_t i) { return fvname(dv[i % D]) + "@" + std::to_string(i / D % 4) + std::to_string(i / D / 4); }});
        auto cv = thorough ? light_fv() : rep_fv(2);
        const size_t CN = cv.size();
        f.push_back({"config", CN * NCONFIG, [=](size_t i, Ctx &cx) {
            B b;
            const auto k = config((int)(i / CN));
            // The CMYK test profiles are large; in the quick tier they are combined with fewer features.
            if(!thorough && k.sub && k.cs == 2 && i % CN % 4 != 0) return;
            apply_config(b, k);
            b.start();
            add(b, cv[i % CN]);
            b.finish();
            check_doc(b.s, cx, k.sub == 0 && k.cs != 2); // CMYK output needs a profile
            clear_config_env();
        }, [=](size_t i) { return config_name(config((int)(i / CN))) + "/" + fvname(cv[i % CN]); }});
        auto tv = rep_fv(thorough ? 2 : 1);
        const size_t T = tv.size();
        f.push_back({"triple", T * T * T, [=](size_t i, Ctx &cx) {
            B b;
            FV x = tv[i / T / T], y = tv[i / T % T], z = tv[i % T];
            apply_config(b, config(i % 2 ? 3 : 0));
            b.start();
            add(b, x);
            add(b, y);
            add(b, z);
            b.finish();
            check_doc(b.s, cx, !clash(x, y) && !clash(x, z) && !clash(y, z));
            clear_config_env();
        }, [=](size_t i) { return fvname(tv[i / T / T]) + "+" + fvname(tv[i / T % T]) + "+" + fvname(tv[i % T]); }});
        // Scale: many objects of one kind, and large ones, across the width boundaries of cross-reference data.
        static const std::vector<int> counts = {2, 3, 10, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1000};
        static const char *kinds[] = {"pages", "outlines", "embedded", "annotations", "fields", "structure", "ocgs", "gstates", "images", "marks", "labels"};
        const size_t NK = std::size(kinds), NC = counts.size();
        f.push_back({"scale", NK * NC * 4, [=](size_t i, Ctx &cx) {
            const int n = counts[i % NC], k = (int)(i / NC % NK), cfg = (int)(i / NC / NK);
            B b;
            apply_config(b, Config{cfg / 2 ? 5 : 0, cfg / 2 ? 2 : 0, 0, cfg % 2}); // PDF/X-3 uses cross-reference tables
            b.start();
            many(b, k, n);
            b.finish();
            check_doc(b.s, cx, true);
            clear_config_env();
        }, [=](size_t i) { return std::string(kinds[i / NC % NK]) + "*" + std::to_string(counts[i % NC]) + "#" + std::to_string(i / NC / NK); }, 60});
        static const std::vector<int> sizes = {0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 262143, 1000000, 16777200, 16777216, 17000000};
        const size_t NS = sizes.size();
        f.push_back({"size", NS * 6, [=](size_t i, Ctx &cx) {
            const int n = sizes[i % NS], cfg = (int)(i / NS % 2);
            const bool before = i / NS / 2 % 2;
            B b;
            apply_config(b, Config{i / NS >= 4 ? 5 : 0, i / NS >= 4 ? 2 : 0, 0, cfg});
            b.start();
            auto big = [&] {
                std::string data((size_t)n, 0);
                uint32_t x = 12345;
                for(auto &c : data) c = (char)((x = x * 1664525 + 1013904223) >> 24); // does not compress
                if(i / NS >= 4) { // PDF/X-3: cross-reference tables, no embedded files
                    const int w = n > 1000 ? 1000 : n, h = n > 1000 ? n / 1000 : 1;
                    if(n == 0) return;
                    auto rb = b.s("raster_image_builder_new");
                    b.s("raster_image_builder_set_size", rb, w, h);
                    b.s("raster_image_builder_set_pixel_depth", rb, 8);
                    b.s("raster_image_builder_set_colorspace", rb, E("CAPY_IMAGE_CS_GRAY"));
                    b.s("raster_image_builder_set_pixel_data", rb, data.substr(0, (size_t)w * h));
                    b.s("dc_cmd_Do_image", b.dc, b.s("generator_add_image", b.gen, b.s("raster_image_builder_build", rb), b.s("image_pdf_properties_new")));
                    return;
                }
                auto e = b.s("embedded_file_new");
                b.s("embedded_file_set_contents", e, data);
                b.s("embedded_file_set_pdf_name", e, "big");
                b.s("embedded_file_set_subtype", e, "a/b");
                b.s("generator_embed_file", b.gen, e);
            };
            if(before) big();
            many(b, 0, 2);
            if(!before) big();
            b.finish();
            check_doc(b.s, cx, n > 0 || true);
            clear_config_env();
        }, [=](size_t i) { return std::to_string(sizes[i % NS]) + "#" + std::to_string(i / NS); }, 60});
        return f;
    };
    return check_main(argc, argv, c);
}
