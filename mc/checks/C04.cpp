// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "spec.hpp"
using namespace mc;
namespace sp = mc::spec;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

// --- one document under construction with what must be found in it
struct U : W {
    std::vector<XOp> want;                                // on the page
    std::vector<std::function<string(const Doc &)>> post; // elsewhere
    std::set<string> once;                                // ids that cannot be used again
    bool destroy = false;                                 // handles are destroyed at once
    int serial = 0;
    void drop(const char *type, V h) { if(destroy) s(string(type) + "_destroy", h); }
    void put(XOp x) { want.push_back(std::move(x)); }
};
static const Obj *find(const Doc &d, const std::function<bool(const Obj &)> &p) {
    const Obj *r = nullptr;
    for(auto &[n, o] : d.objs)
        if(o.isdict() && p(o)) {
            if(r) throw pdf::ParseError("two objects with the same mark");
            r = &o;
        }
    return r;
}
static bool isnum(const Doc &d, const Obj &o, const char *k, double v) { auto *x = d.dget(o, k); return x && x->isnum() && close(x->num(), v); }
static bool istext(const Doc &d, const Obj &o, const char *k, const string &v) {
    auto *x = d.dget(o, k);
    if(!x || x->t != Obj::Str) return false;
    auto t = pdf::text_string(*x);
    return t && *t == v;
}
static const Obj *annot(const Doc &d, int serial) {
    return find(d, [&](const Obj &o) {
        auto *r = d.dget(o, "Rect");
        return r && r->t == Obj::Arr && r->a.size() == 4 && d.deref(r->a[0]).isnum() && close(d.deref(r->a[0]).num(), 1000 + serial);
    });
}
static void add_annot(U &w, V a, int serial, sp::Dict want) {
    w.s("annotation_set_rectangle", a, 1000.0 + serial, 0.0, 5000.0, 6.0);
    auto id = w.s("generator_add_annotation", w.gen, a);
    w.drop("annotation", a);
    w.s("dc_annotate", w.dc, id);
    w.post.push_back([=](const Doc &d) {
        auto *o = annot(d, serial);
        return o ? sp::dict(want, true)(d, o) : string("annotation is missing");
    });
}
static string prof(int k) { // distinct valid ICC profiles
    static const string base = read_file(repo_dir() + "/testdata/icc/compatibleWithAdobeRGB1998.icc");
    string s = base;
    if(k % 2 == 0) s[35] = (char)k; // seconds of the creation time
    else { // the copyright text
        auto u32 = [&](size_t at) { return (size_t)(unsigned char)s[at] << 24 | (size_t)(unsigned char)s[at + 1] << 16 | (size_t)(unsigned char)s[at + 2] << 8 | (unsigned char)s[at + 3]; };
        for(size_t t = 0; t < u32(128); ++t)
            if(s.compare(132 + 12 * t, 4, "cprt") == 0) s[u32(136 + 12 * t) + 12 + (size_t)k % 4] = (char)('0' + k / 4);
    }
    return s;
}
static sp::Sp fn_spec(int k) { return sp::dict({{"FunctionType", sp::integer(2)}, {"N", sp::num(1 + k)}}, true); }

struct Kind {
    const char *name;
    std::function<V(U &, int)> make;                 // the k-th object of this kind
    std::function<void(U &, V, int, int)> use;       // with the id, k and the serial number of the use
    bool once = false;                               // an id can be used only once
};
static V make_fn(U &w, int k, int comps) {
    auto col = [&](double v) {
        auto c = w.s("color_new");
        if(comps == 1) w.s("color_set_gray", c, v);
        else if(comps == 3) w.s("color_set_rgb", c, v, v, v);
        else w.s("color_set_cmyk", c, v, v, v, v);
        return c;
    };
    auto a = col(0.25), b = col(0.75);
    auto f = w.s("type2_function_new", std::vector<double>{0, 1}, a, b, 1.0 + k);
    auto id = w.s("generator_add_function", w.gen, f);
    w.drop("color", a);
    w.drop("color", b);
    w.drop("function", f);
    return id;
}
static double gs_value(int k) { return 0.25 + k / 1024.0; }
static string gs_name(int k) { auto t = show(X("", gs_value(k))); return "gs " + t.substr(0, t.size() - 1); }
static V make_fn4(U &w, int k) {
    auto f = w.s("type4_function_new", std::vector<double>{0, 1}, std::vector<double>{0, 1, 0, 1, 0, 1, 0, 1000.0 + k}, "{dup dup dup}");
    auto id = w.s("generator_add_function", w.gen, f);
    w.drop("function", f);
    return id;
}
static sp::Sp fn4_spec(int k) { return sp::dict({{"FunctionType", sp::integer(4)}, {"Range", sp::nums({0, 1, 0, 1, 0, 1, 0, 1000.0 + k})}}, true); }
static V mk_group(U &w, int k) {
    auto g = w.s("transparency_group_new", w.gen, 0.0, 0.0, 30.0 + k, 30.0);
    w.s("dc_cmd_re", g, 1.0, 1.0, 2.0 + k, 2.0);
    w.s("dc_cmd_f", g);
    auto tp = w.s("transparency_group_properties_new");
    w.s("transparency_group_properties_set_CS", tp, E("CAPY_DEVICE_CS_GRAY"));
    w.s("dc_set_transparency_group_properties", g, tp);
    auto id = w.s("generator_add_transparency_group", w.gen, g);
    w.drop("dc", g);
    return id;
}
static V mk_shading(U &w, int k) {
    auto sh = w.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 10.0 + k, 4.0, w.fn2(3));
    auto id = w.s("generator_add_shading", w.gen, sh);
    w.drop("shading", sh);
    return id;
}
static void use_color(U &w, const std::function<void(V)> &set, std::vector<XOp> want, bool stroke) {
    auto c = w.s("color_new");
    set(c);
    w.s(stroke ? "dc_set_stroke" : "dc_set_nonstroke", w.dc, c);
    w.drop("color", c);
    for(auto &x : want) {
        if(stroke)
            for(auto &ch : x.op) ch = (char)toupper(ch);
        w.put(x);
    }
}
static V root(U &w) { return w.res("structroot", [&] { return w.s("generator_add_structure_item", w.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null); }); }
static V extra(U &w, const string &T) {
    auto e = w.s("struct_item_extra_data_new");
    w.s("struct_item_extra_data_set_t", e, T);
    return e;
}
static const std::vector<Kind> &kinds() {
    static const std::vector<Kind> all = {
        {"image", [](U &w, int k) {
             auto rb = w.s("raster_image_builder_new");
             w.s("raster_image_builder_set_size", rb, 5 + k, 3);
             w.s("raster_image_builder_set_colorspace", rb, E("CAPY_IMAGE_CS_GRAY"));
             w.s("raster_image_builder_set_pixel_data", rb, string((size_t)(5 + k) * 3, (char)k));
             auto im = w.s("raster_image_builder_build", rb);
             auto ip = w.s("image_pdf_properties_new");
             auto id = w.s("generator_add_image", w.gen, im, ip);
             w.drop("raster_image", im);
             w.drop("image_pdf_properties", ip);
             w.drop("raster_image_builder", rb);
             return id;
         }, [](U &w, V id, int k, int) { w.s("dc_cmd_Do_image", w.dc, id); w.put(X("Do", img_label(k))); }},
        {"group", mk_group, [](U &w, V id, int k, int) { w.s("dc_cmd_Do_trgroup", w.dc, id); w.put(X("Do", group_label(k))); }},
        {"group in a mask", mk_group, [](U &w, V id, int k, int n) {
             auto m = w.s("soft_mask_new", E("CAPY_SOFT_MASK_LUMINOSITY"), id);
             auto mid = w.s("generator_add_soft_mask", w.gen, m);
             w.drop("soft_mask", m);
             auto g = w.s("graphics_state_new");
             w.s("graphics_state_set_SMask", g, mid);
             w.s("graphics_state_set_CA", g, 0.0001 * (n + 1));
             w.s("dc_cmd_gs", w.dc, w.s("generator_add_graphics_state", w.gen, g));
             w.drop("graphics_state", g);
             w.put(X("gs", "gs " + show(X("", 0.0001 * (n + 1))).substr(0, show(X("", 0.0001 * (n + 1))).size() - 1)));
             w.post.push_back([=](const Doc &d) {
                 auto *o = find(d, [&](const Obj &x) { return isnum(d, x, "CA", 0.0001 * (n + 1)); });
                 return sp::dict({{"SMask", sp::dict({{"S", sp::name("Luminosity")}, {"G", sp::labelled(group_label(k))}}, true)}}, true)(d, o);
             });
         }},
        {"softmask", [](U &w, int k) {
             auto m = w.s("soft_mask_new", E(k % 2 ? "CAPY_SOFT_MASK_LUMINOSITY" : "CAPY_SOFT_MASK_ALPHA"), mk_group(w, 100 + k));
             auto id = w.s("generator_add_soft_mask", w.gen, m);
             w.drop("soft_mask", m);
             return id;
         }, [](U &w, V id, int k, int n) {
             auto g = w.s("graphics_state_new");
             w.s("graphics_state_set_SMask", g, id);
             w.s("graphics_state_set_ca", g, 0.0001 * (n + 1));
             w.s("dc_cmd_gs", w.dc, w.s("generator_add_graphics_state", w.gen, g));
             w.put(X("gs", "gs ?"));
             w.post.push_back([=](const Doc &d) {
                 auto *o = find(d, [&](const Obj &x) { return isnum(d, x, "ca", 0.0001 * (n + 1)); });
                 return sp::dict({{"SMask", sp::dict({{"S", sp::name(k % 2 ? "Luminosity" : "Alpha")}, {"G", sp::labelled(group_label(100 + k))}}, true)}}, true)(d, o);
             });
         }},
        {"gs", [](U &w, int k) {
             auto g = w.s("graphics_state_new");
             w.s("graphics_state_set_CA", g, gs_value(k));
             auto id = w.s("generator_add_graphics_state", w.gen, g);
             w.drop("graphics_state", g);
             return id;
         }, [](U &w, V id, int k, int) { w.s("dc_cmd_gs", w.dc, id); w.put(X("gs", gs_name(k))); }},
        {"gs in text", [](U &w, int k) {
             auto g = w.s("graphics_state_new");
             w.s("graphics_state_set_CA", g, gs_value(k));
             return w.s("generator_add_graphics_state", w.gen, g);
         }, [](U &w, V id, int k, int) {
             auto t = w.s("dc_text_new", w.dc);
             w.s("text_cmd_gs", t, id);
             w.s("dc_render_text_obj", w.dc, t);
             w.put(X("BT")); w.put(X("gs", gs_name(k))); w.put(X("ET"));
         }},
        {"shading", mk_shading, [](U &w, V id, int k, int) { w.s("dc_cmd_sh", w.dc, id); w.put(X("sh", shade_label(k))); }},
        {"shading in a pattern", mk_shading, [](U &w, V id, int k, int n) {
             auto p = w.s("shading_pattern_new", id);
             auto pid = w.s("generator_add_shading_pattern", w.gen, p);
             w.drop("shading_pattern", p);
             use_color(w, [&](V c) { w.s("color_set_pattern", c, pid); }, {X("cs", "/Pattern"), X("scn", shpat_label(k))}, n % 2);
         }},
        {"shading pattern", [](U &w, int k) {
             auto p = w.s("shading_pattern_new", mk_shading(w, k));
             auto pid = w.s("generator_add_shading_pattern", w.gen, p);
             w.drop("shading_pattern", p);
             return pid;
         }, [](U &w, V id, int k, int n) { use_color(w, [&](V c) { w.s("color_set_pattern", c, id); }, {X("cs", "/Pattern"), X("scn", shpat_label(k))}, n % 2); }},
        {"tiling", [](U &w, int k) {
             auto p = w.s("tiling_pattern_context_new", w.gen, 0.0, 0.0, 5.0 + k, 5.0);
             w.s("dc_cmd_re", p, 1.0, 1.0, 1.0 + k, 3.0);
             w.s("dc_cmd_f", p);
             auto id = w.s("generator_add_tiling_pattern", w.gen, p);
             w.drop("dc", p);
             return id;
         }, [](U &w, V id, int k, int n) { use_color(w, [&](V c) { w.s("color_set_pattern", c, id); }, {X("cs", "/Pattern"), X("scn", tiling_label(k))}, n % 2); }},
        {"font", [](U &w, int k) { return w.s("generator_load_font", w.gen, string("$REPO/testdata/fonts/") + (k % 4 == 0 ? "NotoSans-Regular.ttf" : k % 4 == 1 ? "P052-Roman.otf" : k % 4 == 2 ? "NotoSerif-Regular.ttf" : "NotoSans-Bold.ttf"), null); },
         [](U &w, V id, int k, int n) {
             string t = string("Te") + (char)('a' + n % 26) + "\xc3\xb6";
             w.s("dc_render_text", w.dc, t, id, 9.0, 1.0, 2.0);
             w.put(X("BT")); w.put(X("Tf", font_label(k % 4), 9)); w.put(X("Td", 1, 2)); w.put(X("Tj", t)); w.put(X("ET"));
         }},
        {"icc", [](U &w, int k) { return w.s("generator_add_icc_profile", w.gen, prof(k), 3); },
         [](U &w, V id, int k, int n) {
             use_color(w, [&](V c) { w.s("color_set_icc", c, id, std::vector<double>{0.1, 0.2, 0.75}); }, {X("cs", "icc3:" + to_string(pdf::hash(prof(k)) % 100000)), X("scn", 0.1, 0.2, 0.75)}, n % 2);
         }},
        {"separation", [](U &w, int k) { return w.s("generator_add_separation", w.gen, "Ink" + to_string(k), E("CAPY_DEVICE_CS_CMYK"), make_fn4(w, k)); },
         [](U &w, V id, int k, int n) { use_color(w, [&](V c) { w.s("color_set_separation", c, id, 0.375); }, {X("cs", "sep Ink" + to_string(k)), X("scn", 0.375)}, n % 2); }},
        {"lab", [](U &w, int k) { return w.s("generator_add_lab_colorspace", w.gen, 0.5 + k, 1.0, 1.25, -100.0, 100.0, -110.0, 110.0); },
         [](U &w, V id, int k, int n) {
             string wp = to_string(k) + ".5,1,1.25";
             use_color(w, [&](V c) { w.s("color_set_lab", c, id, 50.5, -20.25, 30.0); }, {X("cs", "lab " + wp), X("scn", 50.5, -20.25, 30.0)}, n % 2);
         }},
        {"ocg", [](U &w, int k) {
             auto o = w.s("optional_content_group_new", "Layer " + to_string(k));
             auto id = w.s("generator_add_optional_content_group", w.gen, o);
             w.drop("optional_content_group", o);
             return id;
         }, [](U &w, V id, int k, int) {
             w.s("dc_cmd_BDC_ocg", w.dc, id);
             w.s("dc_cmd_EMC", w.dc);
             w.put(X("BDC", "/OC", "ocg Layer " + to_string(k))); w.put(X("EMC"));
         }},
        {"function in a shading", [](U &w, int k) { return make_fn(w, k, 3); }, [](U &w, V id, int k, int n) {
             auto sh = w.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 1000.0 + n, 4.0, id);
             w.s("dc_cmd_sh", w.dc, w.s("generator_add_shading", w.gen, sh));
             w.drop("shading", sh);
             w.put(X("sh", shade_label(990 + n)));
             w.post.push_back([=](const Doc &d) {
                 auto *o = find(d, [&](const Obj &x) { auto *c = d.dget(x, "Coords"); return c && c->a.size() == 4 && close(d.deref(c->a[2]).num(), 1000 + n); });
                 return sp::dict({{"Function", fn_spec(k)}}, true)(d, o);
             });
         }},
        {"function in a radial shading", [](U &w, int k) { return make_fn(w, k, 3); }, [](U &w, V id, int k, int n) {
             auto sh = w.s("type3_shading_new", E("CAPY_DEVICE_CS_RGB"), std::vector<double>{1, 2, 3, 4, 5, 3000.0 + n}, id);
             auto sid = w.s("generator_add_shading", w.gen, sh);
             w.s("dc_cmd_sh", w.dc, sid);
             w.drop("shading", sh);
             w.put(X("sh", "shading3 1,2,3,4,5," + to_string(3000 + n)));
             w.post.push_back([=](const Doc &d) {
                 auto *o = find(d, [&](const Obj &x) { auto *c = d.dget(x, "Coords"); return c && c->a.size() == 6 && close(d.deref(c->a[5]).num(), 3000 + n); });
                 return sp::dict({{"Function", fn_spec(k)}}, true)(d, o);
             });
         }},
        {"function in a separation", [](U &w, int k) { return make_fn4(w, k); }, [](U &w, V id, int k, int n) {
             auto sep = w.s("generator_add_separation", w.gen, "Use" + to_string(n), E("CAPY_DEVICE_CS_CMYK"), id);
             use_color(w, [&](V c) { w.s("color_set_separation", c, sep, 0.5); }, {X("cs", "sep Use" + to_string(n)), X("scn", 0.5)}, false);
             w.post.push_back([=](const Doc &d) {
                 for(auto &[num, o] : d.objs)
                     if(o.t == Obj::Arr && o.a.size() == 4 && d.deref(o.a[0]).isname("Separation") && d.deref(o.a[1]).isname("Use" + to_string(n))) return fn4_spec(k)(d, &d.deref(o.a[3]));
                 return string("separation is missing");
             });
         }},
        {"function in a stitch", [](U &w, int k) { return make_fn(w, k, 3); }, [](U &w, V id, int k, int n) {
             auto f = w.s("type3_function_new", std::vector<double>{0, 1}, std::vector<V>{id, w.fn2(3)}, std::vector<double>{0.0001 * (n + 1)}, std::vector<double>{0, 1, 0, 1});
             auto fid = w.s("generator_add_function", w.gen, f);
             w.drop("function", f);
             auto sh = w.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 5000.0 + n, 4.0, fid);
             w.s("dc_cmd_sh", w.dc, w.s("generator_add_shading", w.gen, sh));
             w.put(X("sh", shade_label(4990 + n)));
             w.post.push_back([=](const Doc &d) {
                 auto *o = find(d, [&](const Obj &x) { auto *c = d.dget(x, "Bounds"); return c && c->a.size() == 1 && close(d.deref(c->a[0]).num(), 0.0001 * (n + 1)); });
                 return sp::dict({{"Functions", sp::arr({fn_spec(k), sp::dict({{"N", sp::num(1.5)}}, true)})}}, true)(d, o);
             });
         }},
        {"form in a mark", [](U &w, int k) {
             auto g = w.s("form_xobject_new", w.gen, 0.0, 0.0, 40.0 + k, 30.0);
             w.s("dc_cmd_f", g);
             auto id = w.s("generator_add_form_xobject", w.gen, g);
             w.drop("dc", g);
             return id;
         }, [](U &w, V id, int k, int n) {
             add_annot(w, w.s("printers_mark_annotation_new", id), n, {{"AP", sp::dict({{"N", sp::labelled(form_label(k))}}, true)}});
         }},
        {"form in a button", [](U &w, int k) {
             auto g = w.s("form_xobject_new", w.gen, 0.0, 0.0, 40.0 + k, 30.0);
             w.s("dc_cmd_f", g);
             return w.s("generator_add_form_xobject", w.gen, g);
         }, [](U &w, V id, int k, int n) {
             auto a = w.s("widget_annotation_new");
             w.s("annotation_set_widget_button_appearance", a, n % 2 ? id : w.form(900), n % 2 ? w.form(900) : id, "on");
             add_annot(w, a, n, {{"AP", sp::dict({{"N", sp::dict({{"on", sp::labelled(form_label(n % 2 ? k : 900))}, {"Off", sp::labelled(form_label(n % 2 ? 900 : k))}}, true)}}, true)}});
         }},
        {"embedded", [](U &w, int k) {
             auto e = w.s("embedded_file_new");
             w.s("embedded_file_set_contents", e, "contents " + to_string(k));
             w.s("embedded_file_set_pdf_name", e, "f" + to_string(k));
             auto id = w.s("generator_embed_file", w.gen, e);
             w.drop("embedded_file", e);
             return id;
         }, [](U &w, V id, int k, int n) {
             add_annot(w, w.s("file_attachment_annotation_new", id), n, {{"FS", sp::dict({{"F", sp::bytes("f" + to_string(k))}, {"EF", sp::dict({{"F", [=](const Doc &d, const Obj *o) {
                 return o && o->t == Obj::Stream && d.stream_data(*o) == "contents " + to_string(k) ? string() : string("other contents");
             }}}, true)}}, true)}});
         }},
        {"3d", [](U &w, int k) {
             write_file(scratch() + "/m" + to_string(k) + ".u3d", "model " + to_string(k));
             auto o = w.s("3d_stream_new", "$OUT/m" + to_string(k) + ".u3d", k % 2);
             auto id = w.s("generator_add_3d_stream", w.gen, o);
             w.drop("3d_stream", o);
             return id;
         }, [](U &w, V id, int k, int n) {
             auto a = w.s("3d_annotation_new");
             w.s("annotation_set_3d_stream", a, id);
             add_annot(w, a, n, {{"3DD", [=](const Doc &d, const Obj *o) { return o && o->t == Obj::Stream && d.stream_data(*o) == "model " + to_string(k) ? string() : string("other model"); }}});
         }},
        {"annotation", [](U &w, int k) {
             auto a = w.s("text_annotation_new", "note " + to_string(k));
             w.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
             auto id = w.s("generator_add_annotation", w.gen, a);
             w.drop("annotation", a);
             return id;
         }, [](U &w, V id, int k, int) {
             w.s("dc_annotate", w.dc, id);
             int page = w.npages;
             w.post.push_back([=](const Doc &d) {
                 auto *an = d.dget(d.objs.at(d.pages().at((size_t)page)), "Annots");
                 int n = 0;
                 if(an)
                     for(auto &e : an->a) n += istext(d, d.deref(e), "Contents", "note " + to_string(k));
                 return n == 1 ? string() : "the annotation is " + to_string(n) + " times on the page";
             });
         }, true},
        {"field of a widget", [](U &w, int k) {
             auto f = w.s("form_field_new", k % 3);
             w.s("form_field_set_T", f, "field " + to_string(k));
             auto id = w.s("generator_add_form_field", w.gen, f);
             w.drop("form_field", f);
             return id;
         }, [](U &w, V id, int k, int n) {
             auto a = w.s("widget_annotation_new");
             w.s("annotation_set_parent_field", a, id);
             add_annot(w, a, n, {{"Parent", sp::dict({{"T", sp::text("field " + to_string(k))}}, true)}});
         }},
        {"field of a field", [](U &w, int k) {
             auto f = w.s("form_field_new", k % 3);
             w.s("form_field_set_T", f, "fp " + to_string(k));
             return w.s("generator_add_form_field", w.gen, f);
         }, [](U &w, V id, int k, int n) {
             auto f = w.s("form_field_new", n % 3);
             w.s("form_field_set_T", f, "child " + to_string(n));
             w.s("form_field_set_parent", f, id);
             w.s("generator_add_form_field", w.gen, f);
             w.drop("form_field", f);
             w.post.push_back([=](const Doc &d) {
                 auto *o = find(d, [&](const Obj &x) { return istext(d, x, "T", "child " + to_string(n)); });
                 return sp::dict({{"Parent", sp::dict({{"T", sp::text("fp " + to_string(k))}}, true)}}, true)(d, o);
             });
         }},
        {"outline", [](U &w, int k) {
             auto o = w.s("outline_new");
             w.s("outline_set_title", o, "out " + to_string(k));
             auto id = w.s("generator_add_outline", w.gen, o);
             w.drop("outline", o);
             return id;
         }, [](U &w, V id, int k, int n) {
             auto o = w.s("outline_new");
             w.s("outline_set_title", o, "sub " + to_string(n));
             w.s("outline_set_parent", o, id);
             w.s("generator_add_outline", w.gen, o);
             w.drop("outline", o);
             w.post.push_back([=](const Doc &d) {
                 auto *x = find(d, [&](const Obj &q) { return istext(d, q, "Title", "sub " + to_string(n)); });
                 return sp::dict({{"Parent", sp::dict({{"Title", sp::text("out " + to_string(k))}}, true)}}, true)(d, x);
             });
         }},
        {"structure parent", [](U &w, int k) {
             auto r = root(w), e = extra(w, "item " + to_string(k));
             auto id = w.s("generator_add_structure_item", w.gen, E("CAPY_STRUCTURE_TYPE_P"), r, e);
             w.drop("struct_item_extra_data", e);
             return id;
         }, [](U &w, V id, int k, int n) {
             auto e = extra(w, "part " + to_string(n));
             w.s("generator_add_structure_item", w.gen, E("CAPY_STRUCTURE_TYPE_SPAN"), id, e);
             w.drop("struct_item_extra_data", e);
             w.post.push_back([=](const Doc &d) {
                 auto *x = find(d, [&](const Obj &q) { return istext(d, q, "T", "part " + to_string(n)); });
                 return sp::dict({{"P", sp::dict({{"T", sp::text("item " + to_string(k))}}, true)}}, true)(d, x);
             });
         }},
        {"structure content", [](U &w, int k) {
             auto r = root(w), e = extra(w, "cont " + to_string(k));
             return w.s("generator_add_structure_item", w.gen, E("CAPY_STRUCTURE_TYPE_H1"), r, e);
         }, [](U &w, V id, int k, int n) {
             if(n % 2) {
                 auto t = w.s("dc_text_new", w.dc);
                 w.s("text_cmd_BDC_builtin", t, id);
                 w.s("text_cmd_EMC", t);
                 w.s("dc_render_text_obj", w.dc, t);
             } else {
                 w.s("dc_cmd_BDC_builtin", w.dc, id, null);
                 w.s("dc_cmd_EMC", w.dc);
             }
             auto mc = "<<MCID=" + to_string(w.memo["mcid"].slot++ + 1) + ">>"; // slot counts from -1
             if(n % 2) w.put(X("BT"));
             w.put(X("BDC", "/H1", mc));
             w.put(X("EMC"));
             if(n % 2) w.put(X("ET"));
             int page = w.npages, mcid = w.memo["mcid"].slot;
             w.post.push_back([=](const Doc &d) {
                 auto *x = find(d, [&](const Obj &q) { return istext(d, q, "T", "cont " + to_string(k)); });
                 return sp::dict({{"S", sp::name("H1")}, {"K", sp::integer(mcid)}, {"Pg", sp::page(page)}}, true)(d, x);
             });
         }, true},
        {"role", [](U &w, int k) { return w.s("generator_add_rolemap_entry", w.gen, "Role" + to_string(k), E("CAPY_STRUCTURE_TYPE_P")); },
         [](U &w, V id, int k, int n) {
             auto r = root(w), e = extra(w, "rol " + to_string(n));
             w.s("generator_add_custom_structure_item", w.gen, id, r, e);
             w.post.push_back([=](const Doc &d) {
                 auto *x = find(d, [&](const Obj &q) { return istext(d, q, "T", "rol " + to_string(n)); });
                 return sp::dict({{"S", sp::name("Role" + to_string(k))}}, true)(d, x);
             });
         }},
    };
    return all;
}
static void begin(U &w) {
    w.props();
    w.s("document_properties_set_tagged", w.md, 1);
    w.s("document_properties_set_language", w.md, "en");
    w.start();
}
static void finish(U &w) {
    if(w.memo.count("structroot") == 0) root(w);
    w.finish();
}
static void judge(U &w, Ctx &cx, const string &tag, int page = 0) {
    Doc d;
    if(!run_good(w.s, cx, d)) return;
    try {
        auto got = view_page(d, d.pages().at((size_t)page));
        auto df = diff(got, w.want);
        if(!df.empty()) cx.violation("an id draws something else", df);
        for(auto &p : w.post) {
            auto r = p(d);
            if(!r.empty()) { cx.violation("an id denotes something else", r); break; }
        }
        cx.state(tag + mc::show(got));
        cx.sample(tag);
    } catch(const std::exception &e) {
        cx.violation(string("the document cannot be understood: ") + e.what());
    }
}
static size_t pw(size_t b, int e) { size_t r = 1; while(e--) r *= b; return r; }
struct Made { size_t kind; int k; V id; };
static Made create(U &w, size_t kind, std::map<size_t, int> &counts) {
    int k = counts[kind]++;
    // the several uses of one kind share their numbering, as their labels may be the same
    return {kind, k, kinds()[kind].make(w, k)};
}
static void use(U &w, const Made &m) {
    auto &kd = kinds()[m.kind];
    if(kd.once && !w.once.insert(to_string(m.kind) + "/" + to_string(m.k)).second) return;
    kd.use(w, m.id, m.k, w.serial++);
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C04";
    c.bounds = "30 ways to create and use an object of every kind that has an id: all ordered sequences of three (thorough: four) creations with uses immediately after each creation, in creation order, in reverse order, and "
               "repeatedly, with handles destroyed at once or kept; every pair of kinds with 12 interleaved objects; 300 objects of every kind used in a scrambled order; every kind used from each kind of draw context "
               "and from two pages; the same file loaded repeatedly with interleaved uses.";
    c.assumptions = {"Distinct objects carry distinct parameters, so using the wrong one is visible."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        const size_t K = kinds().size();
        const int n = 3;
        f.push_back({"sequences", pw(K, n) * 2, [=](size_t i, Ctx &cx) {
            U w;
            w.destroy = i % 2;
            i /= 2;
            begin(w);
            int mode = (int)((i + i / K) % 4);
            std::map<size_t, int> counts;
            std::vector<Made> made;
            string tag;
            for(int k = 0; k < n; ++k) {
                size_t kind = i / pw(K, k) % K;
                tag += kinds()[kind].name + string(", ");
                made.push_back(create(w, kind, counts));
                if(mode == 0 || mode == 3)
                    for(size_t x = mode == 3 ? 0 : made.size() - 1; x < made.size(); ++x) use(w, made[x]);
            }
            if(mode == 1) for(auto &m : made) use(w, m);
            if(mode >= 1) for(size_t x = made.size(); x-- > 0;) use(w, made[x]);
            finish(w);
            judge(w, cx, tag);
        }, nullptr});
        if(thorough)
            f.push_back({"sequences4", pw(K, 4), [=](size_t i, Ctx &cx) {
                U w;
                w.destroy = true;
                begin(w);
                std::map<size_t, int> counts;
                std::vector<Made> made;
                string tag;
                for(int k = 0; k < 4; ++k) {
                    size_t kind = i / pw(K, k) % K;
                    tag += kinds()[kind].name + string(", ");
                    made.push_back(create(w, kind, counts));
                }
                for(size_t x = 0; x < 4; ++x) use(w, made[(x * 3 + i) % 4]);
                finish(w);
                judge(w, cx, tag);
            }, nullptr});
        f.push_back({"pairs", K * K * 2, [=](size_t i, Ctx &cx) {
            U w;
            w.destroy = i % 2;
            i /= 2;
            begin(w);
            std::map<size_t, int> counts;
            std::vector<Made> made;
            for(int k = 0; k < 12; ++k) made.push_back(create(w, k % 3 == 1 ? i / K : i % K, counts));
            for(size_t k = 0; k < 24; ++k) use(w, made[k * 7 % 12]);
            finish(w);
            judge(w, cx, string(kinds()[i % K].name) + " and " + kinds()[i / K].name);
        }, nullptr});
        f.push_back({"many", K * 3, [=](size_t i, Ctx &cx) {
            U w;
            w.destroy = true;
            begin(w);
            size_t kind = i % K;
            static const int N[] = {40, 130, 300};
            int cnt = N[i / K];
            auto nm = string(kinds()[kind].name);
            if(nm == "font" || nm == "icc") cnt = std::min(cnt, nm == "font" ? 40 : 120);
            std::map<size_t, int> counts;
            std::vector<Made> made;
            for(int k = 0; k < cnt; ++k) {
                if(k % 5 == 0) create(w, (kind + 1 + (size_t)k / 5) % K, counts); // other objects in between
                made.push_back({kind, 1000 + k, {}});
                made.back().k = counts[kind];
                made.back() = create(w, kind, counts);
            }
            for(int k = 0; k < cnt; ++k) use(w, made[(size_t)k * 17 % (size_t)cnt]);
            finish(w);
            judge(w, cx, nm + to_string(cnt));
        }, nullptr, 60});
        // an id made while one page is open is used on another
        f.push_back({"pages", K * K, [=](size_t i, Ctx &cx) {
            U w;
            w.destroy = i / K % 2;
            begin(w);
            std::map<size_t, int> counts;
            std::vector<Made> made;
            for(int k = 0; k < 3; ++k) made.push_back(create(w, k == 1 ? i / K : i % K, counts));
            auto c0 = made;
            if(!kinds()[made[0].kind].once) { use(w, made[0]); w.want.clear(); w.memo["mcid"].slot = -1; }
            w.page();
            w.memo["mcid"].slot = -1;
            w.want.clear();
            made.push_back(create(w, i % K, counts));
            for(auto &m : made) use(w, m);
            for(auto &m : made) use(w, m);
            finish(w);
            judge(w, cx, string("pages ") + kinds()[i % K].name + kinds()[i / K].name, 1);
        }, nullptr});
        // every drawing kind in the other kinds of context
        static const std::vector<string> drawable = {"image", "group", "gs", "gs in text", "shading", "shading in a pattern", "shading pattern", "tiling", "font", "icc", "separation", "lab", "ocg", "function in a shading", "softmask"};
        f.push_back({"contexts", drawable.size() * drawable.size() * 3, [=](size_t i, Ctx &cx) {
            U w;
            begin(w);
            std::vector<size_t> two;
            for(auto &name : {drawable[i / 3 % drawable.size()], drawable[i / 3 / drawable.size()]})
                for(size_t k = 0; k < K; ++k)
                    if(name == kinds()[k].name) two.push_back(k);
            std::map<size_t, int> counts;
            std::vector<Made> made{create(w, two[0], counts), create(w, two[1], counts)};
            int kind = 1 + (int)(i % 3);
            auto page = w.dc;
            w.dc = w.context(kind);
            made.push_back(create(w, two[0], counts));
            for(auto &m : made) use(w, m);
            for(size_t k = 3; k-- > 0;) use(w, made[k]);
            auto ctx = w.dc;
            V id;
            switch(kind) {
            case 1: id = w.s("generator_add_form_xobject", w.gen, ctx); break;
            case 2: id = w.s("generator_add_transparency_group", w.gen, ctx); break;
            case 3: id = w.s("generator_add_tiling_pattern", w.gen, ctx); break;
            }
            w.dc = page;
            w.s("dc_destroy", ctx);
            if(kind == 1) add_annot(w, w.s("printers_mark_annotation_new", id), 77, {});
            if(kind == 2) w.s("dc_cmd_Do_trgroup", w.dc, id);
            if(kind == 3) { auto col = w.s("color_new"); w.s("color_set_pattern", col, id); w.s("dc_set_stroke", w.dc, col); }
            finish(w);
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto *x = find(d, [&](const Obj &o) {
                auto *bb = d.dget(o, "BBox");
                return bb && bb->t == Obj::Arr && bb->a.size() == 4 && d.deref(bb->a[2]).isnum() && close(d.deref(bb->a[2]).num(), 99 + kind) && close(d.deref(bb->a[3]).num(), 90);
            });
            if(!x) { cx.violation("the context is missing"); return; }
            auto got = view_stream(d, *x);
            auto df = diff(got, w.want);
            if(!df.empty()) cx.violation("an id draws something else", df);
            for(auto &p : w.post) {
                auto r = p(d);
                if(!r.empty()) { cx.violation("an id denotes something else", r); break; }
            }
            cx.state(to_string(kind) + mc::show(got));
        }, nullptr});
        // the same file loaded again and again
        f.push_back({"reload", pw(4, 5) * 4, [=](size_t i, Ctx &cx) {
            U w;
            begin(w);
            static const char *names[] = {"font", "icc", "font", "icc"};
            size_t kind = 0;
            for(size_t k = 0; k < K; ++k)
                if(string(names[i % 4]) == kinds()[k].name) kind = k;
            bool two = i % 4 >= 2;
            i /= 4;
            std::vector<Made> made;
            for(int k = 0; k < 5; ++k) { // 0,1: load file; 2: use the first; 3: use the last
                size_t o = i / pw(4, k) % 4;
                if(o < 2 || made.empty()) made.push_back({kind, two ? (int)(o % 2) : 0, kinds()[kind].make(w, two ? (int)(o % 2) : 0)});
                else use(w, o == 2 ? made.front() : made.back());
            }
            for(auto &m : made) use(w, m);
            finish(w);
            judge(w, cx, "reload " + to_string(kind) + " ");
        }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
