// sanitize
// uses: features.cpp
// Option objects are values. For every type of option object all sequences of "set an attribute" and "use the
// object" are executed on one object, and compared with a program in which every use gets a new object that
// has only the attributes that count at that time. The used object and everything that was passed to it is
// changed and destroyed afterwards.
#include "explore.hpp"
#include "features.hpp"
#include <filesystem>
using namespace mc;
using D = std::vector<double>;

static std::string masked(std::string s) {
    size_t p = s.rfind("/ID [");
    size_t e = p == std::string::npos ? p : s.find(']', p);
    if(e == std::string::npos) return s;
    bool in = false;
    for(size_t i = p; i < e; ++i) {
        if(s[i] == '<' || s[i] == '>') in = s[i] == '<';
        else if(in) s[i] = 'x';
    }
    return s;
}

struct Cx { // what a program in the making knows
    B b;
    V obj;
    int files = 0;
    bool impl = false; // helper objects are changed and destroyed after they were passed on
    std::vector<size_t> uses; // indexes of the calls whose results are compared
};
using F = std::function<void(Cx &)>;
struct Attr {
    std::string name;
    std::set<std::string> groups; // what it replaces; empty: it adds something
    F f;
};
struct Use {
    std::string name;
    F f;
};
struct Type {
    std::string name;
    F setup; // after the generator was created
    F make;
    std::string destroy;
    std::vector<Attr> attrs;
    std::vector<Use> uses;
    bool resets = false; // the object is empty after it was used
    bool document = false; // the object is made before there is a generator
    bool inplace = false; // what replaces something takes its place (a dictionary of named things has no other order)
};

static std::vector<Type> types() {
    std::vector<Type> r;
    auto none = [](Cx &) {};
    // c("name", args...) on the object
    struct Set {
        std::string fn;
        std::vector<Val> a;
        void operator()(Cx &c) const {
            std::vector<Val> x{mkval(c.obj)};
            for(auto &v : a) x.push_back(v);
            c.b.s.add(fn, x);
        }
    };
    auto set = [](const std::string &fn, auto... a) { return F(Set{fn, {mkval(a)...}}); };
    auto mk = [](const std::string &fn, auto... a) {
        std::vector<Val> v{mkval(a)...};
        return F([=](Cx &c) { c.obj = c.b.s.add(fn, v); });
    };
    auto used = [](const F &f) {
        return F([=](Cx &c) {
            size_t lo = c.b.s.size();
            f(c);
            for(size_t i = lo; i < c.b.s.size(); ++i) c.uses.push_back(i);
        });
    };
    auto attr = [&](Type &t, const std::string &group, const F &f, const std::string &label = "") {
        std::set<std::string> g;
        std::string cur;
        for(char ch : group + " ")
            if(ch == ' ') { if(!cur.empty()) g.insert(cur); cur.clear(); } else cur += ch;
        t.attrs.push_back({label.empty() ? group + "#" + std::to_string(t.attrs.size()) : label, g, f});
    };
    auto type = [&](const std::string &name, const F &make, const std::string &destroy) {
        Type t;
        t.name = name;
        t.setup = none;
        t.make = make;
        t.destroy = destroy;
        return t;
    };
    auto two = [](Cx &c) { c.b.page(); c.b.page(); };

    { // document properties
        auto t = type("document_properties", mk("document_properties_new"), "document_properties_destroy");
        t.document = true;
        for(auto v : {"one", "two"}) {
            attr(t, "title", set("document_properties_set_title", v));
            attr(t, "author", set("document_properties_set_author", v));
            attr(t, "creator", set("document_properties_set_creator", v));
        }
        attr(t, "language", set("document_properties_set_language", "fi-FI"));
        attr(t, "language", set("document_properties_set_language", "en"));
        attr(t, "tagged", set("document_properties_set_tagged", 1));
        attr(t, "tagged", set("document_properties_set_tagged", 0));
        attr(t, "layout", set("document_properties_set_page_layout", 1));
        attr(t, "layout", set("document_properties_set_page_layout", 4));
        attr(t, "mode", set("document_properties_set_page_mode", 1));
        attr(t, "mode", set("document_properties_set_page_mode", 3));
        attr(t, "cs", set("document_properties_set_colorspace", E("CAPY_DEVICE_CS_CMYK")));
        attr(t, "cs", set("document_properties_set_colorspace", E("CAPY_DEVICE_CS_RGB")));
        for(int i = 0; i < 2; ++i)
            attr(t, "pages", [i](Cx &c) {
                auto p = c.b.s("page_properties_new");
                c.b.s("page_properties_set_pagebox", p, E("CAPY_BOX_MEDIA"), 1.0, 2.0, 30.0 + i, 40.0);
                c.b.s("document_properties_set_default_page_properties", c.obj, p);
                if(c.impl) {
                    c.b.s("page_properties_set_pagebox", p, E("CAPY_BOX_MEDIA"), 5.0, 6.0, 70.0, 80.0);
                    c.b.s("page_properties_destroy", p);
                }
            });
        t.uses.push_back({"generator", used([](Cx &c) {
                              auto &s = c.b.s;
                              auto g = s("generator_new", "$OUT/o" + std::to_string(c.files++) + ".pdf", c.obj);
                              auto d = s("page_draw_context_new", g);
                              s("dc_cmd_RG", d, 0.1, 0.2, 0.3);
                              s("generator_add_page", g, d);
                              s("generator_write", g);
                              s("dc_destroy", d);
                              s("generator_destroy", g);
                          })});
        t.uses.push_back({"kept generator", used([](Cx &c) { // written after everything else
                              c.b.gen = c.b.s("generator_new", "$OUT/out.pdf", c.obj);
                              c.b.dc = c.b.s("page_draw_context_new", c.b.gen);
                              c.b.s("dc_cmd_RG", c.b.dc, 0.1, 0.2, 0.3);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("conformance", mk("document_properties_new"), "document_properties_destroy");
        t.document = true;
        attr(t, "sub", set("document_properties_set_pdfx", 0));
        attr(t, "sub", set("document_properties_set_pdfx", 5));
        attr(t, "sub", set("document_properties_set_pdfa", 0));
        attr(t, "sub", set("document_properties_set_pdfa", 6));
        attr(t, "intent", set("document_properties_set_output_intent", "Fogra"));
        attr(t, "intent", set("document_properties_set_output_intent", "other"));
        attr(t, "cs", set("document_properties_set_colorspace", E("CAPY_DEVICE_CS_CMYK")));
        attr(t, "cs", set("document_properties_set_colorspace", E("CAPY_DEVICE_CS_RGB")));
        attr(t, "rgbprof", set("document_properties_set_device_profile", E("CAPY_DEVICE_CS_RGB"), "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc"));
        attr(t, "cmykprof", set("document_properties_set_device_profile", E("CAPY_DEVICE_CS_CMYK"), "$REPO/testdata/icc/FOGRA29L.icc"));
        t.uses = r.back().uses;
        r.push_back(t);
    }
    {
        auto t = type("page_properties", mk("page_properties_new"), "page_properties_destroy");
        int k = 0;
        for(auto bx : {"MEDIA", "CROP", "TRIM"})
            for(double v : {10.0, 20.0}) attr(t, bx, set("page_properties_set_pagebox", E(std::string("CAPY_BOX_") + bx), v, v + k++, v + 100, 300.0));
        for(int i = 0; i < 2; ++i)
            attr(t, "group", [i](Cx &c) {
                auto p = c.b.s("transparency_group_properties_new");
                c.b.s("transparency_group_properties_set_CS", p, i);
                if(i) c.b.s("transparency_group_properties_set_K", p, 1);
                c.b.s("page_properties_set_transparency_group_properties", c.obj, p);
                if(c.impl) {
                    c.b.s("transparency_group_properties_set_I", p, 1);
                    c.b.s("transparency_group_properties_destroy", p);
                }
            });
        t.uses.push_back({"page", used([](Cx &c) { c.b.s("dc_set_custom_page_properties", c.b.dc, c.obj); c.b.page(); })});
        t.uses.push_back({"open page", used([](Cx &c) { c.b.s("dc_set_custom_page_properties", c.b.dc, c.obj); })});
        r.push_back(t);
    }
    {
        auto t = type("transition", mk("transition_new"), "transition_destroy");
        for(int v : {1, 3}) {
            attr(t, "S", set("transition_set_S", v));
            attr(t, "D", set("transition_set_D", v * 0.5));
            attr(t, "Di", set("transition_set_Di", v * 90));
            attr(t, "SS", set("transition_set_SS", v * 0.25));
            attr(t, "Dm", set("transition_set_Dm", v / 2));
            attr(t, "M", set("transition_set_M", v / 2));
            attr(t, "B", set("transition_set_B", v / 2));
        }
        t.setup = [](Cx &c) { c.b.ocg("L"); };
        t.uses.push_back({"page", used([](Cx &c) { c.b.s("dc_set_page_transition", c.b.dc, c.obj); c.b.page(); })});
        t.uses.push_back({"open page", used([](Cx &c) { c.b.s("dc_set_page_transition", c.b.dc, c.obj); })});
        t.uses.push_back({"navigation", used([](Cx &c) {
                              c.b.s("dc_cmd_BDC_ocg", c.b.dc, c.b.ocg("L"));
                              c.b.s("dc_cmd_EMC", c.b.dc);
                              c.b.s("dc_add_simple_navigation", c.b.dc, std::vector<V>{c.b.ocg("L")}, c.obj);
                          })});
        r.push_back(t);
    }
    auto group = [](Cx &c, int k) {
        return c.b.res("group" + std::to_string(k), [&] {
            auto g = c.b.s("transparency_group_new", c.b.gen, 0.0, 0.0, 50.0, 50.0 + k);
            auto tp = c.b.s("transparency_group_properties_new");
            c.b.s("transparency_group_properties_set_CS", tp, E("CAPY_DEVICE_CS_GRAY"));
            c.b.s("dc_set_transparency_group_properties", g, tp);
            return c.b.s("generator_add_transparency_group", c.b.gen, g);
        });
    };
    auto softmask = [=](Cx &c, int k) {
        return c.b.res("mask" + std::to_string(k), [&] {
            return c.b.s("generator_add_soft_mask", c.b.gen, c.b.s("soft_mask_new", k, group(c, k)));
        });
    };
    const F draw_gs = [](Cx &c) { c.b.s("dc_cmd_gs", c.b.dc, c.b.s("generator_add_graphics_state", c.b.gen, c.obj)); };
    {
        auto t = type("graphics_state", mk("graphics_state_new"), "graphics_state_destroy");
        t.setup = [=](Cx &c) { softmask(c, 0); softmask(c, 1); };
        for(int v : {0, 1}) {
            attr(t, "CA", set("graphics_state_set_CA", 0.25 + v / 2.0));
            attr(t, "ca", set("graphics_state_set_ca", 0.25 + v / 2.0));
            attr(t, "BM", set("graphics_state_set_BM", 1 + v));
            attr(t, "op", set("graphics_state_set_op", v));
            attr(t, "OP", set("graphics_state_set_OP", v));
            attr(t, "OPM", set("graphics_state_set_OPM", v));
            attr(t, "FL", set("graphics_state_set_FL", 1.0 + v));
            attr(t, "SM", set("graphics_state_set_SM", v / 2.0));
            attr(t, "AIS", set("graphics_state_set_AIS", v));
            attr(t, "TK", set("graphics_state_set_TK", v));
            attr(t, "BPC", set("graphics_state_set_blackpoint_compensation", v));
            attr(t, "SMask", [=](Cx &c) { c.b.s("graphics_state_set_SMask", c.obj, softmask(c, v)); });
            attr(t, "HT", [=](Cx &c) {
                auto h = c.b.s("halftone_new");
                if(v) c.b.s("halftone_set_type1", h, 60.0, 45.0, 3);
                else c.b.s("halftone_set_default", h);
                c.b.s("graphics_state_set_HT", c.obj, h);
                if(c.impl) {
                    c.b.s("halftone_set_type1", h, 1.0, 2.0, 4);
                    c.b.s("halftone_destroy", h);
                }
            });
        }
        t.uses.push_back({"gs", used(draw_gs)});
        r.push_back(t);
    }
    {
        auto t = type("halftone", mk("halftone_new"), "halftone_destroy");
        attr(t, "ht", set("halftone_set_default"));
        attr(t, "ht", set("halftone_set_type1", 60.0, 45.0, 3));
        attr(t, "ht", set("halftone_set_type1", 75.5, 15.0, 4));
        t.uses.push_back({"HT", used([=](Cx &c) {
                              auto g = c.b.s("graphics_state_new");
                              c.b.s("graphics_state_set_HT", g, c.obj);
                              c.b.s("dc_cmd_gs", c.b.dc, c.b.s("generator_add_graphics_state", c.b.gen, g));
                          })});
        r.push_back(t);
    }
    {
        auto t = type("transparency_group_properties", mk("transparency_group_properties_new"), "transparency_group_properties_destroy");
        for(int v : {0, 1}) {
            attr(t, "CS", set("transparency_group_properties_set_CS", v * 2));
            attr(t, "I", set("transparency_group_properties_set_I", v));
            attr(t, "K", set("transparency_group_properties_set_K", v));
        }
        t.uses.push_back({"group", used([](Cx &c) {
                              auto g = c.b.s("transparency_group_new", c.b.gen, 0.0, 0.0, 50.0, 50.0);
                              c.b.s("dc_set_transparency_group_properties", g, c.obj);
                              c.b.s("dc_cmd_Do_trgroup", c.b.dc, c.b.s("generator_add_transparency_group", c.b.gen, g));
                          })});
        t.uses.push_back({"open page", used([](Cx &c) { c.b.s("dc_set_transparency_group_properties", c.b.dc, c.obj); })});
        t.uses.push_back({"page properties", used([](Cx &c) {
                              auto p = c.b.s("page_properties_new");
                              c.b.s("page_properties_set_transparency_group_properties", p, c.obj);
                              c.b.s("dc_set_custom_page_properties", c.b.dc, p);
                              c.b.page();
                          })});
        r.push_back(t);
    }
    {
        auto t = type("raster_image_builder", mk("raster_image_builder_new"), "raster_image_builder_destroy");
        t.resets = true;
        auto dflt = [=](Cx &c) { (void)c; };
        (void)dflt;
        attr(t, "size", set("raster_image_builder_set_size", 2, 2));
        attr(t, "size", set("raster_image_builder_set_size", 4, 1));
        attr(t, "depth", set("raster_image_builder_set_pixel_depth", 8));
        attr(t, "depth", set("raster_image_builder_set_pixel_depth", 16));
        attr(t, "cs", set("raster_image_builder_set_colorspace", E("CAPY_IMAGE_CS_GRAY")));
        attr(t, "cs", set("raster_image_builder_set_colorspace", E("CAPY_IMAGE_CS_RGB")));
        attr(t, "pixels", set("raster_image_builder_set_pixel_data", std::string("\1\2\3\4", 4)));
        attr(t, "pixels", set("raster_image_builder_set_pixel_data", std::string("\1\2\3\4\5\6\7\10\11\12\13\14", 12)));
        attr(t, "alpha", set("raster_image_builder_set_alpha_data", std::string("\7\7\1\1", 4)));
        attr(t, "adepth", set("raster_image_builder_set_alpha_depth", 8));
        attr(t, "adepth", set("raster_image_builder_set_alpha_depth", 0));
        // All at once, so that there are valid images within the depth.
        attr(t, "size depth cs pixels", [](Cx &c) {
            c.b.s("raster_image_builder_set_size", c.obj, 3, 1);
            c.b.s("raster_image_builder_set_pixel_depth", c.obj, 8);
            c.b.s("raster_image_builder_set_colorspace", c.obj, E("CAPY_IMAGE_CS_GRAY"));
            c.b.s("raster_image_builder_set_pixel_data", c.obj, "abc");
        });
        attr(t, "size depth cs pixels alpha adepth", [](Cx &c) {
            c.b.s("raster_image_builder_set_size", c.obj, 1, 4);
            c.b.s("raster_image_builder_set_pixel_depth", c.obj, 8);
            c.b.s("raster_image_builder_set_colorspace", c.obj, E("CAPY_IMAGE_CS_GRAY"));
            c.b.s("raster_image_builder_set_pixel_data", c.obj, "abcd");
            c.b.s("raster_image_builder_set_alpha_depth", c.obj, 8);
            c.b.s("raster_image_builder_set_alpha_data", c.obj, "wxyz");
        });
        t.uses.push_back({"image", used([](Cx &c) {
                              auto im = c.b.s("raster_image_builder_build", c.obj);
                              auto id = c.b.s("generator_add_image", c.b.gen, im, c.b.s("image_pdf_properties_new"));
                              c.b.s("dc_cmd_Do_image", c.b.dc, id);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("image_pdf_properties", mk("image_pdf_properties_new"), "image_pdf_properties_destroy");
        for(int v : {0, 1}) {
            attr(t, "mask", set("image_pdf_properties_set_mask", v));
            attr(t, "interpolate", set("image_pdf_properties_set_interpolate", 1 + v));
        }
        attr(t, "interpolate", set("image_pdf_properties_set_interpolate", 0));
        t.uses.push_back({"image", used([](Cx &c) {
                              auto rb = c.b.s("raster_image_builder_new");
                              c.b.s("raster_image_builder_set_size", rb, 9, 2);
                              c.b.s("raster_image_builder_set_pixel_depth", rb, 1);
                              c.b.s("raster_image_builder_set_colorspace", rb, E("CAPY_IMAGE_CS_GRAY"));
                              c.b.s("raster_image_builder_set_pixel_data", rb, std::string("\xa5\x80\x5a\x00", 4));
                              auto im = c.b.s("raster_image_builder_build", rb);
                              c.b.s("dc_cmd_Do_image", c.b.dc, c.b.s("generator_add_image", c.b.gen, im, c.obj));
                          })});
        r.push_back(t);
    }
    // annotations
    const F annotate = [](Cx &c) { c.b.s("dc_annotate", c.b.dc, c.b.s("generator_add_annotation", c.b.gen, c.obj)); };
    auto annotation = [&](const std::string &name, const F &make) {
        auto t = type(name, make, "annotation_destroy");
        for(double v : {1.0, 2.0}) attr(t, "rect", set("annotation_set_rectangle", v, v * 2, v + 10, v + 20));
        for(int v : {4, 2, 0}) attr(t, "flags", set("annotation_set_flags", v));
        t.setup = two;
        t.uses.push_back({"annotate", used(annotate)});
        t.uses.push_back({"page", used([=](Cx &c) { annotate(c); c.b.page(); })});
        return t;
    };
    auto destination = [](Cx &c, int v) {
        auto d = c.b.s("destination_new");
        if(v == 0) c.b.s("destination_set_page_fit", d, 0);
        if(v == 1) c.b.s("destination_set_page_xyz", d, 1, 10.0, null, 2.0);
        return d;
    };
    auto after = [](Cx &c, V d) {
        if(!c.impl) return;
        c.b.s("destination_set_page_xyz", d, 1, 1.0, 2.0, 3.0);
        c.b.s("destination_destroy", d);
    };
    r.push_back(annotation("text_annotation", mk("text_annotation_new", "text")));
    {
        auto t = annotation("link_annotation", mk("link_annotation_new"));
        for(int v : {0, 1}) {
            attr(t, "target", [=](Cx &c) {
                auto d = destination(c, v);
                c.b.s("annotation_set_destination", c.obj, d);
                after(c, d);
            });
            attr(t, "target", set("annotation_set_uri", v ? "http://a" : "http://b"));
        }
        r.push_back(t);
    }
    {
        auto t = annotation("line_annotation", mk("line_annotation_new", "text", 1.0, 2.0, 3.0, 4.0));
        for(int v : {0, 1}) {
            attr(t, "leader", set("annotation_set_line_leader", 1.0 + v, v * 3.0));
            attr(t, "endings", set("annotation_set_line_endings", 1 + v, 3 - v));
        }
        r.push_back(t);
    }
    {
        auto field = [](Cx &c, int k) {
            return c.b.res("field" + std::to_string(k), [&] {
                auto f = c.b.s("form_field_new", k == 2 ? 1 : 0);
                c.b.s("form_field_set_T", f, "f" + std::to_string(k));
                return c.b.s("generator_add_form_field", c.b.gen, f);
            });
        };
        auto form = [](Cx &c, int k) {
            return c.b.res("form" + std::to_string(k), [&] {
                auto f = c.b.s("form_xobject_new", c.b.gen, 0.0, 0.0, 10.0, 12.0 + k);
                return c.b.s("generator_add_form_xobject", c.b.gen, f);
            });
        };
        auto t = annotation("widget_annotation", mk("widget_annotation_new"));
        t.setup = [=](Cx &c) { two(c); for(int k = 0; k < 3; ++k) { field(c, k); form(c, k); } };
        for(int v : {0, 1}) {
            attr(t, "parent", [=](Cx &c) { c.b.s("annotation_set_parent_field", c.obj, field(c, v)); });
            attr(t, "button", [=](Cx &c) { c.b.s("annotation_set_widget_button_appearance", c.obj, form(c, v), form(c, 2 - v), v ? "on" : "yes"); });
        }
        r.push_back(t);
    }
    {
        auto stream = [](Cx &c, int k) {
            return c.b.res("3d" + std::to_string(k), [&] {
                return c.b.s("generator_add_3d_stream", c.b.gen, c.b.s("3d_stream_new", "$REPO/testdata/fonts/readme.md", k));
            });
        };
        auto t = annotation("3d_annotation", mk("3d_annotation_new"));
        t.setup = [=](Cx &c) { two(c); stream(c, 0); stream(c, 1); };
        for(int v : {0, 1}) attr(t, "stream", [=](Cx &c) { c.b.s("annotation_set_3d_stream", c.obj, stream(c, v)); });
        r.push_back(t);
    }
    {
        auto t = type("struct_item_extra_data", mk("struct_item_extra_data_new"), "struct_item_extra_data_destroy");
        for(auto v : {"one", "two"}) {
            attr(t, "t", set("struct_item_extra_data_set_t", v));
            attr(t, "lang", set("struct_item_extra_data_set_lang", v));
            attr(t, "alt", set("struct_item_extra_data_set_alt", v));
            attr(t, "actual", set("struct_item_extra_data_set_actual_text", v));
        }
        t.setup = [](Cx &c) {
            c.b.res("root", [&] { return c.b.s("generator_add_structure_item", c.b.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null); });
            c.b.res("role", [&] { return c.b.s("generator_add_rolemap_entry", c.b.gen, "MyRole", E("CAPY_STRUCTURE_TYPE_H1")); });
        };
        t.uses.push_back({"item", used([](Cx &c) {
                              auto i = c.b.s("generator_add_structure_item", c.b.gen, E("CAPY_STRUCTURE_TYPE_P"), c.b.memo["root"], c.obj);
                              c.b.s("dc_cmd_BDC_builtin", c.b.dc, i, null);
                              c.b.s("dc_cmd_EMC", c.b.dc);
                          })});
        t.uses.push_back({"custom item", used([](Cx &c) {
                              auto i = c.b.s("generator_add_custom_structure_item", c.b.gen, c.b.memo["role"], c.b.memo["root"], c.obj);
                              c.b.s("dc_cmd_BDC_builtin", c.b.dc, i, null);
                              c.b.s("dc_cmd_EMC", c.b.dc);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("destination", mk("destination_new"), "destination_destroy");
        attr(t, "to", set("destination_set_page_fit", 0));
        attr(t, "to", set("destination_set_page_fit", 1));
        attr(t, "to", set("destination_set_page_xyz", 0, 1.0, 2.0, 3.0));
        attr(t, "to", set("destination_set_page_xyz", 1, null, 2.0, null));
        attr(t, "to", set("destination_set_page_xyz", 1, 4.0, null, null));
        attr(t, "to", set("destination_set_page_xyz", 0, null, null, 5.0));
        t.setup = two;
        t.uses.push_back({"outline", used([](Cx &c) {
                              auto o = c.b.s("outline_new");
                              c.b.s("outline_set_title", o, "T");
                              c.b.s("outline_set_destination", o, c.obj);
                              c.b.s("generator_add_outline", c.b.gen, o);
                          })});
        t.uses.push_back({"link", used([](Cx &c) {
                              auto a = c.b.s("link_annotation_new");
                              c.b.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
                              c.b.s("annotation_set_destination", a, c.obj);
                              c.b.s("dc_annotate", c.b.dc, c.b.s("generator_add_annotation", c.b.gen, a));
                          })});
        r.push_back(t);
    }
    {
        auto root = [](Cx &c, int k) {
            return c.b.res("outline" + std::to_string(k), [&] {
                auto o = c.b.s("outline_new");
                c.b.s("outline_set_title", o, "R");
                return c.b.s("generator_add_outline", c.b.gen, o);
            });
        };
        auto t = type("outline", mk("outline_new"), "outline_destroy");
        t.setup = [=](Cx &c) { two(c); root(c, 0); root(c, 1); };
        for(int v : {0, 1}) {
            attr(t, "title", set("outline_set_title", v ? "one" : "two"));
            attr(t, "C", set("outline_set_C", v / 2.0, 0.5, 0.25));
            attr(t, "F", set("outline_set_F", 1 + v));
            attr(t, "parent", [=](Cx &c) { c.b.s("outline_set_parent", c.obj, root(c, v)); });
            attr(t, "dest", [=](Cx &c) {
                auto d = destination(c, v);
                c.b.s("outline_set_destination", c.obj, d);
                after(c, d);
            });
        }
        t.uses.push_back({"add", used([](Cx &c) { c.b.s("generator_add_outline", c.b.gen, c.obj); })});
        r.push_back(t);
    }
    {
        auto t = type("shading_pattern", F([](Cx &c) { c.obj = c.b.s("shading_pattern_new", c.b.memo["shading"]); }), "shading_pattern_destroy");
        t.setup = [](Cx &c) {
            c.b.fn2(3);
            c.b.res("shading", [&] { return c.b.s("generator_add_shading", c.b.gen, c.b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 30.0, 40.0, c.b.fn2(3))); });
        };
        for(double v : {2.0, 3.0}) attr(t, "matrix", set("shading_pattern_set_matrix", v, 0.0, 0.0, v, 1.0, 2.0));
        t.uses.push_back({"pattern", used([](Cx &c) {
                              auto p = c.b.s("generator_add_shading_pattern", c.b.gen, c.obj);
                              auto col = c.b.s("color_new");
                              c.b.s("color_set_pattern", col, p);
                              c.b.s("dc_set_nonstroke", c.b.dc, col);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("soft_mask", F([=](Cx &c) { c.obj = c.b.s("soft_mask_new", 1, group(c, 0)); }), "soft_mask_destroy");
        t.setup = [=](Cx &c) { group(c, 0); };
        t.uses.push_back({"SMask", used([](Cx &c) {
                              auto g = c.b.s("graphics_state_new");
                              c.b.s("graphics_state_set_SMask", g, c.b.s("generator_add_soft_mask", c.b.gen, c.obj));
                              c.b.s("dc_cmd_gs", c.b.dc, c.b.s("generator_add_graphics_state", c.b.gen, g));
                          })});
        r.push_back(t);
    }
    {
        auto t = type("embedded_file", mk("embedded_file_new"), "embedded_file_destroy");
        for(auto v : {"one", "three"}) {
            attr(t, "contents", set("embedded_file_set_contents", v));
            attr(t, "subtype", set("embedded_file_set_subtype", v));
            attr(t, "name", set("embedded_file_set_pdf_name", v));
        }
        attr(t, "contents", set("embedded_file_set_contents", ""));
        attr(t, "contents name", set("embedded_file_load_file", "$REPO/testdata/fonts/readme.md"));
        t.uses.push_back({"embed", used([](Cx &c) { c.b.s("generator_embed_file", c.b.gen, c.obj); })});
        t.uses.push_back({"attach", used([](Cx &c) {
                              auto e = c.b.s("generator_embed_file", c.b.gen, c.obj);
                              auto a = c.b.s("file_attachment_annotation_new", e);
                              c.b.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
                              c.b.s("dc_annotate", c.b.dc, c.b.s("generator_add_annotation", c.b.gen, a));
                          })});
        r.push_back(t);
    }
    {
        auto t = type("bdc_tags", mk("bdc_tags_new"), "bdc_tags_destroy");
        attr(t, "", set("bdc_tags_add_tag", "A", "1"), "A");
        attr(t, "", set("bdc_tags_add_tag", "B", "2"), "B");
        attr(t, "", set("bdc_tags_add_tag", "A", "3"), "A again");
        t.uses.push_back({"BDC", used([](Cx &c) { c.b.s("dc_cmd_BDC_testing", c.b.dc, "Tag", c.obj); c.b.s("dc_cmd_EMC", c.b.dc); })});
        r.push_back(t);
    }
    {
        auto t = type("form_field", mk("form_field_new", 2), "form_field_destroy");
        auto par = [](Cx &c, int k) {
            return c.b.res("par" + std::to_string(k), [&] {
                auto f = c.b.s("form_field_new", 2);
                c.b.s("form_field_set_T", f, "p" + std::to_string(k));
                return c.b.s("generator_add_form_field", c.b.gen, f);
            });
        };
        t.setup = [=](Cx &c) { par(c, 0); par(c, 1); };
        for(int v : {0, 1}) {
            attr(t, "T", set("form_field_set_T", v ? "one" : "two"));
            attr(t, "V", set("form_field_set_V", v ? "one" : "two"));
            attr(t, "Ff", set("form_field_set_Ff", 1 << (17 + v)));
            attr(t, "parent", [=](Cx &c) { c.b.s("form_field_set_parent", c.obj, par(c, v)); });
            attr(t, "", set("form_field_add_Opt_entry", v ? "one" : "two"), v ? "Opt one" : "Opt two");
        }
        t.uses.push_back({"field", used([](Cx &c) {
                              auto f = c.b.s("generator_add_form_field", c.b.gen, c.obj);
                              auto w = c.b.s("widget_annotation_new");
                              c.b.s("annotation_set_rectangle", w, 10.0, 20.0, 30.0, 40.5);
                              c.b.s("annotation_set_parent_field", w, f);
                              c.b.s("dc_annotate", c.b.dc, c.b.s("generator_add_annotation", c.b.gen, w));
                          })});
        r.push_back(t);
    }
    auto format = [](Cx &c, int v) { return c.b.s("number_format_new", v ? "mm" : "a unit with a long name", 0.5 + v); };
    auto measure = [=](Cx &c, int v) {
        auto m = c.b.s("measure_new");
        for(auto k : {"X", "Y", "D", "A"}) c.b.s(std::string("measure_append_") + k, m, format(c, v));
        return m;
    };
    {
        auto t = type("viewport", mk("viewport_new", 1.0, 2.0, 3.0, 4.0), "viewport_destroy");
        for(int v : {0, 1})
            attr(t, "measure", [=](Cx &c) {
                auto m = measure(c, v);
                c.b.s("viewport_set_measure", c.obj, m);
                if(c.impl) {
                    c.b.s("measure_append_X", m, format(c, 1));
                    c.b.s("measure_destroy", m);
                }
            });
        t.uses.push_back({"append", used([](Cx &c) { c.b.s("dc_append_viewport", c.b.dc, c.obj); })});
        t.uses.push_back({"page", used([](Cx &c) { c.b.s("dc_append_viewport", c.b.dc, c.obj); c.b.page(); })});
        r.push_back(t);
    }
    {
        auto t = type("measure", mk("measure_new"), "measure_destroy");
        for(auto k : {"X", "Y", "D", "A"})
            attr(t, "", [=](Cx &c) {
                auto f = format(c, 0);
                c.b.s(std::string("measure_append_") + k, c.obj, f);
                if(c.impl) c.b.s("number_format_destroy", f);
            }, k);
        attr(t, "", [=](Cx &c) { // a measure that can be written
            for(auto k : {"X", "Y", "D", "A"}) c.b.s(std::string("measure_append_") + k, c.obj, format(c, 1));
        }, "all");
        t.uses.push_back({"viewport", used([](Cx &c) {
                              auto v = c.b.s("viewport_new", 1.0, 2.0, 3.0, 4.0);
                              c.b.s("viewport_set_measure", v, c.obj);
                              c.b.s("dc_append_viewport", c.b.dc, v);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("number_format", F([=](Cx &c) { c.obj = format(c, 0); }), "number_format_destroy");
        for(auto u : {"X", "Y", "D", "A"})
            t.uses.push_back({u, used([=](Cx &c) {
                                  auto m = c.b.s("measure_new");
                                  for(auto k : {"X", "Y", "D", "A"}) c.b.s(std::string("measure_append_") + k, m, k == std::string(u) ? c.obj : format(c, 1));
                                  auto v = c.b.s("viewport_new", 1.0, 2.0, 3.0, 4.0);
                                  c.b.s("viewport_set_measure", v, m);
                                  c.b.s("dc_append_viewport", c.b.dc, v);
                              })});
        r.push_back(t);
    }
    auto cfield = [](Cx &c, int v) {
        auto f = c.b.s("collection_field_new", v, "Field with a name " + std::to_string(v));
        c.b.s("collection_field_set_O", f, 1 + v);
        return f;
    };
    auto schema = [=](Cx &c, int v) {
        auto sc = c.b.s("collection_schema_new");
        c.b.s("collection_schema_add_entry", sc, "nm", cfield(c, v));
        return sc;
    };
    const F onefile = [](Cx &c) {
        auto e = c.b.s("embedded_file_new");
        c.b.s("embedded_file_set_contents", e, "x");
        c.b.s("embedded_file_set_pdf_name", e, "coll.txt");
        c.b.s("generator_embed_file", c.b.gen, e);
    };
    // A document has one collection; every use is in a document of its own.
    auto collect = [=](const F &f) {
        return used([=](Cx &c) {
            auto gen = c.b.gen;
            auto &s = c.b.s;
            auto md = s("document_properties_new");
            c.b.gen = s("generator_new", "$OUT/o" + std::to_string(c.files++) + ".pdf", md);
            auto d = s("page_draw_context_new", c.b.gen);
            onefile(c);
            f(c);
            s("generator_add_page", c.b.gen, d);
            s("generator_write", c.b.gen);
            s("dc_destroy", d);
            s("generator_destroy", c.b.gen);
            c.b.gen = gen;
        });
    };
    {
        auto t = type("collection", mk("collection_new"), "collection_destroy");
        for(int v : {0, 1}) {
            attr(t, "D", set("collection_set_D", v ? "coll.txt" : "other.txt"));
            attr(t, "view", set("collection_set_view", v));
            attr(t, "schema", [=](Cx &c) {
                auto sc = schema(c, v);
                c.b.s("collection_set_schema", c.obj, sc);
                if(c.impl) {
                    c.b.s("collection_schema_add_entry", sc, "late", cfield(c, 0));
                    c.b.s("collection_schema_destroy", sc);
                }
            });
        }
        t.uses.push_back({"set", collect([](Cx &c) { c.b.s("generator_set_collection", c.b.gen, c.obj); })});
        r.push_back(t);
    }
    {
        auto t = type("collection_schema", mk("collection_schema_new"), "collection_schema_destroy");
        t.inplace = true;
        for(auto n : {"one", "two"})
            for(int v : {0, 1})
                attr(t, n, [=](Cx &c) {
                    auto f = cfield(c, v);
                    c.b.s("collection_schema_add_entry", c.obj, n, f);
                    if(c.impl) {
                        c.b.s("collection_field_set_O", f, 77);
                        c.b.s("collection_field_destroy", f);
                    }
                });
        t.uses.push_back({"set", collect([](Cx &c) {
                              auto k = c.b.s("collection_new");
                              c.b.s("collection_set_schema", k, c.obj);
                              c.b.s("generator_set_collection", c.b.gen, k);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("collection_field", mk("collection_field_new", 0, "Field with a long name"), "collection_field_destroy");
        for(int v : {0, 1}) {
            attr(t, "O", set("collection_field_set_O", 3 + v));
            attr(t, "V", set("collection_field_set_V", v));
            attr(t, "E", set("collection_field_set_E", v));
        }
        t.uses.push_back({"entry", collect([](Cx &c) {
                              auto k = c.b.s("collection_new");
                              auto sc = c.b.s("collection_schema_new");
                              c.b.s("collection_schema_add_entry", sc, "nm", c.obj);
                              c.b.s("collection_set_schema", k, sc);
                              c.b.s("generator_set_collection", c.b.gen, k);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("color", mk("color_new"), "color_destroy");
        t.setup = [](Cx &c) {
            c.b.icc(); c.b.sep(); c.b.lab(); c.b.fn2(3); c.b.font();
            c.b.res("pat", [&] {
                auto p = c.b.s("tiling_pattern_context_new", c.b.gen, 0.0, 0.0, 10.0, 10.0);
                return c.b.s("generator_add_tiling_pattern", c.b.gen, p);
            });
        };
        for(double v : {0.25, 0.5}) {
            attr(t, "c", set("color_set_rgb", v, 0.1, 0.2), "rgb" + std::to_string(v));
            attr(t, "c", set("color_set_gray", v), "gray" + std::to_string(v));
            attr(t, "c", set("color_set_cmyk", v, 0.1, 0.2, 0.3), "cmyk" + std::to_string(v));
            attr(t, "c", [=](Cx &c) { c.b.s("color_set_icc", c.obj, c.b.icc(), D{v, 0.4, 0.3}); }, "icc" + std::to_string(v));
        }
        attr(t, "c", [=](Cx &c) { c.b.s("color_set_separation", c.obj, c.b.sep(), 0.6); }, "separation");
        attr(t, "c", [=](Cx &c) { c.b.s("color_set_lab", c.obj, c.b.lab(), 50.0, -20.0, 30.0); }, "lab");
        attr(t, "c", [=](Cx &c) { c.b.s("color_set_pattern", c.obj, c.b.memo["pat"]); }, "pattern");
        t.uses.push_back({"stroke", used([](Cx &c) { c.b.s("dc_set_stroke", c.b.dc, c.obj); c.b.s("dc_cmd_S", c.b.dc); })});
        t.uses.push_back({"fill", used([](Cx &c) { c.b.s("dc_set_nonstroke", c.b.dc, c.obj); })});
        t.uses.push_back({"function", used([](Cx &c) {
                              auto f = c.b.s("type2_function_new", D{0, 1}, c.obj, c.obj, 1.5);
                              auto sh = c.b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 30.0, 40.0, c.b.s("generator_add_function", c.b.gen, f));
                              c.b.s("dc_cmd_sh", c.b.dc, c.b.s("generator_add_shading", c.b.gen, sh));
                          })});
        t.uses.push_back({"mesh", used([](Cx &c) {
                              auto sh = c.b.s("type4_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 100.0, 100.0);
                              c.b.s("type4_shading_add_triangle", sh, D{0, 0, 50, 100, 100, 0}, std::vector<V>{c.obj, c.obj, c.obj});
                              c.b.s("dc_cmd_sh", c.b.dc, c.b.s("generator_add_shading", c.b.gen, sh));
                          })});
        t.uses.push_back({"text", used([](Cx &c) {
                              auto x = c.b.s("dc_text_new", c.b.dc);
                              c.b.s("text_cmd_Tf", x, c.b.font(), 12.0);
                              c.b.s("text_set_nonstroke", x, c.obj);
                              c.b.s("text_set_stroke", x, c.obj);
                              c.b.s("text_cmd_Tj", x, "t");
                              c.b.s("dc_render_text_obj", c.b.dc, x);
                          })});
        r.push_back(t);
    }
    const F draw_sh = [](Cx &c) { c.b.s("dc_cmd_sh", c.b.dc, c.b.s("generator_add_shading", c.b.gen, c.obj)); };
    for(int k : {2, 3}) {
        auto t = type("type" + std::to_string(k) + "_shading", F([=](Cx &c) {
                          if(k == 2) c.obj = c.b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 30.0, 40.0, c.b.fn2(3));
                          else c.obj = c.b.s("type3_shading_new", E("CAPY_DEVICE_CS_RGB"), D{1, 2, 3, 4, 5, 6}, c.b.fn2(3));
                      }), "shading_destroy");
        t.setup = [](Cx &c) { c.b.fn2(3); };
        for(int v = 0; v < 4; ++v) attr(t, "extend", set("shading_set_extend", v & 1, v / 2));
        for(double v : {0.25, 0.75}) attr(t, "domain", set("shading_set_domain", v / 2, v));
        t.uses.push_back({"sh", used(draw_sh)});
        t.uses.push_back({"pattern", used([](Cx &c) {
                              auto p = c.b.s("shading_pattern_new", c.b.s("generator_add_shading", c.b.gen, c.obj));
                              auto col = c.b.s("color_new");
                              c.b.s("color_set_pattern", col, c.b.s("generator_add_shading_pattern", c.b.gen, p));
                              c.b.s("dc_set_nonstroke", c.b.dc, col);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("type4_shading", mk("type4_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 100.0, 100.0), "shading_destroy");
        auto colour = [](Cx &c, double v) { return c.b.rgb_color(v, 0.5, 0.25); };
        auto spoil = [](Cx &c, V col) {
            if(!c.impl) return;
            c.b.s("color_set_gray", col, 0.125);
            c.b.s("color_destroy", col);
        };
        for(double v : {0.25, 0.75}) {
            attr(t, "", [=](Cx &c) {
                auto col = colour(c, v);
                c.b.s("type4_shading_add_triangle", c.obj, D{0, 0, 50, 100 * v, 100, 0}, std::vector<V>{col, col, col});
                spoil(c, col);
            }, v < 0.5 ? "triangle" : "triangle2");
            attr(t, "", [=](Cx &c) {
                auto col = colour(c, v);
                if(c.impl || true) c.b.s("type4_shading_add_triangle", c.obj, D{0, 0, 50, 100, 100, 0}, std::vector<V>{col, col, col});
                c.b.s("type4_shading_extend", c.obj, v < 0.5 ? 1 : 2, D{80 * v, 80}, col);
                spoil(c, col);
            }, v < 0.5 ? "strip1" : "strip2");
        }
        t.uses.push_back({"sh", used(draw_sh)});
        r.push_back(t);
        t = type("type6_shading", mk("type6_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 0.0, 100.0, 100.0), "shading_destroy");
        for(int v = 0; v < 4; ++v)
            attr(t, "", [=](Cx &c) {
                auto col = colour(c, v / 4.0);
                D co;
                for(int i = 0; i < 24; ++i) co.push_back(i * 4 + v);
                c.b.s("type6_shading_add_patch", c.obj, co, std::vector<V>{col, col, col, col});
                if(v) c.b.s("type6_shading_extend", c.obj, v, D(co.begin(), co.begin() + 16), std::vector<V>{col, col});
                spoil(c, col);
            }, "patch" + std::to_string(v));
        t.uses.push_back({"sh", used(draw_sh)});
        r.push_back(t);
    }
    for(int k : {2, 3, 4}) {
        auto t = type("type" + std::to_string(k) + "_function", F([=](Cx &c) {
                          auto &b = c.b;
                          auto c1 = b.rgb_color(0.1, 0.2, 0.3), c2 = b.rgb_color(0.4, 0.5, 0.6);
                          if(k == 2) c.obj = b.s("type2_function_new", D{0, 1}, c1, c2, 1.5);
                          if(k == 3) c.obj = b.s("type3_function_new", D{0, 1}, std::vector<V>{b.fn2(3), b.fn2(3)}, D{0.5}, D{0, 1, 0, 1});
                          if(k == 4) c.obj = b.s("type4_function_new", D{0, 1}, D{0, 1, 0, 1, 0, 1}, "{dup 0.5 mul exch dup 0.25 mul exch}");
                          if(c.impl) {
                              b.s("color_set_gray", c1, 0.5);
                              b.s("color_destroy", c1);
                              b.s("color_destroy", c2);
                          }
                      }), "function_destroy");
        t.setup = [](Cx &c) { c.b.fn2(3); };
        t.uses.push_back({"shading", used([=](Cx &c) {
                              auto sh = c.b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 30.0, 40.0, c.b.s("generator_add_function", c.b.gen, c.obj));
                              c.b.s("dc_cmd_sh", c.b.dc, c.b.s("generator_add_shading", c.b.gen, sh));
                          })});
        r.push_back(t);
    }
    {
        auto t = type("text_sequence", mk("text_sequence_new"), "text_sequence_destroy");
        t.resets = true;
        t.setup = [](Cx &c) { c.b.font(); };
        attr(t, "", set("text_sequence_append_string", "AV"), "string");
        attr(t, "", set("text_sequence_append_kerning", 100), "kerning");
        attr(t, "", set("text_sequence_append_codepoint", 0x56), "codepoint");
        attr(t, "", set("text_sequence_append_raw_glyph", 40, 0x45), "raw");
        attr(t, "", set("text_sequence_append_ligature_glyph", 50, "ffi"), "ligature");
        attr(t, "", [](Cx &c) {
            c.b.s("text_sequence_append_actualtext_start", c.obj, "actual");
            c.b.s("text_sequence_append_codepoint", c.obj, 0x57);
            c.b.s("text_sequence_append_actualtext_end", c.obj);
        }, "actual");
        t.uses.push_back({"TJ", used([](Cx &c) {
                              auto x = c.b.s("dc_text_new", c.b.dc);
                              c.b.s("text_cmd_Tf", x, c.b.font(), 12.0);
                              c.b.s("text_cmd_TJ", x, c.obj);
                              c.b.s("dc_render_text_obj", c.b.dc, x);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("font_properties", mk("font_properties_new"), "font_properties_destroy");
        attr(t, "subfont", set("font_properties_set_subfont", 0));
        for(int v : {0, 1}) {
            attr(t, "instance", set("font_properties_set_named_instance", v));
            attr(t, "wght", set("font_properties_set_variation", "wght", 300 + 200 * v));
            attr(t, "GRAD", set("font_properties_set_variation", "GRAD", 100 * v));
        }
        t.uses.push_back({"load", used([](Cx &c) {
                              auto f = c.b.s("generator_load_font", c.b.gen, "$REPO/testdata/fonts/AmstelVar-Roman.ttf", c.obj);
                              c.b.s("dc_render_text", c.b.dc, "Ag", f, 10.0, 1.0, 2.0);
                          })});
        r.push_back(t);
    }
    {
        auto t = type("3d_stream", mk("3d_stream_new", "$REPO/testdata/fonts/readme.md", 1), "3d_stream_destroy");
        t.uses.push_back({"annotation", used([](Cx &c) {
                              auto a = c.b.s("3d_annotation_new");
                              c.b.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
                              c.b.s("annotation_set_3d_stream", a, c.b.s("generator_add_3d_stream", c.b.gen, c.obj));
                              c.b.s("dc_annotate", c.b.dc, c.b.s("generator_add_annotation", c.b.gen, a));
                          })});
        r.push_back(t);
    }
    {
        auto t = type("optional_content_group", mk("optional_content_group_new", "a layer"), "optional_content_group_destroy");
        t.uses.push_back({"layer", used([](Cx &c) {
                              c.b.s("dc_cmd_BDC_ocg", c.b.dc, c.b.s("generator_add_optional_content_group", c.b.gen, c.obj));
                              c.b.s("dc_cmd_EMC", c.b.dc);
                          })});
        r.push_back(t);
    }
    { // a draw context is an option object as far as the attributes of its page go
        auto t = type("page", F([](Cx &c) { c.obj = c.b.s("page_draw_context_new", c.b.gen); }), "dc_destroy");
        t.resets = true;
        for(int v : {0, 1}) {
            attr(t, "trans", [=](Cx &c) {
                auto x = c.b.s("transition_new");
                c.b.s("transition_set_S", x, 2 + v);
                c.b.s("dc_set_page_transition", c.obj, x);
                if(c.impl) { c.b.s("transition_set_D", x, 9.0); c.b.s("transition_destroy", x); }
            });
            attr(t, "props group", [=](Cx &c) {
                auto p = c.b.s("page_properties_new");
                c.b.s("page_properties_set_pagebox", p, E("CAPY_BOX_MEDIA"), 0.0, 0.0, 100.0 + v, 50.0);
                c.b.s("dc_set_custom_page_properties", c.obj, p);
                if(c.impl) { c.b.s("page_properties_set_pagebox", p, E("CAPY_BOX_ART"), 1.0, 1.0, 2.0, 2.0); c.b.s("page_properties_destroy", p); }
            });
            attr(t, "group", [=](Cx &c) {
                auto p = c.b.s("transparency_group_properties_new");
                c.b.s("transparency_group_properties_set_CS", p, v);
                c.b.s("dc_set_transparency_group_properties", c.obj, p);
                if(c.impl) { c.b.s("transparency_group_properties_set_K", p, 1); c.b.s("transparency_group_properties_destroy", p); }
            });
            attr(t, "", set("dc_cmd_w", 1.0 + v), v ? "draw" : "draw2");
        }
        t.uses.push_back({"commit", used([](Cx &c) { c.b.s("generator_add_page", c.b.gen, c.obj); })});
        r.push_back(t);
    }
    { // the same for a transparency group, which is used once
        auto t = type("transparency group", F([](Cx &c) { c.obj = c.b.s("transparency_group_new", c.b.gen, 0.0, 0.0, 50.0, 50.0); }), "dc_destroy");
        for(int v : {0, 1}) {
            attr(t, "matrix", set("dc_set_group_matrix", 1.0, 0.0, 0.0, 1.0, 2.0 + v, 3.0));
            attr(t, "group", [=](Cx &c) {
                auto p = c.b.s("transparency_group_properties_new");
                c.b.s("transparency_group_properties_set_CS", p, v);
                c.b.s("dc_set_transparency_group_properties", c.obj, p);
                if(c.impl) { c.b.s("transparency_group_properties_set_K", p, 1); c.b.s("transparency_group_properties_destroy", p); }
            });
        }
        t.uses.push_back({"add", used([](Cx &c) { c.b.s("dc_cmd_Do_trgroup", c.b.dc, c.b.s("generator_add_transparency_group", c.b.gen, c.obj)); })});
        r.push_back(t);
    }
    return r;
}

static std::string run(const Type &t, const std::vector<size_t> &seq, bool impl, Ctx &cx, std::string &problem) {
    Cx c;
    c.impl = impl;
    if(!t.document) {
        c.b.props();
        c.b.start();
        t.setup(c);
    }
    std::vector<size_t> state; // attributes that count
    if(impl) t.make(c);
    bool open = t.document;
    for(size_t o : seq) {
        if(o < t.attrs.size()) {
            if(impl) t.attrs[o].f(c);
            if(t.inplace) {
                auto same = std::find_if(state.begin(), state.end(), [&](size_t x) { return t.attrs[x].groups == t.attrs[o].groups; });
                if(same != state.end()) { *same = o; continue; }
            }
            state.push_back(o);
            // drop what was replaced completely
            std::set<std::string> later;
            std::vector<size_t> keep;
            for(size_t k = state.size(); k-- > 0;) {
                auto &g = t.attrs[state[k]].groups;
                bool covered = !g.empty();
                for(auto &x : g) covered = covered && later.count(x);
                if(!covered) keep.insert(keep.begin(), state[k]);
                later.insert(g.begin(), g.end());
            }
            state = keep;
        } else {
            if(!impl) {
                t.make(c);
                for(size_t a : state) t.attrs[a].f(c);
            }
            t.uses[o - t.attrs.size()].f(c);
            if(t.resets) state.clear();
        }
    }
    if(impl) {
        // The object is changed once more, and then it is gone.
        for(size_t a = 0; a < std::min<size_t>(2, t.attrs.size()); ++a) t.attrs[a].f(c);
        c.b.s.add(t.destroy, {mkval(c.obj)});
    }
    if(!open) c.b.finish();
    else if(c.b.gen.slot >= 0) {
        c.b.s("generator_add_page", c.b.gen, c.b.dc);
        c.b.s("generator_write", c.b.gen);
    }
    const int last = (int)c.b.s.size() - 1;
    const bool written = !open || c.b.gen.slot >= 0; // the last call writes the document
    for(int k = 0; k < 8; ++k) std::filesystem::remove(subst("$OUT/o" + std::to_string(k) + ".pdf"));
    std::filesystem::remove(subst("$OUT/out.pdf"));
    if(cx.replaying) cx.script(c.b.s);
    auto o = execute(c.b.s);
    cx.transitions(c.b.s.size());
    cx.traces();
    std::set<size_t> uses(c.uses.begin(), c.uses.end());
    std::string r;
    for(size_t i : c.uses) r += std::to_string(o.rc[i]) + ",";
    r += "|" + (written ? std::to_string(o.rc[last]) : std::string()) + "\n";
    if(impl)
        for(size_t i = 0; i < (size_t)last; ++i)
            if(o.rc[i] && o.rc[i] != SKIPPED && !uses.count(i) && problem.empty()) problem = fns()[(size_t)c.b.s.ops[i].fn].name;
    auto file = [&](const std::string &f) {
        auto p = subst(f);
        r += file_exists(p) ? masked(read_file(p)) : std::string("(none)");
        r += "\n=====\n";
    };
    file("$OUT/out.pdf");
    for(int k = 0; k < c.files; ++k) file("$OUT/o" + std::to_string(k) + ".pdf");
    return r;
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C21";
    c.bounds = "For each of 43 types of option objects: all sequences of uses and attribute settings (two or more values for every attribute) up to a length that depends on the size of the alphabet "
               "(between 2 and 6, thorough one more), followed by every use, a further change and the destruction of the object; helper objects are changed and destroyed right after they were passed.";
    c.assumptions = {"A raster image is consumed by being added; this is how the interface is documented to avoid copies.", "A raster image builder starts again after it built an image, a page draw context after its page was added, a text sequence after it was drawn."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        static const auto all = types();
        for(auto &t : all) {
            const size_t A = t.attrs.size() + t.uses.size(), U = t.uses.size();
            const double budget = thorough ? 60000 : 2500;
            for(int len = 0; len <= 6; ++len) {
                size_t n = U;
                for(int k = 0; k < len; ++k) n *= A;
                if(len > 2 && (double)n > budget) break;
                auto decode = [=](size_t i) {
                    std::vector<size_t> s;
                    size_t u = i % U;
                    i /= U;
                    for(int k = 0; k < len; ++k) { s.push_back(i % A); i /= A; }
                    s.push_back(A - U + u);
                    return s;
                };
                const Type *tp = &t;
                if(t.name == "transparency group" && len > 4) break;
                f.push_back({t.name + std::to_string(len), n, [=](size_t i, Ctx &cx) {
                    auto s = decode(i);
                    if(tp->name == "transparency group") { // one use, at the end
                        for(size_t k = 0; k + 1 < s.size(); ++k)
                            if(s[k] >= tp->attrs.size()) return;
                    }
                    std::string problem, p2;
                    auto a = run(*tp, s, true, cx, problem), b = run(*tp, s, false, cx, p2);
                    if(!problem.empty()) cx.violation("rejected although allowed: " + problem);
                    if(a != b) {
                        size_t k = 0;
                        while(k < a.size() && k < b.size() && a[k] == b[k]) ++k;
                        auto cut = [&](const std::string &x) { size_t lo = k > 40 ? k - 40 : 0; return lo < x.size() ? x.substr(lo, 100) : std::string(); };
                        cx.violation(tp->name + " is not a value", "...'" + cut(a) + "' instead of '" + cut(b) + "'");
                    }
                    cx.state(b);
                    cx.sample(tp->name);
                }, [=](size_t i) {
                    std::string r = tp->name + ":";
                    for(size_t o : decode(i)) r += " " + (o < tp->attrs.size() ? tp->attrs[o].name : tp->uses[o - tp->attrs.size()].name);
                    return r;
                }});
            }
        }
        return f;
    };
    return check_main(argc, argv, c);
}
