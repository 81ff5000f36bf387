#include "draw.hpp"
namespace mc {
static std::string str(int k) { return std::to_string(k); }
V W::img(int k) { return image(5 + k, 3, k % 3 == 0 ? 1 : k % 3 == 1 ? 3 : 4); }
std::string img_label(int k) { return "image " + str(5 + k) + "x3"; }
V W::group(int k) {
    return res("G" + str(k), [&] {
        auto g = s("transparency_group_new", gen, 0.0, 0.0, 30.0 + k, 30.0);
        s("dc_cmd_re", g, 1.0, 1.0, 2.0 + k, 2.0);
        s("dc_cmd_f", g);
        auto tp = s("transparency_group_properties_new");
        s("transparency_group_properties_set_I", tp, 1);
        s("dc_set_transparency_group_properties", g, tp);
        auto id = s("generator_add_transparency_group", gen, g);
        return id;
    });
}
std::string group_label(int k) { return "group 0,0," + str(30 + k) + ",30"; }
V W::form(int k) {
    return res("F" + str(k), [&] {
        auto g = s("form_xobject_new", gen, 0.0, 0.0, 40.0 + k, 30.0);
        s("dc_cmd_re", g, 1.0, 1.0, 2.0 + k, 2.0);
        s("dc_cmd_f", g);
        return s("generator_add_form_xobject", gen, g);
    });
}
std::string form_label(int k) { return "form 0,0," + str(40 + k) + ",30"; }
V W::gs(int k) {
    return res("GS" + str(k), [&] {
        auto g = s("graphics_state_new");
        s("graphics_state_set_CA", g, 0.25 + k / 8.0);
        return s("generator_add_graphics_state", gen, g);
    });
}
std::string gs_label(int k) { XOp x = X("", 0.25 + k / 8.0); auto t = show(x); return "gs " + t.substr(0, t.size() - 1); }
V W::shade(int k) {
    return res("SH" + str(k), [&] {
        auto sh = s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 10.0 + k, 4.0, fn2(3));
        return s("generator_add_shading", gen, sh);
    });
}
std::string shade_label(int k) { return "shading2 1,2," + str(10 + k) + ",4"; }
V W::tiling(int k) {
    return res("TP" + str(k), [&] {
        auto p = s("tiling_pattern_context_new", gen, 0.0, 0.0, 5.0 + k, 5.0);
        s("dc_cmd_re", p, 1.0, 1.0, 1.0 + k, 3.0);
        s("dc_cmd_f", p);
        return s("generator_add_tiling_pattern", gen, p);
    });
}
std::string tiling_label(int k) { return "tiling 0,0," + str(5 + k) + ",5"; }
V W::shpat(int k) {
    return res("SP" + str(k), [&] { return s("generator_add_shading_pattern", gen, s("shading_pattern_new", shade(k))); });
}
std::string shpat_label(int k) { return "shpattern " + shade_label(k); }
static const char *fontfile[] = {"NotoSans-Regular.ttf", "P052-Roman.otf", "NotoSerif-Regular.ttf", "NotoSans-Bold.ttf"};
V W::fontk(int k) { return font(fontfile[k]); }
std::string font_label(int k) {
    static const char *n[] = {"NotoSans-Regular", "P052-Roman", "NotoSerif-Regular", "NotoSans-Bold"};
    return std::string("font ") + n[k];
}
V W::structure() {
    auto root = res("structroot", [&] { return s("generator_add_structure_item", gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null); });
    ++nstruct;
    return s("generator_add_structure_item", gen, E("CAPY_STRUCTURE_TYPE_P"), root, null);
}
V W::context(int kind) {
    switch(kind) {
    case 1: return s("form_xobject_new", gen, 0.0, 0.0, 100.0, 90.0);
    case 2: return s("transparency_group_new", gen, 0.0, 0.0, 101.0, 90.0);
    case 3: return s("tiling_pattern_context_new", gen, 0.0, 0.0, 102.0, 90.0);
    }
    return s("page_draw_context_new", gen);
}

static V color(W &w, int k) {
    auto c = w.s("color_new");
    switch(k) {
    case 0: w.s("color_set_rgb", c, 0.125, 0.25, 0.5); break;
    case 1: w.s("color_set_gray", c, 0.625); break;
    case 2: w.s("color_set_cmyk", c, 0.1, 0.2, 0.3, 0.4); break;
    case 3: w.s("color_set_icc", c, w.icc(), std::vector<double>{0.1, 0.2, 0.75}); break;
    case 4: w.s("color_set_separation", c, w.sep(), 0.375); break;
    case 5: w.s("color_set_lab", c, w.lab(), 50.5, -20.25, 30.0); break;
    case 6: w.s("color_set_pattern", c, w.tiling(0)); break;
    case 7: w.s("color_set_pattern", c, w.shpat(1)); break;
    }
    return c;
}
static std::vector<XOp> color_want(int k, bool st) {
    static std::string icc;
    switch(k) {
    case 0: return {X(st ? "RG" : "rg", 0.125, 0.25, 0.5)};
    case 1: return {X(st ? "G" : "g", 0.625)};
    case 2: return {X(st ? "K" : "k", 0.1, 0.2, 0.3, 0.4)};
    case 3:
        if(icc.empty()) icc = "icc3:" + std::to_string(pdf::hash(read_file(repo_dir() + "/testdata/icc/compatibleWithAdobeRGB1998.icc")) % 100000);
        return {X(st ? "CS" : "cs", icc), X(st ? "SCN" : "scn", 0.1, 0.2, 0.75)};
    case 4: return {X(st ? "CS" : "cs", "sep Gold"), X(st ? "SCN" : "scn", 0.375)};
    case 5: return {X(st ? "CS" : "cs", "lab 0.9505,1,1.089"), X(st ? "SCN" : "scn", 50.5, -20.25, 30.0)};
    case 6: return {X(st ? "CS" : "cs", "/Pattern"), X(st ? "SCN" : "scn", tiling_label(0))};
    default: return {X(st ? "CS" : "cs", "/Pattern"), X(st ? "SCN" : "scn", shpat_label(1))};
    }
}

const std::vector<DrawOp> &draw_ops() {
    static const std::vector<DrawOp> all = [] {
        std::vector<DrawOp> r;
        auto plain = [&](const char *fn, const char *op, std::vector<double> a) {
            XOp x{op, {}};
            for(auto d : a) x.a.push_back(A(d));
            std::string f = std::string("dc_cmd_") + fn;
            r.push_back({fn, [f, a](W &w, V dc) {
                             std::vector<Val> v{mkval(dc)};
                             for(auto d : a) v.push_back(mkval(d));
                             w.s.add(f, v);
                         }, {x}, DrawOp::PLAIN, false, false});
        };
        r.push_back({"q", [](W &w, V dc) { w.s("dc_cmd_q", dc); }, {X("q")}, DrawOp::PUSH_Q});
        r.push_back({"Q", [](W &w, V dc) { w.s("dc_cmd_Q", dc); }, {X("Q")}, DrawOp::POP_Q});
        r.push_back({"EMC", [](W &w, V dc) { w.s("dc_cmd_EMC", dc); }, {X("EMC")}, DrawOp::POP_M});
        r.push_back({"BMC", [](W &w, V dc) { w.s("dc_cmd_BMC", dc, "Tag"); }, {X("BMC", "/Tag")}, DrawOp::PUSH_M});
        r.push_back({"BDC_ocg", [](W &w, V dc) { w.s("dc_cmd_BDC_ocg", dc, w.ocg("L0")); }, {X("BDC", "/OC", "ocg L0")}, DrawOp::PUSH_M});
        r.push_back({"BDC_testing", [](W &w, V dc) {
                         auto t = w.s("bdc_tags_new");
                         w.s("bdc_tags_add_tag", t, "Key", "Va(l");
                         w.s("dc_cmd_BDC_testing", dc, "Tst", t);
                     }, {X("BDC", "/Tst", "<<Key=Va(l>>")}, DrawOp::PUSH_M});
        r.push_back({"BDC_builtin", [](W &w, V dc) { w.s("dc_cmd_BDC_builtin", dc, w.structure(), null); }, {X("BDC", "/P", "MCID")}, DrawOp::PUSH_M, true, true});
        plain("re", "re", {1.5, -2, 3, 4.25});
        plain("b", "b", {}); plain("B", "B", {}); plain("bstar", "b*", {}); plain("Bstar", "B*", {});
        plain("f", "f", {}); plain("fstar", "f*", {}); plain("h", "h", {}); plain("n", "n", {});
        plain("s", "s", {}); plain("S", "S", {}); plain("W", "W", {}); plain("Wstar", "W*", {});
        plain("m", "m", {1, 2.5}); plain("l", "l", {-3, 4});
        plain("c", "c", {1, 2, 3, 4, 5, 6.125}); plain("v", "v", {1, 2, 3, 4}); plain("y", "y", {5, 6, 7, 8});
        plain("cm", "cm", {1, 0.5, -0.5, 1, 20, 30.125});
        plain("w", "w", {2.5}); plain("M", "M", {4}); plain("i", "i", {50});
        plain("G", "G", {0.5}); plain("g", "g", {0.25});
        plain("RG", "RG", {0, 0.5, 1}); plain("rg", "rg", {1, 0.5, 0});
        plain("K", "K", {0, 0.25, 0.5, 1}); plain("k", "k", {1, 0.5, 0.25, 0});
        for(int k = 0; k < 3; ++k) {
            r.push_back({"j" + str(k), [k](W &w, V dc) { w.s("dc_cmd_j", dc, k); }, {X("j", k)}});
            r.push_back({"J" + str(k), [k](W &w, V dc) { w.s("dc_cmd_J", dc, k); }, {X("J", k)}});
        }
        static const char *ri[] = {"/RelativeColorimetric", "/AbsoluteColorimetric", "/Saturation", "/Perceptual"};
        for(int k = 0; k < 4; ++k) r.push_back({"ri" + str(k), [k](W &w, V dc) { w.s("dc_cmd_ri", dc, k); }, {X("ri", ri[k])}});
        r.push_back({"d1", [](W &w, V dc) { w.s("dc_cmd_d", dc, std::vector<double>{3}, 0.0); }, {X("d", "[|3|]", 0)}});
        r.push_back({"d2", [](W &w, V dc) { w.s("dc_cmd_d", dc, std::vector<double>{1, 2.5, 0}, 1.25); }, {X("d", "[|1||2.5||0|]", 1.25)}});
        for(int k = 0; k < 2; ++k) {
            r.push_back({"Do_image" + str(k), [k](W &w, V dc) { w.s("dc_cmd_Do_image", dc, w.img(k)); }, {X("Do", img_label(k))}});
            r.push_back({"Do_trgroup" + str(k), [k](W &w, V dc) { w.s("dc_cmd_Do_trgroup", dc, w.group(k)); }, {X("Do", group_label(k))}});
            r.push_back({"gs" + str(k), [k](W &w, V dc) { w.s("dc_cmd_gs", dc, w.gs(k)); }, {X("gs", gs_label(k))}});
            r.push_back({"sh" + str(k), [k](W &w, V dc) { w.s("dc_cmd_sh", dc, w.shade(k)); }, {X("sh", shade_label(k))}});
        }
        for(int k = 0; k < 8; ++k)
            for(bool st : {false, true})
                r.push_back({(st ? "stroke" : "nonstroke") + str(k), [k, st](W &w, V dc) { auto c = color(w, k); w.s(st ? "dc_set_stroke" : "dc_set_nonstroke", dc, c); }, color_want(k, st)});
        for(int k = 0; k < 2; ++k)
            r.push_back({"text" + str(k), [k](W &w, V dc) { w.s("dc_render_text", dc, k ? "Ay\xc3\xb6" : "Hi", w.fontk(k), 10.0 + k, 3.0, 4.5); },
                         {X("BT"), X("Tf", font_label(k), 10 + k), X("Td", 3, 4.5), X("Tj", k ? "Ay\xc3\xb6" : "Hi"), X("ET")}});
        r.push_back({"textobj", [](W &w, V dc) {
                         auto t = w.s("dc_text_new", dc);
                         w.s("text_cmd_Tf", t, w.fontk(0), 8.0);
                         w.s("text_cmd_Tj", t, "Tt");
                         w.s("text_set_nonstroke", t, color(w, 4));
                         w.s("text_cmd_gs", t, w.gs(2));
                         w.s("dc_render_text_obj", dc, t);
                     }, {X("BT"), X("Tf", font_label(0), 8), X("Tj", "Tt"), X("cs", "sep Gold"), X("scn", 0.375), X("gs", gs_label(2)), X("ET")}});
        r.push_back({"textobj_empty", [](W &w, V dc) { w.s("dc_render_text_obj", dc, w.s("dc_text_new", dc)); }, {X("BT"), X("ET")}});
        r.push_back({"textobj_struct", [](W &w, V dc) {
                         auto t = w.s("dc_text_new", dc);
                         w.s("text_cmd_Tf", t, w.fontk(0), 8.0);
                         w.s("text_cmd_BDC_builtin", t, w.structure());
                         w.s("text_cmd_Tj", t, "s");
                         w.s("text_cmd_EMC", t);
                         w.s("dc_render_text_obj", dc, t);
                     }, {X("BT"), X("Tf", font_label(0), 8), X("BDC", "/P", "MCID"), X("Tj", "s"), X("EMC"), X("ET")}, DrawOp::NEEDS_NO_M, true, true});
        r.push_back({"textobj_emc", [](W &w, V dc) {
                         auto t = w.s("dc_text_new", dc);
                         w.s("text_cmd_EMC", t);
                         w.s("dc_render_text_obj", dc, t);
                     }, {}, DrawOp::BAD});
        r.push_back({"textobj_bdc", [](W &w, V dc) {
                         auto t = w.s("dc_text_new", dc);
                         w.s("text_cmd_BDC_builtin", t, w.structure());
                         w.s("dc_render_text_obj", dc, t);
                     }, {}, DrawOp::BAD, true});
        r.push_back({"w_bad", [](W &w, V dc) { w.s("dc_cmd_w", dc, -1.0); }, {}, DrawOp::BAD});
        r.push_back({"d_bad", [](W &w, V dc) { w.s("dc_cmd_d", dc, std::vector<double>{1, -1}, 0.0); }, {}, DrawOp::BAD});
        r.push_back({"i_bad", [](W &w, V dc) { w.s("dc_cmd_i", dc, 101.0); }, {}, DrawOp::BAD});
        r.push_back({"j_bad", [](W &w, V dc) { w.s("dc_cmd_j", dc, 3); }, {}, DrawOp::BAD});
        r.push_back({"BMC_bad", [](W &w, V dc) { w.s("dc_cmd_BMC", dc, "/Tag"); }, {}, DrawOp::BAD});
        r.push_back({"BDC_bad", [](W &w, V dc) { w.s("dc_cmd_BDC_testing", dc, "Tst", null); }, {}, DrawOp::BAD});
        return r;
    }();
    return all;
}
const DrawOp &draw_op(const std::string &n) {
    for(auto &o : draw_ops())
        if(o.name == n) return o;
    throw std::runtime_error("no draw op " + n);
}
std::vector<DrawOp> nesting_ops() {
    std::vector<DrawOp> r;
    for(auto n : {"q", "Q", "EMC", "BMC", "BDC_ocg", "BDC_builtin", "re", "textobj", "textobj_struct", "textobj_emc", "textobj_bdc"}) r.push_back(draw_op(n));
    return r;
}

bool DCModel::apply(const DrawOp &o) {
    const bool inm = stack.find('M') != std::string::npos;
    switch(o.kind) {
    case DrawOp::PLAIN: break;
    case DrawOp::PUSH_Q: stack += 'q'; break;
    case DrawOp::POP_Q:
        if(stack.empty() || stack.back() != 'q') return false;
        stack.pop_back();
        break;
    case DrawOp::PUSH_M:
        if(inm) return false;
        stack += 'M';
        break;
    case DrawOp::POP_M:
        if(stack.empty() || stack.back() != 'M') return false;
        stack.pop_back();
        break;
    case DrawOp::NEEDS_NO_M:
        if(inm) return false;
        break;
    case DrawOp::BAD: return false;
    }
    for(auto x : o.want) {
        if(o.mcid)
            for(auto &a : x.a)
                if(a.s == "MCID") a.s = "<<MCID=" + std::to_string(mcids++) + ">>";
        out.push_back(std::move(x));
    }
    return true;
}
} // namespace mc
