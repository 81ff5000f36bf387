// Executes scripts of API calls through include/capypdf.hpp. A server: one forked process per script.
// Request: a length line, then "mode inject sub code directory" and the script; reply: a length line, then one line per call.
#include <cstdlib>
#include <capypdf.hpp>
#include "../mc.hpp"
#include <any>
#include <iostream>
#include <sstream>
#include <string_view>
#include <unistd.h>
#include <sys/wait.h>
using namespace mc;
using namespace capypdf;
extern "C" {
void rec_inject(int, int);
void rec_clear();
int rec_calls();
int rec_hit();
int rec_failure();
const char *rec_problems();
}
struct Unsup { std::string why; };
struct SkipOp {};

// A handle that the C++ interface has no class for.
struct RawExtra {
    CapyPDF_StructItemExtraData *p = nullptr;
    ~RawExtra() { capy_struct_item_extra_data_destroy(p); }
};

struct R {
    struct Var { bool set = false; std::shared_ptr<void> obj; const char *type = ""; int64_t i = 0; double d = 0; };
    std::vector<Var> v;
    int mode = 0;
    const Op *o = nullptr;
    std::string out; // results of the current call
    std::vector<std::string> keep;

    const Val &a(size_t n) { return o->a.at(n); }
    Var &slot(const Val &x) {
        if((size_t)x.i >= v.size() || !v[x.i].set) throw SkipOp{};
        return v[x.i];
    }
    bool isnull(size_t n) { return a(n).k == Val::NUL; }
    template <class T> T &h(const Val &x) {
        if(x.k != Val::VAR) throw Unsup{"null"};
        auto &s = slot(x);
        if(std::string(s.type) != typeid(T).name()) throw Unsup{"type"};
        return *static_cast<T *>(s.obj.get());
    }
    template <class T> T &h(size_t n) { return h<T>(a(n)); }
    int64_t I(size_t n) { return a(n).k == Val::VAR ? slot(a(n)).i : a(n).i; }
    double D(size_t n) { return a(n).k == Val::VAR ? slot(a(n)).d : a(n).d; }
    template <class T> T id(size_t n) { return T{(int32_t)I(n)}; }
    template <class T> T en(size_t n) { return (T)I(n); }
    bool B(size_t n) {
        if(I(n) != 0 && I(n) != 1) throw Unsup{"not a truth value"};
        return I(n) != 0;
    }
    std::optional<double> OD(size_t n) { return isnull(n) ? std::optional<double>{} : std::optional<double>{D(n)}; }
    // the text and the length that is passed
    std::string text(size_t n) {
        if(a(n).k != Val::STR) throw Unsup{"null"};
        return subst(a(n).s);
    }
    int64_t len(size_t n) { return a(n).i == (int64_t)a(n).s.size() ? (int64_t)text(n).size() : a(n).i; }
    bool whole(size_t n) { return mode == 1 && len(n) == (int64_t)text(n).size(); }
    const char *cstr(size_t n) {
        keep.push_back(text(n));
        return keep.back().c_str();
    }
    template <class T> void made(size_t n, std::shared_ptr<T> p) {
        auto &s = v.at(a(n).i);
        s.set = true;
        s.obj = p;
        s.type = typeid(T).name();
        out += " h";
    }
    void got_id(size_t n, int64_t x) {
        auto &s = v.at(a(n).i);
        s.set = true;
        s.i = x;
        s.d = (double)x;
        out += " i" + std::to_string(x);
    }
    void got_d(size_t n, double x) {
        auto &s = v.at(a(n).i);
        s.set = true;
        s.d = x;
        char b[64];
        snprintf(b, sizeof b, " d%.17g", x);
        out += b;
    }
    std::vector<double> arr(size_t n) { return a(n).k == Val::DARR ? a(n).da : std::vector<double>(); }
    // Calls f with the colours of the list moved into one array.
    template <class F> void colors(size_t n, F f) {
        std::vector<Color> c;
        c.reserve(a(n).l.size());
        std::vector<Color *> from;
        for(auto &x : a(n).l) from.push_back(&h<Color>(x));
        for(size_t i = 0; i < from.size(); ++i)
            for(size_t k = i + 1; k < from.size(); ++k)
                if(from[i] == from[k]) throw Unsup{"same colour twice"};
        for(auto *p : from) c.push_back(std::move(*p));
        auto back = [&] { for(size_t i = 0; i < from.size(); ++i) *from[i] = std::move(c[i]); };
        try {
            f(c.data(), (uint32_t)c.size());
        } catch(...) {
            back();
            throw;
        }
        back();
    }
};
using Fn = void (*)(R &);
#define F(name, ...) {"capy_" #name, [](R &r) { __VA_ARGS__; }}
// a string argument in both forms: pointer and size, or an object
#define STR1(n, CALLP, CALLS) \
    do { auto T = r.text(n); auto L = (int32_t)r.len(n); if(r.whole(n)) { CALLS; } else { const char *P = r.cstr(n); CALLP; } } while(0)
#define TXT(cls, m, n) STR1(n, r.h<cls>(0).m(P, L), { std::string_view SV(T); if(T.size() % 2) r.h<cls>(0).m(T); else r.h<cls>(0).m(SV); })
#define NEW(name, cls) F(name##_new, r.made(0, std::make_shared<cls>()))

static const std::map<std::string, Fn> table = {
    NEW(destination, Destination),
    NEW(bdc_tags, BDCTags),
    NEW(transparency_group_properties, TransparencyGroupProperties),
    NEW(page_properties, PageProperties),
    NEW(document_properties, DocumentProperties),
    NEW(font_properties, FontProperties),
    NEW(color, Color),
    NEW(text_sequence, TextSequence),
    NEW(graphics_state, GraphicsState),
    NEW(image_pdf_properties, ImagePdfProperties),
    NEW(raster_image_builder, RasterImageBuilder),
    NEW(outline, Outline),
    NEW(link_annotation, Annotation),
    F(destination_set_page_fit, r.h<Destination>(0).set_page_fit(r.I(1))),
    F(destination_set_page_xyz, r.h<Destination>(0).set_page_xyz(r.I(1), r.OD(2), r.OD(3), r.OD(4))),
    F(annotation_set_uri, TXT(Annotation, set_uri, 1)),
    F(annotation_set_rectangle, r.h<Annotation>(0).set_rectangle(r.D(1), r.D(2), r.D(3), r.D(4))),
    F(annotation_set_flags, r.h<Annotation>(0).set_flags(r.en<CapyPDF_Annotation_Flags>(1))),
    F(annotation_set_destination, r.h<Annotation>(0).set_destination(r.h<Destination>(1))),
    F(bdc_tags_add_tag, r.h<BDCTags>(0).add_tag(r.cstr(1), r.len(1), (r.keep.reserve(8), r.cstr(2)), r.len(2))),
    F(transparency_group_properties_set_CS, r.h<TransparencyGroupProperties>(0).set_CS(r.en<CapyPDF_Device_Colorspace>(1))),
    F(transparency_group_properties_set_I, r.h<TransparencyGroupProperties>(0).set_I(r.B(1))),
    F(transparency_group_properties_set_K, r.h<TransparencyGroupProperties>(0).set_K(r.B(1))),
    F(optional_content_group_new, r.made(0, std::make_shared<OptionalContentGroup>(r.cstr(1)))),
    F(page_properties_set_pagebox, r.h<PageProperties>(0).set_pagebox(r.en<CapyPDF_Page_Box>(1), r.D(2), r.D(3), r.D(4), r.D(5))),
    F(page_properties_set_transparency_group_properties, r.h<PageProperties>(0).set_transparency_group_properties(r.h<TransparencyGroupProperties>(1))),
    F(document_properties_set_title, TXT(DocumentProperties, set_title, 1)),
    F(document_properties_set_author, TXT(DocumentProperties, set_author, 1)),
    F(document_properties_set_creator, TXT(DocumentProperties, set_creator, 1)),
    F(document_properties_set_language, TXT(DocumentProperties, set_language, 1)),
    F(document_properties_set_output_intent, TXT(DocumentProperties, set_output_intent, 1)),
    F(document_properties_set_device_profile, r.h<DocumentProperties>(0).set_device_profile(r.en<CapyPDF_Device_Colorspace>(1), r.cstr(2))),
    F(document_properties_set_colorspace, r.h<DocumentProperties>(0).set_colorspace(r.en<CapyPDF_Device_Colorspace>(1))),
    F(document_properties_set_pdfx, r.h<DocumentProperties>(0).set_pdfx(r.en<CapyPDF_PDFX_Type>(1))),
    F(document_properties_set_pdfa, r.h<DocumentProperties>(0).set_pdfa(r.en<CapyPDF_PDFA_Type>(1))),
    F(document_properties_set_default_page_properties, r.h<DocumentProperties>(0).set_default_page_properties(r.h<PageProperties>(1))),
    F(document_properties_set_tagged, r.h<DocumentProperties>(0).set_tagged(r.B(1))),
    F(font_properties_set_subfont, r.h<FontProperties>(0).set_subfont(r.I(1))),
    F(font_properties_set_named_instance, r.h<FontProperties>(0).set_named_instance(r.I(1))),
    F(font_properties_set_variation, STR1(1, r.h<FontProperties>(0).set_variation(P, L, r.I(2)), r.h<FontProperties>(0).set_variation(T, r.I(2)))),
    F(color_set_rgb, r.h<Color>(0).set_rgb(r.D(1), r.D(2), r.D(3))),
    F(color_set_cmyk, r.h<Color>(0).set_cmyk(r.D(1), r.D(2), r.D(3), r.D(4))),
    F(color_set_gray, r.h<Color>(0).set_gray(r.D(1))),
    F(color_set_icc, auto x = r.arr(2); r.h<Color>(0).set_icc(r.id<CapyPDF_IccColorSpaceId>(1), x.data(), x.size())),
    F(color_set_pattern, r.h<Color>(0).set_pattern(r.id<CapyPDF_PatternId>(1))),
    F(text_sequence_append_codepoint, r.h<TextSequence>(0).append_codepoint(r.I(1))),
    F(text_sequence_append_kerning, r.h<TextSequence>(0).append_kerning(r.I(1))),
    F(text_sequence_append_string, TXT(TextSequence, append_string, 1)),
    F(text_sequence_append_actualtext_start, TXT(TextSequence, append_actualtext_start, 1)),
    F(text_sequence_append_actualtext_end, r.h<TextSequence>(0).append_actualtext_end()),
    F(text_sequence_append_raw_glyph, r.h<TextSequence>(0).append_raw_glyph(r.I(1), r.I(2))),
    F(text_sequence_append_ligature_glyph, STR1(2, r.h<TextSequence>(0).append_ligature_glyph(r.I(1), P, L), r.h<TextSequence>(0).append_ligature_glyph(r.I(1), T))),
    F(text_cmd_Tj, TXT(Text, cmd_Tj, 1)),
    F(text_cmd_BDC_builtin, r.h<Text>(0).cmd_BDC(r.id<CapyPDF_StructureItemId>(1))),
    F(text_cmd_EMC, r.h<Text>(0).cmd_EMC()),
    F(text_cmd_Tc, r.h<Text>(0).cmd_Tc(r.D(1))),
    F(text_cmd_Td, r.h<Text>(0).cmd_Td(r.D(1), r.D(2))),
    F(text_cmd_TD, r.h<Text>(0).cmd_TD(r.D(1), r.D(2))),
    F(text_cmd_Tf, r.h<Text>(0).cmd_Tf(r.id<CapyPDF_FontId>(1), r.D(2))),
    F(text_cmd_TJ, r.h<Text>(0).cmd_TJ(r.h<TextSequence>(1))),
    F(text_cmd_TL, r.h<Text>(0).cmd_TL(r.D(1))),
    F(text_cmd_Tm, r.h<Text>(0).cmd_Tm(r.D(1), r.D(2), r.D(3), r.D(4), r.D(5), r.D(6))),
    F(text_cmd_Tr, r.h<Text>(0).cmd_Tr(r.en<CapyPDF_Text_Mode>(1))),
    F(text_cmd_Tstar, r.h<Text>(0).cmd_Tstar()),
    F(text_set_nonstroke, r.h<Text>(0).set_nonstroke(r.h<Color>(1))),
    F(text_set_stroke, r.h<Text>(0).set_stroke(r.h<Color>(1))),
    F(text_cmd_w, r.h<Text>(0).cmd_w(r.D(1))),
    F(text_cmd_M, r.h<Text>(0).cmd_M(r.D(1))),
    F(text_cmd_j, r.h<Text>(0).cmd_j(r.en<CapyPDF_Line_Join>(1))),
    F(text_cmd_J, r.h<Text>(0).cmd_J(r.en<CapyPDF_Line_Cap>(1))),
    F(text_cmd_d, auto x = r.arr(1); r.h<Text>(0).cmd_d(x.data(), x.size(), r.D(2))),
    F(text_cmd_gs, r.h<Text>(0).cmd_gs(r.id<CapyPDF_GraphicsStateId>(1))),
    F(graphics_state_set_BM, r.h<GraphicsState>(0).set_BM(r.en<CapyPDF_Blend_Mode>(1))),
    F(graphics_state_set_ca, r.h<GraphicsState>(0).set_ca(r.D(1))),
    F(graphics_state_set_CA, r.h<GraphicsState>(0).set_CA(r.D(1))),
    F(graphics_state_set_op, r.h<GraphicsState>(0).set_op(r.I(1))),
    F(graphics_state_set_OP, r.h<GraphicsState>(0).set_OP(r.I(1))),
    F(graphics_state_set_OPM, r.h<GraphicsState>(0).set_OPM(r.I(1))),
    F(graphics_state_set_SMask, r.h<GraphicsState>(0).set_SMask(r.id<CapyPDF_SoftMaskId>(1))),
    F(graphics_state_set_TK, r.h<GraphicsState>(0).set_TK(r.I(1))),
    F(type2_function_new, auto d = r.arr(0); auto &c1 = r.h<Color>(1); auto &c2 = r.h<Color>(2);
      r.made(4, r.mode == 1 && r.D(3) == 1.0 ? std::make_shared<Type2Function>(d.data(), d.size(), c1, c2) : std::make_shared<Type2Function>(d.data(), d.size(), c1, c2, r.D(3)))),
    F(type3_function_new, auto d = r.arr(0); auto b = r.arr(2); auto e = r.arr(3); std::vector<CapyPDF_FunctionId> f;
      for(auto &x : r.a(1).l) f.push_back({(int32_t)(x.k == Val::VAR ? r.slot(x).i : x.i)});
      r.made(4, std::make_shared<Type3Function>(d.data(), d.size(), f.data(), f.size(), b.data(), b.size(), e.data(), e.size()))),
    F(type4_function_new, auto d = r.arr(0); auto g = r.arr(1);
      STR1(2, r.made(3, std::make_shared<Type4Function>(d.data(), d.size(), g.data(), g.size(), P, L)), r.made(3, std::make_shared<Type4Function>(d.data(), d.size(), g.data(), g.size(), T)))),
    F(type2_shading_new, r.made(6, std::make_shared<Type2Shading>(r.en<CapyPDF_Device_Colorspace>(0), r.D(1), r.D(2), r.D(3), r.D(4), r.id<CapyPDF_FunctionId>(5)))),
    F(type3_shading_new, auto d = r.arr(1); r.made(3, std::make_shared<Type3Shading>(r.en<CapyPDF_Device_Colorspace>(0), d.data(), d.size(), r.id<CapyPDF_FunctionId>(2)))),
    F(type4_shading_new, r.made(5, std::make_shared<Type4Shading>(r.en<CapyPDF_Device_Colorspace>(0), r.D(1), r.D(2), r.D(3), r.D(4)))),
    F(type6_shading_new, r.made(5, std::make_shared<Type6Shading>(r.en<CapyPDF_Device_Colorspace>(0), r.D(1), r.D(2), r.D(3), r.D(4)))),
    F(shading_set_extend, if(r.slot(r.a(0)).type == std::string(typeid(Type3Shading).name())) r.h<Type3Shading>(0).set_extend(r.B(1), r.B(2)); else r.h<Type2Shading>(0).set_extend(r.B(1), r.B(2))),
    F(shading_set_domain, if(r.slot(r.a(0)).type == std::string(typeid(Type3Shading).name())) r.h<Type3Shading>(0).set_domain(r.D(1), r.D(2)); else r.h<Type2Shading>(0).set_domain(r.D(1), r.D(2))),
    F(type4_shading_add_triangle, auto d = r.arr(1); auto &s = r.h<Type4Shading>(0); r.colors(2, [&](Color *c, uint32_t n) { s.add_triangle(d.data(), d.size(), c, n); })),
    F(type4_shading_extend, auto d = r.arr(2); r.h<Type4Shading>(0).extend(r.I(1), d.data(), d.size(), r.h<Color>(3))),
    F(type6_shading_add_patch, auto d = r.arr(1); auto &s = r.h<Type6Shading>(0); r.colors(2, [&](Color *c, uint32_t n) { s.add_patch(d.data(), d.size(), c, n); })),
    F(type6_shading_extend, auto d = r.arr(2); auto &s = r.h<Type6Shading>(0); auto f = r.I(1); r.colors(3, [&](Color *c, uint32_t n) { s.extend(f, d.data(), d.size(), c, n); })),
    F(shading_pattern_new, r.made(1, std::make_shared<ShadingPattern>(r.id<CapyPDF_ShadingId>(0)))),
    F(shading_pattern_set_matrix, r.h<ShadingPattern>(0).set_matrix(r.D(1), r.D(2), r.D(3), r.D(4), r.D(5), r.D(6))),
#define DC r.h<DrawContext>(0)
    F(dc_annotate, DC.annotate(r.id<CapyPDF_AnnotationId>(1))),
    F(dc_cmd_b, DC.cmd_b()), F(dc_cmd_B, DC.cmd_B()), F(dc_cmd_bstar, DC.cmd_bstar()), F(dc_cmd_Bstar, DC.cmd_Bstar()),
    F(dc_cmd_BDC_ocg, DC.cmd_BDC(r.id<CapyPDF_OptionalContentGroupId>(1))),
    F(dc_cmd_BDC_builtin, auto s = r.id<CapyPDF_StructureItemId>(1); if(!r.isnull(2)) DC.cmd_BDC(s, &r.h<BDCTags>(2)); else if(r.mode == 1) DC.cmd_BDC(s); else DC.cmd_BDC(s, nullptr)),
    F(dc_cmd_BDC_testing, DC.cmd_BDC_testing(r.cstr(1), r.len(1), r.isnull(2) ? nullptr : &r.h<BDCTags>(2))),
    F(dc_cmd_c, DC.cmd_c(r.D(1), r.D(2), r.D(3), r.D(4), r.D(5), r.D(6))),
    F(dc_cmd_cm, if(r.mode == 1 && r.D(1) == 1 && r.D(2) == 0 && r.D(3) == 0 && r.D(4) == 1) DC.translate(r.D(5), r.D(6));
      else if(r.mode == 1 && r.D(2) == 0 && r.D(3) == 0 && r.D(5) == 0 && r.D(6) == 0) DC.scale(r.D(1), r.D(4)); else DC.cmd_cm(r.D(1), r.D(2), r.D(3), r.D(4), r.D(5), r.D(6))),
    F(dc_cmd_Do_trgroup, DC.cmd_Do(r.id<CapyPDF_TransparencyGroupId>(1))),
    F(dc_cmd_Do_image, DC.cmd_Do(r.id<CapyPDF_ImageId>(1))),
    F(dc_cmd_EMC, DC.cmd_EMC()), F(dc_cmd_f, DC.cmd_f()), F(dc_cmd_fstar, DC.cmd_fstar()), F(dc_cmd_h, DC.cmd_h()),
    F(dc_cmd_g, DC.cmd_g(r.D(1))), F(dc_cmd_G, DC.cmd_G(r.D(1))),
    F(dc_cmd_k, DC.cmd_k(r.D(1), r.D(2), r.D(3), r.D(4))), F(dc_cmd_K, DC.cmd_K(r.D(1), r.D(2), r.D(3), r.D(4))),
    F(dc_cmd_m, DC.cmd_m(r.D(1), r.D(2))), F(dc_cmd_l, DC.cmd_l(r.D(1), r.D(2))),
    F(dc_cmd_q, DC.cmd_q()), F(dc_cmd_Q, DC.cmd_Q()),
    F(dc_cmd_re, DC.cmd_re(r.D(1), r.D(2), r.D(3), r.D(4))),
    F(dc_cmd_rg, DC.cmd_rg(r.D(1), r.D(2), r.D(3))), F(dc_cmd_RG, DC.cmd_RG(r.D(1), r.D(2), r.D(3))),
    F(dc_set_nonstroke, DC.set_nonstroke(r.h<Color>(1))), F(dc_set_stroke, DC.set_stroke(r.h<Color>(1))),
    F(dc_cmd_w, DC.cmd_w(r.D(1))), F(dc_cmd_n, DC.cmd_n()), F(dc_cmd_M, DC.cmd_M(r.D(1))),
    F(dc_cmd_j, DC.cmd_j(r.en<CapyPDF_Line_Join>(1))), F(dc_cmd_J, DC.cmd_J(r.en<CapyPDF_Line_Cap>(1))),
    F(dc_cmd_d, auto x = r.arr(1); DC.cmd_d(x.data(), x.size(), r.D(2))),
    F(dc_cmd_gs, DC.cmd_gs(r.id<CapyPDF_GraphicsStateId>(1))),
    F(dc_cmd_s, DC.cmd_s()), F(dc_cmd_S, DC.cmd_S()), F(dc_cmd_W, DC.cmd_W()), F(dc_cmd_Wstar, DC.cmd_Wstar()),
    F(dc_set_custom_page_properties, DC.set_custom_page_properties(r.h<PageProperties>(1))),
    F(dc_set_transparency_group_properties, DC.set_transparency_group_properties(r.h<TransparencyGroupProperties>(1))),
    F(dc_set_group_matrix, DC.set_group_matrix(r.D(1), r.D(2), r.D(3), r.D(4), r.D(5), r.D(6))),
    F(dc_render_text, auto f = r.id<CapyPDF_FontId>(2); STR1(1, DC.render_text(P, L, f, r.D(3), r.D(4), r.D(5)), DC.render_text(T, f, r.D(3), r.D(4), r.D(5)))),
    F(dc_text_new, r.made(1, std::make_shared<Text>(DC.text_new()))),
    F(dc_render_text_obj, DC.render_text_obj(r.h<Text>(1))),
    F(raster_image_get_size, auto s = r.h<RasterImage>(0).get_size(); r.got_id(1, (int32_t)s.w); r.got_id(2, (int32_t)s.h)),
    F(raster_image_get_colorspace, r.got_id(1, r.h<RasterImage>(0).get_colorspace())),
    F(raster_image_has_profile, r.got_id(1, r.h<RasterImage>(0).has_profile())),
    F(image_pdf_properties_set_mask, r.h<ImagePdfProperties>(0).set_mask(r.B(1))),
    F(image_pdf_properties_set_interpolate, r.h<ImagePdfProperties>(0).set_interpolate(r.en<CapyPDF_Image_Interpolation>(1))),
    F(image_pdf_properties_set_conversion_intent, r.h<ImagePdfProperties>(0).set_conversion_intent(r.en<CapyPDF_Rendering_Intent>(1))),
#define RB r.h<RasterImageBuilder>(0)
    F(raster_image_builder_set_size, RB.set_size(r.I(1), r.I(2))),
    F(raster_image_builder_set_pixel_depth, RB.set_pixel_depth(r.I(1))),
    F(raster_image_builder_set_pixel_data, RB.set_pixel_data(r.cstr(1), r.len(1))),
    F(raster_image_builder_set_alpha_depth, RB.set_alpha_depth(r.I(1))),
    F(raster_image_builder_set_alpha_data, RB.set_alpha_data(r.cstr(1), r.len(1))),
    F(raster_image_builder_set_input_data_compression_format, RB.set_input_data_compression_format(r.en<CapyPDF_Compression>(1))),
    F(raster_image_builder_set_colorspace, RB.set_colorspace(r.en<CapyPDF_Image_Colorspace>(1))),
    F(raster_image_builder_build, r.made(1, std::make_shared<RasterImage>(RB.build()))),
    F(soft_mask_new, r.made(2, std::make_shared<SoftMask>(r.en<CapyPDF_Soft_Mask_Subtype>(0), r.id<CapyPDF_TransparencyGroupId>(1)))),
    F(outline_set_title, TXT(Outline, set_title, 1)),
    F(outline_set_destination, r.h<Outline>(0).set_destination(r.h<Destination>(1))),
#define G r.h<Generator>(0)
    F(generator_new, r.made(2, std::make_shared<Generator>(r.cstr(0), r.h<DocumentProperties>(1)))),
    F(page_draw_context_new, r.made(1, std::make_shared<DrawContext>(G.new_page_context()))),
    F(transparency_group_new, r.made(5, std::make_shared<DrawContext>(G.new_transparency_group_context(r.D(1), r.D(2), r.D(3), r.D(4))))),
    F(tiling_pattern_context_new, r.made(1, std::make_shared<DrawContext>(G.new_tiling_pattern_context(r.D(2), r.D(3), r.D(4), r.D(5))))),
    F(generator_add_annotation, r.got_id(2, G.add_annotation(r.h<Annotation>(1)).id)),
    F(generator_add_page_labeling,
      std::optional<CapyPDF_Page_Label_Number_Style> st; if(!r.isnull(2)) st = r.en<CapyPDF_Page_Label_Number_Style>(2);
      std::optional<uint32_t> pn; if(!r.isnull(4)) pn = (uint32_t)r.I(4);
      if(r.isnull(3)) G.add_page_labeling(r.I(1), st, nullptr, 0, pn); else STR1(3, G.add_page_labeling(r.I(1), st, P, L, pn), G.add_page_labeling(r.I(1), st, T, pn))),
    F(generator_add_page, G.add_page(r.h<DrawContext>(1))),
    F(generator_add_structure_item, CapyPDF_StructureItemId par{0}; if(!r.isnull(2)) par = r.id<CapyPDF_StructureItemId>(2);
      r.got_id(4, G.add_structure_item(r.en<CapyPDF_Structure_Type>(1), r.isnull(2) ? nullptr : &par, r.isnull(3) ? nullptr : r.h<RawExtra>(3).p).id)),
    F(generator_load_font, r.got_id(3, r.isnull(2) ? G.load_font(r.cstr(1)).id : G.load_font(r.cstr(1), r.h<FontProperties>(2)).id)),
    F(generator_load_icc_profile, r.got_id(2, G.load_icc_profile(r.cstr(1)).id)),
    F(generator_add_icc_profile, STR1(1, r.got_id(3, G.add_icc_profile(P, L, r.I(2)).id), r.got_id(3, G.add_icc_profile(T, r.I(2)).id))),
    F(generator_add_function,
      auto t = std::string(r.slot(r.a(1)).type);
      r.got_id(2, t == typeid(Type2Function).name() ? G.add_function(r.h<Type2Function>(1)).id : t == typeid(Type3Function).name() ? G.add_function(r.h<Type3Function>(1)).id : G.add_function(r.h<Type4Function>(1)).id)),
    F(generator_add_shading,
      auto t = std::string(r.slot(r.a(1)).type);
      r.got_id(2, t == typeid(Type2Shading).name() ? G.add_shading(r.h<Type2Shading>(1)).id : t == typeid(Type3Shading).name() ? G.add_shading(r.h<Type3Shading>(1)).id
               : t == typeid(Type4Shading).name() ? G.add_shading(r.h<Type4Shading>(1)).id : G.add_shading(r.h<Type6Shading>(1)).id)),
    F(generator_add_shading_pattern, r.got_id(2, G.add_shading_pattern(r.h<ShadingPattern>(1)).id)),
    F(generator_add_tiling_pattern, r.got_id(2, G.add_tiling_pattern(r.h<DrawContext>(1)).id)),
    F(generator_load_image, r.made(2, std::make_shared<RasterImage>(G.load_image(r.cstr(1))))),
    F(generator_load_image_from_memory, r.made(2, std::make_shared<RasterImage>(G.load_image_from_memory(r.cstr(1), r.len(1))))),
    F(generator_add_image, r.got_id(3, G.add_image(r.h<RasterImage>(1), r.h<ImagePdfProperties>(2)).id)),
    F(generator_add_graphics_state, r.got_id(2, G.add_graphics_state(r.h<GraphicsState>(1)).id)),
    F(generator_add_optional_content_group, r.got_id(2, G.add_optional_content_group(r.h<OptionalContentGroup>(1)).id)),
    F(generator_add_transparency_group, r.got_id(2, G.add_transparency_group(r.h<DrawContext>(1)).id)),
    F(generator_add_soft_mask, r.got_id(2, G.add_soft_mask(r.h<SoftMask>(1)).id)),
    F(generator_add_outline, r.got_id(2, G.add_outline(r.h<Outline>(1)).id)),
    F(generator_add_separation, auto cs = r.en<CapyPDF_Device_Colorspace>(2); auto f = r.id<CapyPDF_FunctionId>(3);
      STR1(1, r.got_id(4, G.add_separation(P, L, cs, f).id), r.got_id(4, G.add_separation(T, cs, f).id))),
    F(generator_text_width, auto f = r.id<CapyPDF_FontId>(2); STR1(1, r.got_d(4, G.text_width(P, L, f, r.D(3))), r.got_d(4, G.text_width(T, f, r.D(3))))),
    F(generator_write, G.write()),
    // no class; used through the C functions
    F(struct_item_extra_data_new, auto x = std::make_shared<RawExtra>(); CAPY_CPP_CHECK(capy_struct_item_extra_data_new(&x->p)); r.made(0, x)),
    F(struct_item_extra_data_set_t, CAPY_CPP_CHECK(capy_struct_item_extra_data_set_t(r.h<RawExtra>(0).p, r.cstr(1), r.len(1)))),
    F(struct_item_extra_data_set_lang, CAPY_CPP_CHECK(capy_struct_item_extra_data_set_lang(r.h<RawExtra>(0).p, r.cstr(1), r.len(1)))),
    F(struct_item_extra_data_set_alt, CAPY_CPP_CHECK(capy_struct_item_extra_data_set_alt(r.h<RawExtra>(0).p, r.cstr(1), r.len(1)))),
    F(struct_item_extra_data_set_actual_text, CAPY_CPP_CHECK(capy_struct_item_extra_data_set_actual_text(r.h<RawExtra>(0).p, r.cstr(1), r.len(1)))),
};

static std::string hex(const char *s) {
    std::string r;
    for(; *s; ++s) {
        char b[4];
        snprintf(b, sizeof b, "%02x", (unsigned char)*s);
        r += b;
    }
    return r;
}
static std::string one(R &r, const Op &o) {
    const auto &f = fns()[o.fn];
    r.o = &o;
    r.out.clear();
    r.keep.clear();
    r.keep.reserve(8);
    for(auto &x : o.a) {
        auto bad = [&](const Val &y) { return y.k == Val::VAR && ((size_t)y.i >= r.v.size() || !r.v[y.i].set); };
        if(bad(x)) return "skip";
        for(auto &y : x.l)
            if(bad(y)) return "skip";
    }
    if(f.name.ends_with("_destroy")) {
        if(o.a.at(0).k != Val::VAR) return "unsup null";
        r.v[o.a[0].i] = {};
        return "ok";
    }
    auto it = table.find(f.name);
    if(it == table.end()) return "unsup function";
    rec_clear();
    try {
        it->second(r);
    } catch(const Unsup &u) {
        return "unsup " + u.why;
    } catch(const SkipOp &) {
        return "skip";
    } catch(const PdfException &e) {
        return "err " + std::to_string(rec_failure()) + " " + hex(e.what());
    } catch(const std::exception &e) {
        return "exc " + std::to_string(rec_failure()) + " " + e.what();
    }
    if(rec_failure() != 0) return "lost " + std::to_string(rec_failure());
    return "ok" + r.out;
}
static std::string run(const std::string &req) {
    std::istringstream is(req);
    int inject, sub, code;
    std::string dir, text, line;
    R r;
    is >> r.mode >> inject >> sub >> code >> dir;
    std::getline(is, line);
    while(std::getline(is, line)) text += line + "\n";
    set_scratch(dir);
    auto s = Script::parse(text);
    r.v.resize(s.nvars);
    std::string out;
    for(size_t i = 0; i < s.ops.size(); ++i) {
        if(inject == (int)i + 1) rec_inject(rec_calls() + sub, code);
        out += one(r, s.ops[i]) + "\n";
        rec_inject(0, 0);
    }
    int calls = rec_calls();
    for(size_t i = r.v.size(); i-- > 0;) r.v[i] = {};
    return out + "end " + std::to_string(calls) + " " + std::to_string(rec_hit()) + " " + rec_problems();
}
int main() {
    int fin = 0, fout = dup(1);
    dup2(2, 1);
    FILE *in = fdopen(fin, "rb");
    char b[64];
    while(fgets(b, sizeof b, in)) {
        std::string data(atol(b), 0);
        if(fread(data.data(), 1, data.size(), in) != data.size()) return 1;
        int p[2];
        if(pipe(p)) return 1;
        pid_t k = fork();
        if(k == 0) {
            close(p[0]);
            alarm(20);
            std::string t;
            try {
                t = run(data);
            } catch(const std::exception &e) {
                t = std::string("broken ") + e.what();
            }
            size_t n = 0;
            while(n < t.size()) {
                auto w = write(p[1], t.data() + n, t.size() - n);
                if(w <= 0) break;
                n += w;
            }
            _exit(0);
        }
        close(p[1]);
        std::string res;
        char buf[65536];
        ssize_t g;
        while((g = read(p[0], buf, sizeof buf)) > 0) res.append(buf, g);
        close(p[0]);
        int st = 0;
        waitpid(k, &st, 0);
        if(st != 0) res = "crash " + std::to_string(st);
        std::string o = std::to_string(res.size()) + "\n" + res;
        if(write(fout, o.data(), o.size()) != (ssize_t)o.size()) return 1;
    }
    return 0;
}
