#include "badargs.hpp"
#include <climits>
#include <set>
namespace mc {
static void extra(std::vector<Base0> &out);

const std::vector<Base0> &bases() {
    static const std::vector<Base0> all = [] {
        std::vector<Base0> r;
        for(auto &f : features())
            for(int v = 0; v < f.variants; ++v) {
                if(f.name == "image_file" && v != 3 && v != 6) continue;
                B b;
                b.props();
                b.start();
                f.add(b, v);
                b.finish();
                r.push_back({f.name + "." + std::to_string(v), b.s});
            }
        extra(r);
        return r;
    }();
    return all;
}

// Functions that the features do not call.
static void extra(std::vector<Base0> &out) {
    {
        B b;
        b.md = b.s("document_properties_new");
        b.s("document_properties_set_title", b.md, "title");
        b.s("document_properties_set_author", b.md, "author");
        b.s("document_properties_set_creator", b.md, "creator");
        b.s("document_properties_set_language", b.md, "en-GB");
        b.s("document_properties_set_device_profile", b.md, E("CAPY_DEVICE_CS_RGB"), "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc");
        b.s("document_properties_set_colorspace", b.md, E("CAPY_DEVICE_CS_RGB"));
        b.s("document_properties_set_output_intent", b.md, "intent");
        b.s("document_properties_set_pdfx", b.md, 9);
        b.s("document_properties_set_pdfa", b.md, 6);
        b.s("document_properties_set_tagged", b.md, 1);
        b.s("document_properties_set_page_layout", b.md, 1);
        b.s("document_properties_set_page_mode", b.md, 1);
        b.s("document_properties_set_metadata_xml", b.md, "<x/>");
        b.start();
        b.finish();
        out.push_back({"docprops", b.s});
    }
    {
        B b;
        b.props();
        b.start();
        auto f = b.font();
        b.s("generator_text_width", b.gen, "width", f, 12.0);
        auto fp = b.s("font_properties_new");
        b.s("font_properties_set_subfont", fp, 0);
        b.s("font_properties_set_named_instance", fp, 1);
        b.s("font_properties_set_variation", fp, "wght", 500);
        auto f2 = b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/AmstelVar-Roman.ttf", fp);
        b.s("dc_render_text", b.dc, "Var", f2, 12.0, 1.0, 2.0);
        auto icc = read_file(repo_dir() + "/testdata/icc/compatibleWithAdobeRGB1998.icc");
        auto id = b.s("generator_add_icc_profile", b.gen, icc, 3);
        auto c = b.s("color_new");
        b.s("color_set_icc", c, id, std::vector<double>{0.1, 0.2, 0.3});
        b.s("dc_set_stroke", b.dc, c);
        auto img = b.s("generator_load_image_from_memory", b.gen, read_file(repo_dir() + "/testdata/images/1bit_noalpha.png"));
        b.s("raster_image_get_size", img);
        b.s("raster_image_get_colorspace", img);
        b.s("raster_image_has_profile", img);
        b.finish();
        out.push_back({"misc", b.s});
    }
    {
        B b;
        b.props();
        b.s("document_properties_set_device_profile", b.md, E("CAPY_DEVICE_CS_RGB"), "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc");
        b.start();
        auto rb = b.s("raster_image_builder_new");
        b.s("raster_image_builder_set_size", rb, 2, 2);
        b.s("raster_image_builder_set_pixel_depth", rb, 8);
        b.s("raster_image_builder_set_colorspace", rb, E("CAPY_IMAGE_CS_RGB"));
        b.s("raster_image_builder_set_pixel_data", rb, std::string(12, 'x'));
        b.s("raster_image_builder_set_input_data_compression_format", rb, 0);
        auto im = b.s("raster_image_builder_build", rb);
        auto im2 = b.s("generator_convert_image", b.gen, im, E("CAPY_DEVICE_CS_GRAY"), 0);
        auto ip = b.s("image_pdf_properties_new");
        b.s("image_pdf_properties_set_interpolate", ip, 1);
        b.s("dc_cmd_Do_image", b.dc, b.s("generator_add_image", b.gen, im2, ip));
        auto e = b.s("embedded_file_new");
        b.s("embedded_file_load_file", e, "$REPO/readme.md");
        b.s("embedded_file_set_pdf_name", e, "x.md");
        b.s("embedded_file_set_subtype", e, "text/markdown");
        b.s("generator_embed_file", b.gen, e);
        b.finish();
        out.push_back({"convert", b.s});
    }
}

static Val raw(int64_t i) { return mkval(i); }
std::vector<Bad> bad_values(const Param &p, const Val &good) {
    std::vector<Bad> r;
    auto str = [&](const char *n, std::string s, int64_t len) { r.push_back({n, mkval(SZ{s, len})}); };
    switch(p.k) {
    case PK::ID:
    case PK::OPTID:
        for(int64_t i : {-1ll, -2ll, -1000000ll, (long long)INT_MIN, (long long)INT_MAX, 1ll << 20}) r.push_back({"id" + std::to_string(i), raw(i)});
        for(int i = 0; i < 48; ++i) r.push_back({"id" + std::to_string(i), raw(i)});
        break;
    case PK::ENUM:
    case PK::OPTENUM: {
        int mx = 0, mn = 0;
        for(auto &[n, v] : enum_info(p.ctype).vals) mx = std::max(mx, v), mn = std::min(mn, v);
        for(int64_t i : {(int64_t)mn - 1, (int64_t)mx + 1, (int64_t)mx + 2, (int64_t)1000, (int64_t)INT_MAX, (int64_t)INT_MIN}) r.push_back({"enum" + std::to_string(i), raw(i)});
        break;
    }
    case PK::STRN:
    case PK::OPTSTRN:
        for(int64_t n : {-2ll, -100ll, (long long)INT_MIN}) str(("size" + std::to_string(n)).c_str(), "abc", n);
        str("zero", std::string("a\0b", 3), 3);
        str("zero-end", std::string("ab\0", 3), 3);
        [[fallthrough]];
    case PK::CSTR:
        for(auto &[n, s] : std::vector<std::pair<const char *, std::string>>{{"ff", "\xff"}, {"cont", "a\x80"}, {"trunc2", "\xc3"}, {"trunc3", "x\xe2\x82"}, {"trunc4", "\xf0\x9f\x98"}, {"overlong2", "\xc0\x80"}, {"overlong2b", "\xc1\xbf"},
                {"overlong3", "\xe0\x80\x80"}, {"overlong4", "\xf0\x80\x80\x80"}, {"surrogate", "\xed\xa0\x80"}, {"big", "\xf4\x90\x80\x80"}, {"f5", "\xf5\x80\x80\x80"}, {"badcont", "\xe2\x28\xa1"}}) {
            str((std::string("utf8-") + n).c_str(), s, p.k == PK::CSTR ? -1 : (int64_t)s.size());
            if(p.k != PK::CSTR) str((std::string("utf8z-") + n).c_str(), s, -1);
        }
        break;
    default: break;
    }
    return r;
}

// Arguments that are not invalid although they look so; every entry needs a reason.
bool allowed(const std::string &fn, const Param &p, const std::string &bad) {
    auto starts = [&](const char *x) { return bad.rfind(x, 0) == 0; };
    (void)p;
    if(starts("utf8")) {
        // paths, PDF names, name tree keys, field values and PostScript code are byte strings
        static const std::set<std::string> bytes{"capy_document_properties_set_device_profile.profile_path", "capy_generator_new.filename", "capy_dc_cmd_BMC.tag", "capy_generator_add_rolemap_entry.name",
            "capy_annotation_set_widget_button_appearance.on_state_name", "capy_form_field_set_V.V", "capy_collection_set_D.buf", "capy_type4_function_new.code", "capy_generator_load_image.fname"};
        if(bytes.count(fn + "." + p.name)) return true;
    }
    // binary data
    if(fn == "capy_embedded_file_set_contents" && (starts("zero") || starts("utf8"))) return true;
    if(fn == "capy_form_field_set_V" && starts("zero")) return true;
    // a set of bits
    if(fn == "capy_annotation_set_flags") return true;
    return false;
}

} // namespace mc
