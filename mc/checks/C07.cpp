// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
// uses: fontview.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "fontview.hpp"
#include "spec.hpp"
#include <algorithm>
using namespace mc;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

// An independent definition of well formed UTF-8 (Unicode 15, table 3-7). -1 when it is not, else the number of characters.
static int utf8_chars(const string &s) {
    int n = 0;
    for(size_t i = 0; i < s.size(); ++n) {
        auto b = [&](size_t k) { return i + k < s.size() ? (int)(unsigned char)s[i + k] : -1; };
        auto in = [](int v, int lo, int hi) { return v >= lo && v <= hi; };
        int a = b(0);
        if(a < 0x80) i += 1;
        else if(in(a, 0xC2, 0xDF) && in(b(1), 0x80, 0xBF)) i += 2;
        else if(a == 0xE0 && in(b(1), 0xA0, 0xBF) && in(b(2), 0x80, 0xBF)) i += 3;
        else if((in(a, 0xE1, 0xEC) || in(a, 0xEE, 0xEF)) && in(b(1), 0x80, 0xBF) && in(b(2), 0x80, 0xBF)) i += 3;
        else if(a == 0xED && in(b(1), 0x80, 0x9F) && in(b(2), 0x80, 0xBF)) i += 3;
        else if(a == 0xF0 && in(b(1), 0x90, 0xBF) && in(b(2), 0x80, 0xBF) && in(b(3), 0x80, 0xBF)) i += 4;
        else if(in(a, 0xF1, 0xF3) && in(b(1), 0x80, 0xBF) && in(b(2), 0x80, 0xBF) && in(b(3), 0x80, 0xBF)) i += 4;
        else if(a == 0xF4 && in(b(1), 0x80, 0x8F) && in(b(2), 0x80, 0xBF) && in(b(3), 0x80, 0xBF)) i += 4;
        else return -1;
    }
    return n;
}

// --- the places a string can be given
using Seen = std::vector<std::optional<Obj>>;
enum Kind { TEXT, BYTES, NAME, XML, VALID };
struct Entry {
    string name;
    Kind kind;
    bool ascii;
    size_t many;                                     // how many fit into one document
    std::function<size_t(W &, int, const Val &)> put; // the index of the call that takes the string
    std::function<Seen(const Doc &)> get;
    bool early = false;    // before the generator exists
    bool sorted = false;   // the document holds a set
    bool cstring = false;  // there is no length argument
    string before = {};    // what the string has to start with
};
static std::optional<Obj> opt(const Obj *o) {
    if(!o || o->t == Obj::Null) return std::nullopt;
    return *o;
}
static Obj as_name(const string &s) {
    Obj o;
    o.t = Obj::Name;
    o.s = s;
    return o;
}
static const Obj *path(const Doc &d, const Obj *o, std::initializer_list<const char *> keys) {
    for(auto k : keys)
        if(o) o = d.dget(*o, k);
    return o;
}
static Seen each(const Doc &d, const Obj *arr, const char *key) {
    Seen r;
    if(arr && arr->t == Obj::Arr)
        for(auto &e : arr->a) {
            auto &x = d.deref(e);
            r.push_back(key ? opt(x.isdict() ? d.dget(x, key) : nullptr) : opt(&x));
        }
    return r;
}
static Seen names_tree(const Doc &d, int what) { // 0 key 1 F 2 UF
    Seen r;
    std::function<void(const Obj &)> walk = [&](const Obj &n) {
        if(auto *k = d.dget(n, "Kids"))
            for(auto &e : k->a) walk(d.deref(e));
        if(auto *a = d.dget(n, "Names"))
            for(size_t i = 0; i + 1 < a->a.size(); i += 2) {
                if(what == 0) r.push_back(opt(&d.deref(a->a[i])));
                else r.push_back(opt(d.dget(d.deref(a->a[i + 1]), what == 1 ? "F" : "UF")));
            }
    };
    if(auto *n = path(d, &d.root(), {"Names", "EmbeddedFiles"})) walk(*n);
    return r;
}
static Seen struct_kids(const Doc &d, const char *key) {
    auto *k = path(d, &d.root(), {"StructTreeRoot", "K"});
    if(k && k->t == Obj::Arr && k->a.size() == 1) k = &d.deref(k->a[0]);
    if(!k || !k->isdict()) return {};
    return each(d, d.dget(*k, "K"), key);
}
static const Obj &page0(const Doc &d) { return d.objs.at(d.pages().at(0)); }
static V struct_root(W &w) {
    return w.res("structroot", [&] { return w.s("generator_add_structure_item", w.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null); });
}
static V widget(W &w, V field) {
    auto a = w.s("widget_annotation_new");
    w.s("annotation_set_rectangle", a, 10.0, 20.0, 30.0, 40.5);
    if(field.slot >= 0) w.s("annotation_set_parent_field", a, field);
    w.s("dc_annotate", w.dc, w.s("generator_add_annotation", w.gen, a));
    return a;
}
static Entry info(const char *what, const char *key) {
    string fn = string("document_properties_set_") + what;
    return {what, TEXT, false, 1, [=](W &w, int, const Val &v) { w.s(fn, w.md, v); return w.s.size() - 1; },
            [=](const Doc &d) { return Seen{opt(path(d, &d.trailer, {"Info", key}))}; }, true};
}
static Entry structure(const char *fn, const char *key, Kind k) {
    return {string("structure ") + key, k, k != TEXT, 100, [=](W &w, int, const Val &v) {
                auto e = w.s("struct_item_extra_data_new");
                w.s(string("struct_item_extra_data_set_") + fn, e, v);
                size_t at = w.s.size() - 1;
                w.s("generator_add_structure_item", w.gen, E("CAPY_STRUCTURE_TYPE_P"), struct_root(w), e);
                return at;
            },
            [=](const Doc &d) { return struct_kids(d, key); }};
}
static Entry field(const char *name, int type, const char *fn, const char *key, Kind kind) {
    return {name, kind, false, 60, [=](W &w, int k, const Val &v) {
                auto f = w.s("form_field_new", type);
                if(string(key) != "T") w.s("form_field_set_T", f, "f" + to_string(k));
                w.s(string("form_field_") + fn, f, v);
                size_t at = w.s.size() - 1;
                widget(w, w.s("generator_add_form_field", w.gen, f));
                return at;
            },
            [=](const Doc &d) {
                if(string(key) != "Opt") return each(d, path(d, &d.root(), {"AcroForm", "Fields"}), key);
                Seen r;
                for(auto &o : each(d, path(d, &d.root(), {"AcroForm", "Fields"}), key)) {
                    auto e = o ? each(d, &*o, nullptr) : Seen{};
                    r.push_back(e.size() == 1 ? e[0] : std::nullopt);
                }
                return r;
            }};
}
static Entry embedded(const char *name, int what, Kind kind) {
    return {name, kind, false, 60, [=](W &w, int, const Val &v) {
                auto e = w.s("embedded_file_new");
                w.s("embedded_file_set_contents", e, "contents");
                w.s("embedded_file_set_pdf_name", e, v);
                size_t at = w.s.size() - 1;
                w.s("generator_embed_file", w.gen, e);
                return at;
            },
            [=](const Doc &d) { return names_tree(d, what); }, false, true};
}
static Seen content(const Doc &d, const string &op, const std::function<std::optional<Obj>(const pdf::COp &)> &f) {
    Seen r;
    for(auto &o : d.page_ops(d.pages().at(0)))
        if(o.op == op) r.push_back(f(o));
    return r;
}
static std::optional<Obj> bdc_props(const Doc &d, const pdf::COp &o, bool key) {
    if(o.a.size() != 2) return std::nullopt;
    const Obj *p = &o.a[1];
    if(p->t == Obj::Name) p = path(d, d.inherited(d.pages().at(0), "Resources"), {"Properties", p->s.c_str()});
    if(!p || !p->isdict()) return std::nullopt;
    std::optional<Obj> r;
    for(auto &[k, v] : p->d)
        if(k != "MCID") {
            if(r) return std::nullopt;
            r = key ? as_name(k) : d.deref(v);
        }
    return r;
}
static size_t tagged(W &w, const Val &key, const Val &value) {
    auto t = w.s("bdc_tags_new");
    w.s("bdc_tags_add_tag", t, key, value);
    size_t at = w.s.size() - 1;
    w.s("dc_cmd_BDC_testing", w.dc, "Tag", t);
    w.s("dc_cmd_EMC", w.dc);
    return at;
}
static Entry validity(const char *name, const std::function<void(W &, const Val &)> &f) {
    return {name, VALID, false, 40, [=](W &w, int, const Val &v) { f(w, v); return w.s.size() - 1; }, [](const Doc &) { return Seen{}; }};
}

static const std::vector<Entry> &entries() {
    static const std::vector<Entry> e = {
        info("title", "Title"),
        info("author", "Author"),
        info("creator", "Creator"),
        {"output intent", TEXT, false, 1, [](W &w, int, const Val &v) {
             w.s("document_properties_set_device_profile", w.md, E("CAPY_DEVICE_CS_RGB"), "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc");
             w.s("document_properties_set_pdfa", w.md, 4);
             w.s("document_properties_set_output_intent", w.md, v);
             return w.s.size() - 1;
         },
         [](const Doc &d) {
             auto *o = path(d, &d.root(), {"OutputIntents"});
             if(!o || o->a.size() != 1) return Seen{};
             return Seen{opt(d.dget(d.deref(o->a[0]), "OutputConditionIdentifier"))};
         }, true},
        {"language", BYTES, true, 1, [](W &w, int, const Val &v) { w.s("document_properties_set_language", w.md, v); return w.s.size() - 1; },
         [](const Doc &d) { return Seen{opt(d.dget(d.root(), "Lang"))}; }, true},
        {"metadata", XML, false, 1, [](W &w, int, const Val &v) { w.s("document_properties_set_metadata_xml", w.md, v); return w.s.size() - 1; },
         [](const Doc &d) {
             auto *m = d.dget(d.root(), "Metadata");
             if(!m) return Seen{std::nullopt};
             Obj o;
             o.t = Obj::Str;
             o.s = m->t == Obj::Stream ? d.stream_data(*m) : "";
             return Seen{o};
         }, true, false, false, "pdf:Producer>CapyPDF"},
        {"page label", TEXT, false, 40, [](W &w, int k, const Val &v) {
             if(k) w.page();
             w.s("generator_add_page_labeling", w.gen, k, 0, v, 1);
             return w.s.size() - 1;
         },
         [](const Doc &d) {
             Seen r;
             auto *n = path(d, &d.root(), {"PageLabels", "Nums"});
             if(n && n->t == Obj::Arr)
                 for(size_t i = 0; i + 1 < n->a.size(); i += 2)
                     if(n->a[i].t == Obj::Int && n->a[i].i == (int64_t)i / 2) r.push_back(opt(d.dget(d.deref(n->a[i + 1]), "P")));
             return r;
         }},
        {"optional content group", TEXT, false, 100, [](W &w, int, const Val &v) {
             auto o = w.s("optional_content_group_new", v);
             size_t at = w.s.size() - 1;
             w.s("dc_cmd_BDC_ocg", w.dc, w.s("generator_add_optional_content_group", w.gen, o));
             w.s("dc_cmd_EMC", w.dc);
             return at;
         },
         [](const Doc &d) { return each(d, path(d, &d.root(), {"OCProperties", "OCGs"}), "Name"); }, false, false, true},
        {"text annotation", TEXT, false, 100, [](W &w, int, const Val &v) {
             auto a = w.s("text_annotation_new", v);
             size_t at = w.s.size() - 1;
             w.s("annotation_set_rectangle", a, 10.0, 20.0, 30.0, 40.5);
             w.s("dc_annotate", w.dc, w.s("generator_add_annotation", w.gen, a));
             return at;
         },
         [](const Doc &d) { return each(d, d.dget(page0(d), "Annots"), "Contents"); }},
        {"line annotation", TEXT, false, 100, [](W &w, int, const Val &v) {
             auto a = w.s("line_annotation_new", v, 1.0, 2.0, 3.0, 4.0);
             size_t at = w.s.size() - 1;
             w.s("annotation_set_rectangle", a, 10.0, 20.0, 30.0, 40.5);
             w.s("dc_annotate", w.dc, w.s("generator_add_annotation", w.gen, a));
             return at;
         },
         [](const Doc &d) { return each(d, d.dget(page0(d), "Annots"), "Contents"); }},
        {"uri", BYTES, true, 100, [](W &w, int, const Val &v) {
             auto a = w.s("link_annotation_new");
             w.s("annotation_set_uri", a, v);
             size_t at = w.s.size() - 1;
             w.s("annotation_set_rectangle", a, 10.0, 20.0, 30.0, 40.5);
             w.s("dc_annotate", w.dc, w.s("generator_add_annotation", w.gen, a));
             return at;
         },
         [](const Doc &d) {
             Seen r;
             for(auto &a : each(d, d.dget(page0(d), "Annots"), "A")) r.push_back(a ? opt(d.dget(*a, "URI")) : std::nullopt);
             return r;
         }},
        structure("t", "T", TEXT),
        structure("alt", "Alt", TEXT),
        structure("actual_text", "ActualText", TEXT),
        structure("lang", "Lang", BYTES),
        {"outline", TEXT, false, 100, [](W &w, int k, const Val &v) {
             auto o = w.s("outline_new");
             w.s("outline_set_title", o, v);
             size_t at = w.s.size() - 1;
             auto dst = w.s("destination_new");
             w.s("destination_set_page_fit", dst, 0);
             w.s("outline_set_destination", o, dst);
             if(k % 3 == 1) w.s("outline_set_parent", o, w.memo.at("outline"));
             auto id = w.s("generator_add_outline", w.gen, o);
             if(k % 3 == 0) w.memo["outline"] = id;
             return at;
         },
         [](const Doc &d) {
             Seen r;
             std::function<void(const Obj &, int)> walk = [&](const Obj &o, int depth) {
                 if(depth > 3) return;
                 size_t n = 0;
                 for(auto *c = d.dget(o, "First"); c && ++n < 1000; c = d.dget(*c, "Next")) {
                     r.push_back(opt(d.dget(*c, "Title")));
                     walk(*c, depth + 1);
                 }
             };
             if(auto *o = path(d, &d.root(), {"Outlines"})) walk(*o, 0);
             return r;
         }},
        embedded("embedded file key", 0, BYTES),
        embedded("embedded file F", 1, BYTES),
        embedded("embedded file UF", 2, TEXT),
        {"embedded file subtype", NAME, true, 60, [](W &w, int k, const Val &v) {
             auto e = w.s("embedded_file_new");
             w.s("embedded_file_set_contents", e, "contents");
             w.s("embedded_file_set_pdf_name", e, "f" + to_string(1000 + k));
             w.s("embedded_file_set_subtype", e, v);
             size_t at = w.s.size() - 1;
             w.s("generator_embed_file", w.gen, e);
             return at;
         },
         [](const Doc &d) {
             Seen r;
             if(auto *n = path(d, &d.root(), {"Names", "EmbeddedFiles", "Names"}))
                 for(size_t i = 1; i < n->a.size(); i += 2) r.push_back(opt(path(d, &d.deref(n->a[i]), {"EF", "F", "Subtype"})));
             return r;
         }},
        field("text field name", 1, "set_T", "T", TEXT),
        field("text field value", 1, "set_V", "V", TEXT),
        field("choice field value", 2, "set_V", "V", TEXT),
        field("button field value", 0, "set_V", "V", NAME),
        field("choice", 2, "add_Opt_entry", "Opt", TEXT),
        {"number format", TEXT, false, 100, [](W &w, int, const Val &v) {
             auto n = w.s("number_format_new", v, 0.5);
             size_t at = w.s.size() - 1;
             auto vp = w.s("viewport_new", 1.0, 2.0, 3.0, 4.0);
             auto m = w.s("measure_new");
             w.s("measure_append_X", m, n);
             w.s("viewport_set_measure", vp, m);
             w.s("dc_append_viewport", w.dc, vp);
             return at;
         },
         [](const Doc &d) {
             Seen r;
             for(auto &m : each(d, d.dget(page0(d), "VP"), "Measure")) {
                 auto u = m ? each(d, d.dget(*m, "X"), "U") : Seen{};
                 r.push_back(u.size() == 1 ? u[0] : std::nullopt);
             }
             return r;
         }},
        {"collection field name", TEXT, false, 1, [](W &w, int, const Val &v) {
             auto c = w.s("collection_new");
             auto sc = w.s("collection_schema_new");
             auto f = w.s("collection_field_new", 0, v);
             size_t at = w.s.size() - 1;
             w.s("collection_schema_add_entry", sc, "key", f);
             w.s("collection_set_schema", c, sc);
             w.s("generator_set_collection", w.gen, c);
             return at;
         },
         [](const Doc &d) { return Seen{opt(path(d, &d.root(), {"Collection", "Schema", "key", "N"}))}; }},
        {"collection field key", NAME, true, 1, [](W &w, int, const Val &v) {
             auto c = w.s("collection_new");
             auto sc = w.s("collection_schema_new");
             auto f = w.s("collection_field_new", 0, "Name");
             w.s("collection_schema_add_entry", sc, v, f);
             size_t at = w.s.size() - 1;
             w.s("collection_set_schema", c, sc);
             w.s("generator_set_collection", w.gen, c);
             return at;
         },
         [](const Doc &d) {
             Seen r;
             if(auto *o = path(d, &d.root(), {"Collection", "Schema"}))
                 for(auto &[k, v] : o->d)
                     if(k != "Type") r.push_back(as_name(k));
             return r;
         }},
        {"collection D", BYTES, false, 1, [](W &w, int, const Val &v) {
             auto c = w.s("collection_new");
             w.s("collection_set_D", c, v);
             size_t at = w.s.size() - 1;
             w.s("generator_set_collection", w.gen, c);
             return at;
         },
         [](const Doc &d) { return Seen{opt(path(d, &d.root(), {"Collection", "D"}))}; }},
        {"replacement text", TEXT, false, 100, [](W &w, int, const Val &v) {
             auto q = w.s("text_sequence_new");
             w.s("text_sequence_append_actualtext_start", q, v);
             size_t at = w.s.size() - 1;
             w.s("text_sequence_append_codepoint", q, 0x41);
             w.s("text_sequence_append_actualtext_end", q);
             auto t = w.s("dc_text_new", w.dc);
             w.s("text_cmd_Tf", t, w.font(), 12.0);
             w.s("text_cmd_TJ", t, q);
             w.s("dc_render_text_obj", w.dc, t);
             return at;
         },
         [](const Doc &d) {
             return content(d, "BDC", [&](const pdf::COp &o) {
                 const Obj *p = o.a.size() == 2 ? &o.a[1] : nullptr;
                 if(p && p->t == Obj::Name) p = path(d, d.inherited(d.pages().at(0), "Resources"), {"Properties", p->s.c_str()});
                 return p && p->isdict() ? opt(d.dget(*p, "ActualText")) : std::nullopt;
             });
         }},
        {"ligature text", TEXT, false, 60, [](W &w, int k, const Val &v) {
             auto q = w.s("text_sequence_new");
             w.s("text_sequence_append_ligature_glyph", q, 40 + k, v);
             size_t at = w.s.size() - 1;
             auto t = w.s("dc_text_new", w.dc);
             w.s("text_cmd_Tf", t, w.font(), 12.0);
             w.s("text_cmd_TJ", t, q);
             w.s("dc_render_text_obj", w.dc, t);
             return at;
         },
         [](const Doc &d) {
             Seen r;
             std::map<int, FontView> fonts;
             for(auto &g : drawn_codes(d, d.page_ops(d.pages().at(0)), d.inherited(d.pages().at(0), "Resources"))) {
                 if(!fonts.count(g.fontobj)) fonts[g.fontobj] = font_view(d, d.objs.at(g.fontobj));
                 auto &m = fonts[g.fontobj].tounicode;
                 auto it = m.find(g.code);
                 if(it == m.end()) r.push_back(std::nullopt);
                 else {
                     Obj o;
                     o.t = Obj::Str;
                     o.s = "\xef\xbb\xbf" + it->second;
                     r.push_back(o);
                 }
             }
             return r;
         }},
        {"separation", NAME, true, 40, [](W &w, int, const Val &v) {
             auto f = w.res("sepfn", [&] { return w.s("generator_add_function", w.gen, w.s("type4_function_new", std::vector<double>{0, 1}, std::vector<double>{0, 1, 0, 1, 0, 1, 0, 1}, "{dup dup dup}")); });
             auto sep = w.s("generator_add_separation", w.gen, v, E("CAPY_DEVICE_CS_CMYK"), f);
             size_t at = w.s.size() - 1;
             auto c = w.s("color_new");
             w.s("color_set_separation", c, sep, 0.5);
             w.s("dc_set_nonstroke", w.dc, c);
             return at;
         },
         [](const Doc &d) {
             return content(d, "cs", [&](const pdf::COp &o) -> std::optional<Obj> {
                 auto *c = o.a.size() == 1 ? path(d, d.inherited(d.pages().at(0), "Resources"), {"ColorSpace", o.a[0].s.c_str()}) : nullptr;
                 if(!c || c->t != Obj::Arr || c->a.size() != 4) return std::nullopt;
                 return opt(&d.deref(c->a[1]));
             });
         }},
        {"role", NAME, false, 100, [](W &w, int, const Val &v) {
             auto r = w.s("generator_add_rolemap_entry", w.gen, v, E("CAPY_STRUCTURE_TYPE_H1"));
             size_t at = w.s.size() - 1;
             w.s("generator_add_custom_structure_item", w.gen, r, struct_root(w), null);
             return at;
         },
         [](const Doc &d) {
             auto s = struct_kids(d, "S");
             auto *m = path(d, &d.root(), {"StructTreeRoot", "RoleMap"});
             std::set<string> keys, used;
             if(m)
                 for(auto &[k, v] : m->d) keys.insert(k);
             for(auto &o : s)
                 if(o) used.insert(o->s);
             if(keys != used) return Seen{};
             return s;
         }, false, false, false, "r"},
        {"marked content tag", NAME, true, 100, [](W &w, int, const Val &v) {
             auto t = w.s("bdc_tags_new");
             w.s("bdc_tags_add_tag", t, "Key", "value");
             w.s("dc_cmd_BDC_testing", w.dc, v, t);
             size_t at = w.s.size() - 1;
             w.s("dc_cmd_EMC", w.dc);
             return at;
         },
         [](const Doc &d) { return content(d, "BDC", [](const pdf::COp &o) { return o.a.size() == 2 ? opt(&o.a[0]) : std::nullopt; }); }},
        {"BMC", NAME, false, 100, [](W &w, int, const Val &v) {
             w.s("dc_cmd_BMC", w.dc, v);
             size_t at = w.s.size() - 1;
             w.s("dc_cmd_EMC", w.dc);
             return at;
         },
         [](const Doc &d) { return content(d, "BMC", [](const pdf::COp &o) { return o.a.size() == 1 ? opt(&o.a[0]) : std::nullopt; }); }, false, false, true},
        {"property key", NAME, true, 100, [](W &w, int, const Val &v) { return tagged(w, v, mkval("value")); },
         [](const Doc &d) { return content(d, "BDC", [&](const pdf::COp &o) { return bdc_props(d, o, true); }); }},
        {"property value", BYTES, true, 100, [](W &w, int, const Val &v) { return tagged(w, mkval("Key"), v); },
         [](const Doc &d) { return content(d, "BDC", [&](const pdf::COp &o) { return bdc_props(d, o, false); }); }},
        {"button state", NAME, false, 60, [](W &w, int k, const Val &v) {
             auto f = w.s("form_field_new", 0);
             w.s("form_field_set_T", f, "b" + to_string(k));
             auto fid = w.s("generator_add_form_field", w.gen, f);
             auto a = w.s("widget_annotation_new");
             w.s("annotation_set_widget_button_appearance", a, w.form(1), w.form(2), v);
             size_t at = w.s.size() - 1;
             w.s("annotation_set_rectangle", a, 10.0, 20.0, 30.0, 40.5);
             w.s("annotation_set_parent_field", a, fid);
             w.s("dc_annotate", w.dc, w.s("generator_add_annotation", w.gen, a));
             return at;
         },
         [](const Doc &d) {
             Seen r;
             for(auto &ap : each(d, d.dget(page0(d), "Annots"), "AP")) {
                 std::optional<Obj> n;
                 if(auto *m = ap ? d.dget(*ap, "N") : nullptr)
                     for(auto &[k, v] : m->d)
                         if(k != "Off") n = as_name(k);
                 r.push_back(n);
             }
             return r;
         }},
        validity("render_text", [](W &w, const Val &v) { w.s("dc_render_text", w.dc, v, w.font(), 12.0, 10.0, 10.0); }),
        validity("text_width", [](W &w, const Val &v) { w.s("generator_text_width", w.gen, v, w.font(), 12.0); }),
        validity("Tj", [](W &w, const Val &v) {
            auto f = w.font();
            auto t = w.s("dc_text_new", w.dc);
            w.s("text_cmd_Tf", t, f, 12.0);
            w.s("text_cmd_Tj", t, v);
        }),
        validity("append_string", [](W &w, const Val &v) { w.s("text_sequence_append_string", w.s("text_sequence_new"), v); }),
    };
    return e;
}

// --- how a string and its length can be given
enum Mode { EXPLICIT, TERMINATED, PREFIX, NMODES };
static Val given(const string &s, int mode) {
    switch(mode) {
    case TERMINATED: return mkval(SZ{s, -1});
    case PREFIX: return mkval(SZ{s + "\xff(x", (int64_t)s.size()});
    default: return mkval(s);
    }
}
// Empty when what is seen is the string that was given.
static string judge(Kind kind, const std::optional<Obj> &o, const string &s) {
    if(!o) return s.empty() || kind == VALID ? "" : "is missing";
    switch(kind) {
    case TEXT: {
        auto t = pdf::text_string(*o);
        if(!t) return "is not a text string: " + pdf::show(*o, 1);
        return *t == s ? "" : "reads '" + *t + "'";
    }
    case BYTES:
    case XML: return o->t == Obj::Str && o->s == s ? "" : "is " + pdf::show(*o, 1);
    case NAME: return o->isname(s) ? "" : "is " + pdf::show(*o, 1);
    default: return "";
    }
}
static string hexed(const string &s) {
    string r;
    char b[4];
    for(unsigned char c : s.substr(0, 40)) {
        snprintf(b, sizeof b, "%02x", c);
        r += b;
    }
    return s.size() > 40 ? r + "... (" + to_string(s.size()) + " bytes)" : r;
}
static void survive(const Entry &e, std::vector<string> strs, int mode, Ctx &cx) {
    if(e.cstring && mode == PREFIX) return;
    if(e.cstring) mode = TERMINATED;
    for(auto &s : strs) s = e.before + s;
    W w;
    w.props();
    if(e.early)
        for(size_t k = 0; k < strs.size(); ++k) e.put(w, (int)k, given(strs[k], mode));
    w.start();
    if(!e.early)
        for(size_t k = 0; k < strs.size(); ++k) e.put(w, (int)k, given(strs[k], mode));
    w.finish();
    Doc d;
    if(!run_good(w.s, cx, d)) return;
    auto seen = e.get(d);
    if(e.sorted) {
        std::sort(strs.begin(), strs.end());
        auto key = [&](const std::optional<Obj> &o) { return o ? (e.kind == TEXT ? pdf::text_string(*o).value_or(o->s) : o->s) : string(); };
        std::sort(seen.begin(), seen.end(), [&](auto &a, auto &b) { return key(a) < key(b); });
    }
    if(seen.size() != strs.size()) return cx.violation(e.name + " is lost", to_string(seen.size()) + " of " + to_string(strs.size()) + " found; first string " + hexed(strs[0]));
    for(size_t k = 0; k < strs.size(); ++k) {
        auto r = judge(e.kind, seen[k], strs[k]);
        if(!r.empty()) return cx.violation(e.name + " differs", "string " + hexed(strs[k]) + " " + r);
        cx.state(e.name + hexed(strs[k]));
    }
}

static const std::vector<uint32_t> CRIT = {'(', ')', '\\', '\r', '\n', '\t', '<', '>', '/', '#', '%', '[', ' ', 'a', '0', '&', 0x01, 0x1f, 0x7f, 0x80, 0xad, 0xe4, 0xef, 0xbb,
                                           0xbf, 0xfe, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff};
static const std::vector<uint32_t> CRITA = {'(', ')', '\\', '\r', '\n', '\t', '\f', '\b', '<', '>', '/', '#', '%', '[', ']', '{', '}', ' ', 'a', 'F', '0', '~', '!', '"', '.', 0x01, 0x1f, 0x7f};
// All strings over the alphabet of 1..n characters; the empty one is number 0.
static size_t nstrings(size_t a, int n) {
    size_t r = 1, p = 1;
    for(int k = 0; k < n; ++k) r += p *= a;
    return r;
}
static string nth(const std::vector<uint32_t> &a, size_t i) {
    string r;
    while(i > 0) {
        --i;
        r += utf8(a[i % a.size()]);
        i /= a.size();
    }
    return r;
}
static bool applies(const Entry &e, const string &s) {
    if(e.kind == NAME && (s.empty() || s[0] == '/')) return false; // not names
    if((e.name == "output intent" || e.name == "outline") && s.empty()) return false; // means none; must not be
    return true;
}
static std::vector<string> bad_strings() {
    std::vector<string> b = {"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xdf", "\xc2" "A", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe1\x80", "\xe1\x80" "A", "\xed\xa0\x80", "\xed\xbf\xbf", "\xed\xa0\xbd\xed\xb8\x80", "\xef\xbf",
                             "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x9f\x98", "\xf0\x9f\x98" "A", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xfe", "\xff", "\xfe\xff\x00" "a", "\xc3\xa4\xc3"};
    size_t n = b.size();
    for(size_t i = 0; i < n; ++i) b.push_back("ab" + b[i]);
    for(size_t i = 0; i < n; ++i) b.push_back(b[i] + "yz");
    return b;
}
static std::vector<string> nul_strings() { return {string("\0", 1), string("a\0", 2), string("\0a", 2), string("a\0b", 3), string("\xc3\xa4\0", 3), string("(\0)", 3)}; }

int main(int argc, char **argv) {
    Check c;
    c.id = "C07";
    c.bounds = "41 places that take a string x all strings of up to 2 (thorough: 3) characters over 38 critical characters (28 for ASCII names) x length given explicitly, by termination, and as a prefix of a longer buffer; "
               "every Unicode scalar value alone (thorough: in every place; quick: in every place for the BMP below U+3000 and around all encoding boundaries, all of them in four places); strings of up to 70 000 bytes; "
               "acceptance of all byte strings of up to 2 bytes, and of 3 and 4 bytes over 29 boundary bytes; 87 invalid strings in every place.";
    c.assumptions = {"Text strings are UTF-16BE with a byte order mark, UTF-8 with one, or PDFDocEncoding (ISO 32000-2 7.9.2.2).", "An empty string may be written as an absent entry.", "The raw string /F of a file specification holds the UTF-8 bytes."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        auto &es = entries();
        struct Job { size_t e, from, to; };
        auto jobs = std::make_shared<std::vector<Job>>();
        for(size_t k = 0; k < es.size(); ++k) {
            if(es[k].kind == VALID) continue;
            size_t n = nstrings(es[k].ascii ? CRITA.size() : CRIT.size(), thorough ? 3 : 2);
            for(size_t i = 0; i < n; i += es[k].many) jobs->push_back({k, i, std::min(n, i + es[k].many)});
        }
        f.push_back({"critical strings", jobs->size() * NMODES, [=](size_t i, Ctx &cx) {
            auto &j = (*jobs)[i / NMODES];
            auto &e = entries()[j.e];
            std::vector<string> s;
            for(size_t k = j.from; k < j.to; ++k) {
                auto x = nth(e.ascii ? CRITA : CRIT, k);
                if(applies(e, x)) s.push_back(x);
            }
            if(!s.empty()) survive(e, s, (int)(i % NMODES), cx);
        }, [=](size_t i) { return entries()[(*jobs)[i / NMODES].e].name + " " + to_string((*jobs)[i / NMODES].from); }});
        // every scalar value, alone and after another character
        auto sj = std::make_shared<std::vector<Job>>();
        for(size_t k = 0; k < es.size(); ++k) {
            if(es[k].kind == VALID) continue;
            size_t many = es[k].many;
            size_t top = es[k].ascii ? 0x80 : 0x110000;
            bool all = thorough ? many > 1 : es[k].name == "outline" || es[k].name == "replacement text" || es[k].name == "text field value" || es[k].name == "optional content group";
            for(size_t i = 1; i < top; i += many) {
                size_t to = std::min(top, i + many);
                bool edge = false;
                for(size_t m : {0x800, 0xd800, 0xe000, 0xfdd0, 0xfe00, 0x10000, 0x11000, 0x20000, 0x100000, 0x110000}) edge = edge || (i < m + 64 && to + 64 > m);
                if(!all && i >= (many > 1 ? 0x3000 : 0x200) && !edge) continue;
                sj->push_back({k, i, to});
            }
        }
        f.push_back({"every character", sj->size(), [=](size_t i, Ctx &cx) {
            auto &j = (*sj)[i];
            auto &e = entries()[j.e];
            std::vector<string> s;
            for(size_t k = j.from; k < j.to; ++k) {
                if(k >= 0xd800 && k < 0xe000) continue;
                auto x = utf8((uint32_t)k);
                if(applies(e, x)) s.push_back(x);
            }
            if(!s.empty()) survive(e, s, (int)(i % NMODES), cx);
        }, nullptr});
        static const std::vector<size_t> LEN = {63, 126, 127, 128, 254, 255, 256, 511, 512, 1023, 4095, 4096, 16384, 32767, 32768, 65535, 65536, 70000};
        f.push_back({"long strings", es.size() * LEN.size() * 4, [](size_t i, Ctx &cx) {
            auto &e = entries()[i % entries().size()];
            size_t len = LEN[i / entries().size() % LEN.size()];
            int what = (int)(i / entries().size() / LEN.size());
            static const std::vector<string> UNIT = {"a", "\\", "\xc3\xa4", "\xf0\x9f\x98\x80"}, UNITA = {"a", "\\", "(", "#"};
            auto &u = (e.ascii ? UNITA : UNIT)[(size_t)what];
            string s;
            while(s.size() < len) s += u;
            if(e.name == "ligature text" && s.size() > 500) return; // bf strings are at most 512 bytes long
            if(e.kind == VALID || (e.kind == NAME && s.size() > 127)) return;
            survive(e, {s}, (int)(i % NMODES), cx);
        }, nullptr});
        // --- what is not a string
        auto bad = std::make_shared<std::vector<string>>(bad_strings());
        auto nul = std::make_shared<std::vector<string>>(nul_strings());
        f.push_back({"invalid strings", es.size() * (bad->size() + nul->size() + 4), [=](size_t i, Ctx &cx) {
            auto &e = entries()[i % entries().size()];
            size_t k = i / entries().size();
            Val v;
            bool after = i / 3 % 2 && e.many > 1;
            if(k < bad->size()) {
                auto s = e.before + (*bad)[k];
                if(e.name == "collection D") return; // bytes, not characters
                v = given(s, s.find('\0') != string::npos ? EXPLICIT : e.cstring ? TERMINATED : (int)(i % NMODES));
                if(e.cstring && s.find('\0') != string::npos) return;
            } else if(k < bad->size() + nul->size()) {
                if(e.cstring) return;
                v = mkval(e.before + (*nul)[k - bad->size()]);
            } else {
                if(e.cstring) return;
                static const int64_t L[] = {-2, -100, INT32_MIN, INT32_MIN + 1};
                v = mkval(SZ{"valid", L[k - bad->size() - nul->size()]});
            }
            W w;
            w.props();
            size_t at = 0;
            if(e.early) at = e.put(w, 0, v);
            w.start();
            if(!e.early) {
                if(after) e.put(w, 0, mkval("first"));
                at = e.put(w, after, v);
            }
            w.page();
            w.finish();
            cx.script(w.s);
            auto o = execute(w.s);
            if(o.rc[at] == 0) return cx.violation("invalid string accepted as " + e.name, op_text(w.s.ops[at]));
            Doc d;
            try {
                auto b = read_file(scratch() + "/out.pdf");
                d = Doc::parse(b);
            } catch(const std::exception &x) { // calls that do not name what failed go on
                bool wrote = o.rc.back() == 0;
                if(wrote) cx.violation("document unreadable after an invalid " + e.name, x.what());
                return;
            }
            for(auto &x : e.get(d))
                if(x && (x->t == Obj::Str || x->t == Obj::Name) && !x->s.empty() && judge(e.kind, x, "first") != "" && judge(e.kind, x, "unnamed") != "" && e.name != "embedded file subtype")
                    return cx.violation("invalid string appears as " + e.name, pdf::show(*x, 1));
            cx.state(e.name + to_string(k));
        }, nullptr});
        // --- which byte strings are accepted
        static const std::vector<unsigned char> EDGE = {0x00, 0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfe, 0xff};
        const size_t N3 = EDGE.size() * EDGE.size() * EDGE.size(), N4 = N3 * EDGE.size(), N5 = thorough ? N4 * EDGE.size() : 0;
        const size_t TOTAL = 1 + 256 + 65536 + N3 + N4 + N5, BLOCK = 512;
        f.push_back({"accepted bytes", (TOTAL + BLOCK - 1) / BLOCK, [=](size_t i, Ctx &cx) {
            Script s;
            auto md = s("document_properties_new");
            std::vector<string> strs;
            for(size_t k = i * BLOCK; k < std::min(TOTAL, (i + 1) * BLOCK); ++k) {
                string x;
                size_t j = k;
                auto edge = [&](int n) {
                    while(n--) {
                        x += (char)EDGE[j % EDGE.size()];
                        j /= EDGE.size();
                    }
                };
                if(j < 1) {}
                else if((j -= 1) < 256) x = string(1, (char)j);
                else if((j -= 256) < 65536) x = {(char)(j & 255), (char)(j >> 8)};
                else if((j -= 65536) < N3) edge(3);
                else if((j -= N3) < N4) edge(4);
                else j -= N4, edge(5);
                strs.push_back(x);
                s("document_properties_set_title", md, x);
                s("document_properties_set_language", md, x);
                if(x.find('\0') == string::npos) {
                    s("document_properties_set_title", md, nts(x));
                    s("document_properties_set_language", md, nts(x));
                }
            }
            cx.script(s);
            auto o = execute(s);
            size_t at = 1;
            for(auto &x : strs) {
                bool nul = x.find('\0') != string::npos;
                bool u = utf8_chars(x) >= 0 && !nul;
                bool a = !nul && std::all_of(x.begin(), x.end(), [](char ch) { return (unsigned char)ch < 128; });
                for(int m = 0; m < (nul ? 1 : 2); ++m) {
                    if((o.rc[at] == 0) != u) return cx.violation(u ? "valid UTF-8 rejected" : "invalid UTF-8 accepted", hexed(x) + (m ? " (terminated)" : ""));
                    ++at;
                    if((o.rc[at] == 0) != a) return cx.violation(a ? "ASCII rejected" : "non-ASCII accepted", hexed(x) + (m ? " (terminated)" : ""));
                    ++at;
                }
            }
            cx.transitions(at);
            cx.state(to_string(i));
        }, nullptr});
        // --- the name of a file that is loaded
        f.push_back({"file names", 2 * nstrings(CRIT.size(), 1), [](size_t i, Ctx &cx) {
            auto x = nth(CRIT, i / 2);
            if(x.empty() || x == "/") return;
            auto fn = i % 2 ? x + ".txt" : "a" + x + "b";
            write_file(scratch() + "/" + fn, "contents");
            W w;
            w.props();
            w.start();
            auto e = w.s("embedded_file_new");
            w.s("embedded_file_load_file", e, "$OUT/" + fn);
            w.s("generator_embed_file", w.gen, e);
            w.finish();
            Doc d;
            bool ok = run_good(w.s, cx, d);
            unlink((scratch() + "/" + fn).c_str());
            if(!ok) return;
            auto uf = names_tree(d, 2), k = names_tree(d, 0);
            auto r = uf.size() == 1 ? judge(TEXT, uf[0], fn) : string("is missing");
            if(r.empty()) r = judge(BYTES, k.at(0), fn);
            if(!r.empty()) return cx.violation("name of a loaded file differs", hexed(fn) + " " + r);
            cx.state(fn);
        }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
