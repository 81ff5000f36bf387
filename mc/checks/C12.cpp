// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "spec.hpp"
#include <fstream>
#include <sstream>
using namespace mc;
namespace sp = mc::spec;
using std::string;
using std::to_string;

// --- the model
enum Kind { TEXT, LINK, LINE, FILEATT, PMARK, D3, WIDGET, NKINDS };
struct Anno {
    int kind = TEXT;
    string text = "contents";     // text, line
    double rect[4] = {1, 2, 30, 40};
    bool has_flags = false;
    int flags = 0;
    int link = 0;                 // 0 nothing 1 uri 2 fit 3 xyz
    string uri = "https://example.com/a";
    int page = 0;
    double L[4] = {1, 2, 3, 4};
    bool leaders = false;
    double LL = 0, LLE = 0;
    int le0 = -1, le1 = -1;
    int which = 0;                // which file, form, 3d stream
    int parent = -1;              // field
    int button = -1;              // on = form(button), off = form(button + 1)
    string on = "checked";
    V v;
};
struct Field {
    int type = 0; // Btn Tx Ch
    int parent = -1;
    string T, V_;
    bool has_ff = false;
    uint32_t ff = 0;
    std::vector<string> opt;
    V v;
};
static const char *LE[] = {"Square", "Circle", "Diamond", "OpenArrow", "ClosedArrow", "None", "Butt", "ROpenArrow", "RClosedArrow", "Slash"};
static string embedded_name(int k) { return "file" + to_string(k) + ".txt"; }
static string embedded_data(int k) { return "file contents " + to_string(k); }
static V embedded(B &b, int k) {
    return b.res("EF" + to_string(k), [&] {
        auto e = b.s("embedded_file_new");
        b.s("embedded_file_set_contents", e, embedded_data(k));
        b.s("embedded_file_set_pdf_name", e, embedded_name(k));
        return b.s("generator_embed_file", b.gen, e);
    });
}
static V stream3d(B &b, int k) {
    return b.res("3D" + to_string(k), [&] {
        auto o = b.s("3d_stream_new", "$REPO/testdata/3d/toruses.u3d", k);
        return b.s("generator_add_3d_stream", b.gen, o);
    });
}
static const string &file3d() {
    static const string s = [] {
        std::ifstream f(string(getenv("MC_REPO") ? getenv("MC_REPO") : "/repo") + "/testdata/3d/toruses.u3d", std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }();
    return s;
}
static V object(W &w, const Anno &a) {
    switch(a.kind) {
    case TEXT: return w.s("text_annotation_new", a.text);
    case LINK: return w.s("link_annotation_new");
    case LINE: return w.s("line_annotation_new", a.text, a.L[0], a.L[1], a.L[2], a.L[3]);
    case FILEATT: return w.s("file_attachment_annotation_new", embedded(w, a.which));
    case PMARK: return w.s("printers_mark_annotation_new", w.form(a.which));
    case D3: return w.s("3d_annotation_new");
    default: return w.s("widget_annotation_new");
    }
}
static void set_dest(W &w, V o, int form, int page) {
    auto d = w.s("destination_new");
    if(form == 2) w.s("destination_set_page_fit", d, page);
    else w.s("destination_set_page_xyz", d, page, 10.0, mkval(null), 1.5);
    w.s("annotation_set_destination", o, d);
}
struct F12 : W {
    std::vector<Field> fields;
    std::vector<Anno> annos;
    void rect(V o, const Anno &a) { s("annotation_set_rectangle", o, a.rect[0], a.rect[1], a.rect[2], a.rect[3]); }
    V setup(const Anno &a) {
        auto o = object(*this, a);
        rect(o, a);
        if(a.has_flags) s("annotation_set_flags", o, a.flags);
        if(a.kind == LINK && a.link == 1) s("annotation_set_uri", o, a.uri);
        if(a.kind == LINK && a.link > 1) set_dest(*this, o, a.link, a.page);
        if(a.kind == LINE && a.leaders) s("annotation_set_line_leader", o, a.LL, a.LLE);
        if(a.kind == LINE && a.le0 >= 0) s("annotation_set_line_endings", o, a.le0, a.le1);
        if(a.kind == D3) s("annotation_set_3d_stream", o, stream3d(*this, a.which));
        if(a.kind == WIDGET && a.parent >= 0) s("annotation_set_parent_field", o, fields[(size_t)a.parent].v);
        if(a.kind == WIDGET && a.button >= 0) s("annotation_set_widget_button_appearance", o, form(a.button), form(a.button + 1), a.on);
        return o;
    }
    int add(Anno a, V o) {
        a.v = s("generator_add_annotation", gen, o);
        annos.push_back(a);
        return (int)annos.size() - 1;
    }
    int add(Anno a) {
        auto o = setup(a);
        int r = add(a, o);
        s("annotation_destroy", o);
        return r;
    }
    int add_field(Field f) {
        auto o = s("form_field_new", f.type);
        if(!f.T.empty()) s("form_field_set_T", o, f.T);
        if(!f.V_.empty()) s("form_field_set_V", o, f.V_);
        if(f.has_ff) s("form_field_set_Ff", o, (int64_t)f.ff);
        for(auto &e : f.opt) s("form_field_add_Opt_entry", o, e);
        if(f.parent >= 0) s("form_field_set_parent", o, fields[(size_t)f.parent].v);
        f.v = s("generator_add_form_field", gen, o);
        s("form_field_destroy", o);
        fields.push_back(f);
        return (int)fields.size() - 1;
    }
    void put(int a, V on) { s("dc_annotate", on, annos[(size_t)a].v); }
};
// The same rectangle, whichever two corners it is given by.
static sp::Sp rect_spec(const double *r) {
    double n[4] = {std::min(r[0], r[2]), std::min(r[1], r[3]), std::max(r[0], r[2]), std::max(r[1], r[3])};
    std::vector<double> want(n, n + 4);
    return [want](const pdf::Doc &d, const pdf::Obj *o) {
        if(!o || o->t != pdf::Obj::Arr || o->a.size() != 4) return string("not a rectangle");
        double g[4];
        for(size_t k = 0; k < 4; ++k) {
            auto &e = d.deref(o->a[k]);
            if(!e.isnum()) return string("not a rectangle");
            g[k] = e.num();
        }
        if(g[0] > g[2]) std::swap(g[0], g[2]);
        if(g[1] > g[3]) std::swap(g[1], g[3]);
        for(size_t k = 0; k < 4; ++k)
            if(!close(g[k], want[k])) return "rectangle " + pdf::show(*o, 1);
        return string();
    };
}
static sp::Sp data(string bytes) {
    return [bytes](const pdf::Doc &d, const pdf::Obj *o) {
        if(!o || o->t != pdf::Obj::Stream) return string("not a stream");
        return d.stream_data(*o) == bytes ? string() : string("other data");
    };
}
struct Judge {
    const F12 &w;
    const pdf::Doc &d;
    std::vector<const pdf::Obj *> fobj; // the object of every field
    std::string view;
    sp::Sp spec(const Anno &a, int page) const {
        sp::Dict s{{"Type", sp::def(sp::name("Annot"))}, {"Rect", rect_spec(a.rect)},
                   {"F", a.has_flags && a.flags ? sp::integer(a.flags) : sp::def(sp::integer(0))}, {"P", page >= 0 ? sp::def(sp::page(page)) : sp::absent()}};
        auto put = [&](const char *k, sp::Sp v) { s.push_back({k, v}); };
        switch(a.kind) {
        case TEXT: put("Subtype", sp::name("Text")); put("Contents", sp::text(a.text)); break;
        case LINK:
            put("Subtype", sp::name("Link"));
            if(a.link == 1) put("A", sp::dict({{"Type", sp::def(sp::name("Action"))}, {"S", sp::name("URI")}, {"URI", sp::bytes(a.uri)}}));
            if(a.link == 2) put("Dest", sp::arr({sp::page(a.page), sp::name("Fit")}));
            if(a.link == 3) put("Dest", sp::arr({sp::page(a.page), sp::name("XYZ"), sp::num(10), sp::absent(), sp::num(1.5)}));
            break;
        case LINE:
            put("Subtype", sp::name("Line"));
            put("Contents", sp::text(a.text));
            put("L", sp::nums({a.L[0], a.L[1], a.L[2], a.L[3]}));
            put("LL", a.leaders ? sp::num(a.LL) : sp::def(sp::num(0)));
            put("LLE", a.leaders ? sp::num(a.LLE) : sp::def(sp::num(0)));
            if(a.le0 >= 0) put("LE", sp::arr({sp::name(LE[a.le0]), sp::name(LE[a.le1])}));
            else put("LE", sp::def(sp::arr({sp::name("None"), sp::name("None")})));
            break;
        case FILEATT:
            put("Subtype", sp::name("FileAttachment"));
            put("FS", sp::dict({{"Type", sp::name("Filespec")}, {"F", sp::bytes(embedded_name(a.which))}, {"UF", sp::def(sp::text(embedded_name(a.which)))},
                                {"EF", sp::dict({{"F", data(embedded_data(a.which))}}, true)}}, true));
            break;
        case PMARK:
            put("Subtype", sp::name("PrinterMark"));
            put("AP", sp::dict({{"N", sp::labelled(form_label(a.which))}}));
            break;
        case D3:
            put("Subtype", sp::name("3D"));
            put("3DD", sp::both(sp::dict({{"Type", sp::name("3D")}, {"Subtype", sp::name(a.which ? "PRC" : "U3D")}}), data(file3d())));
            put("AP", sp::any());
            put("AS", sp::any());
            break;
        default:
            put("Subtype", sp::name("Widget"));
            if(a.parent >= 0) put("Parent", sp::same(fobj[(size_t)a.parent]));
            if(a.button >= 0) {
                put("AP", sp::dict({{"N", sp::dict({{a.on, sp::labelled(form_label(a.button))}, {"Off", sp::labelled(form_label(a.button + 1))}})}}));
                put("AS", [on = a.on](const pdf::Doc &, const pdf::Obj *o) { // in one of its states
                    return o && (o->isname("Off") || o->isname(on)) ? string() : string("no state");
                });
            }
        }
        return sp::dict(s);
    }
    // In the order in which they were attached, which is the order of painting.
    string match(const std::vector<const pdf::Obj *> &objs, const std::vector<int> &ids, int page) {
        if(objs.size() != ids.size()) return to_string(objs.size()) + " annotations, expected " + to_string(ids.size());
        std::set<const pdf::Obj *> distinct(objs.begin(), objs.end());
        if(distinct.size() != objs.size()) return "the same annotation twice";
        for(size_t i = 0; i < ids.size(); ++i) {
            auto r = spec(w.annos[(size_t)ids[i]], page)(d, objs[i]);
            if(!r.empty()) return "annotation " + to_string(ids[i]) + ": " + r;
        }
        return "";
    }
    // A one to one assignment (several objects may fit the same annotation).
    string assign(const std::vector<const pdf::Obj *> &objs, const std::vector<int> &ids, const std::function<int(int)> &page) {
        std::vector<std::vector<string>> res(ids.size());
        std::vector<int> owner(objs.size(), -1);
        for(size_t i = 0; i < ids.size(); ++i) {
            auto s = spec(w.annos[(size_t)ids[i]], page(ids[i]));
            bool any = false;
            for(auto *o : objs) { res[i].push_back(s(d, o)); any = any || res[i].back().empty(); }
            if(!any) return "annotation " + to_string(ids[i]) + ": " + (i < res[i].size() ? res[i][i] : string("missing"));
        }
        std::vector<char> seen;
        std::function<bool(size_t)> grow = [&](size_t i) {
            for(size_t k = 0; k < objs.size(); ++k) {
                if(seen[k] || !res[i][k].empty()) continue;
                seen[k] = 1;
                if(owner[k] < 0 || grow((size_t)owner[k])) { owner[k] = (int)i; return true; }
            }
            return false;
        };
        for(size_t i = 0; i < ids.size(); ++i) {
            seen.assign(objs.size(), 0);
            if(!grow(i)) return "annotation " + to_string(ids[i]) + " is missing";
        }
        return "";
    }
    static std::vector<const pdf::Obj *> items(const pdf::Doc &d, const pdf::Obj *a) {
        std::vector<const pdf::Obj *> r;
        if(a && a->t == pdf::Obj::Arr)
            for(auto &e : a->a) r.push_back(&d.deref(e));
        return r;
    }
    string field_tree(const pdf::Obj *list, int parent, const pdf::Obj *pobj) {
        auto objs = items(d, list);
        std::vector<int> kids, wid;
        for(size_t k = 0; k < w.fields.size(); ++k)
            if(w.fields[k].parent == parent) kids.push_back((int)k);
        if(parent >= 0)
            for(size_t k = 0; k < w.annos.size(); ++k)
                if(w.annos[k].kind == WIDGET && w.annos[k].parent == parent) wid.push_back((int)k);
        auto where = "children of field " + to_string(parent);
        if(objs.size() != kids.size() + wid.size()) return where + ": " + to_string(objs.size()) + " expected " + to_string(kids.size() + wid.size());
        std::vector<const pdf::Obj *> fo, wo;
        for(auto o : objs) {
            auto *st = d.dget(*o, "Subtype");
            (st && st->isname("Widget") ? wo : fo).push_back(o);
        }
        if(fo.size() != kids.size()) return where + ": " + to_string(fo.size()) + " fields expected " + to_string(kids.size());
        for(size_t k = 0; k < kids.size(); ++k) { // fields in the order they were added
            auto &f = w.fields[(size_t)kids[k]];
            fobj[(size_t)kids[k]] = fo[k];
            static const char *ft[] = {"Btn", "Tx", "Ch"};
            sp::Dict s{{"FT", sp::name(ft[f.type])}, {"Parent", parent >= 0 ? sp::same(pobj) : sp::absent()}, {"Kids", sp::any()},
                       {"Ff", f.has_ff ? sp::integer(f.ff) : sp::def(sp::integer(0))}, {"T", f.T.empty() ? sp::absent() : sp::text(f.T)}};
            if(!f.V_.empty()) s.push_back({"V", f.type == 0 ? sp::name(f.V_) : sp::text(f.V_)});
            if(f.type == 2) {
                std::vector<sp::Sp> o;
                for(auto &e : f.opt) o.push_back(sp::text(e));
                s.push_back({"Opt", f.opt.empty() ? sp::def(sp::arr({})) : sp::arr(o)});
            }
            auto r = sp::dict(s)(d, fo[k]);
            if(!r.empty()) return "field " + to_string(kids[k]) + ": " + r;
            view += f.T + "[" + ft[f.type];
            r = field_tree(d.dget(*fo[k], "Kids"), kids[k], fo[k]);
            view += "]";
            if(!r.empty()) return r;
        }
        if(wid.empty()) return "";
        // a widget is the same object as on its page
        auto r = assign(wo, wid, [&](int id) { return page_of[(size_t)id]; });
        if(!r.empty()) return where + ": " + r;
        return "";
    }
    std::vector<int> page_of;
    std::set<const pdf::Obj *> on_pages;
    // pages: the annotations of every page
    string run(const std::vector<std::vector<int>> &pages) {
        auto ps = d.pages();
        if(ps.size() != pages.size()) return to_string(ps.size()) + " pages";
        fobj.assign(w.fields.size(), nullptr);
        page_of.assign(w.annos.size(), -1);
        for(size_t p = 0; p < pages.size(); ++p)
            for(int a : pages[p]) page_of[(size_t)a] = (int)p;
        auto *form = d.dget(d.root(), "AcroForm");
        if(!form && !w.fields.empty()) return "the document has no form";
        if(form) {
            auto r = field_tree(d.dget(*form, "Fields"), -1, nullptr);
            if(!r.empty()) return r;
        }
        for(size_t p = 0; p < pages.size(); ++p) {
            auto objs = items(d, d.dget(d.objs.at(ps[p]), "Annots"));
            auto r = match(objs, pages[p], (int)p);
            if(!r.empty()) return "page " + to_string(p) + ": " + r;
            for(auto o : objs)
                if(!on_pages.insert(o).second) return "an annotation is on two pages";
            view += " p" + to_string(objs.size());
        }
        // the widgets among the kids of fields are the ones on the pages
        for(size_t k = 0; k < w.fields.size(); ++k)
            for(auto o : items(d, d.dget(*fobj[k], "Kids"))) {
                if(auto *st = d.dget(*o, "Subtype"); !st) continue;
                if(d.dget(*o, "P") && !on_pages.count(o)) return "a widget of field " + to_string(k) + " is not the one on the page";
            }
        return "";
    }
};
static void judge(F12 &w, const std::vector<std::vector<int>> &pages, Ctx &cx, const std::set<size_t> &rejected = {}, const string &tag = "") {
    pdf::Doc d;
    if(!run_expect(w.s, rejected, cx, d)) return;
    Judge j{w, d, {}, tag, {}, {}};
    auto r = j.run(pages);
    if(!r.empty()) cx.violation("annotations or fields differ", r);
    cx.state(j.view);
    cx.sample(j.view);
}
static void begin(F12 &w) {
    w.props();
    w.start();
}
static const double RECTS[][4] = {{1, 2, 30, 40}, {30.5, 40.25, 1, 2}, {-10, -20.125, 0, 0}, {0.000001, 99999.5, 12345.678901, 1e6}};
static const string TEXTS[] = {"plain", "", "(a)\\b\n", "\xc3\xa4\xe2\x82\xac \xf0\x9f\x98\x80"};
static const int FLAGS[] = {-1, 0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1023, 341};
static Anno rnd(int kind, int k) { // one of many different annotations
    Anno a;
    a.kind = kind;
    a.text = "a" + to_string(k);
    a.rect[0] = k;
    a.rect[2] = 100 + k;
    a.which = k % 2;
    a.link = kind == LINK ? 1 + k % 3 : 0;
    a.page = 0;
    if(k % 3 == 0) { a.has_flags = true; a.flags = 4; }
    return a;
}
static size_t pw(size_t b, int e) { size_t r = 1; while(e--) r *= b; return r; }

int main(int argc, char **argv) {
    Check c;
    c.id = "C12";
    c.bounds = "All annotation kinds x flags x rectangles x texts; all line endings pairs x leaders; all sequences of link, line and widget setters; widgets with every parent and button appearance; the matrix of "
               "setters x kinds; every sequence up to depth 5 (thorough 6) of attaching 3 annotations to two contexts with reuse and committing them; every forest of up to 4 (thorough 5) form fields with all types and "
               "widget assignments; all field attribute combinations; up to 300 annotations in a page.";
    c.assumptions = {"The order of annotations in a page is not specified.", "Values of fields are valid UTF-8 or PDF names as their type requires."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        f.push_back({"kinds", NKINDS * 14 * 4 * 4, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            Anno a;
            a.kind = (int)(i % NKINDS);
            i /= NKINDS;
            int fl = FLAGS[i % 14];
            a.has_flags = fl >= 0;
            a.flags = std::max(0, fl);
            i /= 14;
            for(int k = 0; k < 4; ++k) a.rect[k] = RECTS[i % 4][k];
            i /= 4;
            a.text = TEXTS[i % 4];
            a.which = (int)(i % 2);
            a.link = (int)(i % 4);
            w.put(w.add(a), w.dc);
            w.finish();
            judge(w, {{0}}, cx, {}, to_string(a.kind));
        }, nullptr});
        f.push_back({"line", 11 * 10 * 4 * 3, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            Anno a;
            a.kind = LINE;
            a.le0 = (int)(i % 11) - 1;
            a.le1 = (int)(i / 11 % 10);
            static const double LD[][2] = {{0, 0}, {5, -3.5}, {-2.25, 0}, {0, 7}};
            int l = (int)(i / 110 % 4);
            a.leaders = l > 0;
            a.LL = LD[l][0];
            a.LLE = LD[l][1];
            static const double LS[][4] = {{1, 2, 3, 4}, {30, 20, -10, 5.5}, {0, 0, 0, 0}};
            for(int k = 0; k < 4; ++k) a.L[k] = LS[i / 440][k];
            w.put(w.add(a), w.dc);
            w.finish();
            judge(w, {{0}}, cx);
        }, nullptr});
        // setters in sequence on one object, adding it after each
        f.push_back({"setters", pw(10, thorough ? 4 : 3) * 3, [=](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            w.add_field({1, -1, "f0", "", false, 0, {}, {}});
            w.add_field({0, -1, "f1", "", false, 0, {}, {}});
            Anno a;
            static const int kinds[] = {LINK, LINE, WIDGET};
            a.kind = kinds[i % 3];
            i /= 3;
            auto o = object(w, a);
            w.rect(o, a);
            std::vector<int> all;
            auto add = [&] { int id = w.add(a, o); w.put(id, w.dc); all.push_back(id); };
            for(int k = 0; k < (thorough ? 4 : 3); ++k) {
                switch(i / pw(10, k) % 10) {
                case 0: add(); break;
                case 1: a.rect[0] = -k; a.rect[3] = 50 + k; w.rect(o, a); break;
                case 2: a.has_flags = true; a.flags = 4 << k; w.s("annotation_set_flags", o, a.flags); break;
                case 3: a.has_flags = true; a.flags = 0; w.s("annotation_set_flags", o, 0); break;
                case 4:
                    if(a.kind == LINK) { a.link = 1; a.uri = "http://b/" + to_string(k); w.s("annotation_set_uri", o, a.uri); }
                    if(a.kind == LINE) { a.leaders = true; a.LL = k; a.LLE = -k; w.s("annotation_set_line_leader", o, a.LL, a.LLE); }
                    if(a.kind == WIDGET) { a.parent = 0; w.s("annotation_set_parent_field", o, w.fields[0].v); }
                    break;
                case 5:
                    if(a.kind == LINK) { a.link = 2; a.page = 0; set_dest(w, o, 2, 0); }
                    if(a.kind == LINE) { a.le0 = k; a.le1 = 9 - k; w.s("annotation_set_line_endings", o, a.le0, a.le1); }
                    if(a.kind == WIDGET) { a.parent = 1; w.s("annotation_set_parent_field", o, w.fields[1].v); }
                    break;
                case 6:
                    if(a.kind == LINK) { a.link = 3; a.page = 1; set_dest(w, o, 3, 1); }
                    if(a.kind == LINE) { a.le0 = 5; a.le1 = 5; w.s("annotation_set_line_endings", o, 5, 5); }
                    if(a.kind == WIDGET) { a.button = k; a.on = "on" + to_string(k); w.s("annotation_set_widget_button_appearance", o, w.form(k), w.form(k + 1), a.on); }
                    break;
                case 7:
                    if(a.kind == LINK) { a.link = 1; a.uri = "x"; w.s("annotation_set_uri", o, a.uri); }
                    if(a.kind == LINE) { a.leaders = true; a.LL = 0; a.LLE = 0; w.s("annotation_set_line_leader", o, 0.0, 0.0); }
                    if(a.kind == WIDGET) { a.button = 3; a.on = "checked"; w.s("annotation_set_widget_button_appearance", o, w.form(3), w.form(4), a.on); }
                    break;
                case 8: // another object must not matter
                    w.add(rnd(a.kind, k));
                    break;
                case 9: w.page(); // continue on the next page
                    all.clear(); // handled below
                    w.annos.push_back({}); // marker
                    w.annos.back().kind = -1;
                    break;
                }
            }
            add();
            w.s("annotation_destroy", o);
            w.page();
            w.finish();
            // pages from the markers
            std::vector<std::vector<int>> pages(1);
            std::vector<Anno> real;
            for(auto &x : w.annos) {
                if(x.kind < 0) { pages.push_back({}); continue; }
                real.push_back(x);
                bool attached = x.text == "contents"; // the others are never attached
                if(attached) pages.back().push_back((int)real.size() - 1);
            }
            pages.push_back({});
            w.annos = real;
            judge(w, pages, cx);
        }, nullptr});
        // setters that do not apply are refused and change nothing
        f.push_back({"matrix", NKINDS * 7 * 2, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            w.add_field({0, -1, "f0", "", false, 0, {}, {}});
            Anno a = rnd((int)(i % NKINDS), 3);
            int setter = (int)(i / NKINDS % 7);
            if(i / NKINDS / 7) a.parent = 0;
            auto o = w.setup(a);
            auto r3 = stream3d(w, 1);
            std::set<size_t> bad;
            static const int owner[] = {LINK, LINK, D3, LINE, LINE, WIDGET, WIDGET};
            switch(setter) {
            case 0: a.link = 2; a.page = 0; set_dest(w, o, 2, 0); break;
            case 1: a.link = 1; a.uri = "http://z"; w.s("annotation_set_uri", o, a.uri); break;
            case 2: if(a.kind == D3) a.which = 1; w.s("annotation_set_3d_stream", o, r3); break;
            case 3: a.leaders = true; a.LL = 3; a.LLE = 4; w.s("annotation_set_line_leader", o, 3.0, 4.0); break;
            case 4: a.le0 = 0; a.le1 = 9; w.s("annotation_set_line_endings", o, 0, 9); break;
            case 5: a.parent = 0; w.s("annotation_set_parent_field", o, w.fields[0].v); break;
            case 6: { auto f0 = w.form(0), f1 = w.form(1); a.button = 0; a.on = "yes"; w.s("annotation_set_widget_button_appearance", o, f0, f1, "yes"); break; }
            }
            if(owner[setter] != a.kind) bad.insert(w.s.size() - 1);
            w.put(w.add(a, o), w.dc);
            w.finish();
            judge(w, {{0}}, cx, bad);
        }, nullptr});
        f.push_back({"widget", 3 * 4 * 3 * 3 * 3, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            w.add_field({0, -1, "f0", "", false, 0, {}, {}});
            w.add_field({(int)(i % 3), 0, "f1", "", false, 0, {}, {}});
            i /= 3;
            std::vector<int> on[2];
            for(int k = 0; k < 2; ++k) {
                Anno a = rnd(WIDGET, k);
                a.parent = (int)(i % 3) - 1;
                i /= 3;
                int bt = (int)(i % (k ? 3 : 4));
                i /= k ? 3 : 4;
                a.button = bt - 1;
                static const char *names[] = {"checked", "A", "on-1_x", "Yes"};
                a.on = names[bt];
                on[k].push_back(w.add(a));
            }
            bool second = i % 3 == 2;
            for(auto x : on[0]) w.put(x, w.dc);
            if(second) { w.page(); for(auto x : on[1]) w.put(x, w.dc); }
            else for(auto x : on[1]) w.put(x, w.dc);
            w.finish();
            if(second) judge(w, {on[0], on[1]}, cx);
            else judge(w, {{0, 1}}, cx);
        }, nullptr});
        // 3 annotations, two contexts
        const int depth = thorough ? 6 : 5;
        f.push_back({"assign", pw(8, depth), [=](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            w.add_field({0, -1, "f0", "", false, 0, {}, {}});
            w.add(rnd(TEXT, 0));
            w.add(rnd(LINK, 1));
            auto wi = rnd(WIDGET, 2);
            wi.parent = 0;
            w.add(wi);
            V dcs[2] = {w.dc, w.s("page_draw_context_new", w.gen)};
            std::vector<int> on[2];
            std::vector<std::vector<int>> pages;
            std::set<int> used;
            std::set<size_t> bad;
            auto commit = [&](int k) {
                bool ok = true;
                for(int a : on[k]) ok = ok && !used.count(a);
                w.s("generator_add_page", w.gen, dcs[k]);
                if(!ok) { bad.insert(w.s.size() - 1); return; } // the context stays as it was
                pages.push_back(on[k]);
                used.insert(on[k].begin(), on[k].end());
                on[k].clear();
            };
            string t;
            for(int k = 0; k < depth; ++k) {
                int x = (int)(i / pw(8, k) % 8);
                t += "0123456789"[x];
                if(x >= 6) { commit(x - 6); continue; }
                int dc = x / 3, a = x % 3;
                w.put(a, dcs[dc]);
                if(std::count(on[dc].begin(), on[dc].end(), a)) bad.insert(w.s.size() - 1);
                else on[dc].push_back(a);
            }
            commit(0);
            commit(1);
            w.s("dc_destroy", dcs[0]);
            w.s("dc_destroy", dcs[1]);
            w.dc = w.s("page_draw_context_new", w.gen);
            pages.push_back({});
            w.finish();
            judge(w, pages, cx, bad);
        }, nullptr});
        // only pages have annotations
        f.push_back({"contexts", 3 * 2 * NKINDS, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            int kind = 1 + (int)(i % 3);
            i /= 3;
            Anno a = rnd((int)(i / 2), 1);
            int id = w.add(a);
            V other = w.context(kind);
            std::set<size_t> bad;
            w.put(id, other);
            bad.insert(w.s.size() - 1);
            w.s("dc_cmd_f", other);
            w.s("dc_destroy", other);
            std::vector<int> on;
            if(i % 2) { w.put(id, w.dc); on.push_back(id); }
            w.finish();
            judge(w, {on}, cx, bad);
        }, nullptr});
        // forests of fields: n! shapes x 3^n types x widget masks
        size_t fact = 1;
        for(int n = 1; n <= (thorough ? 5 : 4); ++n) {
            fact *= (size_t)n;
            f.push_back({"forest" + to_string(n), fact * pw(3, n) * 4, [=](size_t i, Ctx &cx) {
                F12 w;
                begin(w);
                size_t widgets = i % 4;
                i /= 4;
                std::vector<int> ps[2];
                for(int k = 0; k < n; ++k) {
                    Field x;
                    x.parent = (int)(i % (size_t)(k + 1)) - 1;
                    i /= (size_t)(k + 1);
                    x.type = (int)(i % 3);
                    i /= 3;
                    x.T = "F" + to_string(k);
                    if(k % 2) { x.has_ff = true; x.ff = (uint32_t)k + 1; }
                    if(x.type == 2) x.opt = {"o" + to_string(k), "p"};
                    x.V_ = k % 3 ? "v" + to_string(k) : "";
                    w.add_field(x);
                    if(widgets == 1 || (widgets == 2 && k % 2 == 0) || (widgets == 3 && k == n - 1)) {
                        Anno a = rnd(WIDGET, k);
                        a.parent = widgets == 3 ? 0 : k;
                        ps[(size_t)k % 2].push_back(w.add(a));
                    }
                }
                for(auto x : ps[0]) w.put(x, w.dc);
                w.page();
                for(auto x : ps[1]) w.put(x, w.dc);
                w.finish();
                judge(w, {ps[0], ps[1]}, cx);
            }, nullptr});
        }
        // the annotations of a page keep the order in which they were put there
        for(int n = 3; n <= (thorough ? 6 : 5); ++n) {
            size_t total = 1;
            for(int k = 2; k <= n; ++k) total *= (size_t)k;
            f.push_back({"order" + to_string(n), total * 3, [=](size_t i, Ctx &cx) {
                F12 w;
                begin(w);
                size_t mode = i % 3;
                i /= 3;
                std::vector<int> ids, on;
                for(int k = 0; k < n; ++k) ids.push_back(w.add(rnd(mode == 0 ? 0 : mode == 1 ? (k % 2 ? 1 : 0) : k % 3, k)));
                for(int k = n; k; --k) {
                    on.push_back(ids[i % (size_t)k]);
                    ids.erase(ids.begin() + (long)(i % (size_t)k));
                    i /= (size_t)k;
                }
                for(auto x : on) w.put(x, w.dc);
                w.finish();
                judge(w, {on}, cx);
            }, nullptr});
        }
        f.push_back({"field", 3 * 4 * 30 * 5 * 5, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            Field x;
            x.type = (int)(i % 3);
            i /= 3;
            x.T = TEXTS[i % 4];
            i /= 4;
            int ff = (int)(i % 30) - 2;
            i /= 30;
            x.has_ff = ff >= -1;
            x.ff = ff < 0 ? 0 : ff < 27 ? 1u << ff : 0xffffffffu >> 5;
            static const string vals[] = {"", "Off", "7", "\xc3\xa4\xe2\x82\xac(\\", "a longer value"};
            x.V_ = vals[i % 5];
            if(x.type == 0 && i % 5 > 2) x.V_ = "Yes-" + to_string(i % 5);
            i /= 5;
            if(x.type == 2)
                for(size_t k = 0; k < i; ++k) x.opt.push_back(TEXTS[k == 2 ? 0 : k % 4]);
            int id = w.add_field(x);
            std::vector<int> on;
            if(i % 2) {
                Anno a = rnd(WIDGET, 1);
                a.parent = id;
                on.push_back(w.add(a));
                w.put(on[0], w.dc);
            }
            w.finish();
            judge(w, {on}, cx);
        }, nullptr});
        // options only for choices
        f.push_back({"options", 3 * 4, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            auto o = w.s("form_field_new", (int)(i % 3));
            std::set<size_t> bad;
            Field x;
            x.type = (int)(i % 3);
            x.T = "T";
            w.s("form_field_set_T", o, "T");
            for(size_t k = 0; k < i / 3; ++k) {
                w.s("form_field_add_Opt_entry", o, "o" + to_string(k));
                if(x.type != 2) bad.insert(w.s.size() - 1);
                else x.opt.push_back("o" + to_string(k));
            }
            x.v = w.s("generator_add_form_field", w.gen, o);
            w.fields.push_back(x);
            w.finish();
            judge(w, {{}}, cx, bad);
        }, nullptr});
        // a missing rectangle is refused
        f.push_back({"norect", NKINDS, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            Anno a = rnd((int)i, 1);
            auto o = object(w, a);
            if(a.kind == D3) w.s("annotation_set_3d_stream", o, stream3d(w, a.which));
            w.s("generator_add_annotation", w.gen, o);
            std::set<size_t> bad{w.s.size() - 1};
            a.link = 0;
            w.rect(o, a);
            if(a.has_flags) w.s("annotation_set_flags", o, a.flags);
            w.put(w.add(a, o), w.dc);
            w.finish();
            judge(w, {{0}}, cx, bad);
        }, nullptr});
        f.push_back({"many", 6, [](size_t i, Ctx &cx) {
            F12 w;
            begin(w);
            static const int N[] = {10, 100, 300};
            int n = N[i % 3];
            std::vector<int> a, b;
            w.add_field({0, -1, "f0", "", false, 0, {}, {}});
            for(int k = 0; k < n; ++k) {
                auto x = rnd(i / 3 ? WIDGET : k % NKINDS, k);
                if(x.kind == WIDGET) x.parent = 0;
                int id = w.add(x);
                (k % 3 == 1 ? b : a).push_back(id);
            }
            for(auto x : a) w.put(x, w.dc);
            w.page();
            for(auto x : b) w.put(x, w.dc);
            w.finish();
            judge(w, {a, b}, cx);
        }, nullptr, 60});
        return f;
    };
    return check_main(argc, argv, c);
}
