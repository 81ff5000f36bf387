// uses: features.cpp
#include "explore.hpp"
#include "features.hpp"
#include <unistd.h>
using namespace mc;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

struct Setup {
    Script s;
    V md, gen, page;
    void start(int claim = 0, const string &xml = "") {
        md = s("document_properties_new");
        auto pp = s("page_properties_new");
        s("page_properties_set_pagebox", pp, 0, 0.0, 0.0, 200.0, 200.0);
        s("document_properties_set_default_page_properties", md, pp);
        if(claim) {
            s("document_properties_set_pdfa", md, claim - 1);
            s("document_properties_set_output_intent", md, "i");
            s("document_properties_set_device_profile", md, 0, "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc");
        }
        if(xml.size()) s("document_properties_set_metadata_xml", md, xml);
        gen = s("generator_new", "$OUT/out.pdf", md);
        page = s("page_draw_context_new", gen);
    }
    void finish() {
        s("generator_add_page", gen, page);
        s("generator_write", gen);
    }
};
struct File { string name, data, type; };
static string on_disk(const string &name, const string &data) {
    write_file(scratch() + "/" + name, data);
    return "$OUT/" + name;
}
static V embed(Setup &u, const File &f, int how) {
    auto e = u.s("embedded_file_new");
    if(how == 0) u.s("embedded_file_load_file", e, on_disk("file" + to_string(u.s.size()) + ".dat", f.data));
    else u.s("embedded_file_set_contents", e, f.data);
    u.s("embedded_file_set_pdf_name", e, f.name);
    if(f.type.size()) u.s("embedded_file_set_subtype", e, f.type);
    return u.s("generator_embed_file", u.gen, e);
}

// The file specification of a file, looked up in the name tree the way a viewer does.
static const Obj *lookup(const Doc &d, const Obj &node, const string &name, int depth = 0) {
    if(depth > 20) throw pdf::ParseError("the name tree is too deep");
    if(auto *names = d.dget(node, "Names")) {
        if(names->a.size() % 2) throw pdf::ParseError("a name without a value");
        size_t lo = 0, hi = names->a.size() / 2;
        while(lo < hi) {
            size_t mid = (lo + hi) / 2;
            auto &key = d.deref(names->a[2 * mid]).s;
            if(key == name) return &d.deref(names->a[2 * mid + 1]);
            if(key < name) lo = mid + 1;
            else hi = mid;
        }
        return nullptr;
    }
    if(auto *kids = d.dget(node, "Kids"))
        for(auto &k : kids->a) {
            auto &kid = d.deref(k);
            auto &lim = d.need(kid, "Limits");
            if(lim.a.at(0).s <= name && name <= lim.a.at(1).s) return lookup(d, kid, name, depth + 1);
        }
    return nullptr;
}
static size_t entries(const Doc &d, const Obj &node) {
    size_t n = 0;
    if(auto *names = d.dget(node, "Names")) n += names->a.size() / 2;
    if(auto *kids = d.dget(node, "Kids"))
        for(auto &k : kids->a) n += entries(d, d.deref(k));
    return n;
}
static string is_file(const Doc &d, const Obj &fs, const File &f) {
    if(!d.need(fs, "Type").isname("Filespec")) return "it is no file specification";
    if(pdf::text_string(d.need(fs, "UF")).value_or("?") != f.name) return "its name is " + pdf::show(d.need(fs, "UF"));
    if(d.need(fs, "F").t != Obj::Str) return "/F is no string";
    bool ascii = true;
    for(unsigned char c : f.name) ascii = ascii && c < 0x80;
    if(ascii && d.need(fs, "F").s != f.name) return "its byte name is " + d.need(fs, "F").s;
    auto &ef = d.need(fs, "EF");
    for(auto key : {"F", "UF"}) {
        auto *st = d.dget(ef, key);
        if(!st) {
            if(string(key) == "F") return "there is no file";
            continue;
        }
        if(st->t != Obj::Stream) return "the file is no stream";
        auto *t = d.dget(*st, "Type");
        if(t && !t->isname("EmbeddedFile")) return "the stream is no file";
        auto *sub = d.dget(*st, "Subtype");
        if(f.type.empty() ? sub != nullptr : !sub || !sub->isname(f.type)) return "its type is " + (sub ? pdf::show(*sub) : "missing");
        auto got = d.stream_data(*st);
        if(got != f.data) return "its contents have " + to_string(got.size()) + " bytes instead of " + to_string(f.data.size()) + (got.size() == f.data.size() ? " and differ" : "");
        if(auto *p = d.dget(*st, "Params"))
            if(auto *sz = d.dget(*p, "Size"); sz && sz->i != (int64_t)f.data.size()) return "its size is wrong";
    }
    for(auto &[k, v] : fs.d)
        if(!std::set<string>{"Type", "F", "UF", "EF", "AFRelationship", "Desc"}.count(k)) return "there is a /" + k;
    return "";
}
static string judge(const Doc &d, const std::vector<File> &files) {
    auto *names = d.dget(d.root(), "Names");
    auto *tree = names ? d.dget(*names, "EmbeddedFiles") : nullptr;
    if(!tree) return files.empty() ? "" : "there is no name tree";
    size_t n = entries(d, *tree);
    if(n != files.size()) return "there are " + to_string(n) + " files instead of " + to_string(files.size());
    std::set<const Obj *> seen;
    for(auto &f : files) {
        auto *fs = lookup(d, *tree, f.name);
        if(!fs) return "the file '" + f.name.substr(0, 40) + "' is not found";
        auto e = is_file(d, *fs, f);
        if(!e.empty()) return "the file '" + f.name.substr(0, 40) + "': " + e;
        seen.insert(fs);
    }
    if(auto *af = d.dget(d.root(), "AF")) {
        std::set<const Obj *> a;
        for(auto &x : af->a) a.insert(&d.deref(x));
        if(a != seen || af->a.size() != seen.size()) return "the associated files are other files";
    } else if(!files.empty()) return "there are no associated files";
    return "";
}
static void decide(Setup &u, const std::vector<File> &files, Ctx &cx, const std::set<size_t> &rejected = {}, const std::function<string(const Doc &)> &more = {}) {
    Doc d;
    if(!run_expect(u.s, rejected, cx, d)) return;
    try {
        auto e = judge(d, files);
        if(e.empty() && more) e = more(d);
        if(!e.empty()) cx.violation("what was embedded is not what was given", e);
    } catch(const pdf::ParseError &e) { cx.violation("what was embedded is not what was given", e.what()); }
    cx.state(d.canon());
}

static const std::vector<string> &contents() {
    static const std::vector<string> v = [] {
        std::vector<string> r = {"", "x", string(1, '\0'), "\n", "\r\n", "\r", " ", "endstream", "\nendstream\nendobj\n", "endobj", "stream\r\n", "\xff\xfe\x00", "%PDF-1.7\n", "text with \n lines \r and \r\n more", string("\x78\x9c\x03\x00\x00\x00\x00\x01", 8)};
        for(int c = 0; c < 256; ++c) r.push_back(string(1, (char)c));
        string all;
        for(int c = 0; c < 256; ++c) all += (char)c;
        r.push_back(all);
        for(size_t n : {2u, 15u, 16u, 255u, 4095u, 4096u, 4097u, 65535u, 65536u, 131072u, 1000000u}) {
            r.push_back(string(n, 'a'));
            string x;
            uint64_t s = n * 2654435761u + 1;
            for(size_t i = 0; i < n && n <= 131072; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; x += (char)s; }
            r.push_back(x);
        }
        return r;
    }();
    return v;
}
static void contents_case(size_t i, Ctx &cx) {
    auto &C = contents();
    auto &c = C[i % C.size()]; i /= C.size();
    int how = (int)(i % 2); i /= 2;
    int claim = (int[]){0, 7, 9}[i % 3]; i /= 3;
    bool debug = i % 2; i /= 2;
    bool two = i % 2;
    if(debug) setenv("CAPY_DEBUG_PDF", "1", 1);
    Setup u;
    u.start(claim);
    std::vector<File> f = {{"name.bin", c, "application/octet-stream"}};
    embed(u, f[0], how);
    if(two) {
        f.push_back({"other", C[(i + 7) % C.size()] + c, ""});
        embed(u, f[1], 1 - how);
    }
    u.finish();
    decide(u, f, cx);
    unsetenv("CAPY_DEBUG_PDF");
}
static const std::vector<string> NAMES = {"a", "b", "aa", "ab", "B", "a b", "(", "a)(\\", "\xc3\xa4", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "/a", "a.txt", "<a>", "#20", "\n", string(300, 'n'), "\xc3\xbe\xc3\xbf", "\xef\xbb\xbf" "a", "\xe2\x82\xac"};
// Every ordered choice of n names; the same name again must be rejected.
static void names_case(size_t i, Ctx &cx, int n, size_t pool) {
    Setup u;
    u.start();
    std::vector<File> files;
    std::set<size_t> rejected;
    std::set<string> used;
    for(int k = 0; k < n; ++k) {
        File f{NAMES[i % pool], "contents " + to_string(k), k % 2 ? "text/plain" : ""};
        i /= pool;
        embed(u, f, k % 2);
        if(used.insert(f.name).second) files.push_back(f);
        else rejected.insert(u.s.size() - 1);
    }
    u.finish();
    decide(u, files, cx, rejected);
}
// Many files.
static void many_case(size_t i, Ctx &cx) {
    int n = (int)i;
    Setup u;
    u.start();
    std::vector<File> files;
    for(int k = 0; k < n; ++k) {
        files.push_back({"f" + to_string((k * 37) % 101) + (k > 100 ? "x" : ""), "c" + to_string(k), ""});
        embed(u, files.back(), 1);
    }
    u.finish();
    decide(u, files, cx);
}
static void type_case(size_t i, Ctx &cx) {
    static const std::vector<string> T = {"text/plain", "a", "image/svg+xml", "a b", "(", "#", "/", "%", "<>", "[]{}", "application/x-a.b;c=\"d\"", string(120, 't'), "\t", "~", "&"};
    Setup u;
    u.start();
    std::vector<File> f;
    if(i < T.size()) f = {{"n", "d", T[i]}};
    else { // every character
        string t = "x";
        t += (char)(1 + (i - T.size()));
        f = {{"n", "d", t + "y"}};
    }
    embed(u, f[0], 1);
    u.finish();
    decide(u, f, cx);
}
// Attachments: every assignment of files to annotations, over one or two pages, and references to files that do not exist.
static void attach_case(size_t i, Ctx &cx, int maxa) {
    int nf = 1 + (int)(i % 3); i /= 3;
    int na = 1 + (int)(i % (size_t)maxa); i /= (size_t)maxa;
    bool two_pages = i % 2; i /= 2;
    bool shuffled = i % 2; i /= 2; // annotations are used in reverse order
    Setup u;
    u.start();
    std::vector<File> files;
    std::vector<V> ids;
    for(int k = 0; k < nf; ++k) {
        files.push_back({"file" + to_string(2 - k), "data " + to_string(k), ""});
        ids.push_back(embed(u, files.back(), 1));
    }
    std::vector<V> annots;
    std::vector<int> target;
    std::set<size_t> rejected;
    for(int k = 0; k < na; ++k) {
        int t = (int)(i % 4); i /= 4;
        if(t >= nf && t < 3) return;
        V a = t < nf ? u.s("file_attachment_annotation_new", ids[(size_t)t]) : u.s("file_attachment_annotation_new", i % 2 ? -1 : nf + (int)(i / 2 % 2));
        size_t made = u.s.size() - 1;
        u.s("annotation_set_rectangle", a, 10.0 * k, 10.0, 10.0 * k + 5, 15.0);
        if(t >= nf) { (void)made; }
        V id = u.s("generator_add_annotation", u.gen, a);
        if(t >= nf) { rejected.insert(u.s.size() - 1); continue; }
        annots.push_back(id);
        target.push_back(t);
    }
    if(i) return;
    std::vector<std::pair<int, int>> want; // page, file
    size_t n = annots.size();
    for(size_t k = 0; k < n; ++k) {
        size_t x = shuffled ? n - 1 - k : k;
        if(two_pages && k == n / 2) {
            u.s("generator_add_page", u.gen, u.page);
            u.page = u.s("page_draw_context_new", u.gen);
        }
        u.s("dc_annotate", u.page, annots[x]);
        want.push_back({two_pages && k >= n / 2, target[x]});
    }
    u.finish();
    decide(u, files, cx, rejected, [&](const Doc &d) -> string {
        auto &tree = d.need(d.need(d.root(), "Names"), "EmbeddedFiles");
        auto pages = d.pages();
        size_t k = 0;
        for(size_t p = 0; p < pages.size(); ++p) {
            auto *an = d.dget(d.objs.at(pages[p]), "Annots");
            if(!an) continue;
            for(auto &r : an->a) {
                auto &a = d.deref(r);
                if(k >= want.size() || want[k].first != (int)p) return "there are other annotations on page " + to_string(p);
                if(!d.need(a, "Subtype").isname("FileAttachment")) return "it is no attachment";
                auto *fs = lookup(d, tree, files[(size_t)want[k].second].name);
                if(&d.need(a, "FS") != fs) return "attachment " + to_string(k) + " has another file";
                ++k;
            }
        }
        return k == want.size() ? "" : "attachments are missing";
    });
}
// The life of one embedded file object: every sequence of calls; the last accepted one counts.
static void history_case(size_t i, Ctx &cx, int len) {
    Setup u;
    u.start();
    auto e = u.s("embedded_file_new");
    File f{"unnamed", "", ""};
    std::set<size_t> rejected;
    for(int k = 0; k < len; ++k) {
        size_t at = u.s.size();
        switch(i % 12) {
        case 0: u.s("embedded_file_load_file", e, on_disk("first.txt", "first")); f.data = "first"; f.name = "first.txt"; break;
        case 1: u.s("embedded_file_load_file", e, on_disk("\xc3\xa4.txt", "second")); f.data = "second"; f.name = "\xc3\xa4.txt"; break;
        case 2: u.s("embedded_file_load_file", e, "$OUT/does not exist"); rejected.insert(at); break;
        case 3: u.s("embedded_file_set_contents", e, "one"); f.data = "one"; break;
        case 4: u.s("embedded_file_set_contents", e, string("t\0wo", 4)); f.data = string("t\0wo", 4); break;
        case 5: u.s("embedded_file_set_contents", e, ""); f.data = ""; break;
        case 6: u.s("embedded_file_set_pdf_name", e, "n1"); f.name = "n1"; break;
        case 7: u.s("embedded_file_set_pdf_name", e, "n\xc3\xa4"); f.name = "n\xc3\xa4"; break;
        case 8: u.s("embedded_file_set_pdf_name", e, "\xff"); rejected.insert(at); break;
        case 9: u.s("embedded_file_set_subtype", e, "text/a"); f.type = "text/a"; break;
        case 10: u.s("embedded_file_set_subtype", e, "text/b"); f.type = "text/b"; break;
        case 11: u.s("embedded_file_set_subtype", e, "\xc3\xa4"); rejected.insert(at); break;
        }
        i /= 12;
    }
    u.s("generator_embed_file", u.gen, e);
    u.s("embedded_file_destroy", e);
    u.finish();
    decide(u, {f}, cx, rejected);
}
// Collections.
struct Field { string key, name; int sub, order, visible, edit; }; // -1 not set
static string judge_collection(const Doc &d, const string &D, int view, bool schema, const std::map<string, Field> &fields) {
    static const char *VIEWS[] = {"D", "T", "H", "C"}, *SUBS[] = {"F", "Desc", "ModDate", "CreationDate", "Size", "CompressedSize"};
    auto *c = d.dget(d.root(), "Collection");
    if(!c) return "there is no collection";
    auto *dd = d.dget(*c, "D");
    if(D.empty() ? dd != nullptr : !dd || dd->t != Obj::Str || dd->s != D) return "the first document of the collection is wrong";
    auto *v = d.dget(*c, "View");
    if(view < 0 ? v != nullptr : !v || !v->isname(VIEWS[view])) return "the view of the collection is wrong";
    auto *s = d.dget(*c, "Schema");
    if(!schema) return s ? "there is a schema" : "";
    if(!s) return "there is no schema";
    for(auto &[k, x] : s->d)
        if(!fields.count(k) && k != "Type") return "there is a field " + k;
    for(auto &[k, f] : fields) {
        auto *x = d.dget(*s, k);
        if(!x) return "the field " + k + " is missing";
        if(!d.need(*x, "Subtype").isname(SUBS[f.sub])) return "the field " + k + " is of another type";
        if(pdf::text_string(d.need(*x, "N")).value_or("?") != f.name) return "the field " + k + " has another name";
        auto *o = d.dget(*x, "O"), *vv = d.dget(*x, "V"), *e = d.dget(*x, "E");
        if(f.order < 0 ? o != nullptr : !o || o->i != f.order) return "the order of the field " + k + " is wrong";
        if(f.visible < 0 ? vv != nullptr : !vv || vv->t != Obj::Bool || vv->b != (f.visible == 1)) return "the visibility of the field " + k + " is wrong";
        if(f.edit < 0 ? e != nullptr : !e || e->t != Obj::Bool || e->b != (f.edit == 1)) return "the field " + k + " is not editable as requested";
        for(auto &[kk, q] : x->d)
            if(!std::set<string>{"Type", "Subtype", "N", "O", "V", "E"}.count(kk)) return "there is a /" + kk + " in the field " + k;
    }
    return "";
}
static V make_field(Setup &u, const Field &f) {
    auto x = u.s("collection_field_new", f.sub, f.name);
    V v{u.s.nvars - 1};
    if(f.order >= 0) u.s("collection_field_set_O", x, f.order);
    if(f.visible >= 0) u.s("collection_field_set_V", x, f.visible);
    if(f.edit >= 0) u.s("collection_field_set_E", x, f.edit);
    (void)v;
    return x;
}
static void collection_case(size_t i, Ctx &cx) {
    int view = (int)(i % 5) - 1; i /= 5;
    int dk = (int)(i % 5); i /= 5;
    string D = (const char *[]){"", "a.txt", "b)(\\.txt", "missing", "\xc3\xa4"}[dk];
    int nfields = (int)(i % 4) - 1; i /= 4; // -1: no schema
    int sub = (int)(i % 6); i /= 6;
    int order = (int)(i % 3) - 1; i /= 3;
    int vis = (int)(i % 3) - 1; i /= 3;
    int edit = (int)(i % 3) - 1; i /= 3;
    if(nfields <= 0 && (sub || order > -1 || vis > -1 || edit > -1)) return;
    Setup u;
    u.start();
    std::vector<File> files = {{"a.txt", "A", ""}, {"b)(\\.txt", "B", ""}, {"\xc3\xa4", "C", ""}};
    for(auto &f : files) embed(u, f, 1);
    auto c = u.s("collection_new");
    std::map<string, Field> fields;
    if(D.size()) u.s("collection_set_D", c, D);
    if(view >= 0) u.s("collection_set_view", c, view);
    if(nfields >= 0) {
        auto s = u.s("collection_schema_new");
        for(int k = 0; k < nfields; ++k) {
            Field f{k ? "Key#2 (x)" : "key", k ? "N\xc3\xa4me" : "name", (sub + k) % 6, order >= 0 ? order * 7 : -1, vis, k && edit >= 0 ? 1 - edit : edit};
            auto x = make_field(u, f);
            u.s("collection_schema_add_entry", s, f.key, x);
            fields[f.key] = f;
        }
        u.s("collection_set_schema", c, s);
    }
    u.s("generator_set_collection", u.gen, c);
    u.finish();
    decide(u, files, cx, {}, [&](const Doc &d) { return judge_collection(d, D, view, nfields >= 0, fields); });
}
// Sequences of calls on a collection, its schema and a field; the second collection must be rejected.
static void collection_history_case(size_t i, Ctx &cx, int len) {
    Setup u;
    u.start();
    std::vector<File> files = {{"a.txt", "A", ""}};
    embed(u, files[0], 1);
    auto c = u.s("collection_new");
    string D;
    int view = -1;
    bool schema = false, set = false;
    string wD;
    int wview = -1;
    bool wschema = false;
    std::map<string, Field> fields, wfields, made;
    std::set<size_t> rejected;
    for(int k = 0; k < len; ++k) {
        size_t at = u.s.size();
        switch(i % 9) {
        case 0: u.s("collection_set_D", c, "a.txt"); D = "a.txt"; break;
        case 1: u.s("collection_set_D", c, "other"); D = "other"; break;
        case 2: u.s("collection_set_view", c, 1); view = 1; break;
        case 3: u.s("collection_set_view", c, 4); rejected.insert(at); break;
        case 4:
        case 5: { // a schema with one field, given twice with different attributes
            auto s = u.s("collection_schema_new");
            Field f{"key", "first", 1, -1, 1, -1}, g{i % 9 == 4 ? "key" : "yek", "second", 4, 2, -1, 0};
            fields.clear();
            auto x = make_field(u, f);
            u.s("collection_schema_add_entry", s, f.key, x);
            fields[f.key] = f;
            auto y = make_field(u, g);
            u.s("collection_schema_add_entry", s, g.key, y);
            fields[g.key] = g;
            u.s("collection_set_schema", c, s);
            u.s("collection_schema_destroy", s);
            schema = true;
            break;
        }
        case 6: { // what can not be added
            auto s = u.s("collection_schema_new");
            Field f{"/key", "n", 0, -1, -1, -1};
            auto x = make_field(u, f);
            rejected.insert(u.s.size());
            u.s("collection_schema_add_entry", s, f.key, x);
            rejected.insert(u.s.size());
            u.s("collection_schema_add_entry", s, "", x);
            rejected.insert(u.s.size());
            u.s("collection_schema_add_entry", s, "\xc3\xa4", x);
            rejected.insert(u.s.size());
            u.s("collection_field_set_V", x, 2);
            rejected.insert(u.s.size());
            u.s("collection_field_set_E", x, -1);
            fields.clear();
            f.key = "key";
            u.s("collection_schema_add_entry", s, f.key, x);
            fields[f.key] = f;
            u.s("collection_set_schema", c, s);
            schema = true;
            break;
        }
        case 7: // commit
            u.s("generator_set_collection", u.gen, c);
            if(set) rejected.insert(u.s.size() - 1);
            else { set = true; wD = D; wview = view; wschema = schema; wfields = fields; }
            c = u.s("collection_new");
            D.clear();
            view = -1;
            schema = false;
            fields.clear();
            break;
        case 8: u.s("collection_set_D", c, string("a\0b", 3)); rejected.insert(at); break;
        }
        i /= 9;
    }
    u.finish();
    decide(u, files, cx, rejected, [&](const Doc &d) -> string {
        if(!set) return d.dget(d.root(), "Collection") ? "there is a collection" : "";
        return judge_collection(d, wD, wview, wschema, wfields);
    });
}
// XMP metadata are stored as they are.
static void xmp_case(size_t i, Ctx &cx) {
    auto &C = contents();
    static const string MARK = "pdf:Producer>CapyPDF";
    auto c = C[i % C.size()]; i /= C.size();
    int place = (int)(i % 3); i /= 3;
    int claim = (int[]){0, 2, 7, 9}[i % 4]; i /= 4;
    bool debug = i % 2;
    string ok;
    for(unsigned char ch : c)
        if(ch && ch < 0x80) ok += (char)ch;
        else if(ch) ok += "\xe2\x82\xac";
    auto x = place == 0 ? ok + MARK : place == 1 ? MARK + ok : ok + MARK + ok;
    if(debug) setenv("CAPY_DEBUG_PDF", "1", 1);
    Setup u;
    u.start(claim, x);
    u.finish();
    decide(u, {}, cx, {}, [&](const Doc &d) -> string {
        auto *m = d.dget(d.root(), "Metadata");
        if(!m || m->t != Obj::Stream) return "there are no metadata";
        if(!d.need(*m, "Type").isname("Metadata") || !d.need(*m, "Subtype").isname("XML")) return "the metadata are of another type";
        return d.stream_data(*m) == x ? "" : "the metadata were altered";
    });
    unsetenv("CAPY_DEBUG_PDF");
}
// 3D streams
static void threed_case(size_t i, Ctx &cx) {
    auto &C = contents();
    auto &c = C[i % C.size()]; i /= C.size();
    int format = (int)(i % 2); i /= 2;
    bool debug = i % 2; i /= 2;
    bool second = i % 2;
    if(debug) setenv("CAPY_DEBUG_PDF", "1", 1);
    Setup u;
    u.start();
    std::vector<std::pair<string, int>> want;
    std::vector<V> ids;
    for(int k = 0; k < 1 + second; ++k) {
        auto t = u.s("3d_stream_new", on_disk("t" + to_string(k), c + (k ? "2" : "")), k ? 1 - format : format);
        ids.push_back(u.s("generator_add_3d_stream", u.gen, t));
        want.push_back({c + (k ? "2" : ""), k ? 1 - format : format});
    }
    for(size_t k = ids.size(); k--;) {
        auto a = u.s("3d_annotation_new");
        u.s("annotation_set_rectangle", a, 10.0, 10.0, 50.0, 50.0);
        u.s("annotation_set_3d_stream", a, ids[k]);
        u.s("dc_annotate", u.page, u.s("generator_add_annotation", u.gen, a));
    }
    u.finish();
    decide(u, {}, cx, {}, [&](const Doc &d) -> string {
        auto &an = d.need(d.objs.at(d.pages()[0]), "Annots");
        if(an.a.size() != want.size()) return "there are other annotations";
        for(size_t k = 0; k < want.size(); ++k) {
            auto &w = want[want.size() - 1 - k];
            auto &st = d.need(d.deref(an.a[k]), "3DD");
            if(st.t != Obj::Stream || !d.need(st, "Type").isname("3D") || !d.need(st, "Subtype").isname(w.second ? "PRC" : "U3D")) return "the 3D stream has another type";
            if(d.stream_data(st) != w.first) return "the 3D data differ";
        }
        return "";
    });
    unsetenv("CAPY_DEBUG_PDF");
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C19";
    c.bounds = "294 contents (every byte value, stream keywords, up to 1 MB) x two ways of giving them x three conformance levels x debug mode; all ordered choices of three (thorough: four) of 20 names with duplicates; 0..120 files; every ASCII character in the type; "
               "all assignments of up to three files (and of files that do not exist) to up to three (thorough: four) attachments on one or two pages; all sequences of three (thorough: four) of 12 calls on an embedded file; all views, first documents, schemas of up to two fields with all attributes; all sequences of four (thorough: five) of nine calls on collections; user XMP with the same contents; 3D streams with the same contents.";
    c.assumptions = {"An object that was given to the document (embedded file, collection, schema, field) is not used again."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        size_t nc = contents().size();
        f.push_back({"contents", nc * 2 * 3 * 2 * 2, contents_case});
        size_t pool = NAMES.size(), n3 = pool * pool * pool;
        f.push_back({"names", n3, [=](size_t i, Ctx &cx) { names_case(i, cx, 3, pool); }});
        f.push_back({"many", 121, many_case});
        f.push_back({"types", 15 + 127, type_case});
        int ma = thorough ? 4 : 3;
        f.push_back({"attachments", (size_t)(3 * ma * 2 * 2 * (ma == 4 ? 256 : 64) * 4), [=](size_t i, Ctx &cx) { attach_case(i, cx, ma); }});
        f.push_back({"file calls", thorough ? 12 * 12 * 12 * 12 : 12 * 12 * 12, [=](size_t i, Ctx &cx) { history_case(i, cx, thorough ? 4 : 3); }});
        f.push_back({"collections", 5 * 5 * 4 * 6 * 27, collection_case});
        f.push_back({"collection calls", thorough ? 59049 : 6561, [=](size_t i, Ctx &cx) { collection_history_case(i, cx, thorough ? 5 : 4); }});
        f.push_back({"xmp", nc * 3 * 4 * 2, xmp_case});
        f.push_back({"3d", nc * 2 * 2 * 2, threed_case});
        if(thorough) f.push_back({"names4", n3 * pool, [=](size_t i, Ctx &cx) { names_case(i, cx, 4, pool); }});
        return f;
    };
    return check_main(argc, argv, c);
}
