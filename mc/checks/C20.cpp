// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include <unistd.h>
using namespace mc;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

static const char *CTX[] = {"page", "form", "transparency group", "tiling pattern"};
static const char *ADD[] = {"generator_add_page", "generator_add_form_xobject", "generator_add_transparency_group", "generator_add_tiling_pattern"};
// The file without its random identifier.
static string stable(string b) {
    size_t p = b.rfind("/ID");
    if(p == string::npos) return b;
    for(int n = 0; n < 2; ++n) {
        size_t a = b.find('<', p), e = a == string::npos ? a : b.find('>', a);
        if(e == string::npos) return b;
        for(size_t i = a + 1; i < e; ++i) b[i] = '0';
        p = e;
    }
    return b;
}
static V new_ctx(Script &s, V gen, int kind, int w = 30) {
    switch(kind) {
    case 0: return s("page_draw_context_new", gen);
    case 1: return s("form_xobject_new", gen, 0.0, 0.0, 1.0 * w, 30.0);
    case 2: return s("transparency_group_new", gen, 0.0, 0.0, 1.0 * w, 30.0);
    default: return s("tiling_pattern_context_new", gen, 0.0, 0.0, 1.0 * w, 30.0);
    }
}
static V add_ctx(Script &s, V gen, int kind, V dc) {
    s.add(ADD[kind], {mkval(gen), mkval(dc)});
    return V{s.nvars - 1};
}
// Two documents made by one script. B is open while A is made.
struct Two {
    Script s;
    W a, b;
    Two() {
        a.file = "$OUT/a.pdf";
        b.file = "$OUT/b.pdf";
        enter(a);
        a.props();
        a.start();
        leave(a);
        enter(b);
        b.props();
        b.start();
        leave(b);
    }
    void enter(W &w) { std::swap(w.s, s); }
    void leave(W &w) { std::swap(w.s, s); }
};
struct Outcome2 { std::vector<int> rc; string a, b; };
static Outcome2 run2(const Script &s, Ctx &cx) {
    for(auto f : {"/a.pdf", "/b.pdf"}) unlink((scratch() + f).c_str());
    cx.script(s);
    auto o = execute(s);
    cx.transitions(s.size());
    cx.traces();
    Outcome2 r{o.rc, {}, {}};
    if(file_exists(scratch() + "/a.pdf")) r.a = stable(read_file(scratch() + "/a.pdf"));
    if(file_exists(scratch() + "/b.pdf")) r.b = stable(read_file(scratch() + "/b.pdf"));
    return r;
}
// The call [at] must be rejected and make no difference.
static bool no_effect(Script s, size_t at, Ctx &cx, const string &what) {
    auto with = run2(s, cx);
    auto full = s;
    if(with.rc[at] == 0) {
        cx.violation(what + " is accepted", op_text(s.ops[at]));
        return false;
    }
    for(size_t i = 0; i < s.ops.size(); ++i)
        if(i != at && with.rc[i]) {
            cx.violation("valid call rejected after " + what, op_text(s.ops[i]) + ": " + error_text(with.rc[i]));
            return false;
        }
    s.ops.erase(s.ops.begin() + (long)at);
    auto without = run2(s, cx);
    cx.script(full);
    if(with.a.empty() || with.b.empty()) { cx.violation("no document after " + what); return false; }
    if(with.a != without.a) { cx.violation(what + " changes the document the object belongs to"); return false; }
    if(with.b != without.b) { cx.violation(what + " changes the other document"); return false; }
    return true;
}

// --- histories of contexts and text objects of two documents, compared with a model
struct Sym { int op, i, g, k; };
// op: 0 destroy context i  1 new context i for document g of kind k (0 page, 1 group)  2 new text on context i  3 render the text in context i
//     4 add context i as a page to g  5 add context i as a group to g  6 draw in context i
static std::vector<Sym> alphabet() {
    std::vector<Sym> r;
    for(int i = 0; i < 2; ++i) {
        r.push_back({0, i, 0, 0});
        for(int g = 0; g < 2; ++g)
            for(int k = 0; k < 2; ++k) r.push_back({1, i, g, k});
        r.push_back({2, i, 0, 0});
        r.push_back({3, i, 0, 0});
        for(int g = 0; g < 2; ++g) { r.push_back({4, i, g, 0}); r.push_back({5, i, g, 0}); }
        r.push_back({6, i, 0, 0});
    }
    return r;
}
struct History {
    struct C { bool live = false; int g = 0, k = 0, id = 0; V v; std::vector<XOp> out; };
    Script s;
    V gen[2];
    C c[2];
    bool text = false;
    int text_of = -1, ids = 0, n = 0;
    V tv;
    double tx = 0;
    std::vector<std::vector<XOp>> pages[2], groups[2];
    std::set<size_t> bad;
    History() {
        for(int g = 0; g < 2; ++g) {
            auto md = s("document_properties_new");
            gen[g] = s("generator_new", g ? "$OUT/b.pdf" : "$OUT/a.pdf", md);
        }
        for(int i = 0; i < 2; ++i) make(i, i, 0);
    }
    void make(int i, int g, int k) {
        c[i] = C{true, g, k, ids++, {}, {}};
        c[i].v = new_ctx(s, gen[g], k ? 2 : 0);
    }
    bool step(const Sym &y) { // false: not applicable
        auto &x = c[y.i];
        if(y.op == 1 ? x.live : !x.live) return false;
        ++n;
        switch(y.op) {
        case 0: s("dc_destroy", x.v); x.live = false; break;
        case 1: make(y.i, y.g, y.k); break;
        case 2:
            if(text) s("text_destroy", tv);
            tv = s("dc_text_new", x.v);
            text = true;
            text_of = x.id;
            tx = n;
            s("text_cmd_Td", tv, tx, 1.0);
            break;
        case 3:
            if(!text) return false;
            if(text_of == x.id) {
                x.out.push_back(X("BT"));
                x.out.push_back(X("Td", tx, 1));
                x.out.push_back(X("ET"));
            } else bad.insert(s.size());
            s("dc_render_text_obj", x.v, tv);
            break;
        case 4:
        case 5:
            if(x.g == y.g && x.k == y.op - 4) {
                (y.op == 4 ? pages : groups)[y.g].push_back(std::move(x.out));
                x.out.clear();
            } else bad.insert(s.size());
            add_ctx(s, gen[y.g], y.op == 4 ? 0 : 2, x.v);
            break;
        case 6:
            s("dc_cmd_w", x.v, 1.0 * n);
            x.out.push_back(X("w", n));
            break;
        }
        return true;
    }
    void finish() { // the contexts that are left
        for(auto &x : c)
            if(x.live) {
                add_ctx(s, gen[x.g], x.k ? 2 : 0, x.v);
                (x.k ? groups : pages)[x.g].push_back(x.out);
            }
        for(int g = 0; g < 2; ++g) {
            if(pages[g].empty()) bad.insert(s.size());
            s("generator_write", gen[g]);
        }
    }
};
static string judge(const History &h, int g) {
    auto path = scratch() + (g ? "/b.pdf" : "/a.pdf");
    if(h.pages[g].empty()) return file_exists(path) ? "a document without pages" : "";
    auto d = Doc::parse(read_file(path));
    auto p = d.pages();
    if(p.size() != h.pages[g].size()) return to_string(p.size()) + " pages, expected " + to_string(h.pages[g].size());
    for(size_t k = 0; k < p.size(); ++k) {
        auto df = diff(view_page(d, p[k]), h.pages[g][k]);
        if(!df.empty()) return "page " + to_string(k) + ": " + df;
    }
    std::vector<const Obj *> gr;
    for(auto &[num, o] : d.objs)
        if(o.t == Obj::Stream && o.get("Subtype") && o.get("Subtype")->isname("Form")) gr.push_back(&o);
    if(gr.size() != h.groups[g].size()) return to_string(gr.size()) + " groups, expected " + to_string(h.groups[g].size());
    for(size_t k = 0; k < gr.size(); ++k) {
        auto df = diff(view_stream(d, *gr[k]), h.groups[g][k]);
        if(!df.empty()) return "group " + to_string(k) + ": " + df;
    }
    return "";
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C20";
    c.bounds = "Every kind of context (page, form, transparency group, tiling pattern) with every kind of content given to every function of another document that adds one, before and after the other document has contents of its own; text objects with every kind of "
               "content rendered in every kind of context of another document (and of the same one); every history of up to 4 (thorough: 5) steps over two contexts and a text object of two documents "
               "(20 actions: create, destroy, draw, render, add as page or group to either), compared with a model.";
    c.assumptions = {"Objects do not outlive their generator.", "Plain ids (integers) carry no owner: an id of another document that is in range denotes the object with that number."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        struct FV { size_t f; int v; };
        auto fv = std::make_shared<std::vector<FV>>();
        fv->push_back({1000, 0});
        for(size_t k = 0; k < features().size(); ++k)
            for(int v = 0; v < features()[k].variants; ++v) fv->push_back({k, v});
        // kind of context x adding function x content x state of the other document
        f.push_back({"contexts", 4 * 4 * 3 * fv->size(), [=](size_t i, Ctx &cx) {
            int kind = (int)(i % 4), add = (int)(i / 4 % 4), state = (int)(i / 16 % 3);
            auto x = (*fv)[i / 48];
            if(x.f != 1000 && kind != 0 && !features()[x.f].drawing) return;
            Two t;
            if(state == 1) { // the same context number exists there
                t.enter(t.b);
                auto o = new_ctx(t.b.s, t.b.gen, kind);
                t.b.s("dc_cmd_w", o, 3.0);
                add_ctx(t.b.s, t.b.gen, kind, o);
                t.leave(t.b);
            } else if(state == 2) {
                t.enter(t.b);
                t.b.s("dc_render_text", t.b.dc, "other", t.b.font(), 10.0, 1.0, 2.0);
                t.b.page();
                t.leave(t.b);
            }
            t.enter(t.a);
            auto page = t.a.dc;
            auto dc = kind == 0 ? page : new_ctx(t.a.s, t.a.gen, kind);
            t.a.dc = dc;
            if(x.f != 1000) features()[x.f].add(t.a, x.v);
            dc = t.a.dc; // a feature can begin a new page
            t.leave(t.a);
            size_t at = t.s.size();
            add_ctx(t.s, t.b.gen, add, dc);
            add_ctx(t.s, t.a.gen, kind, dc);
            t.a.dc = page;
            t.enter(t.a);
            if(kind != 0) t.a.finish();
            else t.a.s("generator_write", t.a.gen);
            t.leave(t.a);
            t.enter(t.b);
            t.b.finish();
            t.leave(t.b);
            if(no_effect(t.s, at, cx, string("adding a ") + CTX[kind] + " of another document")) cx.state(to_string(i));
        }, nullptr});
        // whose text x where x content x the other way round
        f.push_back({"texts", 4 * 4 * 3 * 9, [](size_t i, Ctx &cx) {
            int own = (int)(i % 4), where = (int)(i / 4 % 4), rel = (int)(i / 16 % 3), content = (int)(i / 48);
            // rel: 0 another document, 1 another context of the same document, 2 another document that is identical so far
            Two t;
            t.enter(t.a);
            auto da = new_ctx(t.a.s, t.a.gen, own);
            auto fa = t.a.font();
            t.leave(t.a);
            W &o = rel == 1 ? t.a : t.b;
            t.enter(o);
            auto db = new_ctx(o.s, o.gen, where);
            if(rel == 2) o.font();
            t.leave(o);
            auto &s = t.s;
            auto tx = s("dc_text_new", da);
            switch(content) {
            case 0: break;
            case 1: s("text_cmd_Tf", tx, fa, 10.0); s("text_cmd_Tj", tx, "abc"); break;
            case 2: s("text_cmd_Td", tx, 1.0, 2.0); break;
            case 3: { t.enter(t.a); auto g = t.a.gs(1); t.leave(t.a); s("text_cmd_gs", tx, g); break; }
            case 4: { auto cl = s("color_new"); s("color_set_rgb", cl, 0.5, 0.25, 0.125); s("text_set_nonstroke", tx, cl); break; }
            case 5: { auto q = s("text_sequence_new"); s("text_sequence_append_string", q, "xyz"); s("text_cmd_Tf", tx, fa, 10.0); s("text_cmd_TJ", tx, q); break; }
            case 6: { t.enter(t.a); auto p = t.a.tiling(1); t.leave(t.a); auto cl = s("color_new"); s("color_set_pattern", cl, p); s("text_set_stroke", tx, cl); break; }
            case 7:
                if(own != 0) { s("text_cmd_TL", tx, 3.0); break; }
                { t.enter(t.a); auto it = t.a.structure(); t.leave(t.a); s("text_cmd_BDC_builtin", tx, it); s("text_cmd_EMC", tx); break; }
            case 8: s("text_cmd_Tc", tx, 1.0); s("text_cmd_Tstar", tx); break;
            }
            size_t at = s.size();
            s("dc_render_text_obj", db, tx);
            s("dc_render_text_obj", da, tx); // where it belongs
            add_ctx(s, t.a.gen, own, da);
            add_ctx(s, o.gen, where, db);
            t.enter(t.a);
            t.a.finish();
            t.leave(t.a);
            t.enter(t.b);
            t.b.finish();
            t.leave(t.b);
            if(no_effect(s, at, cx, rel == 1 ? "rendering a text of another context" : "rendering a text of another document")) cx.state(to_string(i));
        }, nullptr});
        // --- histories
        static const auto AB = alphabet();
        const int depth = thorough ? 5 : 4;
        size_t nh = 1;
        for(int k = 0; k < depth; ++k) nh *= AB.size();
        const size_t BLOCK = AB.size() * AB.size();
        f.push_back({"histories", nh / BLOCK, [=](size_t i, Ctx &cx) {
            for(size_t j = 0; j < BLOCK; ++j) {
                size_t x = i * BLOCK + j;
                History h;
                bool ok = true;
                std::vector<size_t> digits;
                for(int k = 0; k < depth; ++k) { digits.push_back(x % AB.size()); x /= AB.size(); }
                for(size_t k = digits.size(); k-- > 0 && ok;) ok = h.step(AB[digits[k]]);
                if(!ok) continue;
                h.finish();
                for(auto fn : {"/a.pdf", "/b.pdf"}) unlink((scratch() + fn).c_str());
                cx.script(h.s);
                auto o = execute(h.s);
                cx.transitions(h.s.size());
                cx.traces();
                for(size_t k = 0; k < h.s.size(); ++k) {
                    bool want = !h.bad.count(k);
                    if((o.rc[k] == 0) != want) return cx.violation(want ? "valid call rejected in a history" : "object accepted where it does not belong", op_text(h.s.ops[k]) + " " + error_text(o.rc[k]));
                }
                for(int g = 0; g < 2; ++g) {
                    auto r = judge(h, g);
                    if(!r.empty()) return cx.violation("a document differs from its history", string(g ? "second: " : "first: ") + r);
                }
                cx.state(to_string(i * BLOCK + j));
            }
        }, nullptr, 120});
        return f;
    };
    return check_main(argc, argv, c);
}
