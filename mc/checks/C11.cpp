// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "spec.hpp"
using namespace mc;
namespace sp = mc::spec;

// --- destinations
struct Dest { int page; int kind; double v[3]; }; // kind -1 none, 0 fit, 1..8 xyz with the null mask kind - 1
static V dest(B &b, const Dest &x) {
    auto d = b.s("destination_new");
    if(x.kind == 0) b.s("destination_set_page_fit", d, x.page);
    else {
        int m = x.kind - 1;
        auto val = [&](int k) { return m & (1 << k) ? mkval(null) : mkval(x.v[k]); };
        b.s("destination_set_page_xyz", d, x.page, val(0), val(1), val(2));
    }
    return d;
}
static sp::Sp dest_spec(const Dest &x) {
    if(x.kind < 0) return sp::absent();
    std::vector<sp::Sp> a{sp::page(x.page)};
    if(x.kind == 0) a.push_back(sp::name("Fit"));
    else {
        a.push_back(sp::name("XYZ"));
        for(int k = 0; k < 3; ++k) a.push_back((x.kind - 1) & (1 << k) ? sp::absent() : sp::num(x.v[k]));
    }
    return sp::arr(a);
}

// --- the outline model
struct Item {
    int parent = -1;
    std::string title;
    Dest d{0, -1, {}};
    bool hasC = false;
    double C[3] = {0, 0, 0};
    int F = 0;
    V v;
};
struct Forest {
    std::vector<Item> items;
    int add(B &b, Item it, V reuse = {}) {
        auto o = reuse.slot >= 0 ? reuse : b.s("outline_new");
        b.s("outline_set_title", o, it.title);
        if(it.d.kind >= 0) b.s("outline_set_destination", o, dest(b, it.d));
        if(it.hasC) b.s("outline_set_C", o, it.C[0], it.C[1], it.C[2]);
        if(it.F) b.s("outline_set_F", o, it.F);
        if(it.parent >= 0) b.s("outline_set_parent", o, items[(size_t)it.parent].v);
        it.v = b.s("generator_add_outline", b.gen, o);
        items.push_back(it);
        return (int)items.size() - 1;
    }
    std::vector<int> kids(int p) const {
        std::vector<int> r;
        for(size_t i = 0; i < items.size(); ++i)
            if(items[i].parent == p) r.push_back((int)i);
        return r;
    }
};
static int seen_nodes;
static std::string check_level(const Forest &f, const pdf::Doc &d, const pdf::Obj &par, int p, std::string &view) {
    auto kids = f.kids(p);
    if(kids.empty()) {
        for(auto k : {"First", "Last", "Count"})
            if(d.dget(par, k)) return std::string("/") + k + " in an item without children";
        return "";
    }
    const pdf::Obj *prev = nullptr, *cur = d.dget(par, "First");
    for(size_t n = 0; n < kids.size(); ++n) {
        auto &m = f.items[(size_t)kids[n]];
        auto where = "item " + std::to_string(kids[n]);
        if(!cur) return where + " is missing";
        if(++seen_nodes > 5000) return "too many items";
        sp::Dict dd{{"Title", sp::text(m.title)}, {"Parent", sp::same(&par)}, {"Prev", prev ? sp::same(prev) : sp::absent()},
                    {"Next", n + 1 < kids.size() ? sp::present() : sp::absent()}, {"First", sp::any()}, {"Last", sp::any()}, {"Count", sp::any()},
                    {"Dest", dest_spec(m.d)}, {"F", m.F ? sp::integer(m.F) : sp::def(sp::integer(0))},
                    {"C", m.hasC ? sp::nums({m.C[0], m.C[1], m.C[2]}) : sp::def(sp::nums({0, 0, 0}))}};
        auto r = sp::dict(dd)(d, cur);
        if(!r.empty()) return where + ": " + r;
        view += m.title + "(";
        r = check_level(f, d, *cur, kids[n], view);
        view += ")";
        if(!r.empty()) return r;
        // the items are closed: the count is minus the number of children
        auto gk = f.kids(kids[n]);
        if(!gk.empty()) {
            r = sp::integer(-(int64_t)gk.size())(d, d.dget(*cur, "Count"));
            if(!r.empty()) return where + " /Count: " + r;
        }
        prev = cur;
        cur = d.dget(*cur, "Next");
    }
    if(d.dget(par, "Last") != prev) return "/Last is not the last child";
    return "";
}
static void judge(B &b, const Forest &f, Ctx &cx) {
    pdf::Doc d;
    if(!run_good(b.s, cx, d)) return;
    auto *o = d.dget(d.root(), "Outlines");
    if(f.items.empty()) {
        if(o && d.dget(*o, "First")) cx.violation("outlines that nobody added");
        return;
    }
    if(!o) { cx.violation("the document has no outlines"); return; }
    seen_nodes = 0;
    std::string view;
    auto r = check_level(f, d, *o, -1, view);
    if(r.empty()) r = sp::dict({{"Type", sp::def(sp::name("Outlines"))}, {"First", sp::present()}, {"Last", sp::present()}, {"Count", sp::integer((int64_t)f.kids(-1).size())}})(d, o);
    if(!r.empty()) cx.violation("outlines differ", r);
    cx.state(view);
    cx.sample(view);
}
static size_t nforests(int n) { size_t r = 1; for(int i = 2; i <= n; ++i) r *= (size_t)i; return r; }
static std::vector<int> forest(size_t x, int n) {
    std::vector<int> p;
    for(int i = 0; i < n; ++i) { p.push_back((int)(x % (size_t)(i + 1)) - 1); x /= (size_t)(i + 1); }
    return p;
}
static void init(B &b, int extras) { // other objects around
    b.props();
    if(extras & 1) {
        b.s("document_properties_set_tagged", b.md, 1);
        b.s("document_properties_set_language", b.md, "en");
    }
    b.start();
    if(extras & 1) {
        auto root = b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_DOCUMENT"), null, null);
        b.s("dc_cmd_BDC_builtin", b.dc, root, null);
        b.s("dc_cmd_EMC", b.dc);
    }
    if(extras & 2) {
        auto e = b.s("embedded_file_new");
        b.s("embedded_file_set_contents", e, "abc");
        b.s("embedded_file_set_pdf_name", e, "a.txt");
        b.s("generator_embed_file", b.gen, e);
        b.ocg("L");
    }
}
static const double xs[] = {0, -12.5, 99999.125};

int main(int argc, char **argv) {
    Check c;
    c.id = "C11";
    c.bounds = "All forests of up to 6 (thorough 8) outline items with varying attributes, with pages made before, between and after; all attribute combinations (destination form and page, colour, "
               "style) of an item and its child; all destination forms with every subset of omitted coordinates and a value grid, for outlines and links, for 4 pages and for page numbers that do not exist; "
               "all sequences of setters up to depth 4 on a reused outline object; chains and fans of up to 400 items.";
    c.assumptions = {"Items are written closed."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        for(int n = 0; n <= (thorough ? 8 : 6); ++n)
            f.push_back({"forest" + std::to_string(n), nforests(n) * 4, [=](size_t i, Ctx &cx) {
                B b;
                init(b, (int)(i % 4));
                auto p = forest(i / 4, n);
                Forest fo;
                for(int k = 0; k < n; ++k) {
                    Item it;
                    it.parent = p[(size_t)k];
                    it.title = "Item " + std::to_string(k);
                    it.d = {k % 3, k % 4 - 1, {1.0 * k, 2.0, 3}};
                    if(k % 2) { it.hasC = true; it.C[0] = k * 0.1; it.C[2] = 1; }
                    it.F = k % 4;
                    fo.add(b, it);
                    if(k == 1) b.page();
                }
                if(n < 2) b.page();
                b.page();
                b.finish();
                judge(b, fo, cx);
            }, nullptr});
        // attributes of an item and its child
        f.push_back({"attributes", 10 * 2 * 4 * 10 * 2 * 4, [](size_t i, Ctx &cx) {
            B b;
            init(b, 0);
            Forest fo;
            for(int k = 0; k < 2; ++k) {
                Item it;
                it.title = k ? "Child" : "Parent";
                it.parent = k - 1;
                it.d = {k, (int)(i % 10) - 1, {10, 20, 30}};
                i /= 10;
                it.hasC = i % 2;
                if(it.hasC) { it.C[0] = 0.25; it.C[1] = 0.5; it.C[2] = k; }
                i /= 2;
                it.F = (int)(i % 4);
                i /= 4;
                fo.add(b, it);
            }
            b.page();
            b.finish();
            judge(b, fo, cx);
        }, nullptr});
        // destinations: kind x page x values; in an outline and in a link
        f.push_back({"destinations", 9 * 6 * 27, [](size_t i, Ctx &cx) {
            B b;
            init(b, 0);
            Dest x{(int)(i / 9 % 6) - 1, (int)(i % 9), {xs[i / 54 % 3], xs[i / 162 % 3], xs[i / 486 % 3]}};
            bool exists = x.page >= 0 && x.page < 4;
            Forest fo;
            Item it;
            it.title = "T";
            it.d = x;
            size_t before = b.s.size();
            fo.add(b, it);
            auto a = b.s("link_annotation_new");
            b.s("annotation_set_destination", a, dest(b, x));
            b.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
            auto aid = b.s("generator_add_annotation", b.gen, a);
            b.s("dc_annotate", b.dc, aid);
            for(int k = 0; k < 3; ++k) b.page();
            b.finish();
            if(!exists) { // somewhere on the way this is refused
                cx.script(b.s);
                auto r = run_pdf(b.s);
                cx.transitions(b.s.size());
                cx.traces();
                if(r.o.failures == 0) cx.violation("destination on a page that does not exist was accepted");
                for(size_t k = 0; k < before; ++k)
                    if(r.o.rc[k]) cx.violation("call rejected although allowed");
                return;
            }
            judge(b, fo, cx);
            auto r = run_pdf(b.s);
            auto d = pdf::Doc::parse(r.bytes);
            auto &an = d.need(d.objs.at(d.pages()[0]), "Annots");
            auto m = sp::arr({sp::dict({{"Subtype", sp::name("Link")}, {"Dest", dest_spec(x)}, {"A", sp::absent()}}, true)})(d, &an);
            if(!m.empty()) cx.violation("link destination differs", m);
        }, nullptr});
        // setters on one object that is added several times; 9: add
        const size_t NS = 8;
        auto pw = [](size_t b, int e) { size_t r = 1; while(e--) r *= b; return r; };
        const int depth = thorough ? 6 : 5;
        f.push_back({"reuse", pw(NS, depth), [=](size_t i, Ctx &cx) {
            B b;
            init(b, 0);
            auto o = b.s("outline_new");
            Item cur;
            cur.title = "T0";
            b.s("outline_set_title", o, "T0");
            Forest fo;
            auto add = [&] {
                cur.v = b.s("generator_add_outline", b.gen, o);
                fo.items.push_back(cur);
            };
            for(int k = 0; k < depth; ++k) {
                switch(i / pw(NS, k) % NS) {
                case 0: add(); break;
                case 1: cur.title = "T" + std::to_string(k + 1); b.s("outline_set_title", o, cur.title); break;
                case 2: cur.d = {k % 2, 0, {}}; b.s("outline_set_destination", o, dest(b, cur.d)); break;
                case 3: cur.d = {1, 1 + k % 8, {1.0 + k, 2, 3}}; b.s("outline_set_destination", o, dest(b, cur.d)); break;
                case 4: cur.hasC = true; cur.C[0] = k / 10.0; cur.C[1] = 0; b.s("outline_set_C", o, cur.C[0], 0.0, 0.0); break;
                case 5: cur.F = k % 4; b.s("outline_set_F", o, cur.F); break;
                case 6: if(fo.items.empty()) break; cur.parent = 0; b.s("outline_set_parent", o, fo.items[0].v); break;
                case 7: if(fo.items.empty()) break; cur.parent = (int)fo.items.size() - 1; b.s("outline_set_parent", o, fo.items.back().v); break;
                }
            }
            add();
            b.s("outline_destroy", o);
            b.page();
            b.finish();
            judge(b, fo, cx);
        }, nullptr});
        f.push_back({"big", 8, [](size_t i, Ctx &cx) {
            B b;
            init(b, 0);
            Forest fo;
            const int n = i % 2 ? 400 : 127;
            for(int k = 0; k < n; ++k) {
                Item it;
                it.title = std::to_string(k);
                it.parent = i / 2 == 0 ? -1 : i / 2 == 1 ? (k ? 0 : -1) : i / 2 == 2 ? (k % 60 ? k - 1 : -1) : (k - 1) / 2;
                if(k == 0) it.parent = -1;
                it.d = {k % 3, k % 9, {1, 2, 3}};
                fo.add(b, it);
            }
            b.page();
            b.page();
            b.finish();
            judge(b, fo, cx);
        }, nullptr, 60});
        // colours are clamped
        f.push_back({"colour", 5 * 5 * 5, [](size_t i, Ctx &cx) {
            static const double v[] = {-1, 0, 0.3, 1, 2.5};
            B b;
            init(b, 0);
            auto o = b.s("outline_new");
            b.s("outline_set_title", o, "T");
            double cc[3] = {v[i % 5], v[i / 5 % 5], v[i / 25]};
            b.s("outline_set_C", o, cc[0], cc[1], cc[2]);
            Item it;
            it.title = "T";
            it.hasC = true;
            for(int k = 0; k < 3; ++k) it.C[k] = std::min(1.0, std::max(0.0, cc[k]));
            it.v = b.s("generator_add_outline", b.gen, o);
            Forest fo;
            fo.items.push_back(it);
            b.finish();
            judge(b, fo, cx);
        }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
