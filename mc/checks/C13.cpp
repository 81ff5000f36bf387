// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
using namespace mc;

// The document identifier in the trailer is random.
static std::string masked(std::string s) {
    size_t p = s.rfind("/ID [");
    size_t e = p == std::string::npos ? p : s.find(']', p);
    if(e == std::string::npos) return s;
    bool in = false;
    for(size_t i = p; i < e; ++i) {
        if(s[i] == '<' || s[i] == '>') in = s[i] == '<';
        else if(in) s[i] = 'x';
    }
    return s;
}

// --- the page model
struct Rect { double v[4]; };
struct PageM {
    std::map<std::string, std::string> boxes; // overrides
    std::string tg;                           // transparency group, empty: none
    std::string trans, content;
    std::vector<std::string> vps;
    std::multiset<std::string> annots;
    int structs = 0, navs = 0, ocgs = 0;
    std::string text(const std::map<std::string, std::string> &defaults, const std::string &deftg) const {
        auto b = defaults;
        for(auto &[k, v] : boxes) b[k] = v;
        std::string r;
        for(auto &[k, v] : b) r += k + "=" + v + " ";
        r += "tg=" + (tg.empty() ? deftg : tg) + " trans=" + trans + " vp=";
        for(auto &v : vps) r += v + ",";
        r += " annots=";
        for(auto &v : annots) r += v + ",";
        return r + " structs=" + std::to_string(structs) + " navs=" + std::to_string(navs) + " content=" + content;
    }
};
static std::string nums(const pdf::Doc &d, const pdf::Obj *o) {
    std::string r;
    if(!o) return "?";
    if(o->t != pdf::Obj::Arr) { auto t = show(XOp{"", {A(o->num())}}); t.pop_back(); return t; }
    for(auto &x : o->a) r += (r.empty() ? "" : ",") + nums(d, &d.deref(x));
    return r;
}
static std::string n4(double a, double b, double c, double d) {
    std::string r;
    for(double v : {a, b, c, d}) { auto t = show(XOp{"", {A(v)}}); t.pop_back(); r += (r.empty() ? "" : ",") + t; }
    return r;
}
static std::string tgview(const pdf::Doc &d, const pdf::Obj *g) {
    if(!g) return "";
    std::string r = "[";
    if(auto c = d.dget(*g, "CS")) r += "CS" + c->s + " ";
    if(auto c = d.dget(*g, "I")) r += "I" + std::to_string(c->b);
    if(auto c = d.dget(*g, "K")) r += "K" + std::to_string(c->b);
    return r + "]";
}
static PageM page_view(const pdf::Doc &d, int pn) {
    PageM m;
    auto &p = d.objs.at(pn);
    for(auto k : {"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox"})
        if(auto o = d.inherited(pn, k)) m.boxes[k] = nums(d, o);
    m.tg = tgview(d, d.dget(p, "Group"));
    if(auto t = d.dget(p, "Trans")) m.trans = d.need(*t, "S").s + "/" + nums(d, d.dget(*t, "D"));
    if(auto v = d.dget(p, "VP"))
        for(auto &x : v->a) m.vps.push_back(nums(d, d.dget(d.deref(x), "BBox")));
    if(auto v = d.dget(p, "Annots"))
        for(auto &x : v->a) m.annots.insert(pdf::text_string(d.need(d.deref(x), "Contents")).value_or("?"));
    if(auto sp = d.dget(p, "StructParents")) {
        // the entry of the parent tree has one element for each marked content sequence
        auto &pt = d.need(d.need(d.root(), "StructTreeRoot"), "ParentTree");
        auto &nu = d.need(pt, "Nums");
        for(size_t i = 0; i + 1 < nu.a.size(); i += 2)
            if(d.deref(nu.a[i]).i == sp->i) m.structs = (int)d.deref(nu.a[i + 1]).a.size();
    }
    if(auto ps = d.dget(p, "PresSteps")) {
        auto *n = d.dget(*ps, "Next");
        while(n && n->isdict() && d.dget(*n, "NA") && m.navs < 100) { ++m.navs; n = d.dget(*n, "Next"); }
    }
    m.content = show(view_page(d, pn));
    return m;
}

// --- page operations
struct St {
    W w;
    std::map<std::string, std::string> defaults;
    std::string deftg;
    std::vector<PageM> pages;
    PageM cur[2];
    V dc[2];
    int which = 0, k = 0;
    bool mediadef = true;
};
struct PageOp {
    std::string name;
    std::function<void(St &)> f;
};
static std::vector<PageOp> page_ops() {
    std::vector<PageOp> r;
    auto props = [](St &s, int v) {
        auto &w = s.w;
        ++s.k;
        auto p = w.s("page_properties_new");
        auto &m = s.cur[s.which];
        m.boxes.clear();
        m.tg.clear();
        auto box = [&](const char *n, const char *e, double a) {
            w.s("page_properties_set_pagebox", p, E(e), a, a + 1, a + 100.5, a + 200);
            m.boxes[n] = n4(a, a + 1, a + 100.5, a + 200);
        };
        if(v == 0) { box("MediaBox", "CAPY_BOX_MEDIA", s.k); box("CropBox", "CAPY_BOX_CROP", 2 * s.k); }
        if(v == 1) {
            box("TrimBox", "CAPY_BOX_TRIM", 3 * s.k);
            auto t = w.s("transparency_group_properties_new");
            w.s("transparency_group_properties_set_CS", t, E("CAPY_DEVICE_CS_GRAY"));
            w.s("page_properties_set_transparency_group_properties", p, t);
            m.tg = "[CSDeviceGray ]";
        }
        w.s("dc_set_custom_page_properties", s.dc[s.which], p);
    };
    r.push_back({"draw", [](St &s) { s.w.s("dc_cmd_w", s.dc[s.which], 1.0 * ++s.k); s.cur[s.which].content += std::to_string(s.k) + " w; "; }});
    r.push_back({"propsA", [=](St &s) { props(s, 0); }});
    r.push_back({"propsB", [=](St &s) { props(s, 1); }});
    r.push_back({"propsE", [=](St &s) { props(s, 2); }});
    r.push_back({"tg", [](St &s) {
                     auto t = s.w.s("transparency_group_properties_new");
                     s.w.s("transparency_group_properties_set_CS", t, E("CAPY_DEVICE_CS_CMYK"));
                     s.w.s("transparency_group_properties_set_I", t, 1);
                     s.w.s("dc_set_transparency_group_properties", s.dc[s.which], t);
                     s.cur[s.which].tg = "[CSDeviceCMYK I1]";
                 }});
    r.push_back({"trans", [](St &s) {
                     auto t = s.w.s("transition_new");
                     s.w.s("transition_set_S", t, E("CAPY_TR_WIPE"));
                     s.w.s("transition_set_D", t, 1.0 * ++s.k);
                     s.w.s("dc_set_page_transition", s.dc[s.which], t);
                     s.cur[s.which].trans = "Wipe/" + std::to_string(s.k);
                 }});
    r.push_back({"viewport", [](St &s) {
                     ++s.k;
                     auto v = s.w.s("viewport_new", 1.0, 2.0, 10.0 + s.k, 30.0);
                     s.w.s("dc_append_viewport", s.dc[s.which], v);
                     s.cur[s.which].vps.push_back(n4(1, 2, 10 + s.k, 30));
                 }});
    r.push_back({"annot", [](St &s) {
                     auto n = "a" + std::to_string(++s.k);
                     auto a = s.w.s("text_annotation_new", n);
                     s.w.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
                     s.w.s("dc_annotate", s.dc[s.which], s.w.s("generator_add_annotation", s.w.gen, a));
                     s.cur[s.which].annots.insert(n);
                 }});
    r.push_back({"mark", [](St &s) {
                     auto &m = s.cur[s.which];
                     s.w.s("dc_cmd_BDC_builtin", s.dc[s.which], s.w.structure(), null);
                     s.w.s("dc_cmd_EMC", s.dc[s.which]);
                     m.content += "{/P} {<<MCID=" + std::to_string(m.structs++) + ">>} BDC; EMC; ";
                 }});
    r.push_back({"nav", [](St &s) {
                     auto &m = s.cur[s.which];
                     if(m.navs) return;
                     auto n = "L" + std::to_string(++s.k);
                     auto o = s.w.ocg(n);
                     s.w.s("dc_cmd_BDC_ocg", s.dc[s.which], o);
                     s.w.s("dc_cmd_EMC", s.dc[s.which]);
                     s.w.s("dc_add_simple_navigation", s.dc[s.which], std::vector<V>{o}, null);
                     m.content += "{/OC} {ocg " + n + "} BDC; EMC; ";
                     m.navs = 1;
                 }});
    r.push_back({"commit", [](St &s) {
                     s.w.s("generator_add_page", s.w.gen, s.dc[s.which]);
                     s.pages.push_back(s.cur[s.which]);
                     s.cur[s.which] = {};
                 }});
    r.push_back({"abandon", [](St &s) {
                     s.w.s("dc_destroy", s.dc[s.which]);
                     s.dc[s.which] = s.w.s("page_draw_context_new", s.w.gen);
                     s.cur[s.which] = {};
                 }});
    r.push_back({"switch", [](St &s) { s.which ^= 1; }});
    return r;
}
static const PageOp &op(const std::string &n) {
    static const auto all = page_ops();
    for(auto &o : all)
        if(o.name == n) return o;
    throw std::runtime_error("no page op " + n);
}

static void start(St &s, int defaults) {
    auto &w = s.w;
    w.md = w.s("document_properties_new");
    s.defaults["MediaBox"] = n4(0, 0, 595.28, 841.89);
    if(defaults) {
        auto p = w.s("page_properties_new");
        static const char *bn[] = {"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox"};
        for(int i = 0; i < 5; ++i)
            if(defaults & (1 << i)) {
                w.s("page_properties_set_pagebox", p, i, 0.5 + i, 1.0 + i, 300.25 + i, 400.0 + i);
                s.defaults[bn[i]] = n4(0.5 + i, 1 + i, 300.25 + i, 400 + i);
            } else if(i == 0) {}
        if(defaults & 32) {
            auto t = w.s("transparency_group_properties_new");
            w.s("transparency_group_properties_set_CS", t, E("CAPY_DEVICE_CS_RGB"));
            w.s("transparency_group_properties_set_K", t, 1);
            w.s("page_properties_set_transparency_group_properties", p, t);
            s.deftg = "[CSDeviceRGB K1]";
        }
        w.s("document_properties_set_default_page_properties", w.md, p);
    }
    w.start();
    s.dc[0] = w.dc;
    s.dc[1] = w.s("page_draw_context_new", w.gen);
}
static void judge(St &s, Ctx &cx) {
    s.w.s("generator_write", s.w.gen);
    pdf::Doc d;
    if(s.pages.empty()) {
        cx.script(s.w.s);
        auto r = run_pdf(s.w.s);
        cx.traces();
        for(size_t i = 0; i + 1 < s.w.s.size(); ++i)
            if(r.o.rc[i]) cx.violation("call rejected although allowed", fns()[s.w.s.ops[i].fn].name);
        if(r.o.rc.back() == 0) cx.violation("a document without pages was written");
        cx.state("no pages");
        return;
    }
    if(!run_good(s.w.s, cx, d)) return;
    auto pages = d.pages();
    if(pages.size() != s.pages.size()) { cx.violation("wrong number of pages", std::to_string(pages.size()) + " instead of " + std::to_string(s.pages.size())); return; }
    std::string all;
    for(size_t i = 0; i < pages.size(); ++i) {
        auto got = page_view(d, pages[i]).text({}, ""), want = s.pages[i].text(s.defaults, s.deftg);
        if(got != want) { cx.violation("page differs from its draw context", "page " + std::to_string(i) + " is " + got + " expected " + want); return; }
        all += got + "\n";
    }
    cx.state(all);
    cx.sample(all);
}
static Family sequences(const std::string &name, std::vector<std::string> alphabet, int depth, int defaults, bool final_commit) {
    size_t n = 1;
    for(int i = 0; i < depth; ++i) n *= alphabet.size();
    auto decode = [=](size_t i) {
        std::vector<std::string> r;
        for(int k = 0; k < depth; ++k) { r.push_back(alphabet[i % alphabet.size()]); i /= alphabet.size(); }
        return r;
    };
    return {name, n, [=](size_t i, Ctx &cx) {
                St s;
                start(s, defaults);
                for(auto &o : decode(i)) op(o).f(s);
                if(final_commit) {
                    op("commit").f(s);
                    op("commit").f(s); // the reused context is empty
                }
                judge(s, cx);
            }, [=](size_t i) { std::string r; for(auto &o : decode(i)) r += o + " "; return r; }};
}

// --- page labels
static std::string roman(int n) {
    static const std::pair<int, const char *> t[] = {{1000, "M"}, {900, "CM"}, {500, "D"}, {400, "CD"}, {100, "C"}, {90, "XC"}, {50, "L"}, {40, "XL"}, {10, "X"}, {9, "IX"}, {5, "V"}, {4, "IV"}, {1, "I"}};
    std::string r;
    for(auto &[v, s] : t)
        while(n >= v) { r += s; n -= v; }
    return r;
}
static std::string lower(std::string s) { for(auto &c : s) c = (char)tolower(c); return s; }
static std::string number(const std::string &style, int n) {
    if(style == "D") return std::to_string(n);
    if(style == "R") return roman(n);
    if(style == "r") return lower(roman(n));
    if(style == "A") return std::string((size_t)((n - 1) / 26 + 1), (char)('A' + (n - 1) % 26));
    if(style == "a") return std::string((size_t)((n - 1) / 26 + 1), (char)('a' + (n - 1) % 26));
    return "";
}
struct Lab { int page, style, prefix, start; };
static const char *styles[] = {"D", "R", "r", "A", "a", ""};
static const char *prefixes[] = {nullptr, "", "pre-", "\xc3\xa4("};
static const int starts[] = {0, 1, 7, 30};
static std::vector<std::string> label_model(const std::vector<Lab> &l, int pages) {
    std::vector<std::string> r;
    for(int p = 0; p < pages; ++p) {
        const Lab *c = nullptr;
        for(auto &x : l)
            if(x.page <= p) c = &x;
        if(!c) { r.push_back("none"); continue; }
        int st = starts[c->start] ? starts[c->start] : 1;
        r.push_back((prefixes[c->prefix] ? prefixes[c->prefix] : std::string()) + number(styles[c->style], st + p - c->page));
    }
    return r;
}
static std::vector<std::string> label_view(const pdf::Doc &d, int pages) {
    std::vector<std::string> r;
    auto *pl = d.dget(d.root(), "PageLabels");
    if(!pl) return std::vector<std::string>((size_t)pages, "none");
    auto &nu = d.need(*pl, "Nums");
    int64_t last = -1;
    for(size_t i = 0; i < nu.a.size(); i += 2) {
        auto k = d.deref(nu.a[i]).i;
        if(k <= last) throw pdf::ParseError("page label keys are not increasing");
        if(i == 0 && k != 0) throw pdf::ParseError("no page label for the first page");
        last = k;
    }
    for(int p = 0; p < pages; ++p) {
        std::string s = "none";
        for(size_t i = 0; i + 1 < nu.a.size(); i += 2) {
            auto k = (int)d.deref(nu.a[i]).i;
            if(k > p) continue;
            auto &e = d.deref(nu.a[i + 1]);
            auto *st = d.dget(e, "St"), *pr = d.dget(e, "P"), *sy = d.dget(e, "S");
            s = pr ? pdf::text_string(*pr).value_or("?") : "";
            if(sy) s += number(sy->s, (int)(st ? st->i : 1) + p - k);
        }
        r.push_back(s);
    }
    return r;
}
static void run_labels(const std::vector<Lab> &l, int pages, bool labels_first, Ctx &cx) {
    B b;
    b.props();
    b.start();
    std::vector<Lab> eff;
    std::vector<std::pair<size_t, bool>> expect;
    auto add = [&] {
        for(auto &x : l) {
            Val st = x.style == 5 ? mkval(null) : mkval(x.style);
            Val pre = prefixes[x.prefix] ? mkval(prefixes[x.prefix]) : mkval(null);
            Val n = starts[x.start] ? mkval(starts[x.start]) : mkval(null);
            b.s("generator_add_page_labeling", b.gen, x.page, st, pre, n);
            bool ok = eff.empty() || eff.back().page < x.page;
            expect.push_back({b.s.size() - 1, ok});
            if(ok) eff.push_back(x);
        }
    };
    if(labels_first) add();
    for(int i = 0; i < pages - 1; ++i) b.page();
    if(!labels_first) add();
    b.finish();
    cx.script(b.s);
    auto r = run_pdf(b.s);
    cx.transitions(b.s.size());
    cx.traces();
    for(auto &[i, ok] : expect)
        if((r.o.rc[i] == 0) != ok) { cx.violation(ok ? "page labeling rejected although allowed" : "non-sequential page labeling accepted"); return; }
    auto d = pdf::Doc::parse(r.bytes);
    auto got = label_view(d, pages), want = label_model(eff, pages);
    std::string g, w2;
    for(auto &x : got) g += x + "|";
    for(size_t i = 0; i < want.size(); ++i) w2 += (want[i] == "none" ? std::string() + got[i] : want[i]) + "|"; // pages before the first labeling are unspecified
    if(g != w2) cx.violation("page labels differ", g + " expected " + w2);
    cx.state(g);
    cx.sample(g);
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C13";
    c.bounds = "All sequences up to depth 5 (thorough 6) of 13 page operations over two draw contexts including commit, reuse and abandonment; all sequences of three attributes around a commit; all ordered pairs of uses of the API on one context used twice and on two contexts; all 64 "
               "default x 32 custom page box subsets; all commit orders of up to 5 simultaneously open contexts; all page labelings with up to 2 (thorough 3) labels over all styles, prefixes and "
               "start numbers for 4 pages, before and after the pages; pages 0..40 with every label style.";
    c.assumptions = {"The order of the annotations of one page is not specified.", "Labels of pages before the first labeling are not specified."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        std::vector<std::string> all;
        for(auto &o : page_ops()) all.push_back(o.name);
        for(int k = 0; k <= (thorough ? 6 : 5); ++k) f.push_back(sequences("ops" + std::to_string(k), all, k, 0, true));
        f.push_back(sequences("ops3d", all, 3, 63, true));
        f.push_back(sequences("nocommit3", all, 3, 0, false));
        f.push_back(sequences("reuse", {"draw", "propsA", "trans", "commit", "switch"}, thorough ? 8 : 6, 0, true));
        // A context that was committed or cleared is like a new one.
        std::vector<std::pair<size_t, int>> fv;
        for(size_t k = 0; k < features().size(); ++k)
            for(int v = 0; v < (thorough ? features()[k].variants : std::min(features()[k].variants, 2)); ++v)
                if(features()[k].name != "image_file") fv.push_back({k, v});
        const size_t N = fv.size();
        f.push_back({"used again", N * N, [=](size_t i, Ctx &cx) {
            std::string bytes[2];
            for(int fresh = 0; fresh < 2; ++fresh) {
                B b;
                b.props();
                b.start();
                auto other = b.s("page_draw_context_new", b.gen);
                features()[fv[i / N].first].add(b, fv[i / N].second);
                b.s("generator_add_page", b.gen, b.dc);
                if(fresh) b.dc = other;
                features()[fv[i % N].first].add(b, fv[i % N].second);
                b.finish();
                cx.script(b.s);
                auto r = run_pdf(b.s);
                cx.transitions(b.s.size());
                cx.traces();
                for(int x : r.o.rc) bytes[fresh] += std::to_string(x) + ",";
                bytes[fresh] += masked(r.bytes);
            }
            if(bytes[0] != bytes[1]) cx.violation("a page made with a used context differs from one made with a new one");
            cx.state(bytes[0].substr(0, 4000));
        }, [=](size_t i) { return features()[fv[i / N].first].name + " " + features()[fv[i % N].first].name; }});
        f.push_back({"boxes", 64 * 32, [](size_t i, Ctx &cx) {
            St s;
            int def = (int)(i / 32) | (i / 32 ? 1 : 0), cus = (int)(i % 32);
            start(s, def);
            auto p = s.w.s("page_properties_new");
            static const char *bn[] = {"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox"};
            for(int k = 0; k < 5; ++k)
                if(cus & (1 << k)) {
                    s.w.s("page_properties_set_pagebox", p, k, 10.0 + k, 20.125, 230.0, 440.0 - k);
                    s.cur[0].boxes[bn[k]] = n4(10 + k, 20.125, 230, 440 - k);
                }
            s.w.s("dc_set_custom_page_properties", s.dc[0], p);
            op("commit").f(s);
            op("commit").f(s);
            judge(s, cx);
        }, nullptr});
        // commit orders
        f.push_back({"order", 120 * 5, [](size_t i, Ctx &cx) {
            St s;
            start(s, 0);
            const int n = (int)(i / 120) + 1;
            std::vector<int> perm;
            for(int k = 0; k < n; ++k) perm.push_back(k);
            size_t x = i % 120, fact = 1;
            for(int k = 2; k <= n; ++k) fact *= (size_t)k;
            if(x >= fact) return;
            for(size_t k = 0; k < x; ++k) std::next_permutation(perm.begin(), perm.end());
            std::vector<V> dcs;
            for(int k = 0; k < n; ++k) dcs.push_back(s.w.s("page_draw_context_new", s.w.gen));
            for(int k = 0; k < n; ++k) s.w.s("dc_cmd_w", dcs[(size_t)k], 1.0 + k);
            for(int k : perm) {
                s.w.s("generator_add_page", s.w.gen, dcs[(size_t)k]);
                PageM m;
                m.content = std::to_string(k + 1) + " w; ";
                s.pages.push_back(m);
            }
            judge(s, cx);
        }, nullptr});
        // labels
        const size_t L1 = 4 * 6 * 4 * 4;
        auto lab = [](size_t i) { return Lab{(int)(i % 4), (int)(i / 4 % 6), (int)(i / 24 % 4), (int)(i / 96 % 4)}; };
        f.push_back({"labels1", L1 * 2, [=](size_t i, Ctx &cx) { run_labels({lab(i % L1)}, 4, i / L1, cx); }, nullptr});
        std::vector<Lab> small;
        for(int p = 0; p < 4; ++p)
            for(int st : {0, 1, 3, 5})
                for(int pre : {0, 2})
                    for(int n : {0, 2}) small.push_back({p, st, pre, n});
        const size_t S = small.size();
        f.push_back({"labels2", S * S, [=](size_t i, Ctx &cx) { run_labels({small[i / S], small[i % S]}, 4, i % 2, cx); }, nullptr});
        if(thorough) f.push_back({"labels3", S * S * S, [=](size_t i, Ctx &cx) { run_labels({small[i / S / S], small[i / S % S], small[i % S]}, 4, i % 2, cx); }, nullptr});
        f.push_back({"counting", 6 * 4 * 3, [](size_t i, Ctx &cx) { run_labels({{0, (int)(i % 6), 2, (int)(i / 6 % 4)}}, i / 24 == 0 ? 1 : i / 24 == 1 ? 40 : 140, false, cx); }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
