// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
using namespace mc;

// Ends a context of the given kind and makes it visible. Returns the index of the committing call.
static size_t commit(W &w, int kind, V dc, bool ok) {
    size_t at = w.s.size();
    if(kind == 0) { w.s("generator_add_page", w.gen, dc); return at; }
    if(kind == 1) {
        auto id = w.s("generator_add_form_xobject", w.gen, dc);
        auto a = w.s("printers_mark_annotation_new", id);
        w.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0);
        auto aid = w.s("generator_add_annotation", w.gen, a);
        w.s("dc_annotate", w.dc, aid);
    } else if(kind == 2) {
        auto id = w.s("generator_add_transparency_group", w.gen, dc);
        w.s("dc_cmd_Do_trgroup", w.dc, id);
    } else {
        auto id = w.s("generator_add_tiling_pattern", w.gen, dc);
        if(!ok) return at;
        auto c = w.s("color_new");
        w.s("color_set_pattern", c, id);
        w.s("dc_set_nonstroke", w.dc, c);
    }
    return at;
}
// The committed context as a content stream.
static std::vector<XOp> committed(const pdf::Doc &d, int kind, int page) {
    if(kind == 0) return view_page(d, page);
    auto *res = d.inherited(page, "Resources");
    if(kind == 1) {
        auto *an = d.dget(d.objs.at(page), "Annots");
        auto &a = d.deref(an->a.at(0));
        return view_stream(d, d.need(d.need(a, "AP"), "N"));
    }
    auto *cat = d.dget(d.deref(*res), kind == 2 ? "XObject" : "Pattern");
    if(!cat || cat->d.empty()) throw pdf::ParseError("the context is not a resource of the page");
    for(auto &[k, v] : cat->d) {
        auto l = label(d, d.deref(v));
        if(l == "form 0,0,101,90" || l == "group 0,0,101,90" || l == "tiling 0,0,102,90") return view_stream(d, d.deref(v));
    }
    throw pdf::ParseError("the context is not a resource of the page");
}

static std::string names(const std::vector<const DrawOp *> &seq) {
    std::string r;
    for(auto o : seq) r += (r.empty() ? "" : " ") + o->name;
    return r;
}

// One sequence in one context kind. Judges each return code and then the content.
static void run_seq(const std::vector<const DrawOp *> &seq, int kind, Ctx &cx) {
    W w;
    w.props();
    w.start();
    DCModel m;
    V dc = kind ? w.context(kind) : w.dc;
    std::vector<std::pair<size_t, bool>> expect; // op index -> must be accepted
    for(auto o : seq) {
        o->emit(w, dc);
        expect.push_back({w.s.size() - 1, m.apply(*o)});
    }
    const bool ok = m.balanced();
    const size_t at = commit(w, kind, dc, ok);
    expect.push_back({at, ok});
    if(kind == 0) {
        // a page that could not be committed is replaced by an empty one, so that there is something to write
        if(!ok) {
            auto dc2 = w.s("page_draw_context_new", w.gen);
            w.s("generator_add_page", w.gen, dc2);
        }
    } else w.s("generator_add_page", w.gen, w.dc);
    w.s("generator_write", w.gen);
    cx.script(w.s);
    auto r = run_pdf(w.s);
    cx.transitions(w.s.size());
    cx.traces();
    std::map<size_t, bool> e(expect.begin(), expect.end());
    bool rejected_commit = false;
    for(size_t i = 0; i < w.s.size(); ++i) {
        bool want = e.count(i) ? e[i] : true;
        bool got = r.o.rc[i] == 0;
        if(r.o.rc[i] == SKIPPED) continue; // depends on a rejected commit
        if(got != want) {
            cx.violation(fns()[w.s.ops[i].fn].name + (got ? " accepted in a state that forbids it" : " rejected although allowed"), names(seq) + (got ? "" : ": " + error_text(r.o.rc[i])));
            return;
        }
        if(i == at && !got) rejected_commit = true;
    }
    if(r.bytes.empty()) { cx.violation("nothing was written", names(seq)); return; }
    auto d = pdf::Doc::parse(r.bytes);
    auto pages = d.pages();
    if(pages.size() != 1) { cx.violation("wrong number of pages", names(seq)); return; }
    if(rejected_commit) {
        auto got = view_page(d, pages[0]);
        if(!got.empty()) cx.violation("a rejected context left operators on the page", show(got));
        cx.state("rejected " + m.stack);
        return;
    }
    auto got = committed(d, kind, pages[0]);
    auto df = diff(got, m.out);
    if(!df.empty()) cx.violation("content differs from the accepted calls", names(seq) + ": " + df);
    cx.state(show(got));
    cx.sample(names(seq) + " => " + show(got));
}

static Family sequences(std::string name, std::vector<DrawOp> alphabet, int depth, std::vector<int> kinds) {
    size_t n = 1;
    for(int i = 0; i < depth; ++i) n *= alphabet.size();
    auto al = std::make_shared<std::vector<DrawOp>>(std::move(alphabet));
    auto decode = [=](size_t i, int &kind) {
        kind = kinds[i / n];
        i %= n;
        std::vector<const DrawOp *> seq;
        for(int k = 0; k < depth; ++k) {
            seq.insert(seq.begin(), &(*al)[i % al->size()]);
            i /= al->size();
        }
        return seq;
    };
    return {name, n * kinds.size(), [=](size_t i, Ctx &cx) {
                int kind;
                auto seq = decode(i, kind);
                if(kind)
                    for(auto o : seq)
                        if(o->page_only) return;
                run_seq(seq, kind, cx);
            }, [=](size_t i) {
                int kind;
                auto seq = decode(i, kind);
                return std::string(1, "PFGT"[kind]) + ":" + names(seq);
            }};
}

// --- text objects: sequences of text operators
struct TextOp {
    std::string name;
    std::function<void(W &, V)> emit;
    std::vector<XOp> want;
    bool needs_font = false;
};
static V seqobj(W &w, int v) {
    auto q = w.s("text_sequence_new");
    if(v == 0) {
        w.s("text_sequence_append_string", q, "AV");
        w.s("text_sequence_append_kerning", q, 120);
        w.s("text_sequence_append_codepoint", q, 0x57);
        w.s("text_sequence_append_kerning", q, -35);
        w.s("text_sequence_append_string", q, "a\xc3\xb6");
    } else {
        w.s("text_sequence_append_codepoint", q, 0x42);
        w.s("text_sequence_append_actualtext_start", q, "actu\xc3\xa4l");
        w.s("text_sequence_append_string", q, "xy");
        w.s("text_sequence_append_actualtext_end", q);
        w.s("text_sequence_append_kerning", q, 7);
        w.s("text_sequence_append_codepoint", q, 0x43);
    }
    return q;
}
static std::vector<TextOp> text_ops() {
    auto num = [](const char *fn, const char *op, std::vector<double> a) {
        XOp x{op, {}};
        for(auto d : a) x.a.push_back(A(d));
        std::string f = std::string("text_cmd_") + fn;
        return TextOp{fn, [f, a](W &w, V t) {
                          std::vector<Val> v{mkval(t)};
                          for(auto d : a) v.push_back(mkval(d));
                          w.s.add(f, v);
                      }, {x}, false};
    };
    std::vector<TextOp> r;
    r.push_back({"Tf0", [](W &w, V t) { w.s("text_cmd_Tf", t, w.fontk(0), 9.5); }, {X("Tf", font_label(0), 9.5)}});
    r.push_back({"Tf1", [](W &w, V t) { w.s("text_cmd_Tf", t, w.fontk(1), 14.0); }, {X("Tf", font_label(1), 14)}});
    r.push_back({"Tj", [](W &w, V t) { w.s("text_cmd_Tj", t, "Jo\xc3\xa4"); }, {X("Tj", "Jo\xc3\xa4")}, true});
    r.push_back({"TJ0", [](W &w, V t) { w.s("text_cmd_TJ", t, seqobj(w, 0)); }, {X("TJ", "[AV|120|W|-35|a\xc3\xb6]")}, true});
    r.push_back({"TJ1", [](W &w, V t) { w.s("text_cmd_TJ", t, seqobj(w, 1)); }, {X("TJ", "[B]"), X("BDC", "/Span", "<<ActualText=actu\xc3\xa4l>>"), X("TJ", "[xy]"), X("EMC"), X("TJ", "[|7|C]")}, true});
    r.push_back(num("Td", "Td", {1, -2.5}));
    r.push_back(num("TD", "TD", {3, -4.5}));
    r.push_back(num("Tm", "Tm", {1, 0.5, -0.5, 1, 20, 30.25}));
    r.push_back(num("Tc", "Tc", {0.75}));
    r.push_back(num("TL", "TL", {14.5}));
    r.push_back(num("Tstar", "T*", {}));
    r.push_back({"Tr", [](W &w, V t) { w.s("text_cmd_Tr", t, 2); }, {X("Tr", 2)}});
    r.push_back(num("w", "w", {0.5}));
    r.push_back(num("M", "M", {3.5}));
    r.push_back({"j", [](W &w, V t) { w.s("text_cmd_j", t, 1); }, {X("j", 1)}});
    r.push_back({"J", [](W &w, V t) { w.s("text_cmd_J", t, 2); }, {X("J", 2)}});
    r.push_back({"d", [](W &w, V t) { w.s("text_cmd_d", t, std::vector<double>{1, 2}, 0.5); }, {X("d", "[|1||2|]", 0.5)}});
    r.push_back({"gs", [](W &w, V t) { w.s("text_cmd_gs", t, w.gs(0)); }, {X("gs", gs_label(0))}});
    r.push_back({"nonstroke", [](W &w, V t) { auto c = w.s("color_new"); w.s("color_set_rgb", c, 0.5, 0.25, 0.125); w.s("text_set_nonstroke", t, c); }, {X("rg", 0.5, 0.25, 0.125)}});
    r.push_back({"stroke", [](W &w, V t) { auto c = w.s("color_new"); w.s("color_set_pattern", c, w.tiling(1)); w.s("text_set_stroke", t, c); }, {X("CS", "/Pattern"), X("SCN", tiling_label(1))}});
    r.push_back({"BDC", [](W &w, V t) { w.s("text_cmd_BDC_builtin", t, w.structure()); }, {X("BDC", "/P", "MCID")}});
    r.push_back({"EMC", [](W &w, V t) { w.s("text_cmd_EMC", t); }, {X("EMC")}});
    return r;
}
// Inside a text object marked content must balance, and text needs a font.
static bool text_model(const std::vector<const TextOp *> &seq, std::vector<XOp> &out) {
    bool font = false, open = false, ok = true;
    int mc = 0;
    out.push_back(X("BT"));
    for(auto o : seq) {
        if(o->name[0] == 'T' && o->name[1] == 'f') font = true;
        if(o->needs_font && !font) ok = false;
        if(o->name == "BDC") {
            if(open) ok = false;
            open = true;
        }
        if(o->name == "EMC") {
            if(!open) ok = false;
            open = false;
        }
        for(auto x : o->want) {
            for(auto &a : x.a)
                if(a.s == "MCID") a.s = "<<MCID=" + std::to_string(mc++) + ">>";
            out.push_back(x);
        }
    }
    out.push_back(X("ET"));
    return ok && !open;
}
static Family text_sequences(std::string name, int depth, bool with_font) {
    auto al = std::make_shared<std::vector<TextOp>>(text_ops());
    size_t n = 1;
    for(int i = 0; i < depth; ++i) n *= al->size();
    auto decode = [=](size_t i) {
        std::vector<const TextOp *> seq;
        for(int k = 0; k < depth; ++k) {
            seq.insert(seq.begin(), &(*al)[i % al->size()]);
            i /= al->size();
        }
        if(with_font) seq.insert(seq.begin(), &(*al)[0]);
        return seq;
    };
    auto nm = [=](size_t i) {
        std::string r;
        for(auto o : decode(i)) r += (r.empty() ? "" : " ") + o->name;
        return r;
    };
    return {name, n, [=](size_t i, Ctx &cx) {
                auto seq = decode(i);
                W w;
                w.props();
                w.start();
                auto t = w.s("dc_text_new", w.dc);
                for(auto o : seq) o->emit(w, t);
                std::vector<XOp> want;
                bool ok = text_model(seq, want);
                w.s("dc_render_text_obj", w.dc, t);
                const size_t at = w.s.size() - 1;
                w.finish();
                cx.script(w.s);
                auto r = run_pdf(w.s);
                cx.transitions(w.s.size());
                cx.traces();
                for(size_t k = 0; k < w.s.size(); ++k)
                    if((r.o.rc[k] == 0) != (k == at ? ok : true)) {
                        cx.violation(fns()[w.s.ops[k].fn].name + (r.o.rc[k] == 0 ? " accepted in a state that forbids it" : " rejected although allowed"), nm(i));
                        return;
                    }
                auto d = pdf::Doc::parse(r.bytes);
                auto got = view_page(d, d.pages().at(0));
                if(!ok) want.clear();
                auto df = diff(got, want);
                if(!df.empty()) cx.violation("content differs from the accepted calls", nm(i) + ": " + df);
                cx.state(show(got));
                cx.sample(nm(i) + " => " + show(got));
            }, nm};
}

// --- every numeric operand of every operator over a grid of values
struct NumOp { std::string fn, op; int n; bool text; };
static const std::vector<NumOp> &num_ops() {
    static const std::vector<NumOp> v = {
        {"dc_cmd_c", "c", 6, false}, {"dc_cmd_cm", "cm", 6, false}, {"dc_cmd_l", "l", 2, false}, {"dc_cmd_m", "m", 2, false}, {"dc_cmd_re", "re", 4, false},
        {"dc_cmd_v", "v", 4, false}, {"dc_cmd_y", "y", 4, false}, {"dc_cmd_w", "w", 1, false}, {"dc_cmd_M", "M", 1, false}, {"dc_cmd_i", "i", 1, false},
        {"dc_cmd_G", "G", 1, false}, {"dc_cmd_g", "g", 1, false}, {"dc_cmd_RG", "RG", 3, false}, {"dc_cmd_rg", "rg", 3, false}, {"dc_cmd_K", "K", 4, false}, {"dc_cmd_k", "k", 4, false},
        {"text_cmd_Tc", "Tc", 1, true}, {"text_cmd_Td", "Td", 2, true}, {"text_cmd_TD", "TD", 2, true}, {"text_cmd_TL", "TL", 1, true}, {"text_cmd_Tm", "Tm", 6, true},
        {"text_cmd_w", "w", 1, true}, {"text_cmd_M", "M", 1, true},
    };
    return v;
}
static const std::vector<double> &grid() {
    static const std::vector<double> g = {0, 1, -1, 0.5, 0.25, 1e-6, -1e-6, 4e-7, 1e-7, -1e-7, 0.333333333333, 2.0 / 3, 99.999999, 100, 100.000001, 99.9999999, 123.456789, -123.456789, 32767, 32768,
                                          65535.5, 65536, 1e6, 16777217, 2147483647, 2147483648.0, 4294967296.5, 1e10, -1e10, 1e15, 0.1, 0.9999999, 1.0000001, -0.0};
    return g;
}
static bool clamped(const std::string &op) { return op == "G" || op == "g" || op == "RG" || op == "rg" || op == "K" || op == "k"; }

int main(int argc, char **argv) {
    Check c;
    c.id = "C02";
    c.bounds = "Every sequence of nesting-relevant calls up to the stated depth in pages, form XObjects, transparency groups and tiling patterns; every ordered pair (and, "
               "thorough, triple) of all drawing calls; every sequence of text operators up to depth 3 in a text object; every numeric operand of every operator over a grid of "
               "values in every position; every interleaving of two contexts under construction.";
    c.assumptions = {"Numbers are compared to six decimals.", "Colour components outside [0,1] are clamped.", "Adjacent strings of one TJ array may be split in any way."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        const auto &all = draw_ops();
        auto nest = nesting_ops();
        std::vector<DrawOp> small;
        for(auto n : {"q", "Q", "EMC", "BMC", "re", "text0"}) small.push_back(draw_op(n));
        f.push_back(sequences("one", all, 1, {0, 1, 2, 3}));
        for(int k = 0; k <= (thorough ? 5 : 4); ++k) f.push_back(sequences("nest" + std::to_string(k), nest, k, k > 3 ? std::vector<int>{0} : std::vector<int>{0, 1, 2, 3}));
        for(int k = 5; k <= (thorough ? 8 : 6); ++k) f.push_back(sequences("deep" + std::to_string(k), small, k, k > 5 ? std::vector<int>{0} : std::vector<int>{0, 1, 2, 3}));
        f.push_back(sequences("pairs", all, 2, {0, 1, 2, 3}));
        if(thorough) f.push_back(sequences("triples", all, 3, {0}));
        for(int k = 0; k <= (thorough ? 4 : 3); ++k) {
            if(k < 4) f.push_back(text_sequences("text" + std::to_string(k), k, false));
            if(k > 1) f.push_back(text_sequences("ftext" + std::to_string(k), k, true));
        }
        // numeric operands: one position takes each grid value while the others are distinct
        size_t nn = 0;
        std::vector<std::array<size_t, 3>> cases;
        for(size_t o = 0; o < num_ops().size(); ++o)
            for(int p = 0; p < num_ops()[o].n; ++p)
                for(size_t g = 0; g < grid().size(); ++g) cases.push_back({o, (size_t)p, g});
        nn = cases.size();
        f.push_back({"numbers", nn, [=](size_t i, Ctx &cx) {
            auto &o = num_ops()[cases[i][0]];
            W w;
            w.props();
            w.start();
            V t = o.text ? w.s("dc_text_new", w.dc) : w.dc;
            std::vector<Val> a{mkval(t)};
            XOp x{o.op, {}};
            bool ok = true;
            for(int k = 0; k < o.n; ++k) {
                double v = k == (int)cases[i][1] ? grid()[cases[i][2]] : 0.0625 * (k + 1);
                a.push_back(mkval(v));
                if(o.op == "i" && (v < 0 || v > 100)) ok = false;
                if(o.op == "w" && v < 0) ok = false;
                if(clamped(o.op)) v = std::min(1.0, std::max(0.0, v));
                x.a.push_back(A(v));
            }
            w.s.add(o.fn, a);
            if(o.text) w.s("dc_render_text_obj", w.dc, t);
            const size_t at = w.s.size() - 1;
            w.finish();
            cx.script(w.s);
            auto r = run_pdf(w.s);
            cx.transitions(w.s.size());
            cx.traces();
            for(size_t k = 0; k < w.s.size(); ++k)
                if((r.o.rc[k] == 0) != (k == at ? ok : true)) {
                    cx.violation(o.fn + (r.o.rc[k] == 0 ? " accepted an argument out of range" : " rejected although allowed"), std::to_string(grid()[cases[i][2]]));
                    return;
                }
            auto d = pdf::Doc::parse(r.bytes);
            auto got = view_page(d, d.pages().at(0));
            std::vector<XOp> want;
            if(ok) want = o.text ? std::vector<XOp>{X("BT"), x, X("ET")} : std::vector<XOp>{x};
            auto df = diff(got, want);
            if(!df.empty()) cx.violation("operand differs from the argument of " + o.fn, df);
            cx.state(show(got));
        }, [=](size_t i) { return num_ops()[cases[i][0]].fn + "#" + std::to_string(cases[i][1]) + "=" + std::to_string(grid()[cases[i][2]]); }});
        // two contexts under construction at the same time: every interleaving of two call lists
        static const std::vector<std::vector<std::string>> lists = {
            {"q", "gs0", "Q"}, {"BMC", "text0", "EMC"}, {"text1", "Do_image0"}, {"BDC_ocg", "sh0", "EMC"}, {"nonstroke6", "q", "Q"}, {"BDC_builtin", "EMC", "re"}, {"text0", "textobj"}};
        std::vector<std::vector<int>> merges; // which list supplies the next call
        std::vector<std::array<size_t, 2>> which;
        for(size_t a = 0; a < lists.size(); ++a)
            for(size_t b = 0; b < lists.size(); ++b) {
                size_t n = lists[a].size() + lists[b].size();
                for(size_t bits = 0; bits < (1u << n); ++bits) {
                    if((size_t)__builtin_popcount((unsigned)bits) != lists[b].size()) continue;
                    std::vector<int> m;
                    for(size_t k = 0; k < n; ++k) m.push_back(bits >> k & 1);
                    merges.push_back(m);
                    which.push_back({a, b});
                }
            }
        f.push_back({"interleaved", merges.size(), [=](size_t i, Ctx &cx) {
            W w;
            w.props();
            w.start();
            V dcs[2] = {w.dc, w.context(0)};
            DCModel m[2];
            size_t pos[2] = {0, 0};
            for(int k : merges[i]) {
                auto &o = draw_op(lists[which[i][k]][pos[k]++]);
                o.emit(w, dcs[k]);
                m[k].apply(o);
            }
            w.s("generator_add_page", w.gen, dcs[0]);
            w.s("generator_add_page", w.gen, dcs[1]);
            w.s("generator_write", w.gen);
            pdf::Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto pages = d.pages();
            for(int k = 0; k < 2; ++k) {
                auto got = view_page(d, pages.at((size_t)k));
                auto df = diff(got, m[k].out);
                if(!df.empty()) cx.violation("content of two interleaved pages differs from their calls", df);
                cx.state(show(got));
            }
        }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
