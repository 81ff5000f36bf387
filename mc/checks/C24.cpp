// uses: features.cpp
// uses: view.cpp
// uses: fontview.cpp
// uses: fontgen.cpp
#include "explore.hpp"
#include "features.hpp"
#include "fontview.hpp"
#include "fontgen.hpp"
#include <algorithm>
using namespace mc;
using std::string;
using std::to_string;

struct FontSpec {
    string path;
    int instance = -2; // -2: no font properties object
    std::vector<std::pair<string, int>> axes;
};
static const string R = "$REPO/testdata/fonts/";
static string made(const string &name, const string &bytes) {
    auto p = scratch() + "/" + name;
    if(!file_exists(p)) write_file(p, bytes);
    return "$OUT/" + name;
}
static FontSpec font(size_t i) {
    switch(i) {
    case 0: return {R + "NotoSans-Regular.ttf", -2, {}};
    case 1: return {R + "NotoSerif-Regular.ttf", -2, {}};
    case 2: return {R + "NotoSans-Bold.ttf", -2, {}};
    case 3: return {R + "P052-Roman.otf", -2, {}};
    case 4: return {R + "NotoSansSymbols2-Regular.ttf", -2, {}};
    case 5: return {R + "AmstelVar-Roman.ttf", -2, {}};
    case 6: return {R + "AmstelVar-Roman.ttf", -2, {{"wght", 900}}};
    default: break;
    }
    TtSpec t;
    if(i == 7) t.kern = true;
    if(i == 8) { t.kern = true; t.headflags = 0x1b; t.upem = 2048; }
    if(i == 9) { t.headflags = 0x19; t.nhm = 1; t.upem = 1000; }
    if(i == 10) { t.upem = 16384; t.instructions = true; t.headflags = 0x1b; }
    if(i == 11) { CffSpec c; c.cid = false; c.upem = 2048; return {made("w11.otf", make_cff_otf(c)), -2, {}}; }
    if(i == 12) { CffSpec c; return {made("w12.otf", make_cff_otf(c)), -2, {}}; }
    return {made("w" + to_string(i) + ".ttf", make_ttf(t)), -2, {}};
}
static const size_t NFONTS = 13;
static std::shared_ptr<Face> ref_face(size_t i) {
    static std::map<size_t, std::shared_ptr<Face>> cache;
    auto &c = cache[i];
    if(!c) {
        auto f = font(i);
        auto p = subst(f.path);
        c = Face::open(p);
        if(c && !c->axes().empty()) c = Face::variation(p, f.instance < 0 ? -1 : f.instance, f.axes);
    }
    return c;
}
// The advance of a character in em; negative when the font does not have it.
static double advance(size_t f, uint32_t cp) {
    static std::map<std::pair<size_t, uint32_t>, double> cache;
    auto [it, fresh] = cache.try_emplace({f, cp}, -1);
    if(fresh) {
        Glyph g;
        auto gid = ref_face(f)->gid(cp);
        if(gid && ref_face(f)->glyph(gid, g)) it->second = (double)g.advance / ref_face(f)->upem();
    }
    return it->second;
}
static std::vector<uint32_t> chars(size_t f) {
    std::vector<uint32_t> r;
    for(auto &[c, g] : ref_face(f)->cmap())
        if(c && g && advance(f, c) >= 0) r.push_back(c);
    std::sort(r.begin(), r.end());
    return r;
}
static const std::vector<double> SIZES = {12, 11, 1, 0.5, 0.01, 7.3, 10.016, 1000, 100000, 0, -12, 1.0 / 3, 1e-7, 32767.3, 1e7};

static double expected(size_t f, const std::vector<uint32_t> &t, double size) {
    double w = 0;
    for(auto c : t) w += advance(f, c);
    return w * size;
}
static bool same(double a, double b, double size, size_t n) { return std::fabs(a - b) <= 1e-12 * std::fabs(size) * (double)std::max<size_t>(n, 1); }
static string str(const std::vector<uint32_t> &t) {
    string r;
    for(auto c : t) r += utf8(c);
    return r;
}
struct Probe { size_t font; std::vector<uint32_t> text; double size; V out; };
struct S {
    B b;
    std::map<size_t, V> fonts;
    std::vector<Probe> probes;
    void start() { b.props(); b.start(); }
    V load(size_t f) {
        auto it = fonts.find(f);
        if(it != fonts.end()) return it->second;
        auto sp = font(f);
        V v;
        if(sp.instance == -2 && sp.axes.empty()) v = b.s("generator_load_font", b.gen, sp.path, null);
        else {
            auto fp = b.s("font_properties_new");
            for(auto &[k, x] : sp.axes) b.s("font_properties_set_variation", fp, k, x);
            v = b.s("generator_load_font", b.gen, sp.path, fp);
        }
        return fonts[f] = v;
    }
    void measure(size_t f, const std::vector<uint32_t> &t, double size, bool zero_terminated = false) {
        auto v = load(f);
        V o = zero_terminated ? b.s("generator_text_width", b.gen, nts(str(t)), v, size) : b.s("generator_text_width", b.gen, str(t), v, size);
        probes.push_back({f, t, size, o});
    }
    void draw(size_t f, const std::vector<uint32_t> &t, double size) { b.s("dc_render_text", b.dc, str(t), load(f), size, 1.0, 2.0); }
    void judge(const Outcome &o, Ctx &cx) {
        for(auto &p : probes) {
            auto &v = o.vars.at((size_t)p.out.slot);
            if(v.t != Slot::Dbl) { cx.violation("no width is returned", str(p.text)); return; }
            auto w = expected(p.font, p.text, p.size);
            if(!same(v.d, w, p.size, p.text.size())) {
                cx.violation("the width is not the sum of the advances", "font " + font(p.font).path + " size " + to_string(p.size) + " text '" + str(p.text) + "': " + to_string(v.d) + " instead of " + to_string(w));
                return;
            }
            char k[40];
            snprintf(k, sizeof k, "%.4f", v.d);
            cx.state(k);
        }
    }
    // Runs the calls; every one of them must succeed.
    void decide(Ctx &cx) {
        cx.script(b.s);
        auto o = execute(b.s);
        cx.transitions(b.s.size());
        cx.traces();
        for(size_t i = 0; i < o.rc.size(); ++i)
            if(o.rc[i]) { cx.violation("valid call rejected", op_text(b.s.ops[i]) + ": " + error_text(o.rc[i])); return; }
        judge(o, cx);
    }
};
// Every character of a font at every size.
static void char_case(size_t i, Ctx &cx, size_t f, size_t batch) {
    auto c = chars(f);
    S s;
    s.start();
    for(size_t k = i * batch; k < std::min(c.size(), (i + 1) * batch); ++k)
        for(auto z : SIZES) s.measure(f, {c[k]}, z);
    s.decide(cx);
}
static std::vector<uint32_t> critical(size_t f, size_t max) {
    std::vector<uint32_t> r;
    for(auto c : string("AVToLYWP.,-fi tawyj\"0171")) if(advance(f, (uint32_t)c) >= 0 && std::find(r.begin(), r.end(), (uint32_t)c) == r.end()) r.push_back((uint32_t)c);
    for(uint32_t c : {0xc4u, 0x2019u, 0x20acu, 0x3b1u, 0xa0u, 0x301u, 0x1f600u}) if(advance(f, c) >= 0) r.push_back(c);
    for(auto c : chars(f)) {
        if(r.size() >= max) break;
        if(std::find(r.begin(), r.end(), c) == r.end()) r.push_back(c);
    }
    r.resize(std::min(r.size(), max));
    return r;
}
// Every ordered pair of critical characters.
static void pair_case(size_t i, Ctx &cx, size_t f, size_t max) {
    auto c = critical(f, max);
    if(i >= c.size()) return;
    S s;
    s.start();
    for(auto x : c)
        for(auto z : {12.0, 7.3, 0.5, 1000.0}) s.measure(f, {c[i], x}, z);
    s.decide(cx);
}
// Every text over three characters up to a length; each is additive.
static void text_case(size_t i, Ctx &cx, size_t f, size_t maxlen) {
    auto c = critical(f, 3);
    S s;
    s.start();
    std::vector<uint32_t> t;
    size_t x = i;
    for(size_t n = 0; n < maxlen; ++n) {
        size_t d = x % 4;
        x /= 4;
        if(d == 3) break;
        t.push_back(c.at(d % c.size()));
    }
    if(x) return;
    s.measure(f, t, 11, i % 2);
    s.measure(f, {t.begin(), t.begin() + (long)t.size() / 2}, 11);
    s.measure(f, {t.begin() + (long)t.size() / 2, t.end()}, 11);
    s.decide(cx);
}
// What happened before does not matter: every sequence of operations, the same measurement after each.
static void history_case(size_t i, Ctx &cx, int len) {
    S s;
    s.start();
    auto text = [](size_t f, size_t k) { auto c = critical(f, 6); return std::vector<uint32_t>{c.at(k % c.size()), c.at((k + 1) % c.size()), c.at((k + 2) % c.size())}; };
    size_t A = 0, Bf = 7, C = 5;
    int pages = 0;
    for(int k = 0; k < len; ++k) {
        switch(i % 11) {
        case 0: s.draw(A, text(A, 0), 30); break;
        case 1: s.draw(Bf, text(Bf, 1), 5); break;
        case 2: s.draw(C, text(C, 0), 9); break;
        case 3: s.measure(A, text(A, 2), 0.25); break;
        case 4: s.measure(Bf, text(Bf, 0), 333); break;
        case 5: s.measure(6, text(6, 0), 17); break;
        case 6: s.fonts.erase(A); s.load(A); break; // loaded again
        case 7: s.fonts.erase(C); s.load(C); break;
        case 8: {
            auto t = s.b.s("dc_text_new", s.b.dc);
            s.b.s("text_cmd_Tf", t, s.load(A), 50.0);
            s.b.s("text_cmd_Tc", t, 3.0);
            s.b.s("text_cmd_Tm", t, 2.0, 0.0, 0.0, 3.0, 1.0, 1.0);
            s.b.s("text_cmd_Tj", t, str(text(A, 1)));
            s.b.s("dc_render_text_obj", s.b.dc, t);
            break;
        }
        case 9: s.b.s("dc_cmd_cm", s.b.dc, 2.0, 0.0, 0.0, 2.0, 0.0, 0.0); break;
        case 10: s.b.s("generator_add_page", s.b.gen, s.b.dc); s.b.dc = s.b.s("page_draw_context_new", s.b.gen); ++pages; break;
        }
        i /= 11;
        s.measure(A, text(A, 0), 12);
        s.measure(Bf, text(Bf, 0), 12);
        s.measure(C, text(C, 0), 11);
    }
    s.b.s("generator_add_page", s.b.gen, s.b.dc);
    s.b.s("generator_write", s.b.gen);
    s.measure(A, text(A, 0), 12);
    s.measure(6, text(6, 0), 12);
    s.decide(cx);
}
// The width that is reported is the width that a viewer advances by, when the text is drawn.
static void drawn_case(size_t i, Ctx &cx, size_t f, size_t batch) {
    auto c = chars(f);
    S s;
    s.start();
    std::vector<uint32_t> all;
    for(size_t k = i * batch; k < std::min(c.size(), (i + 1) * batch); ++k) all.push_back(c[k]);
    const double size = i % 2 ? 10 : 17.5;
    std::vector<std::vector<uint32_t>> texts;
    for(size_t k = 0; k < all.size(); ++k) { // every suffix of up to three, so that neighbours vary
        std::vector<uint32_t> t{all[k], all[(k * 7 + 3) % all.size()]};
        if(k % 2) t.push_back(all[(k + 1) % all.size()]);
        texts.push_back(t);
        s.draw(f, t, size);
        s.measure(f, t, size);
    }
    s.b.s("generator_add_page", s.b.gen, s.b.dc);
    s.b.s("generator_write", s.b.gen);
    pdf::Doc d;
    Result res;
    if(!run_good(s.b.s, cx, d, &res)) return;
    s.judge(res.o, cx);
    try {
        auto page = d.pages().at(0);
        auto *resources = d.inherited(page, "Resources");
        auto &fd = d.need(*resources, "Font");
        if(fd.d.size() != 1) { cx.violation("there are several fonts"); return; }
        auto e = embedded_font(d, d.deref(fd.d.begin()->second));
        size_t n = 0;
        for(auto &op : d.page_ops(page)) {
            if(op.op != "Tj" && op.op != "TJ") continue;
            double w = 0, kern = 0;
            size_t codes = 0;
            auto add = [&](const string &x) {
                for(size_t k = 0; k + 1 < x.size(); k += 2, ++codes) {
                    int code = (unsigned char)x[k] << 8 | (unsigned char)x[k + 1];
                    w += e.widths.count(code) ? e.widths[code] : e.dw;
                }
            };
            for(auto &a : op.a) {
                if(a.t == pdf::Obj::Str) add(a.s);
                for(auto &x : a.a) {
                    if(x.t == pdf::Obj::Str) add(x.s);
                    else kern += x.num();
                }
            }
            double drawn = (w - kern) / 1000 * size;
            auto &p = s.probes.at(n);
            double said = res.o.vars.at((size_t)p.out.slot).d;
            if(std::fabs(drawn - said) > 1.001 / 1000 * size * (double)codes) {
                cx.violation("the text that is drawn has another width", "font " + font(f).path + " '" + str(p.text) + "': " + to_string(drawn) + " instead of " + to_string(said));
                return;
            }
            ++n;
        }
        if(n != texts.size()) cx.violation("texts are missing", to_string(n));
    } catch(const pdf::ParseError &e) { cx.violation("unexpected structure", e.what()); }
}
// What can not be measured is an error, and what follows is not affected.
static void bad_case(size_t i, Ctx &cx) {
    S s;
    s.start();
    auto f = s.load(0);
    auto builtin = s.b.s("generator_load_font", s.b.gen, R + "NotoSans-Bold.ttf", null);
    std::set<size_t> rejected;
    auto &b = s.b;
    s.measure(0, {'A', 'V'}, 12);
    rejected.insert(b.s.size());
    switch(i) {
    case 0: b.s("generator_text_width", b.gen, "AV", 99, 12.0); break;
    case 1: b.s("generator_text_width", b.gen, "AV", -1, 12.0); break;
    case 2: b.s("generator_text_width", b.gen, "\xff", f, 12.0); break;
    case 3: b.s("generator_text_width", b.gen, string("A\0V", 3), f, 12.0); break;
    case 4: b.s("generator_text_width", b.gen, "A\xc3", builtin, 12.0); break;
    case 5: b.s("generator_text_width", b.gen, "", 99, 12.0); break;
    case 6: b.s("generator_text_width", b.gen, SZ{"AV", -2}, f, 12.0); break;
    case 7: { rejected.erase(b.s.size()); s.measure(0, {}, 12); break; }
    case 8: { rejected.erase(b.s.size()); s.measure(0, {}, 12, true); break; }
    }
    s.measure(0, {'A', 'V'}, 12);
    cx.script(b.s);
    auto o = execute(b.s);
    cx.transitions(b.s.size());
    cx.traces();
    for(size_t k = 0; k < o.rc.size(); ++k)
        if((o.rc[k] != 0) != (rejected.count(k) > 0)) { cx.violation(o.rc[k] ? "valid call rejected" : "invalid call accepted", op_text(b.s.ops[k])); return; }
    s.judge(o, cx);
}
// Texts with characters that the font does not have: never a crash; an error or a finite width.
static void missing_case(size_t i, Ctx &cx, size_t f) {
    static const std::vector<uint32_t> M = {1, '\t', '\n', 0x7f, 0xad, 0x378, 0xe000, 0xfffd, 0xffff, 0x10ffff, 0x1f4a9};
    S s;
    s.start();
    auto v = s.load(f);
    auto c = critical(f, 2);
    auto t = std::vector<uint32_t>{c.at(0), M.at(i), c.back()};
    if(i == 3) t = {M[3]};
    auto o1 = s.b.s("generator_text_width", s.b.gen, str(t), v, 12.0);
    size_t at = s.b.s.size() - 1;
    s.measure(f, {c[0], c.back()}, 12);
    cx.script(s.b.s);
    auto o = execute(s.b.s);
    cx.transitions(s.b.s.size());
    cx.traces();
    if(o.rc[at] == 0 && !(std::fabs(o.vars.at((size_t)o1.slot).d) < 1e6)) cx.violation("the width of a missing character is no number");
    s.judge(o, cx);
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C24";
    c.bounds = "every character of 13 fonts (TrueType, CFF, variable, and synthetic ones with kern tables, several units per em and header flags) at 15 sizes from -12 to 10^7; all ordered pairs of up to 30 (thorough: 120) critical characters per font at four sizes; "
               "all texts over three characters up to length five (thorough: seven) and their halves; the same measurements after every sequence of three (thorough: four) of 11 operations; every character drawn, the width compared with the one a viewer advances by; characters the font does not have; invalid arguments.";
    c.assumptions = {"The reference advances are those that FreeType reads from the font file without scaling.", "A viewer advances by the widths in the document, which are integers in thousandths of the font size."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        const size_t batch = 100;
        for(size_t k = 0; k < NFONTS; ++k) {
            auto name = font(k).path;
            name = to_string(k) + " " + name.substr(name.rfind('/') + 1);
            size_t n = (chars(k).size() + batch - 1) / batch;
            f.push_back({"characters " + name, n, [=](size_t i, Ctx &cx) { char_case(i, cx, k, batch); }});
            size_t m = thorough ? 120 : 30;
            f.push_back({"pairs " + name, m, [=](size_t i, Ctx &cx) { pair_case(i, cx, k, m); }});
            size_t l = thorough ? 7 : 5;
            f.push_back({"texts " + name, (size_t)1 << (2 * l), [=](size_t i, Ctx &cx) { text_case(i, cx, k, l); }});
            f.push_back({"drawn " + name, n, [=](size_t i, Ctx &cx) { drawn_case(i, cx, k, batch); }});
            f.push_back({"missing " + name, 11, [=](size_t i, Ctx &cx) { missing_case(i, cx, k); }});
        }
        f.push_back({"histories", (size_t)(thorough ? 14641 : 1331), [=](size_t i, Ctx &cx) { history_case(i, cx, thorough ? 4 : 3); }});
        f.push_back({"invalid", 9, bad_case});
        return f;
    };
    return check_main(argc, argv, c);
}
