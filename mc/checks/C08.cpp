// uses: features.cpp
// uses: view.cpp
// uses: fontview.cpp
// uses: fontgen.cpp
#include "explore.hpp"
#include "features.hpp"
#include "fontview.hpp"
#include "fontgen.hpp"
#include <algorithm>
#include <set>
#include <unistd.h>
using namespace mc;

struct FontSpec {
    std::string path; // with $REPO
    int instance = -2; // -2: no font properties object
    std::vector<std::pair<std::string, int>> axes;
    bool operator<(const FontSpec &o) const { return std::tie(path, instance, axes) < std::tie(o.path, o.instance, o.axes); }
    bool operator==(const FontSpec &o) const { return std::tie(path, instance, axes) == std::tie(o.path, o.instance, o.axes); }
    std::string name() const {
        auto r = path.substr(path.rfind('/') + 1);
        if(instance != -2) r += "#" + std::to_string(instance);
        for(auto &[k, v] : axes) r += "," + k + "=" + std::to_string(v);
        return r;
    }
};
static FontSpec F(const std::string &n) { return {"$REPO/testdata/fonts/" + n, -2, {}}; }
static std::shared_ptr<Face> ref_face(const FontSpec &f) {
    static std::map<FontSpec, std::shared_ptr<Face>> cache;
    auto &c = cache[f];
    if(!c) {
        auto p = subst(f.path);
        auto plain = Face::open(p);
        if(plain && !plain->axes().empty()) c = Face::variation(p, f.instance < 0 ? -1 : f.instance, f.axes);
        else c = plain;
    }
    return c;
}
static const Glyph &ref_glyph(const FontSpec &f, uint32_t gid) {
    static std::map<std::pair<FontSpec, uint32_t>, Glyph> cache;
    auto [it, fresh] = cache.try_emplace({f, gid});
    if(fresh && !ref_face(f)->glyph(gid, it->second)) it->second.outline = "FreeType can not load it";
    return it->second;
}

enum Method { RENDER, TJ_OP, SEQ_STRING, SEQ_CODEPOINT, SEQ_RAW, SEQ_LIG, SEQ_ACTUAL };
struct Item {
    int font = 0;
    Method how = RENDER;
    uint32_t cp = 0, gid = 0;
    std::string text; // ligature text
    int page = 0;     // context 0..; 2 is a transparency group drawn on page 0
};
struct Plan {
    std::vector<FontSpec> fonts;
    std::vector<Item> items;
    bool one_text_object = false; // consecutive items share a text object and a sequence
};

static std::string item_text(const Item &i) { return i.how == SEQ_LIG ? i.text : utf8(i.cp); }
static std::string hx(uint32_t v) { char b[20]; snprintf(b, sizeof b, "%04X", v); return b; }
static std::string plan_text(const Plan &p) {
    std::string r;
    for(auto &f : p.fonts) r += f.name() + " ";
    size_t n = 0;
    for(auto &i : p.items) {
        if(++n > 6) { r += "... " + std::to_string(p.items.size()); break; }
        r += "| font" + std::to_string(i.font) + (i.how == SEQ_RAW ? " raw " + std::to_string(i.gid) + " U+" + hx(i.cp) : i.how == SEQ_LIG ? " lig " + std::to_string(i.gid) + " " + i.text : " U+" + hx(i.cp)) + " m" + std::to_string(i.how);
    }
    return r;
}

// The bounding box in the header of a simple glyph of a TrueType program; false when there is none.
static bool header_box(const std::string &b, uint32_t gid, int box[4]) {
    auto u = [&](size_t o, int n) { uint32_t r = 0; while(n--) r = r << 8 | (unsigned char)b.at(o++); return r; };
    std::map<std::string, size_t> t;
    for(size_t i = 0, n = u(4, 2); i < n; ++i) t[b.substr(12 + 16 * i, 4)] = u(12 + 16 * i + 8, 4);
    if(!t.count("glyf")) return false;
    bool lng = u(t["head"] + 50, 2);
    auto loc = [&](size_t g) { return lng ? u(t["loca"] + 4 * g, 4) : 2 * u(t["loca"] + 2 * g, 2); };
    size_t g = t["glyf"] + loc(gid);
    if(loc(gid) == loc(gid + 1) || (int16_t)u(g, 2) <= 0) return false;
    for(int k = 0; k < 4; ++k) box[k] = (int16_t)u(g + 2 + 2 * (size_t)k, 2);
    return true;
}

static void run_plan(const Plan &p, Ctx &cx) {
    B b;
    b.props();
    b.start();
    std::vector<V> fonts, ctx{b.dc};
    for(auto &f : p.fonts) {
        if(f.instance == -2 && f.axes.empty()) fonts.push_back(b.s("generator_load_font", b.gen, f.path, null));
        else {
            auto fp = b.s("font_properties_new");
            if(f.instance >= 0) b.s("font_properties_set_named_instance", fp, f.instance);
            for(auto &[k, v] : f.axes) b.s("font_properties_set_variation", fp, k, v);
            fonts.push_back(b.s("generator_load_font", b.gen, f.path, fp));
        }
    }
    int maxpage = 0;
    bool group = false;
    for(auto &i : p.items) {
        if(i.page == 2) group = true;
        else maxpage = std::max(maxpage, i.page);
    }
    ctx.push_back(maxpage ? b.s("page_draw_context_new", b.gen) : V{});
    ctx.push_back(group ? b.s("transparency_group_new", b.gen, 0.0, 0.0, 100.0, 100.0) : V{});
    auto append = [&](V seq, const Item &i) {
        switch(i.how) {
        case SEQ_CODEPOINT: b.s("text_sequence_append_codepoint", seq, (int64_t)i.cp); break;
        case SEQ_RAW: b.s("text_sequence_append_raw_glyph", seq, (int64_t)i.gid, (int64_t)i.cp); break;
        case SEQ_LIG: b.s("text_sequence_append_ligature_glyph", seq, (int64_t)i.gid, i.text); break;
        case SEQ_ACTUAL:
            b.s("text_sequence_append_actualtext_start", seq, "act" + utf8(i.cp));
            b.s("text_sequence_append_string", seq, utf8(i.cp));
            b.s("text_sequence_append_actualtext_end", seq);
            break;
        default: b.s("text_sequence_append_string", seq, utf8(i.cp)); break;
        }
    };
    std::vector<std::vector<size_t>> order(3);
    for(size_t k = 0; k < p.items.size();) {
        auto &i = p.items[k];
        auto dc = ctx.at((size_t)i.page);
        size_t e = k + 1;
        if(p.one_text_object && i.how != RENDER)
            while(e < p.items.size() && p.items[e].page == i.page && p.items[e].font == i.font && p.items[e].how != RENDER) ++e;
        for(size_t x = k; x < e; ++x) order[(size_t)i.page].push_back(x);
        if(i.how == RENDER) b.s("dc_render_text", dc, utf8(i.cp), fonts.at((size_t)i.font), 10.0, 1.0, 2.0);
        else {
            auto t = b.s("dc_text_new", dc);
            b.s("text_cmd_Tf", t, fonts.at((size_t)i.font), 12.0);
            V seq{};
            for(size_t x = k; x < e; ++x) {
                auto &it = p.items[x];
                if(it.how == TJ_OP) {
                    if(seq.slot >= 0) { b.s("text_cmd_TJ", t, seq); seq = {}; }
                    b.s("text_cmd_Tj", t, utf8(it.cp));
                } else {
                    if(seq.slot < 0) seq = b.s("text_sequence_new");
                    append(seq, it);
                }
            }
            if(seq.slot >= 0) b.s("text_cmd_TJ", t, seq);
            b.s("dc_render_text_obj", dc, t);
        }
        k = e;
    }
    if(group) {
        auto tg = b.s("generator_add_transparency_group", b.gen, ctx[2]);
        b.s("dc_cmd_Do_trgroup", ctx[0], tg);
    }
    b.s("generator_add_page", b.gen, ctx[0]);
    if(maxpage) b.s("generator_add_page", b.gen, ctx[1]);
    b.s("generator_write", b.gen);

    pdf::Doc d;
    cx.note(plan_text(p));
    if(!run_good(b.s, cx, d)) return;

    // which texts has each glyph been drawn with
    std::map<std::pair<int, uint32_t>, std::set<std::string>> texts;
    auto gid_of = [&](const Item &i) { return i.how == SEQ_RAW || i.how == SEQ_LIG ? i.gid : ref_face(p.fonts[(size_t)i.font])->gid(i.cp); };
    for(auto &i : p.items)
        texts[{i.font, gid_of(i)}].insert(item_text(i));

    try {
        std::map<int, EmbeddedFont> emb;
        std::map<int, int> obj2font;
        auto pages = d.pages();
        std::string seen;
        for(int c = 0; c < 3; ++c) {
            if(order[(size_t)c].empty()) continue;
            std::vector<Drawn> got;
            if(c < 2) got = drawn_codes(d, d.page_ops(pages.at((size_t)c)), d.inherited(pages[(size_t)c], "Resources"));
            else {
                auto &xo = d.need(*d.inherited(pages[0], "Resources"), "XObject");
                for(auto &[k, v] : xo.d) {
                    auto &o = d.deref(v);
                    got = drawn_codes(d, pdf::parse_content(d.stream_data(o)), d.dget(o, "Resources"));
                }
            }
            if(got.size() != order[(size_t)c].size()) {
                cx.violation("number of codes drawn differs", plan_text(p) + ": " + std::to_string(got.size()) + " codes for " + std::to_string(order[(size_t)c].size()) + " characters");
                return;
            }
            for(size_t k = 0; k < got.size(); ++k) {
                auto &i = p.items[order[(size_t)c][k]];
                auto &g = got[k];
                auto &spec = p.fonts[(size_t)i.font];
                auto where = plan_text(p) + " at " + item_text(i) + " U+" + hx(i.cp) + " method " + std::to_string(i.how);
                if(g.fontobj < 0) { cx.violation("text without font", where); return; }
                auto [of, fresh] = obj2font.try_emplace(g.fontobj, i.font);
                if(!fresh && of->second != i.font && !(p.fonts[(size_t)of->second] == spec)) { cx.violation("two fonts share one object", where); return; }
                if(!emb.count(g.fontobj)) {
                    auto &e = emb[g.fontobj] = embedded_font(d, d.objs.at(g.fontobj));
                    for(auto &x : e.problems) cx.violation(x, where);
                    if(cx.nviol) return;
                }
                auto &e = emb[g.fontobj];
                auto &want = ref_glyph(spec, gid_of(i));
                if(g.code >= e.face->nglyphs()) { cx.violation("code outside the embedded font", where); return; }
                if(g.code == 0) { cx.violation("text is drawn with .notdef", where); return; }
                Glyph have;
                if(!e.face->glyph((uint32_t)g.code, have)) { cx.violation("FreeType can not load the glyph of the embedded font", where); return; }
                if(have.outline != want.outline)
                    cx.violation("outline differs from the original font", where + "\n have " + have.outline.substr(0, 200) + "\n want " + want.outline.substr(0, 200));
                int hb[4];
                if(!ref_face(spec)->axes().empty() || !spec.axes.empty() || spec.instance != -2)
                    if(!e.cff && header_box(e.program, (uint32_t)g.code, hb) && (hb[0] > have.box[0] || hb[1] > have.box[1] || hb[2] < have.box[2] || hb[3] < have.box[3]))
                        cx.violation("the bounding box of the glyph does not contain it", where);
                if(e.face->upem() != ref_face(spec)->upem()) cx.violation("units per em differ", where);
                if(have.advance != want.advance) cx.violation("advance in the embedded font differs", where + ": " + std::to_string(have.advance) + " instead of " + std::to_string(want.advance));
                double w = e.widths.count(g.code) ? e.widths[g.code] : e.dw;
                double ww = (double)want.advance * 1000 / ref_face(spec)->upem();
                if(std::fabs(w - ww) > 1) cx.violation("width in /W differs", where + ": " + std::to_string(w) + " instead of " + std::to_string(ww));
                auto tu = e.view.tounicode.count(g.code) ? e.view.tounicode[g.code] : "<none>";
                bool any = i.how == SEQ_RAW || i.how == SEQ_LIG;
                if(any ? !texts[{i.font, gid_of(i)}].count(tu) : tu != item_text(i))
                    cx.violation("Unicode mapping differs", where + ": " + tu + " instead of " + item_text(i));
                if(g.actual != (i.how == SEQ_ACTUAL ? "act" + utf8(i.cp) : "")) cx.violation("replacement text differs", where + ": " + g.actual);
                seen += std::to_string(g.code) + tu + ";";
                if(cx.nviol) return;
            }
        }
        cx.state(seen);
        cx.sample(plan_text(p));
    } catch(pdf::ParseError &x) { cx.violation(std::string("unreadable document: ") + x.what(), plan_text(p)); }
}

// Text objects with more than one font: every character has to be in the font that is selected when it is drawn.
static Family fontchanges(int len) {
    static const uint32_t cps[] = {'A', 0x416, 0x1f780, 0x2500};
    const size_t M = 4 * 4;
    size_t n = 2;
    for(int k = 0; k < len; ++k) n *= M;
    return {"fontchanges" + std::to_string(len), n, [=](size_t i, Ctx &cx) {
        const std::vector<FontSpec> specs{F("NotoSans-Regular.ttf"), F("P052-Roman.otf"), F("NotoSansSymbols2-Regular.ttf")};
        B b;
        b.props();
        b.start();
        std::vector<V> fonts;
        for(auto &f : specs) fonts.push_back(b.s("generator_load_font", b.gen, f.path, null));
        auto t = b.s("dc_text_new", b.dc);
        bool seq = i % 2;
        i /= 2;
        int cur = -1;
        bool good = true;
        std::string text;
        std::vector<std::pair<int, uint32_t>> want;
        for(int k = 0; k < len; ++k) {
            int f = (int)(i % 4);
            uint32_t cp = cps[i / 4 % 4];
            i /= M;
            if(f < 3) { cur = f; b.s("text_cmd_Tf", t, fonts[(size_t)f], 10.0); }
            text += " " + std::to_string(f) + ":" + hx(cp);
            if(seq) {
                auto q = b.s("text_sequence_new");
                b.s("text_sequence_append_string", q, utf8(cp));
                b.s("text_cmd_TJ", t, q);
            } else b.s("text_cmd_Tj", t, utf8(cp));
            if(cur < 0 || !ref_face(specs[(size_t)cur])->gid(cp)) good = false;
            want.emplace_back(cur, cp);
        }
        b.s("dc_render_text_obj", b.dc, t);
        size_t at = b.s.size() - 1;
        b.s("generator_add_page", b.gen, b.dc);
        b.s("generator_write", b.gen);
        cx.note(text);
        pdf::Doc d;
        std::set<size_t> rejected;
        if(!good) rejected.insert(at);
        if(!run_expect(b.s, rejected, cx, d)) return;
        try {
            auto got = drawn_codes(d, d.page_ops(d.pages().at(0)), d.inherited(d.pages().at(0), "Resources"));
            if(got.size() != (good ? want.size() : 0)) { cx.violation("number of codes drawn differs", text); return; }
            std::map<int, EmbeddedFont> emb;
            for(size_t k = 0; k < got.size(); ++k) {
                if(!emb.count(got[k].fontobj)) emb[got[k].fontobj] = embedded_font(d, d.objs.at(got[k].fontobj));
                Glyph have;
                auto &spec = specs[(size_t)want[k].first];
                if(!emb[got[k].fontobj].face->glyph((uint32_t)got[k].code, have) || have.outline != ref_glyph(spec, ref_face(spec)->gid(want[k].second)).outline)
                    cx.violation("another glyph is drawn", text);
            }
            cx.state(text);
        } catch(std::exception &x) { cx.violation(std::string("unreadable document: ") + x.what(), text); }
    }, nullptr};
}

// --- the fonts
static const std::vector<FontSpec> &repo_fonts() {
    static const std::vector<FontSpec> f{F("NotoSans-Regular.ttf"), F("P052-Roman.otf"), F("AmstelVar-Roman.ttf"), F("NotoSerif-Regular.ttf"), F("NotoSans-Bold.ttf"), F("NotoSansSymbols2-Regular.ttf")};
    return f;
}
static std::vector<FontSpec> system_fonts() {
    std::vector<FontSpec> r;
    for(auto p : {"/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono-Bold.ttf", "/usr/share/fonts/truetype/noto/NotoMono-Regular.ttf",
                  "/usr/share/fonts/truetype/droid/DroidSansFallbackFull.ttf", "/usr/share/fonts/opentype/urw-base35/C059-Italic.otf", "/usr/share/fonts/opentype/urw-base35/NimbusSans-Regular.otf",
                  "/usr/share/fonts/opentype/urw-base35/StandardSymbolsPS.otf", "/usr/share/fonts/opentype/urw-base35/Z003-MediumItalic.otf", "/usr/share/fonts/opentype/urw-base35/D050000L.otf"})
        if(access(p, R_OK) == 0) r.push_back({p, -2, {}});
    return r;
}
static bool drawable(uint32_t cp) { return cp != 0 && !(cp >= 0xd800 && cp < 0xe000) && cp <= 0x10ffff; }

static Family codepoints(const FontSpec &f, size_t batch, bool all_methods) {
    auto cm = ref_face(f)->cmap();
    std::vector<uint32_t> cps;
    for(auto &[c, g] : cm)
        if(drawable(c)) cps.push_back(c);
    size_t nb = (cps.size() + batch - 1) / batch;
    static const Method ms[] = {RENDER, TJ_OP, SEQ_STRING, SEQ_CODEPOINT, SEQ_ACTUAL};
    return {"codepoints " + f.name(), nb * (all_methods ? 5 : 1), [=](size_t i, Ctx &cx) {
        Plan p;
        p.fonts = {f};
        size_t k0 = i % nb * batch;
        for(size_t k = k0; k < std::min(cps.size(), k0 + batch); ++k) {
            Item it;
            it.how = all_methods ? ms[i / nb] : ms[k % 5];
            it.cp = cps[k];
            p.items.push_back(it);
        }
        run_plan(p, cx);
    }, nullptr};
}
static Family rawglyphs(const FontSpec &f, size_t batch) {
    size_t n = (size_t)ref_face(f)->nglyphs() - 1, nb = (n + batch - 1) / batch;
    return {"glyphs " + f.name(), nb * 2, [=](size_t i, Ctx &cx) {
        Plan p;
        p.fonts = {f};
        p.one_text_object = true;
        size_t k0 = i % nb * batch;
        for(size_t k = k0; k < std::min(n, k0 + batch); ++k) {
            Item it;
            it.how = i / nb ? SEQ_LIG : SEQ_RAW;
            it.gid = (uint32_t)(i / nb ? n - k : k + 1); // also in descending order
            it.cp = 0xe000 + (uint32_t)k;
            it.text = "g" + std::to_string(it.gid);
            p.items.push_back(it);
        }
        run_plan(p, cx);
    }, nullptr};
}
// Critical symbols of a font.
static std::vector<Item> symbols(const FontSpec &f) {
    auto face = ref_face(f);
    std::vector<Item> r;
    auto cp = [&](uint32_t c, Method m) { if(face->gid(c)) { Item i; i.cp = c; i.how = m; r.push_back(i); } };
    auto raw = [&](uint32_t g, uint32_t c) { Item i; i.how = SEQ_RAW; i.gid = g; i.cp = c; r.push_back(i); };
    auto lig = [&](uint32_t g, const std::string &t) { Item i; i.how = SEQ_LIG; i.gid = g; i.text = t; r.push_back(i); };
    uint32_t A = face->gid('A'), Bg = face->gid('B'), comp = face->gid(0xc5), comp2 = face->gid(0x1fa) ? face->gid(0x1fa) : face->gid(0xc4);
    cp('A', TJ_OP);
    cp(' ', SEQ_STRING);
    cp(0xc5, SEQ_STRING);   // composite with A as component
    cp(0x1fa, RENDER);      // nested composite
    cp(0x2e4d, SEQ_CODEPOINT);
    cp('B', SEQ_ACTUAL);
    raw(A, 'A');
    raw(Bg, 0);
    raw(A, 'B');            // a second meaning of the glyph of A
    raw(Bg, 'A');           // another glyph for the codepoint A
    raw(comp, 'c');
    raw(comp2, 0x1f600);
    raw(A, Bg);             // a codepoint that equals the number of another glyph
    lig(Bg, "A");
    lig(A, "ab");
    lig(comp, "ab");        // another glyph with the same text
    return r;
}
static Family sequences(const FontSpec &f, int len, bool one, int stride = 1) {
    auto sy = symbols(f);
    size_t n = 1;
    for(int k = 0; k < len; ++k) n *= sy.size();
    (void)stride;
    return {"sequences" + std::to_string(len) + (one ? "one " : " ") + f.name(), n, [=](size_t i, Ctx &cx) {
        Plan p;
        p.fonts = {f};
        p.one_text_object = one;
        for(int k = 0; k < len; ++k) {
            p.items.push_back(sy[i % sy.size()]);
            i /= sy.size();
        }
        run_plan(p, cx);
    }, nullptr};
}
static Family sizes(const FontSpec &f, std::vector<int> ns) {
    auto face = ref_face(f);
    return {"sizes " + f.name(), ns.size() * 3, [=](size_t i, Ctx &cx) {
        Plan p;
        p.fonts = {f};
        p.one_text_object = true;
        int n = ns[i / 3], how = (int)(i % 3), total = face->nglyphs() - 1;
        auto cm = face->cmap();
        for(int k = 0; k < n; ++k) {
            Item it;
            if(how == 0) {
                if((size_t)k >= cm.size()) break;
                it.how = SEQ_CODEPOINT;
                it.cp = cm[(size_t)k].first;
                if(!drawable(it.cp)) continue;
            } else {
                if(k >= total) break;
                it.how = how == 1 ? SEQ_RAW : SEQ_LIG;
                it.gid = (uint32_t)(how == 1 ? k + 1 : total - k);
                it.cp = 0x10000 + (uint32_t)k;
                it.text = "x" + std::to_string(k) + utf8(0x1f600);
            }
            p.items.push_back(it);
        }
        run_plan(p, cx);
    }, nullptr, 120};
}
static const char *probe = "AgB(%8\xc3\x85\xc7\xba\xc3\xa9 ";
static void run_variation(const FontSpec &f, Ctx &cx) {
    Plan p;
    p.fonts = {f};
    auto face = ref_face(f);
    std::string s = probe;
    for(size_t k = 0; k < s.size();) {
        uint32_t c = (unsigned char)s[k++];
        if(c >= 0xc0) c = (c & 31) << 6 | (s[k++] & 63);
        if(!face->gid(c)) continue;
        Item it;
        it.how = TJ_OP;
        it.cp = c;
        p.items.push_back(it);
    }
    Item raw;
    raw.how = SEQ_RAW;
    raw.gid = face->gid('Q') ? face->gid('Q') : 5;
    raw.cp = 0xe001;
    p.items.push_back(raw);
    run_plan(p, cx);
}
static std::vector<FontSpec> variation_specs(bool thorough) {
    std::vector<FontSpec> r;
    auto base = F("AmstelVar-Roman.ttf");
    auto face = Face::open(subst(base.path));
    auto ax = face->axes();
    for(int k = 0; k <= face->instances(); ++k) {
        auto f = base;
        f.instance = k;
        r.push_back(f);
        if(ax.size()) { f.axes = {{ax[0].tag, ax[0].hi}}; r.push_back(f); }
    }
    int steps = thorough ? 9 : 5;
    for(auto &a : ax)
        for(int s = 0; s < steps; ++s) {
            auto f = base;
            f.axes = {{a.tag, a.lo + (a.hi - a.lo) * s / (steps - 1)}};
            r.push_back(f);
        }
    for(size_t i = 0; i < ax.size(); ++i)
        for(size_t j = 0; j < ax.size(); ++j)
            if(i != j)
                for(int s = 0; s < 4; ++s) {
                    auto f = base;
                    f.axes = {{ax[i].tag, s & 1 ? ax[i].hi : ax[i].lo}, {ax[j].tag, s & 2 ? ax[j].hi : ax[j].lo}};
                    r.push_back(f);
                }
    { // out of range values are clamped by the font engine
        auto f = base;
        f.axes = {{ax.at(0).tag, 20000}};
        r.push_back(f);
        f.axes = {{ax.at(0).tag, -20000}};
        r.push_back(f);
    }
    return r;
}
// The variable font of the repository has no named instances. This one is the same font with three of them.
static std::string font_with_instances() {
    auto path = scratch() + "/instances.ttf";
    if(file_exists(path)) return "$OUT/instances.ttf";
    auto b = read_file(subst("$REPO/testdata/fonts/AmstelVar-Roman.ttf"));
    auto u16 = [&](size_t o) { return (unsigned char)b[o] * 256u + (unsigned char)b[o + 1]; };
    auto u32 = [&](size_t o) { return u16(o) * 65536u + u16(o + 2); };
    auto put = [](std::string &t, uint32_t v, int n) { while(n--) t += char(v >> 8 * n); };
    for(size_t e = 12; e < 12 + 16 * (size_t)u16(4); e += 16)
        if(b.compare(e, 4, "fvar") == 0) {
            auto t = b.substr(u32(e + 8), u32(e + 12));
            auto axis = [&](int k, int what) { // lowest, default, highest
                auto o = u32(e + 8) + u16(u32(e + 8) + 4) + k * u16(u32(e + 8) + 10) + 4 + 4 * what;
                return u32(o);
            };
            const int axes = (int)u16(u32(e + 8) + 8);
            for(int k = 0; k < 3; ++k) {
                put(t, 2, 2);
                put(t, 0, 2);
                for(int a = 0; a < axes; ++a) put(t, axis(a, a % 3 == k ? 2 : a % 3 == (k + 1) % 3 ? 1 : 0), 4);
            }
            t[12] = 0, t[13] = 3;
            t[14] = 0, t[15] = char(4 + 4 * axes);
            while(b.size() % 4) b += '\0';
            std::string entry;
            put(entry, 0, 4);
            put(entry, b.size(), 4);
            put(entry, t.size(), 4);
            b.replace(e + 4, 12, entry);
            b += t;
            break;
        }
    write_file(path, b);
    return "$OUT/instances.ttf";
}
static void instance_case(size_t i, Ctx &cx) {
    FontSpec f{font_with_instances(), (int)(i % 5), {}};
    auto face = Face::open(subst(f.path));
    auto ax = face->axes();
    if(face->instances() != 4) { // FreeType adds the default one
        cx.violation("the font of the check has no instances");
        return;
    }
    i /= 5;
    auto &a = ax[i / 3 % ax.size()];
    if(i < ax.size() * 3) f.axes = {{a.tag, i % 3 == 0 ? a.lo : i % 3 == 1 ? (a.lo + a.hi) / 2 : a.hi}};
    run_variation(f, cx);
}
static Family contexts(int len) {
    // fonts: 0 NotoSans, 1 P052, 2 NotoSans again, 3 AmstelVar, 4 AmstelVar at another weight
    const size_t M = 5 * 3 * 2;
    size_t n = 1;
    for(int k = 0; k < len; ++k) n *= M;
    return {"contexts" + std::to_string(len), n, [=](size_t i, Ctx &cx) {
        Plan p;
        p.fonts = {F("NotoSans-Regular.ttf"), F("P052-Roman.otf"), F("NotoSans-Regular.ttf"), F("AmstelVar-Roman.ttf"), F("AmstelVar-Roman.ttf")};
        p.fonts[4].axes = {{"wght", 200}};
        for(int k = 0; k < len; ++k) {
            size_t s = i % M;
            i /= M;
            Item it;
            it.font = (int)(s % 5);
            it.page = (int)(s / 5 % 3);
            it.how = k % 2 ? RENDER : TJ_OP;
            it.cp = s / 15 ? 0xc5 : 'k';
            p.items.push_back(it);
        }
        run_plan(p, cx);
    }, nullptr};
}

// Every structural variant of the font formats: the glyphs of a synthetic font in several orders.
static void run_synthetic(const std::string &font, int nglyphs, Ctx &cx, int orders = 3) {
    auto path = "$OUT/syn" + std::to_string(pdf::hash(font)) + ".font";
    write_file(subst(path), font);
    FontSpec f{path, -2, {}};
    auto face = ref_face(f);
    if(!face) { cx.violation("harness: FreeType can not open the synthetic font"); return; }
    for(int o = 0; o < orders; ++o) {
        Plan p;
        p.fonts = {f};
        p.one_text_object = true;
        for(int k = 1; k < nglyphs; ++k) {
            int g = o == 0 ? k : o == 1 ? nglyphs - k : 1 + (k * 5) % (nglyphs - 1);
            if(o == 2 && k > 4) break; // a few of them only
            Item it;
            it.how = o == 1 ? SEQ_RAW : TJ_OP;
            it.cp = 'a' + (uint32_t)g - 1;
            it.gid = (uint32_t)g;
            p.items.push_back(it);
        }
        run_plan(p, cx);
    }
}
static CffSpec cff_spec(size_t i) {
    CffSpec s;
    auto take = [&](size_t n) { auto r = i % n; i /= n; return (int)r; };
    s.cid = take(2);
    s.nfd = s.cid ? 1 + take(3) : 1;
    s.fdselect = take(2) ? 3 : 0;
    s.charset = take(3);
    s.subrs = take(4);
    s.upem = std::vector<int>{1000, 2048, 2000}[(size_t)take(3)];
    s.shortints = take(2);
    static const int st[] = {31, 0, 16, 30, 23};
    s.strings = st[take(5)];
    int c = take(4);
    s.cidversion = c & 1;
    s.cidcount = c & 2;
    return s;
}
static const size_t NCFF = 2 * 3 * 2 * 3 * 4 * 3 * 2 * 5 * 4;
static TtSpec tt_spec(size_t i) {
    TtSpec s;
    auto take = [&](size_t n) { auto r = i % n; i /= n; return (int)r; };
    s.loca = take(2);
    s.nhm = std::vector<int>{0, 1, 5}[(size_t)take(3)];
    s.tables = take(8);
    s.scale = take(4);
    s.words = take(2);
    s.ncomp = 1 + take(3);
    s.overlap = take(2);
    int x = take(6);
    s.name = x != 1;
    s.post = x != 2;
    s.instructions = x == 3;
    s.upem = x == 4 ? 2048 : 1000;
    s.nglyphs = x == 5 ? 7 : 12;
    return s;
}
static const size_t NTT = 2 * 3 * 8 * 4 * 2 * 3 * 2 * 6;

int main(int argc, char **argv) {
    Check c;
    c.id = "C08";
    c.bounds = "every codepoint and every glyph id of every test font in batches, with every drawing method; all sequences of critical glyph uses (simple, composite, nested composite, empty, beyond the BMP, raw glyphs and ligatures that share glyph or text) "
               "to length 2 (3 for one font and in the thorough run); subset sizes around every power of two and section limit; all named instances (of a copy that has some, with every axis at its ends and in the middle), axis extremes and pairs of axis extremes of the variable font; "
               "all sequences of (font of five, one loaded twice, context of three, character) to length 2 (3 thorough)";
    c.assumptions = {"FreeType reads outlines, advances and character maps of the original and of the embedded font correctly"};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        for(auto &s : repo_fonts()) {
            f.push_back(codepoints(s, thorough ? 8 : 48, thorough));
            f.push_back(rawglyphs(s, thorough ? 16 : 96));
        }
        if(thorough)
            for(auto &s : system_fonts()) {
                f.push_back(codepoints(s, 100, false));
                f.push_back(rawglyphs(s, 400));
            }
        for(size_t k = 0; k < 4; ++k)
            for(int l = 1; l <= (thorough || k == 0 ? 3 : 2); ++l) f.push_back(sequences(repo_fonts()[k], l, false));
        for(size_t k = 0; k < (thorough ? 4u : 2u); ++k)
            for(int l = 2; l <= (thorough ? 3 : 2); ++l) f.push_back(sequences(repo_fonts()[k], l, true));
        std::vector<int> ns{1, 2, 3, 62, 63, 64, 65, 98, 99, 100, 101, 102, 126, 127, 128, 129, 198, 199, 200, 201, 202, 253, 254, 255, 256, 257, 258, 259, 300, 301, 509, 510, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 100000};
        if(thorough)
            for(int k = 4; k < 600; ++k) ns.push_back(k);
        for(size_t k = 0; k < 3; ++k) f.push_back(sizes(repo_fonts()[k], ns));
        auto vs = variation_specs(thorough);
        f.push_back({"variations", vs.size(), [=](size_t i, Ctx &cx) { run_variation(vs[i], cx); }, [=](size_t i) { return vs[i].name(); }});
        f.push_back({"instances", 5 * (12 * 3 + 1), instance_case, nullptr});
        for(int l = 1; l <= (thorough ? 3 : 2); ++l) f.push_back(contexts(l));
        // a step that is coprime to all the radices visits every pair of option values
        auto stepped = [](size_t i, size_t n, size_t step) { return i * step % n; };
        size_t cs = thorough ? 1 : 7, ts = thorough ? 1 : 5;
        f.push_back({"cff", NCFF / cs, [=](size_t i, Ctx &cx) {
            auto s = cff_spec(stepped(i, NCFF, cs));
            if(!s.cid && s.fdselect == 0) return; // name keyed fonts have no such table
            run_synthetic(make_cff_otf(s), s.nglyphs, cx);
        }, nullptr});
        f.push_back({"cffbig", 24, [=](size_t i, Ctx &cx) {
            CffSpec s;
            s.nglyphs = std::vector<int>{2, 3, 25, 26}[i % 4];
            s.cid = i / 4 % 2;
            s.nfd = s.cid ? 2 : 1;
            s.subrs = 2;
            s.gsubr_many = i / 8 == 1;
            s.charset = i / 8 == 2 ? 2 : 0;
            run_synthetic(make_cff_otf(s), s.nglyphs, cx);
        }, nullptr});
        f.push_back({"truetype", NTT / ts, [=](size_t i, Ctx &cx) {
            auto s = tt_spec(stepped(i, NTT, ts));
            run_synthetic(make_ttf(s), s.nglyphs, cx);
        }, nullptr});
        f.push_back({"faroffsets", 6, [=](size_t i, Ctx &cx) { // glyph data beyond 64 kB, with both formats of offsets
            TtSpec s;
            s.loca = (int)(i % 2);
            s.pad = std::vector<int>{6000, 8000, 11000}[i / 2];
            run_synthetic(make_ttf(s), s.nglyphs, cx);
        }, nullptr});
        for(int l = 1; l <= (thorough ? 4 : 3); ++l) f.push_back(fontchanges(l));
        return f;
    };
    return check_main(argc, argv, c);
}
