// uses: features.cpp
// uses: rejects.cpp
// uses: badargs.cpp
#include "explore.hpp"
#include "rejects.hpp"
#include "badargs.hpp"
#include <set>
using namespace mc;

// What a script produces: result codes, identifiers and numbers of every call, and the bytes of the files.
struct Obs {
    std::vector<int> rc;
    std::vector<std::string> outs; // per op
    std::string file, other;
};
// The document identifier in the trailer is random.
static std::string masked(std::string s) {
    size_t p = s.rfind("/ID [");
    size_t e = p == std::string::npos ? p : s.find(']', p);
    if(e == std::string::npos) return s;
    bool in = false;
    for(size_t i = p; i < e; ++i) {
        if(s[i] == '<' || s[i] == '>') in = s[i] == '<';
        else if(in) s[i] = 'x';
    }
    return s;
}
static Obs observe(const Script &s) {
    for(auto n : {"$OUT/out.pdf", "$OUT/other.pdf"}) unlink(subst(n).c_str());
    Obs r;
    auto o = execute(s);
    r.rc = o.rc;
    for(auto &op : s.ops) {
        std::string t;
        for(auto &a : op.a)
            if(a.k == Val::OUT) {
                auto &sl = o.vars.at((size_t)a.i);
                t += sl.t == Slot::Int ? std::to_string(sl.i) : sl.t == Slot::Dbl ? std::to_string(sl.d) : sl.t == Slot::Handle ? "h" : "-";
                t += ' ';
            }
        r.outs.push_back(t);
    }
    if(file_exists(subst("$OUT/out.pdf"))) r.file = masked(read_file(subst("$OUT/out.pdf")));
    if(file_exists(subst("$OUT/other.pdf"))) r.other = masked(read_file(subst("$OUT/other.pdf")));
    return r;
}

// Compares the base with the same script that has `n` extra calls in front of op `at`.
static bool compare(const Obs &a, const Obs &b, size_t at, size_t n, const Script &s, Ctx &cx, const std::string &what) {
    for(size_t i = 0; i < a.rc.size(); ++i) {
        size_t j = i < at ? i : i + n;
        auto name = fns()[s.ops[j].fn].name;
        if(a.rc[i] != b.rc[j]) {
            cx.violation(what + ": " + name + " returns something else afterwards", (b.rc[j] ? error_text(b.rc[j]) : std::string("success")) + " instead of " + (a.rc[i] ? error_text(a.rc[i]) : "success"));
            return false;
        }
        if(a.outs[i] != b.outs[j]) { cx.violation(what + ": " + name + " yields something else afterwards", b.outs[j] + " instead of " + a.outs[i]); return false; }
    }
    if(a.file != b.file || a.other != b.other) {
        size_t k = 0;
        while(k < a.file.size() && k < b.file.size() && a.file[k] == b.file[k]) ++k;
        size_t from = k > 60 ? k - 60 : 0;
        cx.violation(what + ": the file differs", "offset " + std::to_string(k) + ": ..." + b.file.substr(from, 120) + "... instead of ..." + a.file.substr(from, 120));
        return false;
    }
    return true;
}

static Op fresh(Script &s, Op o) {
    for(auto &a : o.a)
        if(a.k == Val::OUT) a.i = s.newvar().slot;
    return o;
}

// --- every call of every base preceded or followed by the same call with an invalid argument
struct Case { int base, op, param; Bad bad; bool after; int times; };
static const Obs &base_obs(int b) {
    static std::map<int, Obs> m;
    auto it = m.find(b);
    if(it == m.end()) it = m.emplace(b, observe(bases()[(size_t)b].s)).first;
    return it->second;
}
static void run_arg(const Case &c, Ctx &cx) {
    auto &base = bases()[(size_t)c.base].s;
    auto &a = base_obs(c.base);
    if(a.file.empty()) { cx.violation("base " + bases()[(size_t)c.base].name + " is not written"); return; }
    Script s = base;
    Op o = s.ops[(size_t)c.op];
    auto &f = fns()[o.fn];
    o.a[(size_t)c.param] = c.bad.v;
    size_t at = (size_t)c.op + c.after;
    for(int i = 0; i < c.times; ++i) s.ops.insert(s.ops.begin() + (long)at, fresh(s, o));
    cx.script(s);
    auto b = observe(s);
    cx.transitions(s.size());
    cx.traces();
    bool rejected = true;
    for(int i = 0; i < c.times; ++i) rejected &= b.rc[at + (size_t)i] != 0;
    if(!rejected) { cx.state("accepted"); return; } // an identifier that happens to be valid; see C05
    cx.state(f.name + f.params[(size_t)c.param].name + std::to_string(b.rc[at]) + (c.after ? "after" : "before"));
    compare(a, b, at, (size_t)c.times, s, cx, f.name + " with an invalid " + f.params[(size_t)c.param].name);
}

// --- every rule broken at every point of a document
// The host: a document in many steps. Returns false when there is no such step.
static const int HOST = 22;
static void host_step(B &b, int k) {
    auto dc = b.dc;
    switch(k) {
    case 0: b.s("dc_set_nonstroke", dc, b.rgb_color(0.1, 0.2, 0.3)); break;
    case 1: b.s("dc_cmd_re", dc, 1.0, 2.0, 3.0, 4.0); break; // in a path
    case 2: b.s("dc_cmd_f", dc); break;
    case 3: b.s("dc_cmd_q", dc); break; // inside q
    case 4: b.s("dc_cmd_w", dc, 2.0); b.s("dc_cmd_gs", dc, [&] { auto g = b.s("graphics_state_new"); b.s("graphics_state_set_CA", g, 0.5); return b.s("generator_add_graphics_state", b.gen, g); }()); break;
    case 5: b.s("dc_cmd_BDC_ocg", dc, b.ocg("layer")); break; // inside marked content
    case 6: b.s("dc_cmd_m", dc, 0.0, 0.0); b.s("dc_cmd_l", dc, 5.0, 5.0); b.s("dc_cmd_S", dc); break;
    case 7: b.s("dc_cmd_EMC", dc); break;
    case 8: b.s("dc_cmd_Q", dc); break;
    case 9: b.s("dc_render_text", dc, "Some text", b.font(), 12.0, 10.0, 20.0); break;
    case 10: b.memo["t"] = b.s("dc_text_new", dc); b.s("text_cmd_Tf", b.memo["t"], b.font(), 11.0); break; // with an open text object
    case 11: b.s("text_cmd_Tj", b.memo["t"], "More"); break;
    case 12: b.s("dc_render_text_obj", dc, b.memo["t"]); break;
    case 13: b.s("dc_cmd_Do_image", dc, b.image(2, 2, 3)); break;
    case 14: { auto o = b.s("outline_new"); b.s("outline_set_title", o, "Chapter"); auto d = b.s("destination_new"); b.s("destination_set_page_fit", d, 0); b.s("outline_set_destination", o, d); b.s("generator_add_outline", b.gen, o); break; }
    case 15: { auto a = b.s("text_annotation_new", "note"); b.s("annotation_set_rectangle", a, 1.0, 1.0, 9.0, 9.0); b.memo["a"] = b.s("generator_add_annotation", b.gen, a); break; } // annotation not yet on a page
    case 16: b.s("dc_annotate", dc, b.memo["a"]); break;
    case 17: { auto g = b.s("transparency_group_new", b.gen, 0.0, 0.0, 5.0, 5.0); b.s("dc_cmd_re", g, 1.0, 1.0, 2.0, 2.0); b.s("dc_cmd_f", g); b.s("dc_cmd_Do_trgroup", dc, b.s("generator_add_transparency_group", b.gen, g)); break; }
    case 18: b.page(); break; // between pages
    case 19: b.s("dc_render_text", b.dc, "Second page", b.font(), 8.0, 1.0, 2.0); break;
    case 20: { auto e = b.s("embedded_file_new"); b.s("embedded_file_set_contents", e, "contents"); b.s("embedded_file_set_pdf_name", e, "file.bin"); b.s("generator_embed_file", b.gen, e); break; }
    case 21: b.s("dc_set_stroke", b.dc, b.gray_color(0.25)); break;
    }
}
// --- a rejected call whose other arguments name resources that nothing else uses
static V unused(B &b, int kind) {
    switch(kind) {
    case 0: return b.ocg("unused layer");
    case 1: return b.s("generator_add_structure_item", b.gen, E("CAPY_STRUCTURE_TYPE_P"), null, null);
    case 2: return b.image(3, 1, 1);
    case 3: { auto g = b.s("transparency_group_new", b.gen, 0.0, 0.0, 6.0, 7.0); return b.s("generator_add_transparency_group", b.gen, g); }
    case 4: { auto g = b.s("graphics_state_new"); b.s("graphics_state_set_ca", g, 0.125); return b.s("generator_add_graphics_state", b.gen, g); }
    case 5: return b.s("generator_add_shading", b.gen, b.s("type2_shading_new", E("CAPY_DEVICE_CS_RGB"), 1.0, 2.0, 3.0, 4.0, b.fn2()));
    case 6: return b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/NotoSerif-Regular.ttf", null);
    case 7: return b.icc();
    case 8: return b.sep();
    case 9: return b.lab();
    default: { auto t = b.s("tiling_pattern_context_new", b.gen, 0.0, 0.0, 1.0, 1.0); return b.s("generator_add_tiling_pattern", b.gen, t); }
    }
}
static V unused_color(B &b, int kind, V id, bool good) {
    auto c = b.s("color_new");
    if(kind == 7) b.s("color_set_icc", c, id, good ? std::vector<double>{0.1, 0.2, 0.3} : std::vector<double>{0.1, 0.2});
    else if(kind == 8) b.s("color_set_separation", c, id, 0.5);
    else if(kind == 9) b.s("color_set_lab", c, id, 50.0, 1.0, 2.0);
    else b.s("color_set_pattern", c, id);
    return c;
}
static std::vector<Reject> unused_rejects() {
    std::vector<Reject> r;
    auto add = [&](const std::string &n, int kind, std::function<void(B &, V)> bad) {
        r.push_back({"unused." + n, [=](B &b) { bad(b, b.memo["unused"]); }, [=](B &b) { b.memo["unused"] = unused(b, kind); }});
    };
    add("BDC_ocg", 0, [](B &b, V id) { b.s("dc_cmd_BDC_ocg", b.dc, id); });
    add("navigation", 0, [](B &b, V id) { b.s("dc_add_simple_navigation", b.dc, std::vector<V>{id}, null); });
    add("BDC_builtin", 1, [](B &b, V id) { b.s("dc_cmd_BDC_builtin", b.dc, id, null); });
    add("Do_image", 2, [](B &b, V id) { b.s("dc_cmd_Do_image", b.dc, id); });
    add("Do_trgroup", 3, [](B &b, V id) { b.s("dc_cmd_Do_trgroup", b.dc, id); });
    add("gs", 4, [](B &b, V id) { b.s("dc_cmd_gs", b.dc, id); });
    add("sh", 5, [](B &b, V id) { b.s("dc_cmd_sh", b.dc, id); });
    for(int k = 7; k < 11; ++k)
        for(int g = k == 7 ? 0 : 1; g < 2; ++g)
            for(int st = 0; st < 2; ++st) add("color" + std::to_string(k * 4 + g * 2 + st), k, [=](B &b, V id) { auto c = unused_color(b, k, id, g); b.s(st ? "dc_set_stroke" : "dc_set_nonstroke", b.dc, c); });
    for(int k = 0; k < 3; ++k)
        add("render_text" + std::to_string(k), 6, [=](B &b, V id) {
            static const char *T[] = {"\xf3\xa0\x80\x81", "some text \xf3\xa0\x80\x81", "WQ\xf3\xa0\x80\x81 q"};
            b.s("dc_render_text", b.dc, T[k], id, 12.0, 3.0, 4.0);
        });
    for(int end = 0; end < 3; ++end)
        for(int k : {1, 4, 6, 7, 8, 9, 10}) // a text object that uses it before it fails
            for(int st = 0; st < 2; ++st)
                add("text" + std::to_string((end * 12 + k) * 2 + st), k, [=](B &b, V id) {
                    auto t = b.s("dc_text_new", b.dc);
                    auto f = k == 6 ? id : b.font();
                    b.s("text_cmd_Tf", t, f, 12.0);
                    if(k == 1) b.s("text_cmd_BDC_builtin", t, id);
                    if(k == 4) b.s("text_cmd_gs", t, id);
                    if(k >= 7) b.s(st ? "text_set_stroke" : "text_set_nonstroke", t, unused_color(b, k, id, true));
                    b.s("text_cmd_Tj", t, st ? "QZ&" : "more");
                    if(k == 1 && st) b.s("text_cmd_EMC", t);
                    auto q = b.s("text_sequence_new");
                    b.s("text_sequence_append_string", q, "Early glyphs: Zk");
                    if(end == 0) b.s("text_sequence_append_raw_glyph", q, 60000, 0x51);
                    if(end == 1) b.s("text_sequence_append_ligature_glyph", q, 60000, "ffi");
                    b.s("text_cmd_TJ", t, q);
                    if(end == 2) b.s("text_cmd_w", t, -1.0);
                    b.s("dc_render_text_obj", b.dc, t);
                });
    return r;
}
static void run_rule(const Reject &r, int pos, int times, Ctx &cx) {
    auto build = [&](bool bad, size_t &at, size_t &n) {
        B b;
        b.props();
        if(r.md) r.md(b);
        b.start();
        for(int k = 0; k <= HOST; ++k) {
            if(k == pos) {
                if(r.setup) r.setup(b);
                r.bad(b);
                at = b.s.size() - 1;
                Op o = b.s.ops.back();
                b.s.ops.pop_back();
                n = 0;
                if(bad)
                    for(int i = 0; i < times; ++i, ++n) b.s.ops.push_back(i ? fresh(b.s, o) : o);
            }
            if(k < HOST) host_step(b, k);
        }
        b.finish();
        return b.s;
    };
    size_t at = 0, n = 0;
    auto s0 = build(false, at, n);
    auto s1 = build(true, at, n);
    cx.script(s1);
    auto a = observe(s0), b = observe(s1);
    cx.transitions(s0.size() + s1.size());
    cx.traces(2);
    for(size_t i = 0; i < n; ++i)
        if(!b.rc[at + i]) { cx.state(r.name + "accepted"); return; } // depends on the state of the host; see C05
    cx.state(r.name + std::to_string(pos) + (a.file.empty() ? "unwritten" : "written"));
    if(getenv("MC_UNWRITTEN") && a.file.empty()) fprintf(stderr, "unwritten %s at %d\n", r.name.c_str(), pos);
    compare(a, b, at, n, s1, cx, r.name);
}

// --- text that fails part way
static void run_text(int fail, int how, int where, Ctx &cx) {
    auto build = [&](bool bad, size_t &at, size_t &n) {
        B b;
        b.props();
        b.start();
        auto f = b.font();
        auto f2 = b.s("generator_load_font", b.gen, "$REPO/testdata/fonts/NotoSerif-Regular.ttf", null);
        auto before = [&] { b.s("dc_render_text", b.dc, "aq", f, 10.0, 1.0, 1.0); };
        if(where == 0) before();
        if(where == 2) { b.s("dc_cmd_q", b.dc); b.s("dc_cmd_BDC_ocg", b.dc, b.ocg("x")); }
        const std::string badtext[] = {"xyz\xef\xbf\xbd\xe2\xb4\xb0", "\xe2\xb4\xb0", "Abc \xf3\xa0\x80\x81z"};
        auto t = b.s("dc_text_new", b.dc);
        b.s("text_cmd_Tf", t, f, 12.0);
        auto ocg = b.ocg("late");
        auto color = b.rgb_color(0.5, 0, 0);
        at = b.s.size();
        n = 0;
        switch(how) {
        case 0: case 1: case 2: { // several events, the last one cannot be rendered
            b.s("text_cmd_Td", t, 1.0, 2.0);
            b.s("text_set_nonstroke", t, color);
            b.s("text_cmd_Tj", t, "good");
            if(how == 1) { b.s("text_cmd_Tf", t, f2, 9.0); b.s("text_cmd_Tj", t, "serif"); }
            if(how == 2) {
                auto q = b.s("text_sequence_new");
                b.s("text_sequence_append_string", q, "first");
                b.s("text_sequence_append_kerning", q, -10);
                b.s("text_sequence_append_actualtext_start", q, "act");
                b.s("text_sequence_append_string", q, badtext[fail]);
                b.s("text_sequence_append_actualtext_end", q);
                b.s("text_cmd_TJ", t, q);
            } else b.s("text_cmd_Tj", t, badtext[fail]);
            at = b.s.size();
            if(bad) b.s("dc_render_text_obj", b.dc, t), n = 1;
            break;
        }
        case 5: case 6: case 7: case 8: case 9: case 10: { // fails only when the glyphs are looked up, or after them
            if(how >= 8) { b.s("text_cmd_Tj", t, "Both, qp!"); b.s("text_cmd_Tf", t, f2, 9.0); }
            auto q = b.s("text_sequence_new");
            b.s("text_sequence_append_string", q, "Early glyphs: Zk");
            const int late = how >= 8 ? how - 3 : how;
            if(late == 5) b.s("text_sequence_append_raw_glyph", q, 60000 + fail, 0x51);
            if(late == 6) b.s("text_sequence_append_ligature_glyph", q, 60000 + fail, "ffi");
            b.s("text_cmd_TJ", t, q);
            if(late == 7) { if(fail == 0) b.s("text_cmd_w", t, -1.0); else if(fail == 1) b.s("text_cmd_d", t, std::vector<double>{}, 0.0); else b.s("text_cmd_EMC", t); }
            at = b.s.size();
            if(bad) b.s("dc_render_text_obj", b.dc, t), n = 1;
            break;
        }
        case 3: if(bad) b.s("dc_render_text", b.dc, badtext[fail], f, 12.0, 3.0, 4.0), n = 1; break;
        case 4: if(bad) b.s("generator_text_width", b.gen, badtext[fail], f, 12.0), n = 1; break;
        }
        (void)ocg;
        if(where == 2) { b.s("dc_cmd_EMC", b.dc); b.s("dc_cmd_Q", b.dc); }
        if(where != 0) before();
        b.s("dc_render_text", b.dc, "later xg", f, 10.0, 1.0, 1.0);
        b.s("dc_render_text", b.dc, "later sf", f2, 10.0, 1.0, 1.0);
        b.finish();
        return b.s;
    };
    size_t at = 0, n = 0;
    auto s0 = build(false, at, n);
    auto s1 = build(true, at, n);
    cx.script(s1);
    auto a = observe(s0), b = observe(s1);
    cx.transitions(s0.size() + s1.size());
    cx.traces(2);
    if(a.file.empty()) { cx.violation("base is not written"); return; }
    if(!b.rc[at]) { cx.state("accepted"); return; }
    cx.state(std::to_string(fail * 100 + how * 10 + where));
    compare(a, b, at, n, s1, cx, "text that cannot be rendered");
}

// --- files that cannot be loaded
static const std::vector<std::pair<const char *, const char *>> FILES{
    {"fonts/NotoSans-Regular.ttf", "ttf"}, {"fonts/P052-Roman.otf", "otf"}, {"fonts/AmstelVar-Roman.ttf", "ttf"}, {"images/simple.jpg", "jpg"}, {"images/rgb_tiff.tif", "tif"}, {"images/gray_alpha.png", "png"},
    {"images/1bit_noalpha.png", "png"}, {"icc/compatibleWithAdobeRGB1998.icc", "icc"}, {"icc/FOGRA29L.icc", "icc"}};
static void run_file(int file, int cut, int nth, Ctx &cx) {
    auto data = read_file(repo_dir() + "/testdata/" + FILES[(size_t)file].first);
    size_t len = cut < 40 ? (size_t)cut * 4 : data.size() * (size_t)(cut - 40) / 41;
    std::string ext = FILES[(size_t)file].second;
    write_file(subst("$OUT/broken." + ext), data.substr(0, len));
    auto build = [&](bool bad, size_t &at, size_t &n) {
        B b;
        b.props();
        b.start();
        auto good = [&] {
            if(ext == "ttf" || ext == "otf") b.s("dc_render_text", b.dc, "text", b.s("generator_load_font", b.gen, std::string("$REPO/testdata/") + FILES[(size_t)file].first, null), 10.0, 1.0, 1.0);
            else if(ext == "icc") { auto id = b.s("generator_load_icc_profile", b.gen, std::string("$REPO/testdata/") + FILES[(size_t)file].first); (void)id; }
            else b.s("dc_cmd_Do_image", b.dc, b.s("generator_add_image", b.gen, b.s("generator_load_image", b.gen, std::string("$REPO/testdata/") + FILES[(size_t)file].first), b.s("image_pdf_properties_new")));
        };
        if(nth) good();
        at = b.s.size();
        n = 0;
        if(bad) {
            if(ext == "ttf" || ext == "otf") b.s("generator_load_font", b.gen, "$OUT/broken." + ext, null);
            else if(ext == "icc") b.s("generator_load_icc_profile", b.gen, "$OUT/broken." + ext);
            else b.s("generator_load_image", b.gen, "$OUT/broken." + ext);
            n = 1;
        }
        good();
        b.s("dc_render_text", b.dc, "more", b.font(), 10.0, 1.0, 1.0);
        b.finish();
        return b.s;
    };
    size_t at = 0, n = 0;
    auto s0 = build(false, at, n);
    auto s1 = build(true, at, n);
    cx.script(s1);
    auto a = observe(s0), b = observe(s1);
    cx.transitions(s0.size() + s1.size());
    cx.traces(2);
    if(a.file.empty()) { cx.violation("base is not written"); return; }
    if(!b.rc[at]) { cx.state("accepted"); return; }
    cx.state(std::to_string(file) + " " + std::to_string(b.rc[at]) + " " + std::to_string(nth));
    compare(a, b, at, n, s1, cx, std::string("loading a truncated ") + FILES[(size_t)file].first);
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C03";
    c.bounds = "arguments: in valid scripts that together use every function of the API, every call is preceded and, separately, followed by the same call with one argument replaced by every invalid value of the catalogue of C05; "
               "unused: calls rejected in that document although they name a resource, of any of 11 kinds, that nothing else uses; rules: every rule of C05 broken at every one of 23 points of a 22-step document (in a path, inside q, inside marked content, with an open text object, with an annotation not yet placed, between pages); "
               "text: rendering that fails after some of its events; files: fonts, images and ICC profiles cut off at 40 (thorough: 80) lengths. The result codes, identifiers and numbers of all other calls and the bytes of the file have to be those of the script without the rejected call. "
               "A failed attempt to write the file is terminal and is not followed by further calls, except for lack of pages";
    c.families = [](bool thorough) {
        std::vector<Family> f;
        std::vector<Case> cases;
        std::map<std::string, int> uses;
        for(size_t b = 0; b < bases().size(); ++b)
            for(size_t k = 0; k < bases()[b].s.size(); ++k) {
                auto &o = bases()[b].s.ops[k];
                auto &fn = fns()[o.fn];
                if(fn.name.find("_destroy") != std::string::npos) continue;
                if(uses[fn.name]++ >= (thorough ? 40 : 6)) continue;
                for(size_t p = 0; p < fn.params.size(); ++p)
                    for(auto &bad : bad_values(fn.params[p], o.a[p]))
                        if(!allowed(fn.name, fn.params[p], bad.name))
                            for(bool after : {false, true})
                                for(int times = 1; times <= (thorough ? 2 : 1); ++times) cases.push_back({(int)b, (int)k, (int)p, bad, after, times});
            }
        f.push_back({"arguments", cases.size(), [=](size_t i, Ctx &cx) { run_arg(cases[i], cx); },
                     [=](size_t i) {
                         auto &c = cases[i];
                         auto &o = bases()[(size_t)c.base].s.ops[(size_t)c.op];
                         return bases()[(size_t)c.base].name + "/" + fns()[o.fn].name + "." + fns()[o.fn].params[(size_t)c.param].name + "=" + c.bad.name + (c.after ? " after" : " before") + (c.times > 1 ? " twice" : "");
                     }});
        std::vector<const Reject *> rs;
        for(auto &r : rejects())
            if(!r.at_write || r.name == "write.no-pages") rs.push_back(&r);
        auto positions = [](const Reject *r, int pos) { return r->name != "write.no-pages" || pos <= 18; };
        std::vector<std::pair<const Reject *, int>> rc;
        for(auto r : rs)
            for(int p = 0; p <= HOST; ++p)
                if(positions(r, p)) rc.push_back({r, p});
        size_t n = rc.size();
        f.push_back({"rules", n * (thorough ? 3 : 1), [=](size_t i, Ctx &cx) { run_rule(*rc[i % n].first, rc[i % n].second, 1 + (int)(i / n), cx); },
                     [=](size_t i) { return rc[i % n].first->name + " at " + std::to_string(rc[i % n].second) + (i / n ? " repeated" : ""); }});
        static const auto un = unused_rejects();
        f.push_back({"unused", un.size() * (HOST + 1), [=](size_t i, Ctx &cx) { run_rule(un[i / (HOST + 1)], (int)(i % (HOST + 1)), 1, cx); }, [](size_t i) { return un[i / (HOST + 1)].name + " at " + std::to_string(i % (HOST + 1)); }});
        f.push_back({"text", 99, [](size_t i, Ctx &cx) { run_text((int)i % 3, (int)i / 3 % 11, (int)i / 33, cx); }, {}});
        f.push_back({"files", FILES.size() * (thorough ? 160 : 40), [=](size_t i, Ctx &cx) { if(thorough) run_file((int)(i / 160), (int)(i % 80), (int)(i / 80 % 2), cx); else run_file((int)(i / 40), (int)(i % 40 * 2 + i / 40 % 2), (int)(i % 2), cx); }, {}});
        return f;
    };
    return check_main(argc, argv, c);
}
