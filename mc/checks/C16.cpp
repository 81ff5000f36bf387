// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "config.hpp"
#include "draw.hpp"
#include <algorithm>
#include <unistd.h>
using namespace mc;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

// --- documents
struct FV { size_t f; int v; };
static const std::vector<FV> &all_variants() {
    static const std::vector<FV> r = [] {
        std::vector<FV> x;
        for(size_t f = 0; f < features().size(); ++f)
            for(int v = 0; v < features()[f].variants; ++v) x.push_back({f, v});
        return x;
    }();
    return r;
}
static Script feature_script(FV x, const Config &c, const string &file) {
    B b;
    b.file = file;
    apply_config(b, c);
    b.start();
    features()[x.f].add(b, x.v);
    b.finish();
    return b.s;
}
static Config PLAIN{0, 0, 0, 0};
// Small documents that use different kinds of per document state.
static const size_t NSMALL = 12;
static Script small_script(size_t k, const string &file, int salt = 0, bool whole = false) {
    W w;
    w.file = file;
    if(k == 11) {
        w.md = w.s("document_properties_new");
        w.s("document_properties_set_title", w.md, "t" + to_string(salt));
    } else w.md = w.s("document_properties_new");
    w.start();
    switch(k) {
    case 0: w.s("dc_cmd_re", w.dc, 1.0, 2.0, 3.0, 4.0 + salt); break;
    case 1: w.s("dc_render_text", w.dc, "Hello", w.font(), 12.0, 1.0, 2.0); break;
    case 2: w.s("dc_render_text", w.dc, "eolH", w.font(), 12.0, 1.0, 2.0); break;
    case 3: w.s("dc_render_text", w.dc, "Hello", w.font("P052-Roman.otf"), 12.0, 1.0, 2.0); break;
    case 4: { auto o = w.s("outline_new"); w.s("outline_set_title", o, "title" + to_string(salt)); w.s("generator_add_outline", w.gen, o); break; }
    case 5: w.s("dc_cmd_BDC_ocg", w.dc, w.ocg("layer" + to_string(salt))); w.s("dc_cmd_EMC", w.dc); break;
    case 6: { auto i = w.s("generator_add_structure_item", w.gen, E("CAPY_STRUCTURE_TYPE_P"), null, null); w.s("dc_cmd_BDC_builtin", w.dc, i, null); w.s("dc_cmd_EMC", w.dc); break; }
    case 7: w.s("dc_cmd_gs", w.dc, w.gs(salt % 5)); break;
    case 8: { auto a = w.s("text_annotation_new", "note" + to_string(salt)); w.s("annotation_set_rectangle", a, 1.0, 2.0, 3.0, 4.0); w.s("dc_annotate", w.dc, w.s("generator_add_annotation", w.gen, a)); break; }
    case 9: w.s("dc_set_nonstroke", w.dc, w.rgb_color(0.25, 0.5, salt / 8.0)); break;
    case 10: w.s("generator_add_page_labeling", w.gen, 0, 0, "p" + to_string(salt), 1); break;
    default: break;
    }
    w.finish();
    if(!whole) // the objects are destroyed at the end
        for(size_t i = 0; i < w.s.ops.size(); ++i)
            if(w.s.ops[i].fn == fn_index("dc_destroy")) w.s.ops.erase(w.s.ops.begin() + (long)i--);
    return w.s;
}

// --- several scripts as one
static Script merge(const std::vector<Script> &s, const std::vector<int> &schedule) {
    Script r;
    std::vector<int> base;
    for(auto &x : s) { base.push_back(r.nvars); r.nvars += x.nvars; }
    std::vector<size_t> at(s.size(), 0);
    std::function<void(Val &, int)> shift = [&](Val &v, int b) {
        if(v.k == Val::VAR || v.k == Val::OUT) { if(v.i >= 0) v.i += b; }
        for(auto &e : v.l) shift(e, b);
    };
    for(int w : schedule) {
        auto op = s[(size_t)w].ops.at(at[(size_t)w]++);
        for(auto &v : op.a) shift(v, base[(size_t)w]);
        r.ops.push_back(std::move(op));
    }
    return r;
}
// The file without its random parts.
static string stable(string b) {
    size_t p = b.rfind("/ID");
    if(p == string::npos) return b;
    for(int n = 0; n < 2; ++n) {
        size_t a = b.find('<', p), e = a == string::npos ? a : b.find('>', a);
        if(e == string::npos) return b;
        for(size_t i = a + 1; i < e; ++i) b[i] = '0';
        p = e;
    }
    return b;
}
static string first_diff(const string &a, const string &b) {
    size_t i = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    auto show = [](const string &s, size_t p) {
        string r;
        for(unsigned char c : s.substr(p > 20 ? p - 20 : 0, 60)) r += c >= 32 && c < 127 ? (char)c : '.';
        return r;
    };
    return to_string(a.size()) + " and " + to_string(b.size()) + " bytes; at " + to_string(i) + ": " + show(a, i) + " | " + show(b, i);
}
struct Alone { std::vector<int> rc; string bytes; };
static const Alone &alone(const string &key, const Script &s, const string &file) {
    static std::map<string, Alone> memo;
    auto it = memo.find(key);
    if(it != memo.end()) return it->second;
    auto o = execute(s);
    Alone a{o.rc, {}};
    auto path = scratch() + "/" + file;
    if(file_exists(path)) a.bytes = stable(read_file(path));
    return memo[key] = a;
}
// Runs the schedule and compares every document and return code with what it is alone.
static bool together(const std::vector<string> &keys, const std::vector<Script> &s, const std::vector<string> &files, const std::vector<int> &schedule, Ctx &cx) {
    std::vector<const Alone *> want;
    for(size_t k = 0; k < s.size(); ++k) want.push_back(&alone(keys[k], s[k], files[k]));
    for(auto &f : files) unlink((scratch() + "/" + f).c_str());
    auto m = merge(s, schedule);
    cx.script(m);
    auto o = execute(m);
    std::vector<size_t> at(s.size(), 0);
    cx.transitions(m.ops.size());
    cx.traces();
    for(size_t i = 0; i < schedule.size(); ++i) {
        auto w = (size_t)schedule[i];
        int rc = want[w]->rc.at(at[w]++);
        if(o.rc[i] != rc) { cx.violation("a call behaves differently beside another document", op_text(m.ops[i]) + " returned " + to_string(o.rc[i]) + " alone " + to_string(rc)); return false; }
    }
    for(size_t k = 0; k < s.size(); ++k) {
        auto path = scratch() + "/" + files[k];
        auto b = file_exists(path) ? stable(read_file(path)) : string();
        if(b != want[k]->bytes) { cx.violation("a document differs beside another one", keys[k] + ": " + first_diff(want[k]->bytes, b)); return false; }
    }
    return true;
}
// All the orders of n and m calls.
static void schedules(size_t n, size_t m, const std::function<bool(const std::vector<int> &)> &f) {
    std::vector<int> s(n + m, 1);
    std::fill(s.begin(), s.begin() + (long)n, 0);
    do
        if(!f(s)) return;
    while(std::next_permutation(s.begin(), s.end()));
}
static Script head(const Script &s, size_t n) { Script r = s; r.ops.resize(std::min(n, s.ops.size())); return r; }

int main(int argc, char **argv) {
    if(argc == 6 && string(argv[1]) == "--render") { // a document in a process of its own
        set_scratch(argv[2]);
        auto s = feature_script(all_variants().at((size_t)atoi(argv[3])), config(atoi(argv[4])), string("$OUT/") + argv[5]);
        execute(s);
        return 0;
    }
    Check c;
    c.id = "C16";
    c.bounds = "Every order in which the calls of two small documents (12 kinds, 5 to 8 calls each) can be interleaved, and of three minimal ones; for all pairs of 45 kinds of documents (thorough: all pairs of all variants with one switch) every point at which "
               "one can be interrupted by the complete other one, and (thorough) every pair of points for one that is interrupted in turn; every document three times in one process and once more in a new process with another address space layout; "
               "objects that two documents share; normal and debug mode of every document and configuration; every short history after a write.";
    c.assumptions = {"The file identifier is random; SOURCE_DATE_EPOCH fixes the date.", "API calls are atomic: the library makes no promise about threads."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        const auto &vs = all_variants();
        f.push_back({"interleavings", NSMALL * NSMALL, [=](size_t i, Ctx &cx) {
            size_t a = i % NSMALL, b = i / NSMALL;
            if(!thorough && a > b) return;
            auto A = small_script(a, "$OUT/a.pdf", 1, thorough), Bs = small_script(b, "$OUT/b.pdf", 2, thorough);
            size_t n = 0, pre = a == 11 || b == 11 ? 0 : 1; // properties first: they are created empty
            std::vector<string> k{"a" + to_string(a), "b" + to_string(b)};
            schedules(A.size() - pre, Bs.size() - pre, [&](std::vector<int> s) {
                ++n;
                if(pre) s.insert(s.begin(), {0, 1});
                return together(k, {A, Bs}, {"a.pdf", "b.pdf"}, s, cx);
            });
            cx.state(to_string(a) + "." + to_string(b) + " " + to_string(n));
        }, nullptr, 600});
        f.push_back({"three documents", 1680, [](size_t i, Ctx &cx) { // three calls each: page draw context, page, write
            std::vector<int> s;
            std::vector<int> left{3, 3, 3};
            // the i-th arrangement of 000111222
            s = {0, 0, 0, 1, 1, 1, 2, 2, 2};
            for(size_t k = 0; k < i; ++k) std::next_permutation(s.begin(), s.end());
            std::vector<Script> sc;
            std::vector<string> keys, files;
            std::vector<int> full;
            for(int d = 0; d < 3; ++d) {
                files.push_back(string(1, (char)('a' + d)) + ".pdf");
                sc.push_back(small_script((size_t)(d == 0 ? 1 : d == 1 ? 3 : 6), "$OUT/" + files.back(), d));
                keys.push_back("three" + to_string(d));
            }
            // blocks of calls
            std::vector<int> step(3, 0);
            for(int d : s) {
                size_t n = sc[(size_t)d].size(), from = n * (size_t)step[(size_t)d] / 3, to = n * (size_t)(step[(size_t)d] + 1) / 3;
                for(size_t k = from; k < to; ++k) full.push_back(d);
                ++step[(size_t)d];
            }
            if(together(keys, sc, files, full, cx)) cx.state(to_string(i));
        }, nullptr});
        // A is interrupted by the whole of B
        std::vector<size_t> reps;
        for(size_t k = 0; k < vs.size(); ++k)
            if(thorough || k == 0 || vs[k].f != vs[k - 1].f) reps.push_back(k);
        auto rp = std::make_shared<std::vector<size_t>>(reps);
        f.push_back({"interruptions", reps.size() * reps.size(), [=](size_t i, Ctx &cx) {
            size_t a = (*rp)[i % rp->size()], b = (*rp)[i / rp->size()];
            auto A = feature_script(all_variants()[a], PLAIN, "$OUT/a.pdf"), Bs = feature_script(all_variants()[b], PLAIN, "$OUT/b.pdf");
            std::vector<string> keys{"fa" + to_string(a), "fb" + to_string(b)};
            // the loading of files makes some calls slow; the points before the generator exists are all the same
            for(size_t at = 0; at <= A.size(); ++at) {
                if(at > 1 && at < 5) continue;
                std::vector<int> s;
                for(size_t k = 0; k < A.size() + Bs.size(); ++k) s.push_back(k >= at && k < at + Bs.size());
                if(!together(keys, {A, Bs}, {"a.pdf", "b.pdf"}, s, cx)) return;
            }
            cx.state(to_string(a) + " " + to_string(b));
        }, nullptr, 120});
        if(thorough) {
            auto r1 = std::make_shared<std::vector<size_t>>();
            for(size_t k = 0; k < vs.size(); ++k)
                if(k == 0 || vs[k].f != vs[k - 1].f) r1->push_back(k);
            f.push_back({"alternations", r1->size() * r1->size(), [=](size_t i, Ctx &cx) { // A B A B
                size_t a = (*r1)[i % r1->size()], b = (*r1)[i / r1->size()];
                auto A = feature_script(all_variants()[a], PLAIN, "$OUT/a.pdf"), Bs = feature_script(all_variants()[b], PLAIN, "$OUT/b.pdf");
                std::vector<string> keys{"fa" + to_string(a), "fb" + to_string(b)};
                for(size_t x = 5; x < A.size(); ++x)
                    for(size_t y = 5; y < Bs.size(); ++y) {
                        std::vector<int> s;
                        s.insert(s.end(), x, 0);
                        s.insert(s.end(), y, 1);
                        s.insert(s.end(), A.size() - x, 0);
                        s.insert(s.end(), Bs.size() - y, 1);
                        if(!together(keys, {A, Bs}, {"a.pdf", "b.pdf"}, s, cx)) return;
                    }
                cx.state(to_string(a) + " " + to_string(b));
            }, nullptr, 600});
        }
        // --- the same document again, in this process and in another one
        auto cfgs = std::make_shared<std::vector<int>>();
        for(int k = 0; k < NCONFIG; ++k) {
            auto cf = config(k);
            if(cf.debug) continue;
            if(thorough || k == 0 || (cf.sub == 0 && (cf.cs == 2 || cf.tagged)) || (cf.sub == 14 && cf.cs == 0) || (cf.sub == 7 && cf.cs == 2 && !cf.tagged)) cfgs->push_back(k);
        }
        f.push_back({"again", vs.size() * cfgs->size(), [=](size_t i, Ctx &cx) {
            int ci = (*cfgs)[i / all_variants().size()];
            auto v = i % all_variants().size();
            auto s = feature_script(all_variants()[v], config(ci), "$OUT/out.pdf");
            cx.script(s);
            std::vector<int> rc;
            string bytes;
            auto path = scratch() + "/out.pdf";
            for(int n = 0; n < 3; ++n) {
                unlink(path.c_str());
                auto o = execute(s);
                auto b = file_exists(path) ? stable(read_file(path)) : string();
                cx.traces();
                cx.transitions(s.size());
                if(n == 0) { rc = o.rc; bytes = b; }
                else if(rc != o.rc) return cx.violation("calls return something else the second time");
                else if(b != bytes) return cx.violation("the same calls give another document", first_diff(bytes, b));
            }
            cx.state(to_string(pdf::hash(bytes)));
            if(bytes.empty()) return;
            // random parts
            if(ci == (*cfgs)[0] || thorough) {
                unlink(path.c_str());
                auto cmd = "/proc/self/exe";
                char exe[4096];
                auto len = readlink(cmd, exe, sizeof exe - 1);
                if(len <= 0) throw std::runtime_error("no own executable");
                exe[len] = 0;
                auto line = "'" + string(exe) + "' --render '" + scratch() + "' " + to_string(v) + " " + to_string(ci) + " other.pdf";
                if(system(line.c_str()) != 0) return cx.violation("the document can not be made in a new process");
                auto op = scratch() + "/other.pdf";
                auto b = file_exists(op) ? stable(read_file(op)) : string();
                unlink(op.c_str());
                if(b != bytes) return cx.violation("the same calls give another document in a new process", first_diff(bytes, b));
            }
        }, nullptr, 60});
        // --- debug mode
        f.push_back({"debug mode", vs.size() * cfgs->size(), [=](size_t i, Ctx &cx) {
            int ci = (*cfgs)[i / all_variants().size()];
            auto v = i % all_variants().size();
            string canon[2];
            std::vector<int> rc[2];
            for(int dbg = 0; dbg < 2; ++dbg) {
                auto cf = config(ci);
                cf.debug = dbg;
                auto s = feature_script(all_variants()[v], cf, "$OUT/out.pdf");
                unlink((scratch() + "/out.pdf").c_str());
                cx.script(s);
                auto o = execute(s);
                rc[dbg] = o.rc;
                cx.traces();
                cx.transitions(s.size());
                if(file_exists(scratch() + "/out.pdf")) canon[dbg] = Doc::parse(read_file(scratch() + "/out.pdf")).canon();
            }
            clear_config_env();
            if(rc[0] != rc[1]) return cx.violation("debug mode changes what calls return");
            if(canon[0] != canon[1]) return cx.violation("debug mode changes the document", first_diff(canon[0], canon[1]));
            cx.state(canon[0]);
        }, nullptr});
        // --- objects that two documents use
        f.push_back({"shared objects", 8 * 2 * 2, [](size_t i, Ctx &cx) {
            int kind = (int)(i % 8), change = (int)(i / 8 % 2), order = (int)(i / 16);
            auto build = [&](bool shared, const string &pa, const string &pb) {
                Script s;
                auto props = [&](V &md) {
                    md = s("document_properties_new");
                    s("document_properties_set_title", md, "Shared");
                    s("document_properties_set_author", md, "Author");
                    s("document_properties_set_language", md, "en-US");
                    s("document_properties_set_tagged", md, 1);
                };
                auto colour = [&](V &x) { x = s("color_new"); s("color_set_rgb", x, 0.25, 0.5, 0.75); };
                auto trans = [&](V &x) { x = s("transition_new"); s("transition_set_S", x, 3); s("transition_set_D", x, 2.0); };
                auto pprops = [&](V &x) { x = s("page_properties_new"); s("page_properties_set_pagebox", x, E("CAPY_BOX_MEDIA"), 0.0, 0.0, 77.0, 88.0); };
                auto fprops = [&](V &x) { x = s("font_properties_new"); s("font_properties_set_subfont", x, 0); };
                auto tags = [&](V &x) { x = s("bdc_tags_new"); s("bdc_tags_add_tag", x, "Key", "value"); };
                auto dest = [&](V &x) { x = s("destination_new"); s("destination_set_page_fit", x, 0); };
                auto extra = [&](V &x) { x = s("struct_item_extra_data_new"); s("struct_item_extra_data_set_t", x, "T"); };
                auto make = [&](V &x) {
                    switch(kind) {
                    case 0: props(x); break;
                    case 1: colour(x); break;
                    case 2: trans(x); break;
                    case 3: pprops(x); break;
                    case 4: fprops(x); break;
                    case 5: tags(x); break;
                    case 6: dest(x); break;
                    case 7: extra(x); break;
                    }
                };
                V x[2], md[2], gen[2], dc[2];
                make(x[0]);
                if(shared) x[1] = x[0];
                else make(x[1]);
                for(int k = 0; k < 2; ++k) {
                    if(kind == 0) md[k] = x[k];
                    else md[k] = s("document_properties_new");
                    gen[k] = s("generator_new", k ? pb : pa, md[k]);
                    dc[k] = s("page_draw_context_new", gen[k]);
                }
                auto use = [&](int k) {
                    switch(kind) {
                    case 1: s("dc_set_stroke", dc[k], x[k]); s("dc_set_nonstroke", dc[k], x[k]); break;
                    case 2: s("dc_set_page_transition", dc[k], x[k]); break;
                    case 3: s("dc_set_custom_page_properties", dc[k], x[k]); break;
                    case 4: { auto fn = s("generator_load_font", gen[k], "$REPO/testdata/fonts/NotoSans-Regular.ttf", x[k]); s("dc_render_text", dc[k], "ab", fn, 12.0, 1.0, 2.0); break; }
                    case 5: s("dc_cmd_BDC_testing", dc[k], "Tag", x[k]); s("dc_cmd_EMC", dc[k]); break;
                    case 6: { auto o = s("outline_new"); s("outline_set_title", o, "O"); s("outline_set_destination", o, x[k]); s("generator_add_outline", gen[k], o); break; }
                    case 7: { auto it = s("generator_add_structure_item", gen[k], E("CAPY_STRUCTURE_TYPE_P"), null, x[k]); s("dc_cmd_BDC_builtin", dc[k], it, null); s("dc_cmd_EMC", dc[k]); break; }
                    }
                };
                use(order);
                use(1 - order);
                if(change) { // after it has been used
                    switch(kind) {
                    case 0: s("document_properties_set_title", x[0], "Changed"); s("document_properties_set_tagged", x[0], 0); break;
                    case 1: s("color_set_gray", x[0], 0.125); break;
                    case 2: s("transition_set_S", x[0], 5); break;
                    case 3: s("page_properties_set_pagebox", x[0], E("CAPY_BOX_MEDIA"), 0.0, 0.0, 5.0, 6.0); break;
                    case 4: s("font_properties_set_subfont", x[0], 1); break;
                    case 5: s("bdc_tags_add_tag", x[0], "Other", "x"); break;
                    case 6: s("destination_set_page_xyz", x[0], 0, 1.0, 2.0, 3.0); break;
                    case 7: s("struct_item_extra_data_set_t", x[0], "Changed"); break;
                    }
                }
                for(int k = 0; k < 2; ++k) {
                    s("generator_add_page", gen[k], dc[k]);
                    s("generator_write", gen[k]);
                }
                return s;
            };
            auto run = [&](bool shared) {
                auto s = build(shared, "$OUT/a.pdf", "$OUT/b.pdf");
                cx.script(s);
                auto o = execute(s);
                if(o.failures) throw pdf::ParseError("a call fails");
                cx.transitions(s.size());
                cx.traces();
                return stable(read_file(scratch() + "/a.pdf")) + stable(read_file(scratch() + "/b.pdf"));
            };
            auto want = run(false), got = run(true);
            // the objects of one that are never changed
            if(change) {
                auto cf = build(false, "$OUT/a.pdf", "$OUT/b.pdf");
                (void)cf;
            }
            auto a = Doc::parse(read_file(scratch() + "/a.pdf")).canon(), b = Doc::parse(read_file(scratch() + "/b.pdf")).canon();
            if(a != b) return cx.violation("two documents with the same object differ", first_diff(a, b));
            if(want != got) return cx.violation("sharing an object changes a document", first_diff(want, got));
            cx.state(to_string(pdf::hash(got)));
        }, nullptr});
        // --- after the document has been written
        f.push_back({"after writing", vs.size() * 6, [](size_t i, Ctx &cx) {
            auto v = all_variants()[i / 6];
            int what = (int)(i % 6);
            B b;
            b.props();
            b.start();
            features()[v.f].add(b, v.v);
            b.finish();
            size_t n = b.s.size();
            switch(what) {
            case 0: b.s("generator_write", b.gen); break;
            case 1: b.dc = b.s("page_draw_context_new", b.gen); b.s("generator_add_page", b.gen, b.dc); b.s("generator_write", b.gen); break;
            case 2: b.dc = b.s("page_draw_context_new", b.gen); features()[v.f].add(b, v.v); b.finish(); break;
            case 3: b.s("generator_write", b.gen); b.s("generator_write", b.gen); break;
            case 4: b.memo.clear(); b.dc = b.s("page_draw_context_new", b.gen); features()[(v.f + 7) % features().size()].add(b, 0); b.finish(); break;
            case 5: b.s("generator_destroy", b.gen); break;
            }
            cx.script(b.s);
            auto path = scratch() + "/out.pdf";
            unlink(path.c_str());
            string written;
            bool bad = false;
            auto o = execute(b.s, [&](size_t k, int rc, CallCtx &) {
                if(k + 1 < n || bad) return;
                if(k + 1 == n) {
                    if(rc != 0) { bad = true; cx.violation("valid call rejected: capy_generator_write", error_text(rc)); }
                    else { written = read_file(path); write_file(path, "sentinel"); }
                    return;
                }
                bool w = b.s.ops[k].fn == fn_index("generator_write");
                if(w && rc == 0) { bad = true; cx.violation("a generator writes twice"); }
                if(!bad && read_file(path) != "sentinel") { bad = true; cx.violation("a call after the writing touches the file", op_text(b.s.ops[k])); }
            });
            cx.transitions(b.s.size());
            cx.traces();
            if(!bad && read_file(path) != "sentinel") return cx.violation("destroying objects after the writing touches the file");
            unlink(path.c_str());
            cx.state(to_string(pdf::hash(stable(written))) + to_string(what));
        }, nullptr});
        // --- generators that are never written leave no file, whatever their state
        f.push_back({"never written", vs.size() * 3, [](size_t i, Ctx &cx) {
            auto v = all_variants()[i / 3];
            auto s = feature_script(v, PLAIN, "$OUT/never.pdf");
            size_t keep = i % 3 == 0 ? s.size() - 1 : i % 3 == 1 ? s.size() - 2 : s.size() / 2;
            auto h = head(s, keep);
            auto path = scratch() + "/never.pdf";
            unlink(path.c_str());
            cx.script(h);
            execute(h);
            cx.transitions(h.size());
            cx.traces();
            if(file_exists(path)) return cx.violation("a file appears although the document was not written");
            cx.state(to_string(i));
        }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
