// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "spec.hpp"
using namespace mc;
namespace sp = mc::spec;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

static const char *TR[] = {"Split", "Blinds", "Box", "Wipe", "Dissolve", "Glitter", "R", "Fly", "Push", "Cover", "Uncover", "Fade"};
static void expect(Ctx &cx, const Doc &d, const string &what, const Obj *o, const sp::Sp &s) {
    auto r = s(d, o);
    if(!r.empty()) cx.violation(what + " differs", r);
}

// --- transitions
struct Trans { int S = -1, D = 0, Dm = -1, M = -1, Di = -1, SS = 0, B = -1; };
static const double DUR[] = {0, 0.25, 12}, SCALE[] = {0, 0.5, 1.75};
static const int DIR[] = {0, 90, 180, 270, 315};
static const size_t NTRANS = 13 * 3 * 3 * 3 * 6 * 3 * 3;
static Trans trans(size_t i) {
    Trans t;
    t.S = (int)(i % 13) - 1; i /= 13;
    t.D = (int)(i % 3); i /= 3;
    t.Dm = (int)(i % 3) - 1; i /= 3;
    t.M = (int)(i % 3) - 1; i /= 3;
    t.Di = (int)(i % 6) - 1; i /= 6;
    t.SS = (int)(i % 3); i /= 3;
    t.B = (int)(i % 3) - 1;
    return t;
}
static V make(W &w, const Trans &t, bool twice) {
    auto v = w.s("transition_new");
    if(twice) { // the last value counts
        w.s("transition_set_S", v, 3);
        w.s("transition_set_D", v, 9.0);
        w.s("transition_set_Di", v, 1);
        if(t.S < 0) w.s("transition_destroy", v), v = w.s("transition_new");
        else if(t.D == 0 || t.Di < 0) w.s("transition_destroy", v), v = w.s("transition_new");
    }
    if(t.S >= 0) w.s("transition_set_S", v, t.S);
    if(t.D) w.s("transition_set_D", v, DUR[t.D]);
    if(t.Dm >= 0) w.s("transition_set_Dm", v, t.Dm);
    if(t.M >= 0) w.s("transition_set_M", v, t.M);
    if(t.Di >= 0) w.s("transition_set_Di", v, DIR[t.Di]);
    if(t.SS) w.s("transition_set_SS", v, SCALE[t.SS]);
    if(t.B >= 0) w.s("transition_set_B", v, t.B);
    return v;
}
static sp::Sp trspec(const Trans &t) {
    sp::Dict w{{"Type", sp::def(sp::name("Trans"))}};
    if(t.S >= 0) w.push_back({"S", sp::name(TR[t.S])});
    if(t.D) w.push_back({"D", sp::num(DUR[t.D])});
    if(t.Dm >= 0) w.push_back({"Dm", sp::name(t.Dm ? "V" : "H")});
    if(t.M >= 0) w.push_back({"M", sp::name(t.M ? "O" : "I")});
    if(t.Di >= 0) w.push_back({"Di", sp::integer(DIR[t.Di])});
    if(t.SS) w.push_back({"SS", sp::num(SCALE[t.SS])});
    if(t.B >= 0) w.push_back({"B", sp::boolean(t.B)});
    return sp::dict(w);
}
static void use_ocg(W &w, V dc, V o) {
    w.s("dc_cmd_BDC_ocg", dc, o);
    w.s("dc_cmd_re", dc, 1.0, 2.0, 3.0, 4.0);
    w.s("dc_cmd_f", dc);
    w.s("dc_cmd_EMC", dc);
}
static V group(W &w, const string &name) { // always a new one
    auto o = w.s("optional_content_group_new", name);
    auto id = w.s("generator_add_optional_content_group", w.gen, o);
    w.s("optional_content_group_destroy", o);
    return id;
}
static string ocg_name(const Doc &d, const Obj &ref) {
    auto t = pdf::text_string(d.need(d.deref(ref), "Name"));
    return t.value_or("?");
}

// --- what a reader does with navigation nodes
struct Nav {
    const Doc &d;
    std::map<string, bool> on;
    const Obj *node = nullptr;
    std::vector<const Obj *> trans; // transitions played
    void action(const Obj *a) {
        for(int depth = 0; a && depth < 20; a = d.dget(*a, "Next"), ++depth) {
            auto s = d.need(*a, "S");
            if(s.isname("SetOCGState")) {
                auto st = d.need(*a, "State");
                string mode;
                for(auto &e : st.a) {
                    auto &x = d.deref(e);
                    if(x.t == Obj::Name) {
                        mode = x.s;
                        if(mode != "ON" && mode != "OFF") throw pdf::ParseError("bad state " + mode);
                    } else {
                        if(mode.empty()) throw pdf::ParseError("State does not start with a name");
                        on[ocg_name(d, e)] = mode == "ON";
                    }
                }
            } else if(s.isname("Trans")) trans.push_back(&d.need(*a, "Trans"));
            else throw pdf::ParseError("unexpected action " + s.s);
        }
    }
    // false: leaves the page
    bool step(bool forward) {
        if(!node) return false;
        auto *a = d.dget(*node, forward ? "NA" : "PA");
        auto *n = d.dget(*node, forward ? "Next" : "Prev");
        if(!a && !n) return false;
        trans.clear();
        if(a) action(a);
        if(n && !d.need(*n, "Type").isname("NavNode")) throw pdf::ParseError("not a navigation node");
        node = n;
        return true;
    }
};
static string walks(const Doc &d, const Obj &page, const std::vector<string> &seq, const std::vector<string> &others, const sp::Sp *tr, Ctx &cx) {
    auto *root = d.dget(page, "PresSteps");
    if(!root) return "the page has no navigation";
    size_t steps = 0;
    std::set<string> states;
    for(bool entry : {true, false}) {
        size_t n = seq.size(), len = 2 * n + 2;
        for(size_t walk = 0; walk < (1u << len); ++walk) {
            Nav v{d, {}, root, {}};
            for(auto &g : seq) v.on[g] = walk & 1; // whatever state they had
            for(auto &g : others) v.on[g] = true;
            if(!v.step(entry)) return "the page cannot be entered";
            size_t k = entry ? 0 : n;
            bool gone = false;
            for(size_t s = 0; s < len && !gone; ++s) {
                for(size_t j = 0; j < n; ++j)
                    if(v.on[seq[j]] != (j < k)) return "after " + to_string(s) + " steps of " + to_string(walk) + " group " + seq[j] + " is " + (v.on[seq[j]] ? "on" : "off") + " when " + to_string(k) + " steps are shown";
                for(auto &g : others)
                    if(!v.on[g]) return "a group that is not navigated is switched off";
                if(v.on.size() != n + others.size()) return "another group is switched";
                bool fwd = walk >> s & 1;
                bool stays = v.step(fwd);
                ++steps;
                if(fwd ? k == n : k == 0) {
                    if(stays) return string("there is a step ") + (fwd ? "after the last one" : "before the first one");
                    gone = true;
                } else {
                    if(!stays) return "navigation ends after " + to_string(k) + " steps";
                    k += fwd ? 1 : -1;
                    if(fwd) {
                        if(v.trans.size() != (tr ? 1u : 0u)) return to_string(v.trans.size()) + " transitions are played";
                        if(tr)
                            if(auto r = (*tr)(d, v.trans[0]); !r.empty()) return "transition: " + r;
                    } else if(!v.trans.empty()) return "a transition is played backwards";
                    states.insert(to_string(k));
                }
            }
        }
    }
    cx.transitions(steps);
    return {};
}

// --- all ordered selections without repetition of 0..n-1
static std::vector<std::vector<int>> selections(int n) {
    std::vector<std::vector<int>> r{{}};
    for(size_t i = 0; i < r.size(); ++i)
        for(int k = 0; k < n; ++k)
            if(std::find(r[i].begin(), r[i].end(), k) == r[i].end()) {
                auto x = r[i];
                x.push_back(k);
                r.push_back(x);
            }
    return r;
}
static const std::vector<string> NAMES = {"Layer 1", "L\xc3\xa4yer (2)", "\xf0\x9f\x98\x80", "x", "Layer 1b", "y"};
static void check_ocgs(const Doc &d, size_t n, Ctx &cx) {
    auto *cat = d.dget(d.trailer, "Root");
    if(n == 0) { expect(cx, d, "optional content", d.dget(*cat, "OCProperties"), sp::absent()); return; }
    std::vector<sp::Sp> all;
    for(size_t k = 0; k < n; ++k) all.push_back(sp::dict({{"Type", sp::name("OCG")}, {"Name", sp::text(NAMES[k])}}));
    expect(cx, d, "optional content", d.dget(*cat, "OCProperties"), sp::dict({{"OCGs", sp::arr(all)}, {"D", sp::dict({{"BaseState", sp::def(sp::name("ON"))}}, false)}}));
}

// --- viewports
static void number_formats(W &w, V m, const char *axis, int n, std::vector<sp::Sp> &want, size_t &salt) {
    static const char *UNIT[] = {"m", "k\xc3\xbcm", "", "in (\")", "\xe2\x82\xac"};
    static const double F[] = {1, 0.01745, 1000, 0.5, 12.125, -1};
    for(int k = 0; k < n; ++k) {
        auto u = UNIT[salt % 5];
        double c = F[salt % 6];
        ++salt;
        auto f = w.s("number_format_new", u, c);
        w.s((string("measure_append_") + axis).c_str(), m, f);
        w.s("number_format_destroy", f);
        want.push_back(sp::dict({{"Type", sp::def(sp::name("NumberFormat"))}, {"U", sp::text(u)}, {"C", sp::num(c)}}));
    }
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C22";
    c.bounds = "All combinations of 7 transition attributes (47 385) as page transition, and 3645 of them as navigation transition; all invalid enumerators; up to 6 groups used on any subset of two pages; all ordered selections "
               "of up to 4 (thorough: 5) groups as navigation steps x every subset of groups that the page uses, and every walk of 2n+2 forward and backward steps over the written nodes from both directions; all sequences of four (thorough: six) of nine operations on two page contexts that are used again; two navigations "
               "per page and on two pages; viewports: 0..3 with all lists of 0..2 number formats per axis.";
    c.assumptions = {"A group occurs at most once in one navigation.", "Navigation nodes are interpreted as ISO 32000-2 12.4.4.2 says: entering a page executes the action of its first node for that direction."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        f.push_back({"page transition", NTRANS * 2, [](size_t i, Ctx &cx) {
            W w;
            w.props();
            w.start();
            auto t = trans(i / 2);
            auto v = make(w, t, i % 2);
            if(i % 2) { // replaced by a later one
                auto x = w.s("transition_new");
                w.s("transition_set_S", x, 5);
                w.s("dc_set_page_transition", w.dc, x);
            }
            w.s("dc_set_page_transition", w.dc, v);
            w.s("transition_set_S", v, 7);
            w.s("transition_destroy", v);
            w.page();
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto *o = d.dget(d.objs.at(d.pages().at(0)), "Trans");
            expect(cx, d, "transition", o, trspec(t));
            expect(cx, d, "transition of the next page", d.dget(d.objs.at(d.pages().at(1)), "Trans"), sp::absent());
            if(o) cx.state(pdf::show(*o, 3));
        }, nullptr});
        f.push_back({"invalid", 7 * 4, [](size_t i, Ctx &cx) {
            W w;
            w.props();
            w.start();
            auto v = w.s("transition_new");
            static const int BAD[] = {-1, 1000, INT_MIN, INT_MAX};
            int b = BAD[i / 7];
            size_t lo = w.s.size();
            switch(i % 7) {
            case 0: w.s("transition_set_S", v, b == 1000 ? 12 : b); break;
            case 1: w.s("transition_set_Dm", v, b == 1000 ? 2 : b); break;
            case 2: w.s("transition_set_M", v, b == 1000 ? 2 : b); break;
            case 3: w.s("transition_set_B", v, b == 1000 ? 2 : b); break;
            case 4: { auto g = w.context(1 + (int)(i / 7) % 3); lo = w.s.size(); w.s("dc_set_page_transition", g, v); break; }
            case 5: { auto g = w.context(1 + (int)(i / 7) % 3); auto id = group(w, "a"); use_ocg(w, g, id); lo = w.s.size(); w.s("dc_add_simple_navigation", g, std::vector<V>{id}, v); break; }
            case 6: { auto g = w.context(1 + (int)(i / 7) % 3); auto vp = w.s("viewport_new", 1.0, 2.0, 3.0, 4.0); lo = w.s.size(); w.s("dc_append_viewport", g, vp); break; }
            }
            size_t hi = w.s.size();
            w.s("dc_set_page_transition", w.dc, v);
            w.finish();
            Doc d;
            if(!run_reject(w.s, lo, hi, cx, d)) return;
            expect(cx, d, "transition after a rejected call", d.dget(d.objs.at(d.pages().at(0)), "Trans"), sp::dict({{"Type", sp::def(sp::name("Trans"))}}));
            cx.state(to_string(i));
        }, nullptr});
        f.push_back({"groups", 7 * 4096, [](size_t i, Ctx &cx) {
            size_t n = i % 7;
            size_t m0 = i / 7 % 64, m1 = i / 7 / 64;
            if(m0 >> n || m1 >> n) return;
            W w;
            w.props();
            w.start();
            std::vector<V> ids;
            std::vector<XOp> want[2];
            for(size_t k = 0; k < n; ++k) ids.push_back(group(w, NAMES[k]));
            for(int p = 0; p < 2; ++p) {
                if(p) w.page();
                for(size_t k = n; k-- > 0;)
                    if((p ? m1 : m0) >> k & 1)
                        for(int r = 0; r < 2; ++r) {
                            use_ocg(w, w.dc, ids[k]);
                            want[p].push_back(X("BDC", "/OC", "ocg " + NAMES[k]));
                            want[p].push_back(X("re", 1, 2, 3, 4));
                            want[p].push_back(X("f"));
                            want[p].push_back(X("EMC"));
                        }
            }
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            check_ocgs(d, n, cx);
            for(int p = 0; p < 2; ++p) {
                auto df = diff(view_page(d, d.pages().at((size_t)p)), want[p]);
                if(!df.empty()) cx.violation("content of a group differs", df);
            }
            cx.state(to_string(i));
        }, nullptr});
        const int NG = thorough ? 5 : 4;
        auto sels = std::make_shared<std::vector<std::vector<int>>>(selections(NG));
        f.push_back({"navigation", sels->size() * (1u << NG) * 3, [=](size_t i, Ctx &cx) {
            size_t n = (size_t)NG;
            auto &sel = (*sels)[i % sels->size()];
            size_t used = i / sels->size() % (1u << n);
            int mode = (int)(i / sels->size() >> n); // 0 no transition 1 transition 2 on the second page
            W w;
            w.props();
            w.start();
            std::vector<V> ids;
            for(size_t k = 0; k < n; ++k) ids.push_back(group(w, NAMES[k]));
            bool good = true;
            for(int k : sel) good = good && (used >> k & 1);
            if(mode == 2) { // used elsewhere
                for(auto id : ids) use_ocg(w, w.dc, id);
                w.page();
            }
            for(size_t k = 0; k < n; ++k)
                if(used >> k & 1) use_ocg(w, w.dc, ids[k]);
            V tr;
            auto t = trans(i * 7919 % NTRANS);
            if(mode == 1) tr = make(w, t, false);
            std::vector<V> arr;
            for(int k : sel) arr.push_back(ids[(size_t)k]);
            size_t lo = w.s.size();
            if(mode == 1) w.s("dc_add_simple_navigation", w.dc, arr, tr);
            else w.s("dc_add_simple_navigation", w.dc, arr, null);
            size_t hi = w.s.size();
            if(mode == 1) w.s("transition_destroy", tr);
            w.page();
            w.finish();
            Doc d;
            if(sel.empty()) { // there is nothing to navigate
                auto r = run_pdf(w.s);
                if(r.o.rc[lo] != 0) return;
            }
            if(good ? !run_good(w.s, cx, d) : !run_reject(w.s, lo, hi, cx, d)) return;
            auto pages = d.pages();
            size_t at = mode == 2;
            for(size_t p = 0; p < pages.size(); ++p)
                if(p != at || !good || sel.empty()) expect(cx, d, "navigation of another page", d.dget(d.objs.at(pages[p]), "PresSteps"), sp::absent());
            check_ocgs(d, n, cx);
            if(!good || sel.empty()) return;
            std::vector<string> seq, others;
            for(int k : sel) seq.push_back(NAMES[(size_t)k]);
            for(size_t k = 0; k < n; ++k)
                if(std::find(sel.begin(), sel.end(), (int)k) == sel.end()) others.push_back(NAMES[k]);
            auto ts = trspec(t);
            try {
                auto r = walks(d, d.objs.at(pages[at]), seq, others, mode == 1 ? &ts : nullptr, cx);
                if(!r.empty()) cx.violation("navigation differs", r);
            } catch(const std::exception &e) {
                cx.violation("navigation differs", e.what());
            }
            cx.state(to_string(i));
        }, nullptr, 60});
        f.push_back({"navigation transitions", NTRANS / 13, [](size_t i, Ctx &cx) {
            W w;
            w.props();
            w.start();
            auto a = group(w, "a"), b = group(w, "b");
            use_ocg(w, w.dc, a);
            use_ocg(w, w.dc, b);
            auto t = trans(i * 13 + i % 13);
            auto v = make(w, t, false);
            w.s("dc_add_simple_navigation", w.dc, std::vector<V>{b, a}, v);
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto ts = trspec(t);
            try {
                auto r = walks(d, d.objs.at(d.pages().at(0)), {"b", "a"}, {}, &ts, cx);
                if(!r.empty()) cx.violation("navigation differs", r);
            } catch(const std::exception &e) {
                cx.violation("navigation differs", e.what());
            }
            expect(cx, d, "page transition", d.dget(d.objs.at(d.pages().at(0)), "Trans"), sp::absent());
            cx.state(to_string(i));
        }, nullptr});
        // Everything belongs to the page it was given to, also when a context is used again.
        const int SD = thorough ? 6 : 4;
        size_t nseq = 1;
        for(int k = 0; k < SD; ++k) nseq *= 9;
        f.push_back({"sequences", nseq, [SD](size_t i, Ctx &cx) {
            struct PM { std::vector<int> nav; int trans = 0, vps = 0; std::set<int> used; };
            W w;
            w.props();
            w.start();
            V dc[2] = {w.dc, w.s("page_draw_context_new", w.gen)}, ids[2] = {group(w, "a"), group(w, "b")};
            PM cur[2];
            std::vector<PM> pages;
            std::set<size_t> rejected;
            int c = 0, n = 0;
            auto commit = [&](int k) { w.s("generator_add_page", w.gen, dc[k]); pages.push_back(cur[k]); cur[k] = {}; };
            for(int k = 0; k < SD; ++k, i /= 9) {
                auto &m = cur[c];
                switch(i % 9) {
                case 0: case 1: use_ocg(w, dc[c], ids[i % 9]); m.used.insert((int)(i % 9)); break;
                case 2: case 3: case 4: {
                    std::vector<int> sel = i % 9 == 4 ? std::vector<int>{1, 0} : std::vector<int>{(int)(i % 9) - 2};
                    bool ok = m.nav.empty();
                    std::vector<V> a;
                    for(int x : sel) { ok = ok && m.used.count(x); a.push_back(ids[x]); }
                    if(!ok) rejected.insert(w.s.size());
                    else m.nav = sel;
                    w.s("dc_add_simple_navigation", dc[c], a, null);
                    break;
                }
                case 5: {
                    auto t = w.s("transition_new");
                    w.s("transition_set_D", t, 1.0 * ++n);
                    w.s("dc_set_page_transition", dc[c], t);
                    m.trans = n;
                    break;
                }
                case 6: w.s("dc_append_viewport", dc[c], w.s("viewport_new", 1.0, 2.0, 3.0, 4.0)); ++m.vps; break;
                case 7: commit(c); break;
                case 8: c ^= 1; break;
                }
            }
            for(int k = 0; k < 2; ++k) { commit(k); commit(k); }
            w.s("generator_write", w.gen);
            Doc d;
            if(!run_expect(w.s, rejected, cx, d)) return;
            auto pn = d.pages();
            if(pn.size() != pages.size()) { cx.violation("wrong number of pages"); return; }
            string all;
            for(size_t k = 0; k < pn.size(); ++k) {
                auto &o = d.objs.at(pn[k]);
                auto &m = pages[k];
                auto *t = d.dget(o, "Trans");
                auto *v = d.dget(o, "VP");
                if((t ? (int)d.need(*t, "D").num() : 0) != m.trans) cx.violation("page transition differs", "page " + to_string(k));
                if((v ? (int)v->a.size() : 0) != m.vps) cx.violation("viewports differ", "page " + to_string(k));
                if(m.nav.empty()) expect(cx, d, "navigation differs", d.dget(o, "PresSteps"), sp::absent());
                else {
                    std::vector<string> in, out;
                    for(int x : m.nav) in.push_back(x ? "b" : "a");
                    for(int x = 0; x < 2; ++x)
                        if(std::find(m.nav.begin(), m.nav.end(), x) == m.nav.end()) out.push_back(x ? "b" : "a");
                    try {
                        auto r = walks(d, o, in, out, nullptr, cx);
                        if(!r.empty()) cx.violation("navigation differs", r);
                    } catch(const std::exception &e) { cx.violation("navigation differs", e.what()); }
                }
                all += to_string(m.nav.size()) + "," + to_string(m.trans) + "," + to_string(m.vps) + ";";
            }
            cx.state(all);
        }, nullptr});
        // navigation on several pages, a second one on the same page, and together with a page transition
        auto few = std::make_shared<std::vector<std::vector<int>>>(selections(3));
        f.push_back({"two navigations", few->size() * few->size() * 4, [=](size_t i, Ctx &cx) {
            auto &s0 = (*few)[i / 4 % few->size()], &s1 = (*few)[i / 4 / few->size()];
            bool same = i & 1, trn = i & 2;
            if(s0.empty() || s1.empty()) return;
            W w;
            w.props();
            w.start();
            std::vector<V> ids, a0, a1;
            for(size_t k = 0; k < 3; ++k) ids.push_back(group(w, NAMES[k]));
            for(int k : s0) a0.push_back(ids[(size_t)k]);
            for(int k : s1) a1.push_back(ids[(size_t)k]);
            for(auto id : ids) use_ocg(w, w.dc, id);
            auto t = trans(i * 31 % NTRANS);
            auto v = make(w, t, false);
            if(trn) w.s("dc_add_simple_navigation", w.dc, a0, v);
            else w.s("dc_add_simple_navigation", w.dc, a0, null);
            if(trn) w.s("dc_set_page_transition", w.dc, v);
            if(!same) {
                w.page();
                for(auto id : ids) use_ocg(w, w.dc, id);
            }
            size_t lo = w.s.size();
            w.s("dc_add_simple_navigation", w.dc, a1, null);
            size_t hi = w.s.size();
            w.finish();
            Doc d;
            if(same ? !run_reject(w.s, lo, hi, cx, d) : !run_good(w.s, cx, d)) return;
            auto ts = trspec(t);
            auto pages = d.pages();
            auto names = [](const std::vector<int> &s, bool in) {
                std::vector<string> r;
                if(in) for(int k : s) r.push_back(NAMES[(size_t)k]);
                else
                    for(int k = 0; k < 3; ++k)
                        if(std::find(s.begin(), s.end(), k) == s.end()) r.push_back(NAMES[(size_t)k]);
                return r;
            };
            try {
                auto r = walks(d, d.objs.at(pages[0]), names(s0, true), names(s0, false), trn ? &ts : nullptr, cx);
                if(!r.empty()) cx.violation("navigation differs", r);
                if(!same) {
                    r = walks(d, d.objs.at(pages[1]), names(s1, true), names(s1, false), nullptr, cx);
                    if(!r.empty()) cx.violation("second navigation differs", r);
                }
            } catch(const std::exception &e) {
                cx.violation("navigation differs", e.what());
            }
            expect(cx, d, "page transition", d.dget(d.objs.at(pages[0]), "Trans"), trn ? ts : sp::absent());
            cx.state(to_string(i));
        }, nullptr});
        f.push_back({"viewports", 4 * 82 * 5, [](size_t i, Ctx &cx) {
            size_t n = i % 4, ms = i / 4 % 82;
            size_t box = i / 4 / 82;
            static const std::vector<std::vector<double>> B = {{0, 0, 100, 200}, {-1.5, 2.25, 3, 1000}, {50, 60, 10, 20}, {0, 0, 0, 0}, {1e5, -1e5, 0.001, 2}};
            W w;
            w.props();
            w.start();
            std::vector<sp::Sp> want;
            size_t salt = i;
            for(size_t k = 0; k < n; ++k) {
                auto &b = B[(box + k) % 5];
                auto vp = w.s("viewport_new", b[0], b[1], b[2], b[3]);
                std::vector<double> r{std::min(b[0], b[2]), std::min(b[1], b[3]), std::max(b[0], b[2]), std::max(b[1], b[3])};
                auto rect = [=](const Doc &d, const Obj *o) { // any two opposite corners
                    if(!o || o->t != Obj::Arr || o->a.size() != 4) return string("not a rectangle");
                    double q[4];
                    for(int j = 0; j < 4; ++j) q[j] = d.deref(o->a[(size_t)j]).num();
                    std::vector<double> g{std::min(q[0], q[2]), std::min(q[1], q[3]), std::max(q[0], q[2]), std::max(q[1], q[3])};
                    for(size_t j = 0; j < 4; ++j)
                        if(!close(g[j], r[j])) return "is " + pdf::show(*o, 1);
                    return string();
                };
                sp::Dict v{{"Type", sp::def(sp::name("Viewport"))}, {"BBox", rect}};
                if(ms < 81) {
                    auto m = w.s("measure_new");
                    std::vector<sp::Sp> x, y, dd, a;
                    size_t s = (ms + k) % 81;
                    number_formats(w, m, "X", (int)(s % 3), x, salt);
                    number_formats(w, m, "A", (int)(s / 27), a, salt);
                    number_formats(w, m, "Y", (int)(s / 3 % 3), y, salt);
                    number_formats(w, m, "D", (int)(s / 9 % 3), dd, salt);
                    w.s("viewport_set_measure", vp, m);
                    w.s("measure_destroy", m);
                    sp::Dict md{{"Type", sp::def(sp::name("Measure"))}, {"Subtype", sp::def(sp::name("RL"))}, {"R", sp::text("")}, {"X", sp::arr(x)}, {"D", sp::arr(dd)}, {"A", sp::arr(a)}};
                    if(!y.empty()) md.push_back({"Y", sp::arr(y)});
                    v.push_back({"Measure", sp::dict(md)});
                }
                w.s("dc_append_viewport", w.dc, vp);
                w.s("viewport_destroy", vp);
                want.push_back(sp::dict(v));
            }
            w.page();
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto *o = d.dget(d.objs.at(d.pages().at(0)), "VP");
            expect(cx, d, "viewports", o, n ? sp::arr(want) : sp::absent());
            expect(cx, d, "viewports of the next page", d.dget(d.objs.at(d.pages().at(1)), "VP"), sp::absent());
            cx.state(o ? pdf::show(*o, 4) : "");
        }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
