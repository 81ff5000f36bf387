// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "spec.hpp"
#include <lcms2.h>
using namespace mc;
namespace sp = mc::spec;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;
typedef std::vector<double> D;

static double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
static const char *CS[] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
static const int NC[] = {3, 1, 4};
static const char *PROFILE[] = {"compatibleWithAdobeRGB1998.icc", "", "FOGRA29L.icc"};

// Profiles of every channel count.
static string small_cmyk() { // the ones in the repository are large
    auto h = cmsCreateProfilePlaceholder(nullptr);
    cmsSetProfileVersion(h, 2.1);
    cmsSetDeviceClass(h, cmsSigOutputClass);
    cmsSetColorSpace(h, cmsSigCmykData);
    cmsSetPCS(h, cmsSigLabData);
    auto tag = [&](cmsTagSignature sig, int in, int out) {
        auto *p = cmsPipelineAlloc(nullptr, (cmsUInt32Number)in, (cmsUInt32Number)out);
        auto *st = cmsStageAllocCLut16bit(nullptr, 2, (cmsUInt32Number)in, (cmsUInt32Number)out, nullptr);
        cmsStageSampleCLut16bit(st, [](const cmsUInt16Number *a, cmsUInt16Number *b, void *n) -> cmsInt32Number {
            int k = *(int *)n;
            for(int i = 0; i < k; ++i) b[i] = (cmsUInt16Number)(65535 - a[i % 3]);
            return 1;
        }, &out, 0);
        cmsPipelineInsertStage(p, cmsAT_END, st);
        cmsWriteTag(h, sig, p);
        cmsPipelineFree(p);
    };
    tag(cmsSigAToB0Tag, 4, 3);
    tag(cmsSigBToA0Tag, 3, 4);
    cmsWriteTag(h, cmsSigMediaWhitePointTag, cmsD50_XYZ());
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(h, nullptr, &n);
    string r(n, 0);
    cmsSaveProfileToMem(h, r.data(), &n);
    cmsCloseProfile(h);
    for(size_t i = 24; i < 36; ++i) r[i] = 1;
    return r;
}
static const string &icc_bytes(int k) { // 0 RGB 1 gray 2 CMYK 3 another CMYK 4 a small CMYK
    static const std::vector<string> all = [] {
        std::vector<string> r;
        auto dir = repo_dir() + "/testdata/icc/";
        r.push_back(read_file(dir + "compatibleWithAdobeRGB1998.icc"));
        auto *curve = cmsBuildGamma(nullptr, 2.2);
        auto h = cmsCreateGrayProfile(cmsD50_xyY(), curve);
        cmsFreeToneCurve(curve);
        cmsUInt32Number n = 0;
        cmsSaveProfileToMem(h, nullptr, &n);
        string g(n, 0);
        cmsSaveProfileToMem(h, g.data(), &n);
        cmsCloseProfile(h);
        for(size_t i = 24; i < 36; ++i) g[i] = 1; // the date of creation
        r.push_back(g);
        r.push_back(read_file(dir + "FOGRA29L.icc"));
        r.push_back(read_file(dir + "FOGRA30L.icc"));
        r.push_back(small_cmyk());
        return r;
    }();
    return all[(size_t)k];
}
static const int ICC_N[] = {3, 1, 4, 4, 4};

// --- what a viewer knows about the current colours
struct Col {
    string space = "DeviceGray";
    D v = {0};
    string pattern;
    string text() const {
        string r = space;
        for(auto x : v) r += " " + show(X("", x));
        return r + pattern;
    }
    bool same(const Col &o) const {
        if(space != o.space || pattern != o.pattern || v.size() != o.v.size()) return false;
        for(size_t i = 0; i < v.size(); ++i)
            if(!close(v[i], o.v[i])) return false;
        return true;
    }
};
struct Cols { Col s, n; };
static string space_of(const Doc &d, const Obj &o) {
    if(o.t == Obj::Arr) {
        auto &h = d.deref(o.a.at(0));
        if(h.isname("ICCBased")) {
            auto &st = d.deref(o.a.at(1));
            return "icc" + to_string(d.need(st, "N").i) + ":" + to_string(pdf::hash(d.stream_data(st)));
        }
        if(h.isname("Separation")) {
            string alt = d.deref(o.a.at(2)).s;
            return "sep " + d.deref(o.a.at(1)).s + " " + alt;
        }
        if(h.isname("Lab")) {
            string r = "lab";
            for(auto *k : {"WhitePoint", "Range"}) {
                auto *x = d.dget(d.deref(o.a.at(1)), k);
                r += ":";
                if(x) for(auto &e : x->a) r += " " + show(X("", e.num()));
                else r += " -100.0 100.0 -100.0 100.0";
            }
            return r;
        }
    }
    return o.s;
}
static bool ranged(const string &space) { return space.compare(0, 3, "lab") != 0; }
// Values outside the range of a component mean the nearest valid value, for every reader.
static void clamp(Col &c) {
    if(!ranged(c.space)) return;
    for(auto &x : c.v) x = clamp01(x);
}
static std::vector<Cols> painted(const Doc &d, const std::vector<pdf::COp> &ops, const Obj *res) {
    std::vector<Cols> out, stack;
    Cols c;
    auto lookup = [&](const char *kind, const string &name) -> const Obj * {
        if(!res) return nullptr;
        auto *k = d.dget(*res, kind);
        return k ? d.dget(*k, name) : nullptr;
    };
    for(auto &o : ops) {
        bool stroke = !o.op.empty() && isupper((unsigned char)o.op[0]);
        auto &col = stroke ? c.s : c.n;
        auto dev = [&](const char *space) {
            col = Col{space, {}, {}};
            for(auto &a : o.a) col.v.push_back(a.num());
            clamp(col);
        };
        if(o.op == "RG" || o.op == "rg") dev("DeviceRGB");
        else if(o.op == "G" || o.op == "g") dev("DeviceGray");
        else if(o.op == "K" || o.op == "k") dev("DeviceCMYK");
        else if(o.op == "CS" || o.op == "cs") {
            auto &n = o.a.at(0).s;
            auto *r = lookup("ColorSpace", n);
            bool builtin = n == "DeviceRGB" || n == "DeviceGray" || n == "DeviceCMYK" || n == "Pattern";
            if(!r && !builtin) throw pdf::ParseError("colour space " + n + " is not a resource");
            col = Col{r ? space_of(d, *r) : n, {}, {}};
        } else if(o.op == "SCN" || o.op == "scn" || o.op == "SC" || o.op == "sc") {
            col.v.clear();
            col.pattern.clear();
            for(auto &a : o.a)
                if(a.isnum()) col.v.push_back(a.num());
                else {
                    auto *p = lookup("Pattern", a.s);
                    if(!p) throw pdf::ParseError("pattern " + a.s + " is not a resource");
                    if(col.space != "Pattern") throw pdf::ParseError("a pattern in colour space " + col.space);
                    col.pattern = label(d, *p);
                }
            clamp(col);
        } else if(o.op == "q") stack.push_back(c);
        else if(o.op == "Q") {
            if(stack.empty()) throw pdf::ParseError("Q without q");
            c = stack.back();
            stack.pop_back();
        } else if(o.op == "B" || o.op == "f" || o.op == "S" || o.op == "TJ" || o.op == "Tj") out.push_back(c);
    }
    return out;
}

// --- the colours that are set
struct Pick {
    string name;
    std::function<V(W &)> color; // a colour object; empty: the operator below
    std::function<void(W &, V, bool)> op;
    Col want;
};
static V dev_color(W &w, int cs, const D &v) {
    auto c = w.s("color_new");
    if(cs == 0) w.s("color_set_rgb", c, v[0], v[1], v[2]);
    else if(cs == 1) w.s("color_set_gray", c, v[0]);
    else w.s("color_set_cmyk", c, v[0], v[1], v[2], v[3]);
    return c;
}
static void dev_op(W &w, V dc, bool stroke, int cs, const D &v) {
    if(cs == 0) w.s(stroke ? "dc_cmd_RG" : "dc_cmd_rg", dc, v[0], v[1], v[2]);
    else if(cs == 1) w.s(stroke ? "dc_cmd_G" : "dc_cmd_g", dc, v[0]);
    else w.s(stroke ? "dc_cmd_K" : "dc_cmd_k", dc, v[0], v[1], v[2], v[3]);
}
static Col dev_want(int cs, const D &v) {
    Col c{CS[cs], {}, {}};
    for(int i = 0; i < NC[cs]; ++i) c.v.push_back(clamp01(v[(size_t)i]));
    return c;
}
static V icc(W &w, int k) {
    return w.res("icc" + to_string(k), [&] { return w.s("generator_add_icc_profile", w.gen, icc_bytes(k), ICC_N[k]); });
}
static string icc_space(int k) { return "icc" + to_string(ICC_N[k]) + ":" + to_string(pdf::hash(icc_bytes(k))); }
static V sepk(W &w, int cs, const string &name) {
    return w.res("sep" + to_string(cs) + name, [&] {
        static const char *code[] = {"{dup dup}", "{1 exch sub}", "{dup dup dup}"};
        D range;
        for(int i = 0; i < NC[cs]; ++i) range.push_back(0), range.push_back(1);
        auto f = w.s("type4_function_new", D{0, 1}, range, code[cs]);
        return w.s("generator_add_separation", w.gen, name, cs, w.s("generator_add_function", w.gen, f));
    });
}
struct LabCS { double w[3], r[4]; };
static const LabCS LABS[] = {{{0.9505, 1, 1.089}, {-100, 100, -110, 110}}, {{0.9642, 1, 0.8249}, {-128, 127, -128, 127}}, {{1.0985, 1, 0.3558}, {-50.5, 60.25, -70, 0}}, {{0.000125, 1, 2}, {0, 0, -1e-3, 1e3}}, {{0.5, 1, 0.75}, {-90, 40, -30, 70}}};
static V labk(W &w, int k) {
    auto &l = LABS[k];
    return w.res("lab" + to_string(k), [&] { return w.s("generator_add_lab_colorspace", w.gen, l.w[0], l.w[1], l.w[2], l.r[0], l.r[1], l.r[2], l.r[3]); });
}
static string lab_space(int k) {
    auto &l = LABS[k];
    string r = "lab:";
    for(auto x : l.w) r += " " + show(X("", x));
    r += ":";
    for(auto x : l.r) r += " " + show(X("", x));
    return r;
}
static const std::vector<Pick> &picks() {
    static const std::vector<Pick> all = [] {
        std::vector<Pick> r;
        static const D A{0.125, 0.25, 0.5, 0.75}, Bv{0.9, 0.1, 0.3, 0.2};
        for(int cs = 0; cs < 3; ++cs) {
            r.push_back({string("color ") + CS[cs], [=](W &w) { return dev_color(w, cs, A); }, {}, dev_want(cs, A)});
            r.push_back({string("op ") + CS[cs], {}, [=](W &w, V dc, bool s) { dev_op(w, dc, s, cs, Bv); }, dev_want(cs, Bv)});
        }
        for(int k : {0, 4}) r.push_back({"icc" + to_string(k), [=](W &w) {
            auto c = w.s("color_new");
            w.s("color_set_icc", c, icc(w, k), D(A.begin(), A.begin() + ICC_N[k]));
            return c;
        }, {}, Col{icc_space(k), D(A.begin(), A.begin() + ICC_N[k]), {}}});
        r.push_back({"sep", [](W &w) { auto c = w.s("color_new"); w.s("color_set_separation", c, sepk(w, 2, "Gold"), 0.375); return c; }, {}, Col{"sep Gold DeviceCMYK", {0.375}, {}}});
        r.push_back({"lab", [](W &w) { auto c = w.s("color_new"); w.s("color_set_lab", c, labk(w, 0), 50.5, -20.25, 30.0); return c; }, {}, Col{lab_space(0), {50.5, -20.25, 30}, {}}});
        r.push_back({"pattern", [](W &w) { auto c = w.s("color_new"); w.s("color_set_pattern", c, w.tiling(0)); return c; }, {}, Col{"Pattern", {}, tiling_label(0)}});
        r.push_back({"shading", [](W &w) { auto c = w.s("color_new"); w.s("color_set_pattern", c, w.shpat(1)); return c; }, {}, Col{"Pattern", {}, shpat_label(1)}});
        return r;
    }();
    return all;
}
enum Place { STROKE, FILL, TSTROKE, TFILL, NPLACE };
static void apply(W &w, V dc, const Pick &p, int place, V font) {
    bool stroke = place == STROKE || place == TSTROKE;
    if(p.op) { p.op(w, dc, stroke); return; }
    auto c = p.color(w);
    if(place == STROKE) w.s("dc_set_stroke", dc, c);
    else if(place == FILL) w.s("dc_set_nonstroke", dc, c);
    else {
        auto t = w.s("dc_text_new", dc);
        w.s("text_cmd_Tf", t, font, 12.0);
        w.s(stroke ? "text_set_stroke" : "text_set_nonstroke", t, c);
        w.s("text_cmd_Tj", t, "x");
        w.s("dc_render_text_obj", dc, t);
        w.s("text_destroy", t);
    }
    w.s("color_destroy", c);
}
static void paint(W &w, V dc) {
    w.s("dc_cmd_re", dc, 1.0, 2.0, 3.0, 4.0);
    w.s("dc_cmd_B", dc);
}
static void compare(Ctx &cx, const Doc &d, const std::vector<Cols> &got, const std::vector<Cols> &want) {
    if(got.size() != want.size()) { cx.violation("painting operators", to_string(got.size()) + " instead of " + to_string(want.size())); return; }
    string st;
    for(size_t i = 0; i < got.size(); ++i) {
        if(!got[i].s.same(want[i].s)) { cx.violation("stroke colour", "operator " + to_string(i) + ": " + got[i].s.text() + " expected " + want[i].s.text()); return; }
        if(!got[i].n.same(want[i].n)) { cx.violation("fill colour", "operator " + to_string(i) + ": " + got[i].n.text() + " expected " + want[i].n.text()); return; }
        st += got[i].s.text() + "|" + got[i].n.text() + "\n";
    }
    (void)d;
    cx.state(st);
    cx.transitions(got.size());
}
static V commit(W &w, int kind, V c) { // returns what draws it, unset for a page
    switch(kind) {
    case 1: w.s("generator_add_form_xobject", w.gen, c); break;
    case 2: w.s("generator_add_transparency_group", w.gen, c); break;
    case 3: w.s("generator_add_tiling_pattern", w.gen, c); break;
    }
    return {};
}
// the content of the only context of the kind
static std::vector<Cols> look(const Doc &d, int kind) {
    if(kind == 0) {
        auto p = d.pages();
        auto *r = d.inherited(p.at(0), "Resources");
        return painted(d, d.page_ops(p.at(0)), r);
    }
    const char *bbox[] = {"", "100 90", "101 90", "102 90"};
    for(auto &[n, o] : d.objs) {
        if(o.t != Obj::Stream) continue;
        auto *b = d.dget(o, "BBox");
        if(!b || b->a.size() != 4) continue;
        auto s = to_string((int)d.deref(b->a[2]).num()) + " " + to_string((int)d.deref(b->a[3]).num());
        if(s == bbox[kind]) return painted(d, pdf::parse_content(d.stream_data(o)), d.dget(o, "Resources"));
    }
    throw pdf::ParseError("the context is not in the document");
}

// --- histories: colours are set, saved and restored, in every order
struct Step { int pick = 0, place = 0; }; // pick -1: q, -2: Q
static std::vector<Step> steps() {
    static const std::vector<Step> all = [] {
        std::vector<Step> r{{-1, 0}, {-2, 0}};
        for(int p = 0; p < (int)picks().size(); ++p)
            for(int l = 0; l < NPLACE; ++l)
                if(!(picks()[(size_t)p].op && l >= TSTROKE)) r.push_back({p, l});
        return r;
    }();
    return all;
}
static void out_props(W &w, int out) {
    w.props();
    if(out == 2) {
        write_file(scratch() + "/cmyk.icc", icc_bytes(4));
        w.s("document_properties_set_device_profile", w.md, 2, "$OUT/cmyk.icc");
        w.s("document_properties_set_colorspace", w.md, 2);
    } else if(out >= 0) w.s("document_properties_set_colorspace", w.md, out);
}
static void history(const std::vector<Step> &seq, int kind, int out, Ctx &cx) {
    W w;
    out_props(w, out);
    w.start();
    auto font = w.fontk(0);
    V dc = kind ? w.context(kind) : w.dc;
    std::vector<Cols> want, stack;
    Cols cur;
    for(auto &s : seq) {
        if(s.pick == -1) { w.s("dc_cmd_q", dc); stack.push_back(cur); continue; }
        if(s.pick == -2) {
            if(stack.empty()) return; // C02
            w.s("dc_cmd_Q", dc);
            cur = stack.back();
            stack.pop_back();
            paint(w, dc);
            want.push_back(cur);
            continue;
        }
        auto &p = picks()[(size_t)s.pick];
        apply(w, dc, p, s.place, font);
        (s.place == STROKE || s.place == TSTROKE ? cur.s : cur.n) = p.want;
        if(s.place >= TSTROKE) want.push_back(cur);
        paint(w, dc);
        want.push_back(cur);
    }
    while(!stack.empty()) { w.s("dc_cmd_Q", dc); stack.pop_back(); }
    if(kind) commit(w, kind, dc);
    w.finish();
    Doc d;
    if(!run_good(w.s, cx, d)) return;
    compare(cx, d, look(d, kind), want);
}

// --- values
static const std::vector<double> VAL = {0, 1, 0.5, 1.0 / 3, 1e-9, 0.999999, -1, 2, 1e30, -1e-30};
static void value_case(size_t i, Ctx &cx) {
    int cs = (int)(i % 3); i /= 3;
    int how = (int)(i % 5); i /= 5; // four places and the operators (stroke and fill)
    int out = (int)(i % 3); i /= 3;
    size_t pos = i % 4; i /= 4;     // which component has the value
    if((int)pos >= NC[cs]) return;
    double x = VAL[i % VAL.size()];
    D v{0.125, 0.25, 0.5, 0.75};
    v[pos] = x;
    W w;
    out_props(w, out);
    w.start();
    auto font = w.fontk(0);
    Cols cur;
    std::vector<Cols> want;
    if(how == 4) {
        dev_op(w, w.dc, true, cs, v);
        cur.s = dev_want(cs, v);
        paint(w, w.dc);
        want.push_back(cur);
        dev_op(w, w.dc, false, cs, v);
        cur.n = dev_want(cs, v);
    } else {
        Pick p{"", [&](W &ww) { return dev_color(ww, cs, v); }, {}, dev_want(cs, v)};
        apply(w, w.dc, p, how, font);
        (how == STROKE || how == TSTROKE ? cur.s : cur.n) = p.want;
        if(how >= TSTROKE) want.push_back(cur);
    }
    paint(w, w.dc);
    want.push_back(cur);
    w.finish();
    Doc d;
    if(!run_good(w.s, cx, d)) return;
    compare(cx, d, look(d, 0), want);
}

// --- ICC based colours: number of values against number of channels, and how the profile got there
static void icc_case(size_t i, Ctx &cx) {
    int k = (int)(i % 5); i /= 5;      // profile
    int n = (int)(i % 6); i /= 6;      // number of values
    int load = (int)(i % 5); i /= 5;   // how
    int place = (int)(i % NPLACE);
    W w;
    w.props();
    if(load == 4) { // it is the output profile, too
        w.s("document_properties_set_device_profile", w.md, k == 0 ? 0 : k == 1 ? 1 : 2, k == 0 ? "$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc" : k == 2 ? "$REPO/testdata/icc/FOGRA29L.icc" : "$REPO/testdata/icc/FOGRA30L.icc");
        if(k == 1 || k == 4) return; // no such file
        w.s("document_properties_set_colorspace", w.md, k == 0 ? 0 : 2);
    }
    w.start();
    auto font = w.fontk(0);
    static const char *file[] = {"compatibleWithAdobeRGB1998.icc", "", "FOGRA29L.icc", "FOGRA30L.icc", ""};
    auto from_file = [&] { return w.s("generator_load_icc_profile", w.gen, string("$REPO/testdata/icc/") + file[k]); };
    auto from_mem = [&](int kk) { return w.s("generator_add_icc_profile", w.gen, icc_bytes(kk), ICC_N[kk]); };
    V id;
    switch(load) {
    case 0: id = from_mem(k); break;
    case 1: if(!*file[k]) return; id = from_file(); break;
    case 2: from_mem((k + 1) % 4); id = from_mem(k); from_mem((k + 2) % 4); break;
    case 3: if(!*file[k]) return; from_mem((k + 3) % 4); from_file(); from_mem(k); id = from_file(); break;
    default: if(k != 1) from_mem((k + 1) % 4); id = from_mem(k);
    }
    D v;
    for(int c = 0; c < n; ++c) v.push_back(0.125 + 0.2 * c);
    if(n > 1) v[1] = 1.5; // out of range
    auto c = w.s("color_new");
    size_t lo = w.s.size();
    w.s("color_set_icc", c, id, v);
    size_t hi;
    std::vector<Cols> want;
    Cols cur;
    Col cc{icc_space(k), v, {}};
    clamp(cc);
    if(place <= FILL) {
        w.s(place == STROKE ? "dc_set_stroke" : "dc_set_nonstroke", w.dc, c);
        hi = w.s.size();
    } else {
        auto t = w.s("dc_text_new", w.dc);
        w.s("text_cmd_Tf", t, font, 12.0);
        w.s(place == TSTROKE ? "text_set_stroke" : "text_set_nonstroke", t, c);
        w.s("text_cmd_Tj", t, "x");
        w.s("dc_render_text_obj", w.dc, t);
        hi = w.s.size();
    }
    bool good = n == ICC_N[k];
    if(good) {
        (place == STROKE || place == TSTROKE ? cur.s : cur.n) = cc;
        if(place >= TSTROKE) want.push_back(cur);
    }
    paint(w, w.dc);
    want.push_back(cur);
    w.finish();
    Doc d;
    if(!(good ? run_good(w.s, cx, d) : run_reject(w.s, lo, hi, cx, d))) return;
    compare(cx, d, look(d, 0), want);
    // every profile is there once, unaltered, with its own number of channels
    std::map<uint64_t, int> seen;
    for(auto &[num, o] : d.objs) {
        if(o.t != Obj::Arr || o.a.size() != 2 || !d.deref(o.a[0]).isname("ICCBased")) continue;
        auto h = pdf::hash(d.stream_data(d.deref(o.a[1])));
        int n2 = (int)d.need(d.deref(o.a[1]), "N").i;
        bool known = false;
        for(int q = 0; q < 5; ++q)
            if(pdf::hash(icc_bytes(q)) == h) { known = true; if(n2 != ICC_N[q]) cx.violation("wrong number of channels", to_string(n2)); }
        if(!known) cx.violation("a profile is altered");
        if(seen[h]++) cx.violation("a profile is embedded twice");
    }
}
// declared channels against those of the profile, and things that are no profiles
static void icc_bad(size_t i, Ctx &cx) {
    int k = (int)(i % 8), n = (int)(i / 8 % 7);
    W w;
    w.props();
    w.start();
    string data = k < 4 ? icc_bytes(k) : k == 4 ? "" : k == 5 ? "not a profile at all" : k == 6 ? icc_bytes(0).substr(0, 100) : string(4096, '\0');
    size_t lo = w.s.size();
    w.s("generator_add_icc_profile", w.gen, data, n);
    size_t hi = w.s.size();
    w.finish();
    Doc d;
    bool good = k < 4 && n == ICC_N[k];
    if(good) run_good(w.s, cx, d);
    else run_reject(w.s, lo, hi, cx, d);
    cx.state(to_string(good) + to_string(k));
}
static void sep_case(size_t i, Ctx &cx) {
    static const std::vector<double> TINT = {0, 1, 0.5, 1e-9, 1.0 / 3, -1e-9, 1.0000001, -5, 1e30};
    int cs = (int)(i % 3); i /= 3;
    int place = (int)(i % NPLACE); i /= NPLACE;
    double t = TINT[i % TINT.size()]; i /= TINT.size();
    static const char *NAMES[] = {"Gold", "All", "None", "Pantone 123 C"};
    string name = NAMES[i % 4];
    W w;
    w.props();
    w.start();
    auto font = w.fontk(0);
    sepk(w, (cs + 1) % 3, "Other");
    auto id = sepk(w, cs, name);
    auto c = w.s("color_new");
    size_t lo = w.s.size();
    w.s("color_set_separation", c, id, t);
    bool good = t >= 0 && t <= 1;
    Cols cur;
    std::vector<Cols> want;
    if(good) {
        Pick p{"", [&](W &) { return c; }, {}, Col{"sep " + name + " " + CS[cs], {t}, {}}};
        apply(w, w.dc, p, place, font);
        (place == STROKE || place == TSTROKE ? cur.s : cur.n) = p.want;
        if(place >= TSTROKE) want.push_back(cur);
    }
    paint(w, w.dc);
    want.push_back(cur);
    w.finish();
    Doc d;
    if(!(good ? run_good(w.s, cx, d) : run_reject(w.s, lo, lo + 1, cx, d))) return;
    compare(cx, d, look(d, 0), want);
}
static void lab_case(size_t i, Ctx &cx) {
    static const double L[] = {0, 100, 50.5, 33.333333}, AB[] = {-20.25, 0, 30, 0.000125};
    int k = (int)(i % 5); i /= 5;
    int place = (int)(i % NPLACE); i /= NPLACE;
    D v{L[i % 4], AB[i / 4 % 4], AB[i / 16 % 4]};
    W w;
    w.props();
    w.start();
    auto font = w.fontk(0);
    labk(w, (k + 1) % 5);
    labk(w, k);
    Pick p{"", [&](W &ww) { auto c = ww.s("color_new"); ww.s("color_set_lab", c, labk(ww, k), v[0], v[1], v[2]); return c; }, {}, Col{lab_space(k), v, {}}};
    Cols cur;
    std::vector<Cols> want;
    apply(w, w.dc, p, place, font);
    (place == STROKE || place == TSTROKE ? cur.s : cur.n) = p.want;
    if(place >= TSTROKE) want.push_back(cur);
    paint(w, w.dc);
    want.push_back(cur);
    w.finish();
    Doc d;
    if(!run_good(w.s, cx, d)) return;
    compare(cx, d, look(d, 0), want);
}
// one colour object, changed again and again: each use has the value of its time
static void object_case(size_t i, Ctx &cx) {
    auto &P = picks();
    std::vector<const Pick *> objs;
    for(auto &p : P)
        if(!p.op) objs.push_back(&p);
    size_t n = objs.size();
    size_t a = i % n, b = i / n % n;
    int pa = (int)(i / n / n % NPLACE), pb = (int)(i / n / n / NPLACE % NPLACE);
    W w;
    w.props();
    w.start();
    auto font = w.fontk(0);
    V c = w.s("color_new");
    auto set = [&](size_t k) { // like the pick, on the same object
        size_t from = w.s.size();
        auto fresh = objs[k]->color(w);
        for(size_t q = from; q < w.s.size(); ++q)
            for(auto &x : w.s.ops[q].a)
                if(x.k == Val::VAR && x.i == fresh.slot) x.i = c.slot;
    };
    Cols cur;
    std::vector<Cols> want;
    auto text = w.s("dc_text_new", w.dc);
    w.s("text_cmd_Tf", text, font, 12.0);
    bool texts = false;
    auto use = [&](size_t k, int place) {
        bool st = place == STROKE || place == TSTROKE;
        if(place >= TSTROKE) {
            w.s(st ? "text_set_stroke" : "text_set_nonstroke", text, c);
            w.s("text_cmd_Tj", text, "x");
            texts = true;
        } else {
            w.s(st ? "dc_set_stroke" : "dc_set_nonstroke", w.dc, c);
            paint(w, w.dc);
            (st ? cur.s : cur.n) = objs[k]->want;
            want.push_back(cur);
        }
    };
    set(a);
    use(a, pa);
    set(b);
    use(b, pb);
    set((b + 1) % n); // and changed before the text is shown
    if(texts) {
        w.s("dc_render_text_obj", w.dc, text);
        for(auto [k, place] : {std::pair{a, pa}, std::pair{b, pb}})
            if(place >= TSTROKE) {
                (place == TSTROKE ? cur.s : cur.n) = objs[k]->want;
                want.push_back(cur);
            }
    }
    w.finish();
    Doc d;
    if(!run_good(w.s, cx, d)) return;
    compare(cx, d, look(d, 0), want);
}

// --- images are converted with the profiles of the document
static V raw_image(W &w, int cs, int width, int height, const string &px, const string &alpha, int adepth, int depth = 8) {
    auto rb = w.s("raster_image_builder_new");
    w.s("raster_image_builder_set_size", rb, width, height);
    w.s("raster_image_builder_set_pixel_depth", rb, depth);
    w.s("raster_image_builder_set_colorspace", rb, cs);
    w.s("raster_image_builder_set_pixel_data", rb, px);
    if(adepth) {
        w.s("raster_image_builder_set_alpha_depth", rb, adepth);
        w.s("raster_image_builder_set_alpha_data", rb, alpha);
    }
    return w.s("raster_image_builder_build", rb);
}
static cmsHPROFILE profile(int cs, bool given, const string *own) {
    if(own) return cmsOpenProfileFromMem(own->data(), (cmsUInt32Number)own->size());
    if(given && cs != 1) { auto &b = icc_bytes(cs); return cmsOpenProfileFromMem(b.data(), (cmsUInt32Number)b.size()); }
    if(given) { auto &b = icc_bytes(1); return cmsOpenProfileFromMem(b.data(), (cmsUInt32Number)b.size()); }
    if(cs == 0) return cmsCreate_sRGBProfile();
    if(cs == 1) {
        auto *curve = cmsBuildGamma(nullptr, 1.0);
        auto h = cmsCreateGrayProfile(cmsD50_xyY(), curve);
        cmsFreeToneCurve(curve);
        return h;
    }
    return nullptr;
}
static const uint32_t FMT[] = {TYPE_RGB_8, TYPE_GRAY_8, TYPE_CMYK_8};
static const uint32_t INTENT[] = {INTENT_RELATIVE_COLORIMETRIC, INTENT_ABSOLUTE_COLORIMETRIC, INTENT_SATURATION, INTENT_PERCEPTUAL};
static string pixels(int cs, int w, int h) {
    string r;
    uint32_t x = 12345;
    for(int i = 0; i < w * h * NC[cs]; ++i) {
        x = x * 1664525 + 1013904223;
        unsigned v = x >> 24;
        r += (char)(i < 16 ? (i % 2 ? 255 : 0) : i % 7 == 0 ? 255 : i % 5 == 0 ? 0 : v);
    }
    return r;
}
static void convert_case(size_t i, Ctx &cx) {
    int src = (int)(i % 3); i /= 3;
    int dst = (int)(i % 3); i /= 3;
    int intent = (int)(i % 4); i /= 4;
    int have = (int)(i % 8); i /= 8;         // which profiles the document has
    int size = (int)(i % 3); i /= 3;
    int adepth = (int)(i % 3) == 0 ? 0 : (int)(i % 3) == 1 ? 8 : 1;
    static const int WH[][2] = {{1, 1}, {13, 5}, {64, 3}};
    int wd = WH[size][0], ht = WH[size][1];
    W w;
    w.props();
    write_file(scratch() + "/gray.icc", icc_bytes(1));
    for(int c = 0; c < 3; ++c)
        if(have >> c & 1) w.s("document_properties_set_device_profile", w.md, c, c == 1 ? string("$OUT/gray.icc") : string("$REPO/testdata/icc/") + PROFILE[c]);
    w.start();
    auto px = pixels(src, wd, ht);
    string al;
    if(adepth)
        for(int k = 0; k < (wd * adepth + 7) / 8 * ht; ++k) al += (char)(k * 53 + 7);
    auto im = raw_image(w, src, wd, ht, px, al, adepth);
    size_t lo = w.s.size();
    auto out = w.s("generator_convert_image", w.gen, im, dst, intent);
    bool good = !((src == 2 || dst == 2) && !(have & 4));
    Doc d;
    if(!good) {
        w.finish();
        run_expect(w.s, {lo}, cx, d);
        cx.state("rejected");
        return;
    }
    auto ip = w.s("image_pdf_properties_new");
    auto id = w.s("generator_add_image", w.gen, out, ip);
    w.s("dc_cmd_Do_image", w.dc, id);
    // the source is still what it was
    auto id2 = w.s("generator_add_image", w.gen, im, ip);
    w.s("dc_cmd_Do_image", w.dc, id2);
    w.finish();
    if(!run_good(w.s, cx, d)) return;
    string want((size_t)(wd * ht * NC[dst]), 0);
    auto a = profile(src, have >> src & 1, nullptr), b = profile(dst, have >> dst & 1, nullptr);
    auto t = cmsCreateTransform(a, FMT[src], b, FMT[dst], INTENT[intent], 0);
    if(!t) { cx.violation("the oracle has no transform"); return; }
    cmsDoTransform(t, px.data(), want.data(), (cmsUInt32Number)(wd * ht));
    cmsDeleteTransform(t);
    cmsCloseProfile(a);
    cmsCloseProfile(b);
    auto &page = d.objs.at(d.pages().at(0));
    std::vector<const Obj *> used;
    for(auto &o : d.page_ops(d.pages().at(0)))
        if(o.op == "Do") used.push_back(d.dget(*d.dget(*d.dget(page, "Resources"), "XObject"), o.a.at(0).s));
    if(used.size() != 2) { cx.violation("two images expected"); return; }
    for(int k = 0; k < 2; ++k) {
        auto &o = *used[(size_t)k];
        int cs = k ? src : dst;
        if(d.need(o, "Width").i != wd || d.need(o, "Height").i != ht || d.need(o, "BitsPerComponent").i != 8) cx.violation("image size or depth");
        if(!d.need(o, "ColorSpace").isname(CS[cs])) cx.violation("image colour space", pdf::show(d.need(o, "ColorSpace"), 2));
        if(d.stream_data(o) != (k ? px : want)) cx.violation(k ? "the source image is altered" : "converted pixels");
        auto *sm = d.dget(o, "SMask");
        if((sm != nullptr) != (adepth != 0)) cx.violation("transparency lost or invented");
        if(sm && (d.need(*sm, "BitsPerComponent").i != adepth || d.stream_data(*sm) != al)) cx.violation("transparency altered");
    }
    cx.state(to_string(dst) + to_string(pdf::hash(want)));
}
// images that cannot be converted are rejected: wrong depth, too little or too much data, no data, compressed data
static void convert_bad(size_t i, Ctx &cx) {
    int src = (int)(i % 3); i /= 3;
    int dst = (int)(i % 3); i /= 3;
    int what = (int)(i % 9);
    W w;
    w.props();
    w.s("document_properties_set_device_profile", w.md, 2, "$REPO/testdata/icc/FOGRA29L.icc");
    w.start();
    int wd = 6, ht = 4, depth = 8;
    auto px = pixels(src, wd, ht);
    switch(what) {
    case 0: depth = 1; px = string((size_t)((wd * NC[src] + 7) / 8 * ht), 'x'); break;
    case 1: depth = 16; px += px; break;
    case 2: depth = 4; px = px.substr(0, px.size() / 2); break;
    case 3: depth = 2; px = px.substr(0, (size_t)((wd * 2 * NC[src] + 7) / 8 * ht)); break;
    case 4: px.pop_back(); break;
    case 5: px = ""; break;
    case 6: px = px.substr(0, 1); break;
    case 7: wd = 0; break;
    case 8: ht = 0; break;
    }
    size_t lo = w.s.size();
    auto im = raw_image(w, src, wd, ht, px, "", 0, depth);
    w.s("generator_convert_image", w.gen, im, dst, 0);
    size_t hi = w.s.size();
    w.finish();
    Doc d;
    run_reject(w.s, lo, hi, cx, d);
    cx.state(to_string(what));
}
// PNG files with an embedded profile are converted from that profile
#include <png.h>
static string png_file(const string &icc, int cs, int wd, int ht, const string &px) {
    string out;
    auto *p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    auto *info = png_create_info_struct(p);
    png_set_write_fn(p, &out, [](png_structp q, png_bytep data, size_t n) { ((string *)png_get_io_ptr(q))->append((char *)data, n); }, [](png_structp) {});
    png_set_IHDR(p, info, (png_uint_32)wd, (png_uint_32)ht, 8, cs == 1 ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if(!icc.empty()) png_set_iCCP(p, info, "p", 0, (png_const_bytep)icc.data(), (png_uint_32)icc.size());
    png_write_info(p, info);
    for(int y = 0; y < ht; ++y) png_write_row(p, (png_const_bytep)px.data() + y * wd * NC[cs]);
    png_write_end(p, info);
    png_destroy_write_struct(&p, &info);
    return out;
}
static void convert_png(size_t i, Ctx &cx) {
    int src = (int)(i % 2); i /= 2; // RGB or gray
    int own = (int)(i % 2); i /= 2; // embedded profile
    int dst = (int)(i % 3); i /= 3;
    int intent = (int)(i % 4); i /= 4;
    int have = (int)(i % 8);
    int wd = 11, ht = 4;
    auto px = pixels(src, wd, ht);
    write_file(scratch() + "/in.png", png_file(own ? icc_bytes(src) : "", src, wd, ht, px));
    write_file(scratch() + "/gray.icc", icc_bytes(1));
    W w;
    w.props();
    for(int c = 0; c < 3; ++c)
        if(have >> c & 1) w.s("document_properties_set_device_profile", w.md, c, c == 0 ? string("$REPO/testdata/icc/") + PROFILE[c] : c == 1 ? "$OUT/gray.icc" : "$REPO/testdata/icc/FOGRA30L.icc");
    w.start();
    auto im = w.s("generator_load_image", w.gen, "$OUT/in.png");
    size_t at = w.s.size();
    auto out = w.s("generator_convert_image", w.gen, im, dst, intent);
    Doc d;
    if(dst == 2 && !(have & 4)) {
        w.finish();
        run_expect(w.s, {at}, cx, d);
        return;
    }
    auto id = w.s("generator_add_image", w.gen, out, w.s("image_pdf_properties_new"));
    w.s("dc_cmd_Do_image", w.dc, id);
    w.finish();
    if(!run_good(w.s, cx, d)) return;
    auto a = profile(src, have >> src & 1, own ? &icc_bytes(src) : nullptr);
    auto b = dst == 2 ? profile(2, true, &icc_bytes(3)) : profile(dst, have >> dst & 1, nullptr);
    auto t = cmsCreateTransform(a, FMT[src], b, FMT[dst], INTENT[intent], 0);
    string want((size_t)(wd * ht * NC[dst]), 0);
    cmsDoTransform(t, px.data(), want.data(), (cmsUInt32Number)(wd * ht));
    cmsDeleteTransform(t);
    cmsCloseProfile(a);
    cmsCloseProfile(b);
    int found = 0;
    for(auto &[n, o] : d.objs) {
        auto *s = o.t == Obj::Stream ? d.dget(o, "Subtype") : nullptr;
        if(!s || !s->isname("Image")) continue;
        ++found;
        if(!d.need(o, "ColorSpace").isname(CS[dst])) cx.violation("image colour space", pdf::show(d.need(o, "ColorSpace"), 2));
        if(d.stream_data(o) != want) cx.violation("converted pixels");
    }
    if(found != 1) cx.violation("one image expected");
    cx.state(to_string(pdf::hash(want)));
}
// --- profiles of the document: the wrong kind is refused
static void props_case(size_t i, Ctx &cx) {
    int cs = (int)(i % 3); i /= 3;
    int file = (int)(i % 7); i /= 7;
    int out = (int)(i % 4) - 1;
    W w;
    write_file(scratch() + "/gray.icc", icc_bytes(1));
    write_file(scratch() + "/empty.icc", "");
    write_file(scratch() + "/cut.icc", icc_bytes(0).substr(0, 120));
    static const char *F[] = {"$REPO/testdata/icc/compatibleWithAdobeRGB1998.icc", "$OUT/gray.icc", "$REPO/testdata/icc/FOGRA29L.icc", "$OUT/missing.icc", "$OUT/empty.icc", "$OUT/cut.icc", "$REPO/testdata/images/flame_gradient.png"};
    w.props();
    size_t lo = w.s.size();
    w.s("document_properties_set_device_profile", w.md, cs, F[file]);
    if(out >= 0) w.s("document_properties_set_colorspace", w.md, out);
    w.s("generator_new", w.file, w.md);
    size_t hi = w.s.size();
    static const int KIND[] = {0, 1, 2};
    bool good = file < 3 && KIND[file] == cs && !(out == 2 && cs != 2);
    Outcome o = execute(w.s);
    bool any = false;
    for(size_t k = lo; k < hi; ++k) any = any || !o.ok(k);
    if(good && any) cx.violation("a valid profile is rejected", w.s.text());
    if(!good && !any) cx.violation("an unusable profile is accepted", w.s.text());
    cx.state(to_string(any));
    cx.transitions(w.s.size());
    cx.traces();
}

int main(int argc, char **argv) {
    cmsSetLogErrorHandler([](cmsContext, cmsUInt32Number, const char *) {});
    Check c;
    c.id = "C17";
    c.bounds = "Histories: every sequence of 2 (quick) or 3 (thorough) steps out of q, Q and 12 colours (object or operator; RGB, gray, CMYK, ICC with 3 and 4 channels, separation, Lab, tiling and shading pattern) in 4 places "
               "(stroke, fill, stroke in text, fill in text), in page, form, group and tiling contexts; components: all 3 device spaces x component x 10 values (out of range ones, too) x place x output colour space; ICC: 5 profiles x 0-5 values x 5 ways "
               "of loading x place; wrong channel counts and non-profiles; separation tints x alternate space x place; 5 Lab spaces x 64 colours x place; one colour object changed between uses for all pairs; image conversion: source x target x intent x "
               "all 8 sets of document profiles x sizes x alpha, PNG files with embedded profiles; unconvertible images; document profiles of the wrong kind.";
    c.assumptions = {"LittleCMS itself (the oracle calls the same library with independently chosen profiles, formats and intents)"};
    c.families = [](bool th) {
        std::vector<Family> f;
        static const auto S = steps();
        size_t n = S.size(), depth = th ? 3 : 2, total = 1;
        for(size_t k = 0; k < depth; ++k) total *= n;
        f.push_back({"history", total, [n, depth](size_t i, Ctx &cx) {
            std::vector<Step> seq;
            size_t h = i * 2654435761u >> 7;
            for(size_t k = 0; k < depth; ++k) { seq.push_back(S[i % n]); i /= n; }
            if(thorough()) history(seq, (int)(h % 4), (int)(h / 4 % 4) - 1, cx);
            else for(int kind = 0; kind < 4; ++kind) history(seq, kind, (int)((h + (size_t)kind) % 4) - 1, cx);
        }, nullptr});
        f.push_back({"values", 3 * 5 * 3 * 4 * VAL.size(), value_case, nullptr});
        f.push_back({"icc", 5 * 6 * 5 * NPLACE, icc_case, nullptr});
        f.push_back({"icc-channels", 8 * 7, icc_bad, nullptr});
        f.push_back({"separation", 3 * NPLACE * 9 * 4, sep_case, nullptr});
        f.push_back({"lab", 5 * NPLACE * 64, lab_case, nullptr});
        size_t no = 0;
        for(auto &p : picks()) no += !p.op;
        f.push_back({"object", no * no * NPLACE * NPLACE, object_case, nullptr});
        f.push_back({"convert", 3 * 3 * 4 * 8 * 3 * 3, convert_case, nullptr});
        f.push_back({"convert-reject", 3 * 3 * 9, convert_bad, nullptr});
        f.push_back({"convert-png", 2 * 2 * 3 * 4 * 8, convert_png, nullptr});
        f.push_back({"profiles", 3 * 7 * 4, props_case, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
