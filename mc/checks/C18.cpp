// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "spec.hpp"
using namespace mc;
namespace sp = mc::spec;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;
typedef std::vector<double> D;

static const char *CS[] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
static const int NC[] = {3, 1, 4};
static const int RGB = 0, GRAY = 1, CMYK = 2, ICC = 3, SEP = 4, LAB = 5, PATTERN = 6, NONE = 7;
static double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }

struct T : W {
    V color(int cs, const D &v) {
        auto c = s("color_new");
        switch(cs) {
        case RGB: s("color_set_rgb", c, v[0], v[1], v[2]); break;
        case GRAY: s("color_set_gray", c, v[0]); break;
        case CMYK: s("color_set_cmyk", c, v[0], v[1], v[2], v[3]); break;
        case ICC: s("color_set_icc", c, icc(), D{v[0], v[1], v[2]}); break;
        case SEP: s("color_set_separation", c, sep(), 0.5); break;
        case LAB: s("color_set_lab", c, lab(), 1.0, 2.0, 3.0); break;
        case PATTERN: s("color_set_pattern", c, tiling(0)); break;
        }
        return c;
    }
    void begin() { props(); start(); }
};
static const std::vector<D> VALUES = {{0, 0, 0, 0}, {1, 1, 1, 1}, {0.125, 0.5, 0.75, 0.0625}, {-1, 2, 0.3333333, 1e-9}};
static sp::Sp comps(int cs, const D &v) {
    D w;
    for(int i = 0; i < NC[cs]; ++i) w.push_back(clamp01(v[(size_t)i]));
    return sp::nums(w);
}
static const Obj *one(const Doc &d, const std::function<bool(const Obj &)> &p, int skip = 0) { // in creation order
    for(auto &[n, o] : d.objs)
        if(o.isdict() && p(o) && skip-- == 0) return &o;
    return nullptr;
}
static int count(const Doc &d, const std::function<bool(const Obj &)> &p) {
    int n = 0;
    for(auto &[k, o] : d.objs) n += o.isdict() && p(o);
    return n;
}
static std::function<bool(const Obj &)> has(const char *key) {
    return [=](const Obj &o) { return o.get(key) != nullptr; };
}
static std::function<bool(const Obj &)> is(const char *key, const char *value) {
    return [=](const Obj &o) { auto *x = o.get(key); return x && x->isname(value); };
}
static void expect(Ctx &cx, const Doc &d, const string &what, const Obj *o, const sp::Sp &s) {
    auto r = s(d, o);
    if(!r.empty()) cx.violation(what + " differs", r);
}
static sp::Sp data(const string &want) {
    return [=](const Doc &d, const Obj *o) {
        if(!o || o->t != Obj::Stream) return string("not a stream");
        auto g = d.stream_data(*o);
        return g == want ? string() : "the data is '" + g + "' expected '" + want + "'";
    };
}

// --- functions
static const std::vector<D> DOMAINS = {{0, 1}, {0.25, 0.75}, {-1, 1}, {0, 1000}, {}, {0}, {0, 1, 2}, {0, 1, 0, 1}};
static void fn2_case(size_t i, Ctx &cx) {
    T w;
    w.begin();
    static const D N = {1, 0.5, 2.5, 0, 3};
    int ca = (int)(i % 7), cb = (int)(i / 7 % 7);
    auto &dom = DOMAINS[i / 49 % DOMAINS.size()];
    i /= 49 * DOMAINS.size();
    auto &va = VALUES[i % 4], &vb = VALUES[i / 4 % 4];
    double n = N[i / 16 % N.size()];
    auto a = w.color(ca, va), b = w.color(cb, vb);
    size_t lo = w.s.size();
    auto f = w.s("type2_function_new", dom, a, b, n);
    w.s("generator_add_function", w.gen, f);
    size_t hi = w.s.size();
    w.finish();
    Doc d;
    bool good = ca == cb && ca <= CMYK && dom.size() == 2;
    if(!good) { run_reject(w.s, lo, hi, cx, d); cx.state("rejected"); return; }
    if(!run_good(w.s, cx, d)) return;
    auto *o = one(d, [&](const Obj &x) { auto *t = x.get("FunctionType"); return t && t->i == 2; });
    auto want = sp::dict({{"FunctionType", sp::integer(2)}, {"Domain", sp::nums(dom)}, {"N", sp::num(n)}, {"C0", comps(ca, va)}, {"C1", comps(ca, vb)}});
    expect(cx, d, "function", o, want);
    cx.state(pdf::show(*o, 3));
}
// a function with so many outputs: 0 nothing valid
static V any_fn(T &w, int kind) {
    switch(kind) {
    case 0: return w.fn2(3);
    case 1: return w.fn2(1);
    case 2: return w.fn2(4);
    case 3: return w.s("generator_add_function", w.gen, w.s("type4_function_new", D{0, 1}, D{0, 1, 0, 1, 0, 1}, "{dup dup}"));
    case 4: return w.s("generator_add_function", w.gen, w.s("type4_function_new", D{0, 1, 0, 1}, D{0, 1, 0, 1, 0, 1}, "{dup}")); // two inputs
    default: {
        const int n = kind == 6 ? 1 : 3;
        auto f = w.s("type3_function_new", D{0, 1}, std::vector<V>{w.fn2(n), w.fn2(n)}, D{0.5}, D{0, 1, 1, 0});
        return w.s("generator_add_function", w.gen, f);
    }
    }
}
static const int OUT[] = {3, 1, 4, 3, 3, 3, 1}, IN[] = {1, 1, 1, 1, 2, 1, 1};
static sp::Sp fn_spec(int kind) {
    if(kind <= 2) return sp::dict({{"FunctionType", sp::integer(2)}, {"C0", [=](const Doc &, const Obj *o) { return o && (int)o->a.size() == OUT[kind] ? string() : string("wrong number of outputs"); }}}, true);
    if(kind <= 4) return sp::both(sp::dict({{"FunctionType", sp::integer(4)}}, true), data(kind == 3 ? "{dup dup}" : "{dup}"));
    return sp::dict({{"FunctionType", sp::integer(3)}, {"Bounds", sp::nums({0.5})}, {"Encode", sp::nums({0, 1, 1, 0})}}, true);
}
static void fn3_case(size_t i, Ctx &cx) {
    // up to three parts
    static const std::vector<std::vector<int>> PARTS = [] {
        std::vector<std::vector<int>> r{{}};
        for(int a = 0; a < 7; ++a) {
            r.push_back({a});
            for(int b = 0; b < 7; ++b) r.push_back({a, b});
        }
        r.push_back({0, 0, 0});
        r.push_back({0, 5, 3});
        r.push_back({1, 1, 1});
        r.push_back({1, 1, 0});
        return r;
    }();
    static const std::vector<D> BOUNDS = {{}, {0.5}, {0.25, 0.75}, {0.1, 0.2, 0.3}};
    auto &parts = PARTS[i % PARTS.size()];
    i /= PARTS.size();
    auto &bounds = BOUNDS[i % 4];
    i /= 4;
    int nenc = (int)(i % 8);
    i /= 8;
    auto &dom = DOMAINS[i % DOMAINS.size()];
    D enc;
    for(int k = 0; k < nenc; ++k) enc.push_back(k % 3 == 2 ? 0.125 : k % 2);
    T w;
    w.begin();
    std::vector<V> ids;
    for(int k : parts) ids.push_back(any_fn(w, k));
    size_t lo = w.s.size();
    auto f = w.s("type3_function_new", dom, ids, bounds, enc);
    w.s("generator_add_function", w.gen, f);
    size_t hi = w.s.size();
    w.finish();
    bool good = !parts.empty() && dom.size() == 2 && bounds.size() + 1 == parts.size() && enc.size() == 2 * parts.size();
    for(int k : parts) good = good && IN[k] == 1 && OUT[k] == OUT[parts[0]];
    if(good)
        for(auto b : bounds) good = good && b > dom[0] && b < dom[1];
    Doc d;
    if(!good) {
        // bounds outside the domain are only used with a domain that holds them
        bool outside = dom.size() == 2;
        bool rest = !parts.empty() && dom.size() == 2 && bounds.size() + 1 == parts.size() && enc.size() == 2 * parts.size();
        for(int k : parts) rest = rest && IN[k] == 1 && OUT[k] == OUT[parts[0]];
        if(outside && rest) return;
        run_reject(w.s, lo, hi, cx, d);
        cx.state("rejected");
        return;
    }
    if(!run_good(w.s, cx, d)) return;
    std::vector<sp::Sp> fs;
    for(int k : parts) fs.push_back(fn_spec(k));
    const Obj *last = nullptr;
    for(auto &[n, o] : d.objs)
        if(auto *t = o.isdict() ? o.get("FunctionType") : nullptr; t && t->i == 3) last = &o;
    expect(cx, d, "stitching function", last, sp::dict({{"FunctionType", sp::integer(3)}, {"Domain", sp::nums(dom)}, {"Functions", sp::arr(fs)}, {"Bounds", sp::nums(bounds)}, {"Encode", sp::nums(enc)}}));
    cx.state(last ? pdf::show(*last, 4) : "");
}
static void fn4_case(size_t i, Ctx &cx) {
    static const std::vector<string> CODE = {"{}", "{dup dup}", "{ 0.5 mul exch }", "{dup 0.5 gt {pop 1} {pop 0} ifelse}", string("{ 1\n2\r\n\tadd %c\n }"), "{360 mul sin 2 div exch 360 mul sin 2 div add}" + string(20000, ' ')};
    T w;
    w.begin();
    size_t nd = i % 6, nr = i / 6 % 10;
    auto &code = CODE[i / 60 % CODE.size()];
    D dom, range;
    for(size_t k = 0; k < nd; ++k) dom.push_back(k % 2 ? 2.5 : -1);
    for(size_t k = 0; k < nr; ++k) range.push_back(k % 2 ? 0.75 + (double)k : 0.125);
    size_t lo = w.s.size();
    auto f = w.s("type4_function_new", dom, range, code);
    w.s("generator_add_function", w.gen, f);
    size_t hi = w.s.size();
    w.finish();
    Doc d;
    if(nd == 0 || nd % 2 || nr == 0 || nr % 2) { run_reject(w.s, lo, hi, cx, d); cx.state("rejected"); return; }
    if(!run_good(w.s, cx, d)) return;
    auto *o = one(d, has("FunctionType"));
    expect(cx, d, "calculator function", o, sp::both(sp::dict({{"FunctionType", sp::integer(4)}, {"Domain", sp::nums(dom)}, {"Range", sp::nums(range)}}), data(code)));
    cx.state(o ? pdf::show(*o, 3) + d.stream_data(*o) : "");
}
// separations need a calculator function with one input and the outputs of the alternate space
static void sep_case(size_t i, Ctx &cx) {
    T w;
    w.begin();
    int cs = (int)(i % 3), kind = (int)(i / 3 % 8);
    static const std::vector<string> NAMES = {"Gold", "All", "None", "A b", "x#/()<>%y", "Spot (1)"};
    auto &name = NAMES[i / 24 % NAMES.size()];
    int out = kind < 6 ? OUT[kind] : kind == 6 ? 1 : 4, in = kind < 6 ? IN[kind] : 1;
    bool f4 = kind == 3 || kind == 4 || kind >= 6;
    V f;
    if(kind < 6) f = any_fn(w, kind);
    else {
        D range;
        for(int k = 0; k < out; ++k) { range.push_back(0); range.push_back(1); }
        f = w.s("generator_add_function", w.gen, w.s("type4_function_new", D{0, 1}, range, kind == 6 ? "{}" : "{dup dup dup}"));
    }
    size_t lo = w.s.size();
    auto id = w.s("generator_add_separation", w.gen, name, cs, f);
    size_t hi = w.s.size();
    bool good = f4 && in == 1 && out == NC[cs];
    if(good) {
        auto c = w.s("color_new");
        w.s("color_set_separation", c, id, 0.25);
        w.s("dc_set_nonstroke", w.dc, c);
    }
    w.finish();
    Doc d;
    if(!good) { run_reject(w.s, lo, hi, cx, d); return; }
    if(!run_good(w.s, cx, d)) return;
    const Obj *o = nullptr;
    for(auto &[n, x] : d.objs)
        if(x.t == Obj::Arr && x.a.size() && x.a[0].isname("Separation")) o = &x;
    expect(cx, d, "separation", o, sp::arr({sp::name("Separation"), sp::name(name), sp::name(CS[cs]), sp::dict({{"FunctionType", sp::integer(4)}}, true)}));
    cx.state(o ? pdf::show(*o, 3) : "");
}

// --- axial and radial shadings
static const std::vector<std::vector<double>> COORDS = {{0, 0, 1, 1, 2, 3}, {10.5, -20.25, 5, 1000, 0, 0.125}, {-1, -2, 0, 4, 5, 0}, {1e6, 1e-3, 7, -1e6, 0.5, 8}};
static void shading_case(size_t i, Ctx &cx) {
    T w;
    w.begin();
    bool radial = i % 2;
    i /= 2;
    int cs = (int)(i % 3), kind = (int)(i / 3 % 6), ext = (int)(i / 18 % 7), dom = (int)(i / 126 % 4), co = (int)(i / 504 % 4);
    auto &c = COORDS[(size_t)co];
    auto f = any_fn(w, kind);
    size_t lo = w.s.size();
    auto sh = radial ? w.s("type3_shading_new", cs, c, f) : w.s("type2_shading_new", cs, c[0], c[1], c[2], c[3], f);
    int e0 = -1, e1 = -1;
    if(ext == 5 || ext == 6) w.s("shading_set_extend", sh, 0, 1); // set twice
    if(ext == 6) { e0 = 1; e1 = 0; }
    else if(ext == 5) { e0 = 0; e1 = 0; }
    else if(ext > 0) { e0 = (ext - 1) & 1; e1 = (ext - 1) >> 1; }
    if(e0 >= 0) w.s("shading_set_extend", sh, e0, e1);
    D domain;
    if(dom == 1) domain = {0, 1};
    if(dom == 2) domain = {0.125, 0.5};
    if(dom == 3) { domain = {-2, 3}; w.s("shading_set_domain", sh, 0.0, 0.5); }
    if(dom) w.s("shading_set_domain", sh, domain[0], domain[1]);
    auto id = w.s("generator_add_shading", w.gen, sh);
    size_t hi = w.s.size();
    bool good = OUT[kind] == NC[cs] && IN[kind] == 1;
    if(good) w.s("dc_cmd_sh", w.dc, id);
    w.finish();
    Doc d;
    if(!good) { run_reject(w.s, lo, hi, cx, d); cx.state("rejected"); return; }
    if(!run_good(w.s, cx, d)) return;
    sp::Dict want{{"ShadingType", sp::integer(radial ? 3 : 2)}, {"ColorSpace", sp::name(CS[cs])}, {"Coords", sp::nums(D(c.begin(), c.begin() + (radial ? 6 : 4)))}, {"Function", fn_spec(kind)}};
    if(e0 >= 0) want.push_back({"Extend", sp::arr({sp::boolean(e0), sp::boolean(e1)})});
    if(dom) want.push_back({"Domain", sp::nums(domain)});
    auto *o = one(d, has("ShadingType"));
    expect(cx, d, "shading", o, sp::dict(want));
    cx.state(o ? pdf::show(*o, 3) : "");
}

// --- meshes
struct Box { double x0, y0, x1, y1; };
static const Box BOXES[] = {{0, 0, 100, 200}, {-50.5, -20, 1000, 0.25}, {3, 4, 3, 10}, {3, 4, 10, 4}, {10, 20, 0, 0}};
struct Reader {
    const string &s;
    size_t p = 0;
    uint64_t be(int n) {
        uint64_t v = 0;
        for(int i = 0; i < n; ++i) {
            if(p >= s.size()) throw pdf::ParseError("the mesh data is too short");
            v = v << 8 | (uint8_t)s[p++];
        }
        return v;
    }
};
struct Elem {
    int flag;
    D xy;                   // pairs
    std::vector<D> colors;
};
static string mesh_diff(const Doc &d, const Obj &o, int cs, const std::vector<Elem> &want, bool triangles) {
    auto dec = d.need(o, "Decode");
    if(d.need(o, "BitsPerCoordinate").i != 32 && d.need(o, "BitsPerCoordinate").i != 24 && d.need(o, "BitsPerCoordinate").i != 16) return "BitsPerCoordinate";
    int bc = (int)d.need(o, "BitsPerCoordinate").i / 8, bp = (int)d.need(o, "BitsPerComponent").i / 8, bf = (int)d.need(o, "BitsPerFlag").i;
    if(bf != 8 || (bp != 1 && bp != 2)) return "unusual bit counts";
    if(dec.a.size() != 4 + 2 * (size_t)NC[cs]) return "Decode has " + to_string(dec.a.size()) + " elements";
    auto D_ = [&](size_t k) { return d.deref(dec.a[k]).num(); };
    auto bytes = d.stream_data(o);
    Reader r{bytes};
    double cmax = bc == 4 ? 4294967295.0 : std::pow(2.0, bc * 8) - 1, pmax = bp == 2 ? 65535.0 : 255.0;
    size_t n = 0;
    auto coord = [&](double wanted, int axis) -> string {
        double lo = D_((size_t)axis * 2), hi = D_((size_t)axis * 2 + 1);
        double got = lo + (double)r.be(bc) / cmax * (hi - lo);
        double w = std::clamp(wanted, std::min(lo, hi), std::max(lo, hi));
        return std::fabs(got - w) <= std::fabs(hi - lo) / cmax * 1.001 + 1e-9 ? string() : "element " + to_string(n) + ": coordinate " + to_string(got) + " expected " + to_string(w);
    };
    auto color = [&](const D &wanted) -> string {
        for(int k = 0; k < NC[cs]; ++k) {
            double lo = D_(4 + 2 * (size_t)k), hi = D_(5 + 2 * (size_t)k);
            double got = lo + (double)r.be(bp) / pmax * (hi - lo);
            if(std::fabs(got - clamp01(wanted[(size_t)k])) > 1.001 / pmax) return "element " + to_string(n) + ": component " + to_string(got) + " expected " + to_string(clamp01(wanted[(size_t)k]));
        }
        return {};
    };
    for(auto &e : want) {
        size_t verts = e.xy.size() / 2;
        if(triangles) {
            for(size_t v = 0; v < verts; ++v) {
                auto f = (int)r.be(1);
                // the flags of the second and third vertex of a new triangle are ignored by readers
                if(!(v > 0 && e.flag == 0) && f != e.flag) return "element " + to_string(n) + ": flag " + to_string(f) + " expected " + to_string(e.flag);
                for(int a = 0; a < 2; ++a)
                    if(auto x = coord(e.xy[2 * v + (size_t)a], a); !x.empty()) return x;
                if(auto x = color(e.colors[v]); !x.empty()) return x;
            }
        } else {
            auto f = (int)r.be(1);
            if(f != e.flag) return "element " + to_string(n) + ": flag " + to_string(f) + " expected " + to_string(e.flag);
            for(size_t k = 0; k < e.xy.size(); ++k)
                if(auto x = coord(e.xy[k], (int)(k % 2)); !x.empty()) return x;
            for(auto &c : e.colors)
                if(auto x = color(c); !x.empty()) return x;
        }
        ++n;
    }
    if(r.p != bytes.size()) return "the mesh has more elements than were added";
    return {};
}
static void mesh(Ctx &cx, bool triangles, int cs, int colcs, const Box &box, const std::vector<int> &ops, int badat, size_t salt) {
    T w;
    w.begin();
    std::vector<Elem> want;
    std::map<int, V> cols;
    auto value = [&](size_t k) {
        static const double G[] = {0, 1, 0.5, 1.0 / 3, 0.99999, 0.25, 0.0001, 2, -1};
        D v;
        for(int c = 0; c < 4; ++c) v.push_back(G[(k * 4 + (size_t)c * 5 + salt) % 9]);
        return v;
    };
    auto at = [&](size_t k, int axis) {
        static const double G[] = {0, 1, 0.5, 0.25, 1.0 / 3, 0.9999, 1.25, -0.5, 0.001};
        double lo = axis ? box.y0 : box.x0, hi = axis ? box.y1 : box.x1;
        return lo + G[(k * 2 + (size_t)axis * 4 + salt) % 9] * (hi - lo);
    };
    size_t k = 0;
    const char *pre = triangles ? "type4_shading" : "type6_shading";
    std::vector<std::function<void(V)>> emit;
    struct Call { int op; D xy; std::vector<V> col; };
    std::vector<Call> calls;
    bool mismatch = colcs != cs;
    int elem = 0;
    for(int op : ops) {
        size_t pts = triangles ? (op ? 1 : 3) : (op ? 8 : 12), nc = triangles ? (op ? 1 : 3) : (op ? 2 : 4);
        Elem e{op, {}, {}};
        for(size_t p = 0; p < pts; ++p) {
            e.xy.push_back(at(k + p, 0));
            e.xy.push_back(at(k + p, 1));
        }
        Call c{op, e.xy, {}};
        for(size_t p = 0; p < nc; ++p) {
            auto v = value(k + p);
            e.colors.push_back(v);
            c.col.push_back(w.color(elem == badat && p + 1 == nc ? colcs : cs, v));
        }
        want.push_back(e);
        calls.push_back(c);
        k += pts;
        ++elem;
    }
    size_t lo = w.s.size();
    auto sh = w.s(string(pre) + "_new", cs, box.x0, box.y0, box.x1, box.y1);
    for(auto &c : calls) {
        if(triangles && c.op == 0) w.s("type4_shading_add_triangle", sh, c.xy, c.col);
        else if(triangles) w.s("type4_shading_extend", sh, c.op, c.xy, c.col[0]);
        else if(c.op == 0) w.s("type6_shading_add_patch", sh, c.xy, c.col);
        else w.s("type6_shading_extend", sh, c.op, c.xy, c.col);
    }
    auto id = w.s("generator_add_shading", w.gen, sh);
    size_t hi = w.s.size();
    bool flat = box.x0 == box.x1 || box.y0 == box.y1;
    bool good = !ops.empty() && ops[0] == 0 && !(mismatch && badat < (int)ops.size()) && !flat;
    for(int op : ops) good = good && op <= (triangles ? 2 : 3);
    if(good) w.s("dc_cmd_sh", w.dc, id);
    w.finish();
    Doc d;
    if(!good) {
        if(ops.empty()) return; // an empty mesh draws nothing
        run_reject(w.s, lo, hi, cx, d);
        cx.state("rejected");
        return;
    }
    if(box.x0 > box.x1) { // either rejected or right
        auto r = run_pdf(w.s);
        bool rejected = false;
        for(size_t i = lo; i < hi; ++i) rejected = rejected || r.o.rc[i] != 0;
        if(rejected) return;
    }
    if(!run_good(w.s, cx, d)) return;
    auto *o = one(d, has("ShadingType"));
    if(!o) { cx.violation("the mesh is missing"); return; }
    expect(cx, d, "mesh", o, sp::dict({{"ShadingType", sp::integer(triangles ? 4 : 6)}, {"ColorSpace", sp::name(CS[cs])}, {"BitsPerCoordinate", sp::any()}, {"BitsPerComponent", sp::any()}, {"BitsPerFlag", sp::any()}, {"Decode", sp::any()}}));
    try {
        auto r = mesh_diff(d, *o, cs, want, triangles);
        if(!r.empty()) cx.violation("mesh data differs", r);
    } catch(const std::exception &e) {
        cx.violation("mesh data differs", e.what());
    }
    cx.state(pdf::show(*o, 3) + d.stream_data(*o));
}
static std::vector<std::vector<int>> op_seqs(int nops, int depth) {
    std::vector<std::vector<int>> r{{}};
    size_t from = 0;
    for(int l = 0; l < depth; ++l) {
        size_t to = r.size();
        for(size_t i = from; i < to; ++i)
            for(int o = 0; o < nops; ++o) {
                r.push_back(r[i]);
                r.back().push_back(o);
            }
        from = to;
    }
    return r;
}

// --- graphics states: histories of setters, the last value of each parameter wins
struct Gs { const char *param; std::function<void(T &, V)> set; sp::Sp want; bool bad = false; };
static V softmask(T &w, int S, int k) {
    return w.res("SM" + to_string(S) + to_string(k), [&] { return w.s("generator_add_soft_mask", w.gen, w.s("soft_mask_new", S, w.group(k))); });
}
static sp::Sp softmask_spec(int S, int k) {
    return sp::dict({{"Type", sp::def(sp::name("Mask"))}, {"S", sp::name(S ? "Luminosity" : "Alpha")}, {"G", sp::labelled(group_label(k))}});
}
static const char *BM[] = {"Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight", "SoftLight", "Difference", "Exclusion", "Hue", "Saturation", "Color", "Luminosity"};
static const char *SPOT[] = {"SimpleDot", "InvertedSimpleDot", "DoubleDot", "InvertedDoubleDot", "CosineDot", "Double", "InvertedDouble", "Line", "LineX", "LineY", "Round", "Ellipse", "EllipseA", "InvertedEllipseA", "EllipseB", "EllipseC", "InvertedEllipseC", "Square", "Cross", "Rhomboid", "Diamond"};
static V halftone(T &w, double f, double a, int spot) {
    auto h = w.s("halftone_new");
    w.s("halftone_set_type1", h, f, a, spot);
    return h;
}
static sp::Sp halftone_spec(double f, double a, int spot) {
    return sp::dict({{"Type", sp::def(sp::name("Halftone"))}, {"HalftoneType", sp::integer(1)}, {"Frequency", sp::num(f)}, {"Angle", sp::num(a)}, {"SpotFunction", sp::name(SPOT[spot])}});
}
static const std::vector<Gs> &gs_ops() {
    static const std::vector<Gs> all = [] {
        std::vector<Gs> r;
        auto num = [&](const char *p, double v, double seen, bool bad = false) {
            string fn = string("graphics_state_set_") + p;
            r.push_back({p, [=](T &w, V g) { w.s(fn.c_str(), g, v); }, sp::num(seen), bad});
        };
        for(auto *p : {"CA", "ca"})
            for(double v : {0.0, 1.0, 0.375, -1.0, 2.0}) num(p, v, clamp01(v));
        for(int b = 0; b < 16; ++b) r.push_back({"BM", [=](T &w, V g) { w.s("graphics_state_set_BM", g, b); }, sp::name(BM[b])});
        for(auto *p : {"op", "OP", "AIS", "TK"})
            for(int v : {0, 1, 2, -1}) {
                string fn = string("graphics_state_set_") + p;
                r.push_back({p, [=](T &w, V g) { w.s(fn.c_str(), g, v); }, sp::boolean(v), v > 1 || v < 0});
            }
        for(int v : {0, 1, 2}) r.push_back({"OPM", [=](T &w, V g) { w.s("graphics_state_set_OPM", g, v); }, sp::integer(v), v > 1});
        for(double v : {0.0, 1.0, 12.5, 100.0, -0.5}) num("FL", v, v, v < 0);
        for(double v : {0.0, 1.0, 0.125, -0.5, 1.5}) num("SM", v, v, v < 0 || v > 1);
        for(int s = 0; s < 2; ++s)
            for(int k = 0; k < 2; ++k) r.push_back({"SMask", [=](T &w, V g) { w.s("graphics_state_set_SMask", g, softmask(w, s, k)); }, softmask_spec(s, k)});
        static const char *BP[] = {"OFF", "ON", "Default"};
        for(int b = 0; b < 3; ++b) r.push_back({"UseBlackPtComp", [=](T &w, V g) { w.s("graphics_state_set_blackpoint_compensation", g, b); }, sp::name(BP[b])});
        r.push_back({"HT", [=](T &w, V g) { auto h = w.s("halftone_new"); w.s("halftone_set_default", h); w.s("graphics_state_set_HT", g, h); }, sp::name("Default")});
        r.push_back({"HT", [=](T &w, V g) { w.s("graphics_state_set_HT", g, halftone(w, 60.5, 45, 0)); }, halftone_spec(60.5, 45, 0)});
        r.push_back({"HT", [=](T &w, V g) { // the handle is set up anew and destroyed
                         auto h = halftone(w, 1, 2, 3);
                         w.s("halftone_set_default", h);
                         w.s("halftone_set_type1", h, 133.0, -22.5, 20);
                         w.s("graphics_state_set_HT", g, h);
                         w.s("halftone_set_type1", h, 9.0, 9.0, 9);
                         w.s("halftone_destroy", h);
                     }, halftone_spec(133, -22.5, 20)});
        return r;
    }();
    return all;
}
static void gs_case(const std::vector<size_t> &seq, Ctx &cx, bool twice) {
    T w;
    w.begin();
    auto g = w.s("graphics_state_new");
    std::set<size_t> rejected;
    std::map<string, sp::Sp> model, first;
    size_t n = 0;
    V id0;
    for(size_t k : seq) {
        auto &op = gs_ops()[k];
        if(op.bad) {
            op.set(w, g);
            rejected.insert(w.s.size() - 1);
        } else {
            op.set(w, g);
            model[op.param] = op.want;
        }
        if(twice && ++n == 1) {
            id0 = w.s("generator_add_graphics_state", w.gen, g);
            first = model;
        }
    }
    auto id = w.s("generator_add_graphics_state", w.gen, g);
    w.s("graphics_state_destroy", g);
    w.s("dc_cmd_gs", w.dc, id);
    if(twice) w.s("dc_cmd_gs", w.dc, id0);
    w.finish();
    Doc d;
    if(!run_expect(w.s, rejected, cx, d)) return;
    auto dict = [](const std::map<string, sp::Sp> &m) {
        sp::Dict want{{"Type", sp::def(sp::name("ExtGState"))}};
        for(auto &[k, v] : m) want.push_back({k, v});
        return sp::dict(want);
    };
    std::vector<const Obj *> seen;
    auto page = d.pages().at(0);
    for(auto &op : d.page_ops(page)) {
        if(op.op != "gs") continue;
        auto *res = d.dget(d.deref(*d.inherited(page, "Resources")), "ExtGState");
        seen.push_back(res ? d.dget(*res, op.a.at(0).s) : nullptr);
    }
    if(seen.size() != (twice ? 2u : 1u)) { cx.violation("graphics state is not used"); return; }
    expect(cx, d, "graphics state", seen[0], dict(model));
    if(twice) expect(cx, d, "earlier graphics state", seen[1], dict(first));
    cx.state(pdf::show(*seen[0], 3));
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C18";
    c.bounds = "Exponential functions: all combinations of 7 colour kinds at both ends, 8 domains, 4x4 values and 5 exponents; stitching functions: all lists of up to two (some of three) parts out of 7 kinds x bounds lists of "
               "0..3 x 0..7 encode values x 8 domains; calculator functions: domains of 0..5 and ranges of 0..9 numbers x 6 programs; separations: 3 spaces x 8 functions x 6 names; axial and radial shadings: 3 spaces x 6 functions x "
               "7 extends x 4 domains x 4 coordinates; meshes: all sequences of up to 4 (thorough: 6) triangles, extensions and patches x 3 spaces x 5 boxes, colours of another space at every element; graphics states: all pairs "
               "(thorough: triples) of 57 setter calls incl. invalid ones, the state added once or twice; every halftone; all transparency group, soft mask, tiling and shading pattern parameters; matrices, coordinates and boxes: all products of 3 to 5 critical values per number.";
    c.assumptions = {"Mesh coordinates outside of the stated box are clamped to it, colour components to their range.",
                     "Printed numbers carry six decimals."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        f.push_back({"exponential", 49 * DOMAINS.size() * 16 * 5, fn2_case, nullptr});
        f.push_back({"stitching", (1 + 7 + 49 + 4) * 4 * 8 * DOMAINS.size(), fn3_case, nullptr});
        f.push_back({"calculator", 60 * 6, fn4_case, nullptr});
        f.push_back({"separation", 24 * 6, sep_case, nullptr});
        f.push_back({"shadings", 2 * 504 * 4, shading_case, nullptr});
        for(bool tri : {true, false}) {
            auto seqs = std::make_shared<std::vector<std::vector<int>>>(op_seqs(tri ? 4 : 5, thorough ? (tri ? 6 : 5) : (tri ? 4 : 3)));
            f.push_back({tri ? "triangles" : "patches", seqs->size() * 3 * 5, [=](size_t i, Ctx &cx) {
                mesh(cx, tri, (int)(i % 3), (int)(i % 3), BOXES[i / 3 % 5], (*seqs)[i / 15], 99, i / 15);
            }, nullptr});
            auto few = std::make_shared<std::vector<std::vector<int>>>(op_seqs(tri ? 3 : 4, 3));
            f.push_back({tri ? "triangle colours" : "patch colours", few->size() * 3 * 7 * 3, [=](size_t i, Ctx &cx) {
                int cs = (int)(i % 3), other = (int)(i / 3 % 7);
                if(other == cs) return;
                mesh(cx, tri, cs, other, BOXES[0], (*few)[i / 63], (int)(i / 21 % 3), i);
            }, nullptr});
        }
        const size_t G = gs_ops().size();
        f.push_back({"graphics states", G * G * 2, [=](size_t i, Ctx &cx) { gs_case({i / 2 % G, i / 2 / G}, cx, i % 2); }, nullptr});
        f.push_back({"no parameters", 1, [](size_t, Ctx &cx) { gs_case({}, cx, false); }, nullptr});
        if(thorough)
            f.push_back({"graphics states 3", G * G * G, [=](size_t i, Ctx &cx) { gs_case({i % G, i / G % G, i / G / G}, cx, i % 2); }, nullptr});
        // all the parameters at once
        f.push_back({"full graphics states", 900, [=](size_t i, Ctx &cx) {
            std::vector<size_t> seq;
            std::map<string, std::vector<size_t>> by;
            for(size_t k = 0; k < G; ++k)
                if(!gs_ops()[k].bad) by[gs_ops()[k].param].push_back(k);
            size_t n = 0; // one parameter is left out, the others take their values in turn
            for(auto &[p, v] : by)
                if(n++ != i % (by.size() + 1)) seq.push_back(v[(i / (by.size() + 1) + n * (i / 300)) % v.size()]);
            gs_case(seq, cx, false);
        }, nullptr});
        f.push_back({"halftones", 22 * 5 * 5, [](size_t i, Ctx &cx) {
            static const D V5 = {60, 1, 133.333333, 1200, 0.5}, A5 = {0, 45, -30.25, 360, 0.001};
            int spot = (int)(i % 22);
            double fr = V5[i / 22 % 5], an = A5[i / 110];
            T w;
            w.begin();
            auto h = w.s("halftone_new");
            size_t lo = w.s.size();
            w.s("halftone_set_type1", h, fr, an, spot);
            size_t hi = w.s.size();
            auto g = w.s("graphics_state_new");
            w.s("graphics_state_set_HT", g, h);
            w.s("dc_cmd_gs", w.dc, w.s("generator_add_graphics_state", w.gen, g));
            w.finish();
            Doc d;
            if(spot == 21 ? !run_reject(w.s, lo, hi, cx, d) : !run_good(w.s, cx, d)) return;
            expect(cx, d, "halftone", one(d, is("Type", "ExtGState")), sp::dict({{"HT", spot == 21 ? sp::name("Default") : halftone_spec(fr, an, spot)}}, true));
            cx.state(to_string(i));
        }, nullptr});
        // transparency groups and soft masks on them
        f.push_back({"groups", 4 * 3 * 3 * 4 * 5 * 3 * 2, [](size_t i, Ctx &cx) {
            int cs = (int)(i % 4) - 1, I = (int)(i / 4 % 3) - 1, K = (int)(i / 12 % 3) - 1, S = (int)(i / 36 % 4), m = (int)(i / 144 % 5), b = (int)(i / 720 % 3);
            bool twice = i / 2160;
            static const std::vector<D> M = {{}, {1, 0, 0, 1, 0, 0}, {2, 0.5, -0.5, 3, 10, -20.25}, {1, 0, 0, -1, 0, 0}, {0, 1, -1, 0, 7, 8}};
            static const std::vector<D> BB = {{0, 0, 10, 20}, {-5.5, -6.25, 100.125, 0.5}, {1, 2, 1000, 2000}};
            T w;
            w.begin();
            auto &bb = BB[(size_t)b];
            auto g = w.s("transparency_group_new", w.gen, bb[0], bb[1], bb[2], bb[3]);
            w.s("dc_cmd_re", g, 1.0, 2.0, 3.0, 4.0);
            w.s("dc_cmd_f", g);
            if(twice) {
                auto p = w.s("transparency_group_properties_new");
                w.s("transparency_group_properties_set_CS", p, 2);
                w.s("transparency_group_properties_set_I", p, 1);
                w.s("transparency_group_properties_set_K", p, 1);
                w.s("dc_set_transparency_group_properties", g, p);
                w.s("dc_set_group_matrix", g, 9.0, 9.0, 9.0, 9.0, 9.0, 9.0);
                if(m == 0) { w.s("dc_set_group_matrix", g, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0); }
            }
            auto p = w.s("transparency_group_properties_new");
            if(cs >= 0) w.s("transparency_group_properties_set_CS", p, cs);
            if(I >= 0) w.s("transparency_group_properties_set_I", p, I);
            if(K >= 0) w.s("transparency_group_properties_set_K", p, K);
            bool given = twice || cs >= 0 || I >= 0 || K >= 0 || b;
            if(given) w.s("dc_set_transparency_group_properties", g, p);
            w.s("transparency_group_properties_set_CS", p, 1);
            w.s("transparency_group_properties_destroy", p);
            auto &mm = M[(size_t)m];
            if(m) w.s("dc_set_group_matrix", g, mm[0], mm[1], mm[2], mm[3], mm[4], mm[5]);
            auto id = w.s("generator_add_transparency_group", w.gen, g);
            w.s("dc_destroy", g);
            if(S) {
                auto sm = w.s("soft_mask_new", S % 2, id);
                auto sid = w.s("generator_add_soft_mask", w.gen, sm);
                w.s("soft_mask_destroy", sm);
                auto gs = w.s("graphics_state_new");
                w.s("graphics_state_set_SMask", gs, sid);
                w.s("dc_cmd_gs", w.dc, w.s("generator_add_graphics_state", w.gen, gs));
            }
            if(S != 1) w.s("dc_cmd_Do_trgroup", w.dc, id);
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            sp::Dict group{{"Type", sp::def(sp::name("Group"))}, {"S", sp::name("Transparency")}};
            if(cs >= 0) group.push_back({"CS", sp::name(CS[cs])});
            if(I >= 0) group.push_back({"I", I ? sp::boolean(true) : sp::def(sp::boolean(false))});
            if(K >= 0) group.push_back({"K", K ? sp::boolean(true) : sp::def(sp::boolean(false))});
            sp::Dict want{{"Type", sp::def(sp::name("XObject"))}, {"Subtype", sp::name("Form")}, {"BBox", sp::nums(bb)}, {"Resources", sp::any()}, {"Group", sp::dict(group)}};
            if(m == 1 || (m == 0 && twice)) want.push_back({"Matrix", sp::def(sp::nums(M[1]))});
            else if(m) want.push_back({"Matrix", sp::nums(mm)});
            auto *o = one(d, is("Subtype", "Form"));
            expect(cx, d, "transparency group", o, sp::dict(want));
            if(S) expect(cx, d, "soft mask", one(d, is("Type", "ExtGState")), sp::dict({{"SMask", sp::dict({{"Type", sp::def(sp::name("Mask"))}, {"S", sp::name(S % 2 ? "Luminosity" : "Alpha")}, {"G", sp::same(o)}})}}, true));
            cx.state(o ? pdf::show(*o, 3) : "");
        }, nullptr});
        f.push_back({"patterns", 5 * 5 * 3 * 2, [](size_t i, Ctx &cx) {
            int m = (int)(i % 5), b = (int)(i / 5 % 5), sh = (int)(i / 25 % 3);
            bool stroke = i / 75;
            static const std::vector<D> M = {{}, {1, 0, 0, 1, 0, 0}, {2, 0.5, -0.5, 3, 10, -20.25}, {1, 0, 0, -1, 0, 0}, {0, 1, -1, 0, 7, 8}};
            static const std::vector<D> BB = {{0, 0, 10, 20}, {-5.5, -6.25, 100.125, 0.5}, {1, 2, 1000, 2000}, {0.25, 0.5, 0.75, 0.875}, {-10, -20, -1, -2}};
            auto &mm = M[(size_t)m];
            T w;
            w.begin();
            V id;
            auto &bb = BB[(size_t)b];
            if(sh == 0) {
                auto g = w.s("tiling_pattern_context_new", w.gen, bb[0], bb[1], bb[2], bb[3]);
                w.s("dc_cmd_re", g, 1.0, 2.0, 3.0, 4.0);
                w.s("dc_cmd_f", g);
                if(m) w.s("dc_set_group_matrix", g, mm[0], mm[1], mm[2], mm[3], mm[4], mm[5]);
                id = w.s("generator_add_tiling_pattern", w.gen, g);
            } else {
                auto p = w.s("shading_pattern_new", w.shade(b));
                if(sh == 2) w.s("shading_pattern_set_matrix", p, 9.0, 8.0, 7.0, 6.0, 5.0, 4.0);
                if(sh == 2 && m == 0) w.s("shading_pattern_set_matrix", p, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0);
                if(m) w.s("shading_pattern_set_matrix", p, mm[0], mm[1], mm[2], mm[3], mm[4], mm[5]);
                id = w.s("generator_add_shading_pattern", w.gen, p);
                w.s("shading_pattern_set_matrix", p, 7.0, 7.0, 7.0, 7.0, 7.0, 7.0);
                w.s("shading_pattern_destroy", p);
            }
            auto col = w.s("color_new");
            w.s("color_set_pattern", col, id);
            w.s(stroke ? "dc_set_stroke" : "dc_set_nonstroke", w.dc, col);
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            sp::Dict want{{"Type", sp::def(sp::name("Pattern"))}};
            if(sh) {
                want.push_back({"PatternType", sp::integer(2)});
                want.push_back({"Shading", sp::labelled(shade_label(b))});
            } else {
                want.push_back({"PatternType", sp::integer(1)});
                want.push_back({"PaintType", sp::integer(1)});
                want.push_back({"TilingType", sp::integer(1)});
                want.push_back({"BBox", sp::nums(bb)});
                want.push_back({"XStep", sp::num(bb[2] - bb[0])});
                want.push_back({"YStep", sp::num(bb[3] - bb[1])});
                want.push_back({"Resources", sp::any()});
            }
            if(m > 1) want.push_back({"Matrix", sp::nums(mm)});
            else if(m == 1 || sh == 2) want.push_back({"Matrix", sp::def(sp::nums(M[1]))});
            auto *o = one(d, has("PatternType"));
            expect(cx, d, "pattern", o, sp::dict(want));
            if(count(d, has("PatternType")) != 1) cx.violation("more than one pattern");
            cx.state(o ? pdf::show(*o, 3) : "");
        }, nullptr});
        // products of critical values for the numbers that belong together: matrices, coordinates, boxes
        f.push_back({"matrices", (thorough ? 15625u : 4096u) * 4, [=](size_t i, Ctx &cx) {
            static const char *MAKE[] = {"transparency_group_new", "form_xobject_new", "tiling_pattern_context_new"};
            static const char *ADD[] = {"generator_add_transparency_group", "generator_add_form_xobject", "generator_add_tiling_pattern"};
            static const double V3[] = {0, 1, -2.5, -1, 0.001};
            size_t k = i % 4, n = i / 4, B = thorough ? 5 : 4;
            D m;
            for(int j = 0; j < 6; ++j, n /= B) m.push_back(V3[n % B]);
            T w;
            w.begin();
            V id;
            if(k < 3) {
                auto g = w.s(MAKE[k], w.gen, 0.0, 0.0, 10.0, 20.0);
                w.s("dc_cmd_re", g, 1.0, 2.0, 3.0, 4.0);
                w.s("dc_cmd_f", g);
                w.s("dc_set_group_matrix", g, m[0], m[1], m[2], m[3], m[4], m[5]);
                id = w.s(ADD[k], w.gen, g);
                w.s("dc_destroy", g);
            } else {
                auto p = w.s("shading_pattern_new", w.shade(1));
                w.s("shading_pattern_set_matrix", p, m[0], m[1], m[2], m[3], m[4], m[5]);
                id = w.s("generator_add_shading_pattern", w.gen, p);
            }
            if(k == 0) w.s("dc_cmd_Do_trgroup", w.dc, id);
            else if(k > 1) {
                auto col = w.s("color_new");
                w.s("color_set_pattern", col, id);
                w.s("dc_set_nonstroke", w.dc, col);
            }
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto *o = k < 2 ? one(d, is("Subtype", "Form")) : one(d, has("PatternType"));
            bool unit = m == D{1, 0, 0, 1, 0, 0};
            expect(cx, d, "matrix", o, sp::dict({{"Matrix", unit ? sp::def(sp::nums(m)) : sp::nums(m)}}, true));
            cx.state(o ? pdf::show(*o, 3) : "");
        }, nullptr});
        f.push_back({"coordinates", 81 + 729, [=](size_t i, Ctx &cx) {
            static const double V3[] = {0, 1, 12.5};
            bool radial = i >= 81;
            size_t n = radial ? i - 81 : i;
            D c;
            for(int j = 0; j < (radial ? 6 : 4); ++j, n /= 3) c.push_back(V3[n % 3] * (j == 0 || j == 4 ? -1 : 1));
            if(radial) { c[5] = std::fabs(c[5]); c[2] = std::fabs(c[2]); }
            T w;
            w.begin();
            auto f = w.fn2(3);
            auto sh = radial ? w.s("type3_shading_new", 0, c, f) : w.s("type2_shading_new", 0, c[0], c[1], c[2], c[3], f);
            w.s("dc_cmd_sh", w.dc, w.s("generator_add_shading", w.gen, sh));
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto *o = one(d, has("ShadingType"));
            expect(cx, d, "shading", o, sp::dict({{"Coords", sp::nums(c)}}, true));
            cx.state(o ? pdf::show(*o, 3) : "");
        }, nullptr});
        f.push_back({"boxes", 625 * 3, [=](size_t i, Ctx &cx) {
            static const char *MAKE[] = {"transparency_group_new", "form_xobject_new", "tiling_pattern_context_new"};
            static const char *ADD[] = {"generator_add_transparency_group", "generator_add_form_xobject", "generator_add_tiling_pattern"};
            static const double V5[] = {0, 1, -1, 20.5, -300};
            size_t k = i % 3, n = i / 3;
            D b;
            for(int j = 0; j < 4; ++j, n /= 5) b.push_back(V5[n % 5]);
            if(b[0] >= b[2] || b[1] >= b[3]) return;
            T w;
            w.begin();
            auto g = w.s(MAKE[k], w.gen, b[0], b[1], b[2], b[3]);
            w.s("dc_cmd_re", g, 1.0, 2.0, 3.0, 4.0);
            w.s("dc_cmd_f", g);
            auto id = w.s(ADD[k], w.gen, g);
            w.s("dc_destroy", g);
            if(k == 0) w.s("dc_cmd_Do_trgroup", w.dc, id);
            else if(k == 2) {
                auto col = w.s("color_new");
                w.s("color_set_pattern", col, id);
                w.s("dc_set_stroke", w.dc, col);
            }
            w.finish();
            Doc d;
            if(!run_good(w.s, cx, d)) return;
            auto *o = k < 2 ? one(d, is("Subtype", "Form")) : one(d, has("PatternType"));
            sp::Dict want{{"BBox", sp::nums(b)}};
            if(k == 2) { want.push_back({"XStep", sp::num(b[2] - b[0])}); want.push_back({"YStep", sp::num(b[3] - b[1])}); }
            else if(auto *m = o ? o->get("Matrix") : nullptr; m) want.push_back({"Matrix", sp::nums({1, 0, 0, 1, 0, 0})});
            expect(cx, d, "box", o, sp::dict(want, true));
            cx.state(o ? pdf::show(*o, 3) : "");
        }, nullptr});
        // meshes of the wrong kind and functions of the wrong kind
        f.push_back({"kinds", 4 * 8, [](size_t i, Ctx &cx) {
            T w;
            w.begin();
            int k = (int)(i % 4), op = (int)(i / 4);
            auto col = w.color(RGB, {0, 0, 0});
            V sh;
            switch(k) {
            case 0: sh = w.s("type2_shading_new", 0, 0.0, 0.0, 1.0, 1.0, w.fn2(3)); break;
            case 1: sh = w.s("type3_shading_new", 0, D{0, 0, 1, 2, 3, 4}, w.fn2(3)); break;
            case 2: sh = w.s("type4_shading_new", 0, 0.0, 0.0, 10.0, 10.0); w.s("type4_shading_add_triangle", sh, D{0, 0, 1, 1, 2, 2}, std::vector<V>{col, col, col}); break;
            case 3: sh = w.s("type6_shading_new", 0, 0.0, 0.0, 10.0, 10.0); w.s("type6_shading_add_patch", sh, D(24, 1), std::vector<V>{col, col, col, col}); break;
            }
            bool good = true;
            size_t lo = w.s.size();
            switch(op) {
            case 0: w.s("shading_set_extend", sh, 1, 0); good = k < 2; break;
            case 1: w.s("shading_set_domain", sh, 0.0, 1.0); good = k < 2; break;
            case 2: w.s("type4_shading_add_triangle", sh, D{0, 0, 1, 1, 2, 2}, std::vector<V>{col, col, col}); good = k == 2; break;
            case 3: w.s("type4_shading_extend", sh, 1, D{0, 0}, col); good = k == 2; break;
            case 4: w.s("type6_shading_add_patch", sh, D(24, 1), std::vector<V>{col, col, col, col}); good = k == 3; break;
            case 5: w.s("type6_shading_extend", sh, 1, D(16, 1), std::vector<V>{col, col}); good = k == 3; break;
            case 6: w.s("shading_set_extend", sh, 2, 0); good = false; break;
            case 7: w.s("type6_shading_extend", sh, 4, D(16, 1), std::vector<V>{col, col}); good = false; break;
            }
            size_t hi = w.s.size();
            w.s("dc_cmd_sh", w.dc, w.s("generator_add_shading", w.gen, sh));
            w.finish();
            Doc d;
            if(good) run_good(w.s, cx, d);
            else run_reject(w.s, lo, hi, cx, d);
            cx.state(to_string(i));
        }, nullptr});
        return f;
    };
    return check_main(argc, argv, c);
}
