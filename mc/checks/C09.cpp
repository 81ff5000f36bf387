// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include "imagegen.hpp"
using namespace mc;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;


// What a viewer must see: colours as numbers between 0 and 1, written as fractions.
struct Pic {
    int cs = RGB;
    uint32_t w = 0, h = 0;
    int depth = 8;               // of the samples
    std::vector<int> px;         // w*h*NC[cs]
    int adepth = 0;              // 0: opaque
    std::vector<int> alpha;      // w*h
    string icc;
    bool icc_optional = false;
};
static std::vector<int> unpack(const string &s, uint32_t w, uint32_t h, int n, int depth) {
    std::vector<int> r;
    auto rb = row_bytes(w, n, depth);
    for(uint32_t y = 0; y < h; ++y) {
        size_t bit = 0;
        for(uint32_t i = 0; i < w * (uint32_t)n; ++i) {
            int v = 0;
            for(int b = 0; b < depth; ++b, ++bit) v = v * 2 + ((unsigned char)s[y * rb + bit / 8] >> (7 - bit % 8) & 1);
            r.push_back(v);
        }
    }
    return r;
}
static string deflated(const string &s) {
    uLongf n = compressBound(s.size());
    string r(n, '\0');
    compress((Bytef *)r.data(), &n, (const Bytef *)s.data(), s.size());
    r.resize(n);
    return r;
}
// A small profile with four channels.

// The image object that is drawn by the first page.
static const Obj *drawn(const Doc &d) {
    int p = d.pages()[0];
    for(auto &op : d.page_ops(p))
        if(op.op == "Do") {
            auto *res = d.inherited(p, "Resources");
            if(!res) return nullptr;
            return &d.need(d.need(d.deref(*res), "XObject"), op.a[0].s);
        }
    return nullptr;
}
static string samples_of(const Doc &d, const Obj &im, int ncomp, uint32_t w, uint32_t h, int &depth, std::vector<int> &out) {
    auto &bpc = d.need(im, "BitsPerComponent");
    depth = (int)bpc.i;
    if(depth != 1 && depth != 2 && depth != 4 && depth != 8 && depth != 16) return "the depth is " + to_string(depth);
    if(d.need(im, "Width").i != (int64_t)w || d.need(im, "Height").i != (int64_t)h) return "the size is " + pdf::show(d.need(im, "Width")) + " x " + pdf::show(d.need(im, "Height"));
    auto s = d.stream_data(im);
    if(s.size() != row_bytes(w, ncomp, depth) * h) return to_string(s.size()) + " bytes of data instead of " + to_string(row_bytes(w, ncomp, depth) * h);
    out = unpack(s, w, h, ncomp, depth);
    return "";
}
static string same(const std::vector<int> &got, int gd, const std::vector<int> &want, int wd) {
    if(got.size() != want.size()) return "the number of samples is " + to_string(got.size());
    int64_t gm = (1 << gd) - 1, wm = (1 << wd) - 1;
    for(size_t i = 0; i < got.size(); ++i)
        if(got[i] * wm != want[i] * gm) return "sample " + to_string(i) + " is " + to_string(got[i]) + "/" + to_string(gm) + " expected " + to_string(want[i]) + "/" + to_string(wm);
    return "";
}
// interp: 0 not said 1 false 2 true
static string judge(const Doc &d, const Obj *im, const Pic &p, int interp = 0, bool mask = false) {
    if(!im || im->t != Obj::Stream) return "there is no image";
    if(!d.need(*im, "Type").isname("XObject") || !d.need(*im, "Subtype").isname("Image")) return "it is no image";
    for(auto &[k, v] : im->d)
        if(!std::set<string>{"Type", "Subtype", "Width", "Height", "BitsPerComponent", "Length", "Filter", "ColorSpace", "SMask", "Interpolate", "ImageMask"}.count(k)) return "there is a /" + k;
    auto *in = d.dget(*im, "Interpolate");
    if(in ? in->t != Obj::Bool || in->b != (interp == 2) || (interp == 0 && in->b) : interp == 2) return "Interpolate is wrong";
    auto *ma = d.dget(*im, "ImageMask");
    if(mask != (ma && ma->b)) return "ImageMask is wrong";
    auto *cs = d.dget(*im, "ColorSpace");
    int n = NC[p.cs];
    if(mask) {
        if(cs) return "a mask has a colour space";
    } else {
        if(!cs) return "no colour space";
        if(cs->t == Obj::Name) {
            if(!cs->isname(CS[p.cs])) return "the colour space is " + cs->s;
            if(!p.icc.empty() && !p.icc_optional) return "the ICC profile is lost";
        } else {
            if(cs->t != Obj::Arr || cs->a.size() != 2 || !d.deref(cs->a[0]).isname("ICCBased")) return "the colour space is " + pdf::show(*cs);
            auto &st = d.deref(cs->a[1]);
            if(d.need(st, "N").i != n) return "the profile has " + pdf::show(d.need(st, "N")) + " components";
            if(p.icc.empty()) return "there is a profile";
            if(d.stream_data(st) != p.icc) return "the profile is another one";
        }
    }
    int depth = 0;
    std::vector<int> px;
    auto r = samples_of(d, *im, n, p.w, p.h, depth, px);
    if(!r.empty()) return r;
    r = same(px, depth, p.px, p.depth);
    if(!r.empty()) return "colour " + r;
    auto *sm = d.dget(*im, "SMask");
    if(sm) {
        if(sm->t != Obj::Stream || !d.need(*sm, "Subtype").isname("Image") || !d.need(*sm, "ColorSpace").isname("DeviceGray") || sm->get("SMask") || sm->get("Decode") || sm->get("ImageMask") || sm->get("Matte")) return "bad soft mask " + pdf::show(*sm);
        std::vector<int> al;
        int ad = 0;
        r = samples_of(d, *sm, 1, p.w, p.h, ad, al);
        if(!r.empty()) return "soft mask: " + r;
        r = same(al, ad, p.adepth ? p.alpha : std::vector<int>(p.w * p.h, 1), p.adepth ? p.adepth : 1);
        if(!r.empty()) return "soft mask: " + r;
    } else if(p.adepth)
        for(int a : p.alpha)
            if(a != (1 << p.adepth) - 1) return "the transparency is lost";
    return "";
}
static V props(W &w, int interp, bool mask) {
    auto p = w.s("image_pdf_properties_new");
    if(interp) w.s("image_pdf_properties_set_interpolate", p, interp);
    if(mask) w.s("image_pdf_properties_set_mask", p, 1);
    return p;
}
static void use(W &w, V id) { w.s("dc_cmd_Do_image", w.dc, id); }

// --- raw samples
static const uint32_t WIDTHS[] = {1, 2, 3, 7, 8, 9, 16, 17};
static const int DEPTHS[] = {1, 2, 4, 8, 16};
static void raw_case(size_t i, Ctx &cx) {
    Pic p;
    p.w = WIDTHS[i % 8]; i /= 8;
    p.h = 1 + i % 3; i /= 3;
    p.cs = (int)(i % 3); i /= 3;
    p.depth = DEPTHS[i % 5]; i /= 5;
    p.adepth = i % 6 ? DEPTHS[i % 6 - 1] : 0; i /= 6;
    bool defl = i % 2; i /= 2;
    int interp = (int)(i % 3); i /= 3;
    p.px = pattern(p.w * p.h * (size_t)NC[p.cs], p.depth, (int)p.w);
    if(p.adepth) p.alpha = pattern(p.w * p.h, p.adepth, 5);
    auto px = pack(p.px, p.w, p.h, NC[p.cs], p.depth), al = p.adepth ? pack(p.alpha, p.w, p.h, 1, p.adepth) : "";
    W w;
    w.props();
    w.start();
    auto b = w.s("raster_image_builder_new");
    w.s("raster_image_builder_set_size", b, (int)p.w, (int)p.h);
    w.s("raster_image_builder_set_colorspace", b, p.cs);
    w.s("raster_image_builder_set_pixel_depth", b, p.depth);
    w.s("raster_image_builder_set_pixel_data", b, defl ? deflated(px) : px);
    if(p.adepth) {
        w.s("raster_image_builder_set_alpha_depth", b, p.adepth);
        w.s("raster_image_builder_set_alpha_data", b, defl ? deflated(al) : al);
    }
    if(defl) w.s("raster_image_builder_set_input_data_compression_format", b, 1);
    auto im = w.s("raster_image_builder_build", b);
    size_t op = w.s.size();
    auto gw = w.s.newvar(), gh = w.s.newvar(), gc = w.s.newvar(), gp = w.s.newvar();
    (void)gw; (void)gh; (void)gc; (void)gp;
    w.s("raster_image_get_size", im);
    w.s("raster_image_get_colorspace", im);
    w.s("raster_image_has_profile", im);
    auto id = w.s("generator_add_image", w.gen, im, props(w, interp, false));
    use(w, id);
    w.finish();
    Doc d;
    Result r;
    if(!run_good(w.s, cx, d, &r)) return;
    auto out = [&](size_t o, size_t nth) {
        auto &a = w.s.ops[o].a;
        for(auto &v : a)
            if(v.k == Val::OUT && nth-- == 0) return r.o.vars.at((size_t)v.i).i;
        return int64_t(-99);
    };
    if(out(op, 0) != p.w || out(op, 1) != p.h) cx.violation("raster_image_get_size is wrong", to_string(out(op, 0)) + " x " + to_string(out(op, 1)));
    if(out(op + 1, 0) != p.cs) cx.violation("raster_image_get_colorspace is wrong", to_string(out(op + 1, 0)));
    if(out(op + 2, 0) != 0) cx.violation("raster_image_has_profile is wrong");
    auto e = judge(d, drawn(d), p, interp);
    if(!e.empty()) cx.violation(e[0] == '!' ? e.substr(1) : "the image differs", e);
    cx.state(px + al + to_string(interp) + to_string(p.cs) + to_string(p.depth));
}
// stencil masks
static void mask_case(size_t i, Ctx &cx) {
    Pic p;
    p.w = WIDTHS[i % 8]; i /= 8;
    p.h = 1 + i % 2; i /= 2;
    p.cs = (int)(i % 3); i /= 3;
    p.depth = DEPTHS[i % 5]; i /= 5;
    bool alpha = i % 2; i /= 2;
    int interp = (int)(i % 3);
    p.px = pattern(p.w * p.h * (size_t)NC[p.cs], p.depth, (int)p.w);
    W w;
    w.props();
    w.start();
    auto b = w.s("raster_image_builder_new");
    w.s("raster_image_builder_set_size", b, (int)p.w, (int)p.h);
    w.s("raster_image_builder_set_colorspace", b, p.cs);
    w.s("raster_image_builder_set_pixel_depth", b, p.depth);
    w.s("raster_image_builder_set_pixel_data", b, pack(p.px, p.w, p.h, NC[p.cs], p.depth));
    if(alpha) {
        w.s("raster_image_builder_set_alpha_depth", b, 8);
        w.s("raster_image_builder_set_alpha_data", b, string(p.w * p.h, 'a'));
    }
    auto im = w.s("raster_image_builder_build", b);
    auto pr = props(w, interp, true);
    size_t lo = w.s.size();
    auto id = w.s("generator_add_image", w.gen, im, pr);
    size_t hi = w.s.size();
    bool good = p.cs == GRAY && p.depth == 1 && !alpha;
    if(good) use(w, id);
    w.finish();
    Doc d;
    if(!good) { run_reject(w.s, lo, hi, cx, d); cx.state("rejected"); return; }
    if(!run_good(w.s, cx, d)) return;
    auto e = judge(d, drawn(d), p, interp, true);
    if(!e.empty()) cx.violation("the mask differs", e);
    cx.state(to_string(p.w) + to_string(p.h) + to_string(interp));
}
// data that do not fit
static void misfit_case(size_t i, Ctx &cx) {
    static const int BADDEPTH[] = {0, 3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 32, 64, -8, INT32_MAX, INT32_MIN};
    int cs = (int)(i % 3); i /= 3;
    int kind = (int)(i % 8), k = (int)(i / 8);
    uint32_t w0 = 9, h0 = 3;
    int depth = DEPTHS[k % 5], adepth = 0;
    string px, al;
    auto full = [&](int n, int dp) { return string(row_bytes(w0, n, dp) * h0, 'x'); };
    px = full(NC[cs], depth);
    int64_t ww = w0, hh = h0;
    switch(kind) {
    case 0: px.pop_back(); break;
    case 1: px.resize(px.size() / 2); break;
    case 2: px.clear(); break;
    case 3: depth = BADDEPTH[k % 16]; px = string(4000, 'x'); break;
    case 4: adepth = DEPTHS[k % 5]; al = full(1, adepth); al.pop_back(); break;
    case 5: adepth = BADDEPTH[k % 16]; al = string(4000, 'x'); break;
    case 6: (k % 2 ? ww : hh) = 0; break;
    case 7: (k % 2 ? ww : hh) = k < 8 ? 0x7fffffff : 0x40000000; if(k % 4 > 1) ww = hh = 0x20000000; break; // overflows of the size
    }
    W w;
    w.props();
    w.start();
    size_t lo = w.s.size();
    auto b = w.s("raster_image_builder_new");
    w.s("raster_image_builder_set_size", b, ww, hh);
    w.s("raster_image_builder_set_colorspace", b, cs);
    w.s("raster_image_builder_set_pixel_depth", b, depth);
    w.s("raster_image_builder_set_pixel_data", b, px);
    if(!al.empty()) {
        w.s("raster_image_builder_set_alpha_depth", b, adepth);
        w.s("raster_image_builder_set_alpha_data", b, al);
    }
    auto im = w.s("raster_image_builder_build", b);
    w.s("generator_add_image", w.gen, im, props(w, 0, false));
    size_t hi = w.s.size();
    w.finish();
    Doc d;
    run_reject(w.s, lo, hi, cx, d);
    cx.state(to_string(kind) + "." + to_string(k) + "." + to_string(cs));
}

// --- files
enum How { FILE_EXT, FILE_BARE, MEMORY };
// must: 1 must be accepted, 0 may be rejected, -1 must be rejected
static void file_case(const string &data, const string &ext, int how, int must, const Pic &p, Ctx &cx, bool mask = false, const std::function<string(const Doc &, const Obj *)> &j = {}) {
    W w;
    w.props();
    w.start();
    size_t lo = w.s.size();
    V im;
    if(how == MEMORY) im = w.s("generator_load_image_from_memory", w.gen, data);
    else {
        auto name = "/image" + (how == FILE_EXT ? ext : string());
        write_file(scratch() + name, data);
        im = w.s("generator_load_image", w.gen, "$OUT" + name);
    }
    int interp = (int)(data.size() % 3);
    auto id = w.s("generator_add_image", w.gen, im, props(w, interp, mask));
    size_t hi = w.s.size();
    use(w, id);
    w.finish();
    cx.script(w.s);
    auto r = run_pdf(w.s);
    cx.transitions(w.s.size());
    cx.traces();
    bool rejected = false;
    for(size_t k = lo; k < hi; ++k) rejected |= r.o.rc[k] != 0;
    if(rejected) {
        if(must > 0) {
            string e;
            for(size_t k = lo; k < hi; ++k)
                if(r.o.rc[k] > 0) e = error_text(r.o.rc[k]);
            cx.violation("a valid image is rejected", e);
        }
        cx.state("rejected");
        return;
    }
    if(must < 0) { cx.violation("an image that can not be represented is accepted"); return; }
    Doc d;
    try {
        d = Doc::parse(r.bytes);
        auto *o = drawn(d);
        auto e = j ? j(d, o) : judge(d, o, p, interp, mask);
        if(!e.empty()) cx.violation(e[0] == '!' ? e.substr(1) : "the image differs", e);
        cx.state(o ? pdf::show(*o, 2) + d.stream_data(*o) : "");
    } catch(const pdf::ParseError &e) { cx.violation("the document is invalid", e.what()); }
}
static void png_case(size_t i, Ctx &cx) {
    auto k = PNGS[i % PNGS.size()]; i /= PNGS.size();
    Pic p;
    p.w = WIDTHS[i % 8]; i /= 8;
    p.h = 1 + i % 3; i /= 3;
    bool lace = i % 2; i /= 2;
    bool icc = i % 2; i /= 2;
    bool key = i % 2; i /= 2;
    int how = (int)(i % 3);
    bool a = k.type & PNG_COLOR_MASK_ALPHA;
    if(key && a) return;
    p.cs = k.type & PNG_COLOR_MASK_COLOR ? RGB : GRAY;
    p.depth = k.depth;
    int n = NC[p.cs] + a;
    auto all = pattern(p.w * p.h * (size_t)n, k.depth, (int)(p.w * 7 + p.h));
    for(size_t q = 0; q < all.size(); ++q)
        if(a && q % (size_t)n == (size_t)n - 1) p.alpha.push_back(all[q]);
        else p.px.push_back(all[q]);
    if(a) p.adepth = k.depth;
    png_color_16 kc{};
    if(key) { // the colour of the last pixel is transparent
        size_t last = (p.w * p.h - 1) * (size_t)n;
        if(p.cs == GRAY) kc.gray = (uint16_t)p.px[last];
        else kc.red = (uint16_t)p.px[last], kc.green = (uint16_t)p.px[last + 1], kc.blue = (uint16_t)p.px[last + 2];
        p.adepth = 1;
        for(size_t q = 0; q < p.w * p.h; ++q) p.alpha.push_back(!std::equal(&p.px[q * (size_t)n], &p.px[q * (size_t)n] + n, &p.px[last]));
    }
    if(icc) p.icc = icc_for(p.cs);
    file_case(png_file(k.type, k.depth, p.w, p.h, all, lace, {}, {}, key ? &kc : nullptr, p.icc), ".png", how, 1, p, cx);
}
// palettes: any assignment of these colours
static const png_color COLORS[] = {{0, 0, 0}, {255, 255, 255}, {255, 0, 0}, {254, 255, 255}};
static void palette_case(size_t i, Ctx &cx, int maxsize) {
    // size 1..4 of colours 0..3, transparency of each entry 0, 255 or 128 or no tRNS, width, depth, icc
    uint32_t wd = WIDTHS[i % 8]; i /= 8;
    int size = 1 + (int)(i % (size_t)maxsize); i /= (size_t)maxsize;
    std::vector<png_color> pal;
    std::vector<int> ci;
    for(int k = 0; k < maxsize; ++k) {
        if(k < size) { pal.push_back(COLORS[i % 4]); ci.push_back((int)(i % 4)); }
        else if(i % 4) return;
        i /= 4;
    }
    size_t nt = i % 5; i /= 5; // entries of tRNS
    if(nt > (size_t)size) return;
    std::vector<png_byte> tr;
    static const png_byte T[] = {0, 255, 128};
    for(size_t k = 0; k < 4; ++k) {
        if(k < nt) tr.push_back(T[i % 3]);
        else if(i % 3) return;
        i /= 3;
    }
    Pic p;
    p.w = wd;
    p.h = 2;
    int depth = size <= 2 ? (wd % 2 ? 1 : 8) : size <= 4 ? (wd % 2 ? 2 : 4) : 8;
    std::vector<int> idx;
    for(size_t q = 0; q < p.w * p.h; ++q) idx.push_back((int)((q * 7 + q / 3 + wd) % (size_t)size));
    p.cs = GRAY;
    p.depth = 1;
    bool bw = true, hard = true, some = false;
    for(auto v : idx) {
        int t = (size_t)v < nt ? tr[(size_t)v] : 255;
        some = some || t != 255;
        hard = hard && (t == 0 || t == 255);
        if(ci[(size_t)v] > 1) bw = false;
        p.px.push_back(ci[(size_t)v] == 1);
        p.alpha.push_back(t == 255);
    }
    if(nt) p.adepth = 1;
    p.icc_optional = true;
    (void)some;
    bool two = true; // only black, white and transparent entries
    for(int k = 0; k < size; ++k) {
        int t = (size_t)k < nt ? tr[(size_t)k] : 255;
        two = two && (t == 0 || (t == 255 && ci[(size_t)k] < 2));
    }
    // every colour that is used must be right: colours other than black and white, and partial transparency, need something else than what is expected here
    auto file = png_file(PNG_COLOR_TYPE_PALETTE, depth, p.w, p.h, idx, false, pal, tr, nullptr, "");
    auto any = [&](const Doc &d, const Obj *im) -> string {
        if(!im) return "there is no image";
        // compare what is seen
        auto *cs = d.dget(*im, "ColorSpace");
        int n = cs && cs->isname("DeviceRGB") ? 3 : cs && cs->isname("DeviceGray") ? 1 : 0;
        if(!n) return "another colour space";
        int depth = 0, ad = 0;
        std::vector<int> px, al;
        auto r = samples_of(d, *im, n, p.w, p.h, depth, px);
        if(!r.empty()) return r;
        auto *sm = d.dget(*im, "SMask");
        if(sm) {
            r = samples_of(d, *sm, 1, p.w, p.h, ad, al);
            if(!r.empty()) return "soft mask: " + r;
        }
        if(n == 1 && !sm && two && p.w > 8) { // known: everything but the last byte of a row is shifted
            bool shifted = true;
            for(size_t y = 0; y < p.h; ++y)
                for(size_t x = 0, last = (p.w - 1) / 8 * 8; x < p.w; ++x) {
                    bool white = x == last || ci[(size_t)idx[y * p.w + x + (x < last)]] == 1;
                    shifted = shifted && (px[y * p.w + x] != 0) == white;
                }
            bool right = true;
            for(size_t q = 0; q < p.w * p.h; ++q) right = right && (px[q] != 0) == (ci[(size_t)idx[q]] == 1);
            if(shifted && !right) return "!the first column of a palette image without transparency is lost";
        }
        for(size_t q = 0; q < p.w * p.h; ++q) {
            int v = idx[q];
            double t = (size_t)v < nt ? tr[(size_t)v] / 255.0 : 1, ga = sm ? al[q] / double((1 << ad) - 1) : 1;
            if(std::fabs(t - ga) > 1e-9) return "pixel " + to_string(q) + " has opacity " + to_string(ga) + " expected " + to_string(t);
            if(t == 0) continue; // not seen
            auto &c = pal[(size_t)v];
            double want[3] = {c.red / 255.0, c.green / 255.0, c.blue / 255.0};
            for(int j = 0; j < 3; ++j) {
                double g = px[q * (size_t)n + (size_t)(n == 3 ? j : 0)] / double((1 << depth) - 1);
                if(std::fabs(g - want[j]) > 1e-9) return "pixel " + to_string(q) + " is " + to_string(g) + " expected " + to_string(want[j]);
            }
        }
        return "";
    };
    (void)bw; (void)hard;
    file_case(file, ".png", (int)(wd % 3), two ? 1 : 0, p, cx, false, any);
}

// --- TIFF
static void tiff_case(size_t i, Ctx &cx, bool all) {
    auto &k = TIFFS[i % TIFFS.size()]; i /= TIFFS.size();
    Pic p;
    p.w = all ? WIDTHS[i % 8] : (uint32_t[]){1, 3, 8, 17}[i % 4]; i /= all ? 8 : 4;
    p.h = 1 + i % 3; i /= 3;
    static const int COMP[] = {COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_ADOBE_DEFLATE, COMPRESSION_PACKBITS};
    int comp = COMP[i % 4]; i /= 4;
    int layout = (int)(i % 3); i /= 3; // contiguous, planar, tiled
    int depth = (int[]){8, 1, 4, 16}[i % 4]; i /= 4;
    int icc = (int)(i % 3); i /= 3; // none, right, wrong channel count
    bool big = i % 2; i /= 2;
    uint32_t rps = i % 2 ? 2 : p.h; i /= 2;
    int how = (int)(i % 3);
    if(k.photometric == PHOTOMETRIC_PALETTE && depth == 16) return;
    auto all_px = pattern(p.w * p.h * (size_t)k.spp, depth, (int)(p.w + p.h));
    p.cs = k.cs;
    p.depth = depth;
    bool a = k.spp == NC[k.cs] + 1;
    for(size_t q = 0; q < all_px.size(); ++q)
        if(a && q % (size_t)k.spp == (size_t)k.spp - 1) p.alpha.push_back(all_px[q]);
        else p.px.push_back(k.photometric == PHOTOMETRIC_MINISWHITE ? (1 << depth) - 1 - all_px[q] : all_px[q]);
    if(a) p.adepth = depth;
    p.icc = icc == 1 ? icc_for(k.cs) : icc == 2 ? icc_for((k.cs + 1) % 3) : "";
    bool sane = k.photometric != PHOTOMETRIC_PALETTE && (k.spp == NC[k.cs] || a);
    bool plain = sane && k.photometric != PHOTOMETRIC_MINISWHITE && layout == 0 && depth == 8;
    if(icc == 2) plain = false;
    auto f = tiff_file(k, p.w, p.h, depth, all_px, comp, layout == 1, big, layout == 2, rps, p.icc);
    if(layout == 2) { // constant contents
        for(auto &v : p.px) v = depth == 16 ? 0x7878 : depth == 8 ? 'x' : depth == 4 ? -1 : -1;
        for(auto &v : p.alpha) v = depth == 16 ? 0x7878 : 'x';
    }
    if(icc == 2) { p.icc.clear(); } // rejected, or the profile is not used
    file_case(f, ".tif", how, plain ? 1 : sane ? 0 : -1, p, cx);
}

// --- JPEG
static void jpeg_case(size_t i, Ctx &cx) {
    auto &k = JPEGS[i % JPEGS.size()]; i /= JPEGS.size();
    uint32_t w = (uint32_t[]){1, 2, 8, 9, 17, 300}[i % 6]; i /= 6;
    uint32_t h = (uint32_t[]){1, 8, 19}[i % 3]; i /= 3;
    bool prog = i % 2; i /= 2;
    int restart = i % 2 ? 1 : 0; i /= 2;
    int icc = (int)(i % 3); i /= 3;
    int how = (int)(i % 3); i /= 3;
    bool mask = i % 2;
    bool jfif = w % 2;
    auto profile = icc == 1 ? icc_for(k.cs) : icc == 2 ? icc_for((k.cs + 1) % 3) : "";
    auto f = jpeg_file(k, w, h, prog, restart, jfif, profile);
    int interp = (int)(f.size() % 3);
    auto j = [&](const Doc &d, const Obj *im) -> string {
        if(!im || im->t != Obj::Stream) return "there is no image";
        for(auto &[key, v] : im->d)
            if(!std::set<string>{"Type", "Subtype", "Width", "Height", "BitsPerComponent", "Length", "Filter", "ColorSpace", "Interpolate", "Decode", "DecodeParms"}.count(key)) return "there is a /" + key;
        if(!d.need(*im, "Type").isname("XObject") || !d.need(*im, "Subtype").isname("Image")) return "it is no image";
        if(d.need(*im, "Width").i != w || d.need(*im, "Height").i != h || d.need(*im, "BitsPerComponent").i != 8) return "the size is wrong";
        if(!d.need(*im, "Filter").isname("DCTDecode")) return "the filter is wrong";
        if(im->data != f) return "the file is not embedded as it is";
        auto *in = d.dget(*im, "Interpolate");
        if(in ? in->b != (interp == 2) || (interp == 0 && in->b) : interp == 2) return "Interpolate is wrong";
        auto &cs = d.need(*im, "ColorSpace");
        if(cs.t == Obj::Name) {
            if(!cs.isname(CS[k.cs])) return "the colour space is " + cs.s;
            if(icc == 1) return "the ICC profile is lost";
        } else {
            auto &st = d.deref(cs.a.at(1));
            if(icc != 1) return "the profile has another number of channels";
            if(d.need(st, "N").i != NC[k.cs] || d.stream_data(st) != profile) return "the profile is wrong";
        }
        // files with an Adobe marker hold inverted CMYK
        bool inverted = k.cs == CMYK && k.adobe;
        auto *dec = d.dget(*im, "Decode");
        if(dec) {
            if(dec->a.size() != 2 * (size_t)NC[k.cs]) return "the size of Decode is wrong";
            for(size_t q = 0; q < dec->a.size(); ++q)
                if(dec->a[q].num() != (double)((q % 2 == 1) != inverted)) return "Decode is wrong";
        } else if(inverted) return "the colours are inverted";
        return "";
    };
    file_case(f, ".jpg", how, mask ? -1 : icc == 2 ? 0 : 1, {}, cx, mask, j);
}

// --- conversions
static cmsHPROFILE profile(int cs) {
    if(cs == RGB) return cmsCreate_sRGBProfile();
    if(cs == CMYK) return cmsOpenProfileFromFile((repo_dir() + "/testdata/icc/FOGRA29L.icc").c_str(), "r");
    auto c = cmsBuildGamma(nullptr, 1.0);
    auto h = cmsCreateGrayProfile(cmsD50_xyY(), c);
    cmsFreeToneCurve(c);
    return h;
}
static const cmsUInt32Number TYPES[] = {TYPE_RGB_8, TYPE_GRAY_8, TYPE_CMYK_8};
static void convert_case(size_t i, Ctx &cx) {
    int from = (int)(i % 3); i /= 3;
    int to = (int)(i % 3); i /= 3;
    int intent = (int)(i % 4); i /= 4;
    bool alpha = i % 2; i /= 2;
    bool icc = i % 2; i /= 2;
    bool have = i % 2; // a CMYK profile
    Pic p;
    p.w = 16;
    p.h = 16;
    p.cs = from;
    p.px = pattern(p.w * p.h * (size_t)NC[from], 8, (int)i);
    W w;
    w.md = w.s("document_properties_new");
    auto pp = w.s("page_properties_new");
    w.s("page_properties_set_pagebox", pp, 0, 0.0, 0.0, 200.0, 200.0);
    w.s("document_properties_set_default_page_properties", w.md, pp);
    if(have) w.s("document_properties_set_device_profile", w.md, CMYK, "$REPO/testdata/icc/FOGRA29L.icc");
    w.start();
    V im;
    string profile_data;
    if(alpha) { p.adepth = 8; p.alpha = pattern(p.w * p.h, 8, 77); }
    if(icc) {
        if(from == CMYK) return;
        profile_data = icc_for(from);
        std::vector<int> all;
        for(size_t q = 0; q < p.w * p.h; ++q) {
            for(int c = 0; c < NC[from]; ++c) all.push_back(p.px[q * (size_t)NC[from] + (size_t)c]);
            if(alpha) all.push_back(p.alpha[q]);
        }
        im = w.s("generator_load_image_from_memory", w.gen, png_file(from == RGB ? (alpha ? PNG_COLOR_TYPE_RGBA : PNG_COLOR_TYPE_RGB) : (alpha ? PNG_COLOR_TYPE_GA : PNG_COLOR_TYPE_GRAY), 8, p.w, p.h, all, false, {}, {}, nullptr, profile_data));
    } else {
        auto b = w.s("raster_image_builder_new");
        w.s("raster_image_builder_set_size", b, (int)p.w, (int)p.h);
        w.s("raster_image_builder_set_colorspace", b, from);
        w.s("raster_image_builder_set_pixel_data", b, pack(p.px, p.w, p.h, NC[from], 8));
        if(alpha) {
            w.s("raster_image_builder_set_alpha_depth", b, 8);
            w.s("raster_image_builder_set_alpha_data", b, pack(p.alpha, p.w, p.h, 1, 8));
        }
        im = w.s("raster_image_builder_build", b);
    }
    size_t lo = w.s.size();
    auto out = w.s("generator_convert_image", w.gen, im, to, intent);
    size_t hi = w.s.size();
    bool good = have || (from != CMYK && to != CMYK);
    if(good) use(w, w.s("generator_add_image", w.gen, out, props(w, 0, false)));
    w.finish();
    Doc d;
    if(!good) { run_reject(w.s, lo, hi, cx, d); cx.state("rejected"); return; }
    if(!run_good(w.s, cx, d)) return;
    static const int LCMS[] = {INTENT_RELATIVE_COLORIMETRIC, INTENT_ABSOLUTE_COLORIMETRIC, INTENT_SATURATION, INTENT_PERCEPTUAL};
    auto hin = icc ? cmsOpenProfileFromMem(profile_data.data(), (cmsUInt32Number)profile_data.size()) : profile(from), hout = profile(to);
    auto tr = cmsCreateTransform(hin, TYPES[from], hout, TYPES[to], (cmsUInt32Number)LCMS[intent], 0);
    string in, res(p.w * p.h * (size_t)NC[to], '\0');
    for(int v : p.px) in += (char)v;
    cmsDoTransform(tr, in.data(), res.data(), p.w * p.h);
    cmsDeleteTransform(tr);
    cmsCloseProfile(hin);
    cmsCloseProfile(hout);
    Pic q = p;
    q.cs = to;
    q.px.clear();
    for(unsigned char c : res) q.px.push_back(c);
    auto e = judge(d, drawn(d), q);
    if(!e.empty()) { // an image that has the colour space already may be used as it is
        Pic same = p;
        same.icc = profile_data;
        auto e2 = from == to ? judge(d, drawn(d), same) : "x";
        if(!e2.empty()) cx.violation("the converted image differs", e);
    }
    cx.state(res);
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C09";
    c.bounds = "Raw images: eight widths (1..17) x three heights x three colour spaces x five depths x six alpha depths x compression x interpolation; stencil masks; every way in which data do not fit. "
               "PNG: all colour types and depths x sizes x interlacing x colour key x ICC profile x way of loading; palettes of up to four entries of four colours and three opacities. "
               "TIFF: ten photometric layouts x sizes x compression x planar/tiled x depth x profile x byte order x strips x way of loading. JPEG: seven colour encodings x sizes x progressive x restart x profile x way of loading x mask. "
               "Conversions: all pairs of colour spaces x intents x alpha x embedded profile x CMYK profile.";
    c.assumptions = {"Data that the caller says are compressed are taken to be the deflated samples.", "Extra samples of a TIFF file are unassociated alpha; orientation tags are not applied.", "CMYK JPEG files with an Adobe marker are inverted."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        f.push_back({"raw", 8 * 3 * 3 * 5 * 6 * 2 * 3, raw_case});
        f.push_back({"mask", 8 * 2 * 3 * 5 * 2 * 3, mask_case});
        f.push_back({"misfit", 3 * 8 * 16, misfit_case});
        f.push_back({"png", PNGS.size() * 8 * 3 * 2 * 2 * 2 * 3, png_case});
        int m = thorough ? 4 : 3;
        f.push_back({"palette", 8 * (size_t)m * (m == 3 ? 64 : 256) * 5 * 81, [=](size_t i, Ctx &cx) { palette_case(i, cx, m); }});
        f.push_back({"tiff", TIFFS.size() * (thorough ? 8 : 4) * 3 * 4 * 3 * 4 * 3 * 2 * 2 * (thorough ? 3 : 1), [=](size_t i, Ctx &cx) { tiff_case(i, cx, thorough); }});
        f.push_back({"jpeg", JPEGS.size() * 6 * 3 * 2 * 2 * 3 * 3 * 2, jpeg_case});
        f.push_back({"convert", 3 * 3 * 4 * 2 * 2 * 2, convert_case, {}, 60});
        return f;
    };
    return check_main(argc, argv, c);
}
