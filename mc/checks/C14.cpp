// uses: features.cpp
// uses: fontgen.cpp
// sanitize
#include "imagegen.hpp"
#include "features.hpp"
#include "fontgen.hpp"
#include <algorithm>
#include <cstdlib>
#include <new>
#include <sys/stat.h>
#include "samples.hpp"
using namespace mc;
using std::to_string;

// An allocation that is larger than any that an intact file needs fails, as it does on a small machine.
static void *take(size_t n) {
    if(n > (512u << 20)) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
static void *take_or_null(size_t n) noexcept {
    try {
        return take(n);
    } catch(const std::bad_alloc &) {
        return nullptr;
    }
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take_or_null(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take_or_null(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

static void use_file(const Sample &sm, const string &data, const string &what, Ctx &cx) {
    cx.note(sm.name + ": " + what + "\n" + to_string(data.size()) + " bytes");
    size_t gens = 0;
    auto s = use_script(sm, data, gens);
    remove((scratch() + "/out.pdf").c_str());
    auto o = execute(s);
    cx.transitions(s.size());
    cx.traces();
    string seen = sm.name;
    for(int x : o.rc) seen += (char)('a' + (x == 0 ? 0 : x == SKIPPED ? 1 : 2));
    cx.state(seen);
    if(o.rc.back() != 0) {
        if(o.rc[gens] == 0 && file_exists(scratch() + "/out.pdf")) cx.violation("there is a file although writing failed", what);
        return;
    }
    try {
        auto d = pdf::Doc::parse(read_file(scratch() + "/out.pdf"));
        for(auto &[n, ob] : d.objs)
            if(ob.t == pdf::Obj::Stream) {
                auto *f = d.dget(ob, "Filter");
                if(!f || f->isname("FlateDecode")) d.stream_data(ob);
            }
    } catch(const pdf::ParseError &e) { cx.violation(string("the document is invalid: ") + e.what(), sm.name + " " + what); }
}
// Every corruption of the bytes at one position.
static void corrupt_case(size_t si, size_t i, Ctx &cx) {
    auto &s = SAMPLES()[si];
    size_t p = positions(si)[i];
    auto fix = [&](const string &x) { return s.png ? png_crc(x) : x; };
    bool deep = thorough();
    use_file(s, s.data.substr(0, p), "truncated to " + to_string(p), cx);
    if(p == s.data.size()) return;
    unsigned char old = (unsigned char)s.data[p];
    std::set<int> vals{0xff, old ^ 0x80, old ^ 1};
    if(deep) for(int v : {0, 1, 2, 0x7f, 0x80, 0xfe, old + 1, old - 1, old ^ 0x10, old ^ 4}) vals.insert(v & 255);
    vals.erase(old);
    for(int v : vals) {
        auto x = s.data;
        x[p] = (char)v;
        use_file(s, fix(x), "byte " + to_string(p) + " = " + to_string(v), cx);
        if(s.png && deep) use_file(s, x, "byte " + to_string(p) + " = " + to_string(v) + " with the old checksum", cx);
    }
    auto field = [&](size_t width, std::vector<uint32_t> values) {
        if(p % width || p + width > s.data.size()) return;
        for(bool little : {false, true}) {
            if(little && s.kind != IMAGE) continue;
            for(auto v : values) {
                auto x = s.data;
                for(size_t k = 0; k < width; ++k) x[p + k] = (char)(v >> (8 * (little ? k : width - 1 - k)));
                if(x == s.data) continue;
                use_file(s, fix(x), to_string(width) + (little ? " bytes at " : " big endian bytes at ") + to_string(p) + " = " + to_string(v), cx);
            }
        }
    };
    auto n = (uint32_t)s.data.size();
    field(2, deep ? std::vector<uint32_t>{0, 1, 0x7fff, 0x8000, 0xffff, 0xfffe, 0x100} : std::vector<uint32_t>{0, 0xffff});
    field(4, deep ? std::vector<uint32_t>{0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, n, n - 1, n + 1, 0x10000} : std::vector<uint32_t>{0x7fffffff, 0xffffffffu, n});
    if(deep && p + 1 < s.data.size()) { // a byte is missing or doubled
        auto x = s.data;
        x.erase(p, 1);
        use_file(s, fix(x), "byte " + to_string(p) + " removed", cx);
        x = s.data;
        x.insert(p, 1, x[p]);
        use_file(s, fix(x), "byte " + to_string(p) + " doubled", cx);
    }
}
static void table_case(size_t si, size_t i, Ctx &cx) {
    string what;
    auto x = table_file(si, i, what);
    use_file(SAMPLES()[si], x, what, cx);
}
// Two corrupted fields (the first 16 bit words of the structural tables).
static std::vector<size_t> hot(size_t si) {
    auto &s = SAMPLES()[si];
    std::vector<size_t> r;
    auto &f = s.data;
    auto g = [&](size_t p) { return (size_t)(unsigned char)f[p] << 24 | (size_t)(unsigned char)f[p + 1] << 16 | (size_t)(unsigned char)f[p + 2] << 8 | (size_t)(unsigned char)f[p + 3]; };
    size_t n = (size_t)((unsigned char)f[4] << 8 | (unsigned char)f[5]);
    for(size_t k = 0; k < n; ++k) {
        auto tag = f.substr(12 + 16 * k, 4);
        size_t o = g(12 + 16 * k + 8), l = g(12 + 16 * k + 12);
        if(tag == "head") r.insert(r.end(), {o + 18, o + 50});
        else if(tag == "hhea") r.push_back(o + 34);
        else if(tag == "maxp") r.push_back(o + 4);
        else if(tag == "loca") for(size_t q = 0; q < std::min<size_t>(l, 20); q += 2) r.push_back(o + q);
        else if(tag == "glyf" || tag == "CFF ") for(size_t q = 0; q < std::min<size_t>(l, 40); q += 2) r.push_back(o + q);
        else if(tag == "cmap") for(size_t q = 0; q < std::min<size_t>(l, 30); q += 2) r.push_back(o + q);
        r.push_back(12 + 16 * k + 10);
        r.push_back(12 + 16 * k + 14);
    }
    return r;
}
static void pair_case(size_t si, size_t i, Ctx &cx) {
    auto &s = SAMPLES()[si];
    auto h = hot(si);
    size_t a = h[i % h.size()], b = h[i / h.size()];
    if(a >= b || b + 2 > s.data.size()) return;
    for(int v : {0, 1, 0x7fff, 0xffff})
        for(int w : {0, 1, 0x7fff, 0xffff}) {
            auto x = s.data;
            x[a] = (char)(v >> 8); x[a + 1] = (char)v;
            x[b] = (char)(w >> 8); x[b + 1] = (char)w;
            use_file(s, x, "words at " + to_string(a) + " = " + to_string(v) + " and " + to_string(b) + " = " + to_string(w), cx);
        }
}
// What is no such file at all.
static void other_case(size_t i, Ctx &cx) {
    auto &S = SAMPLES();
    Sample s = S[i % S.size()];
    i /= S.size();
    if(i < S.size()) use_file(s, S[i].data, "is in fact " + S[i].name, cx);
    else {
        static const std::vector<string> D = {"", "x", string(1, '\0'), string(4, '\0'), string(12, '\0'), string(100, '\0'), string(4096, '\0'), string(4096, '\xff'), "%PDF-1.7\n", string("\0\1\0\0", 4), string("\0\1\0\0\0\0", 6), "OTTO", "ttcf", string("ttcf\0\1\0\0\0\0\0\0", 12), string("ttcf\0\1\0\0\0\0\0\1", 12), "\x89PNG\r\n\x1a\n", string("II*\0\x08\0\0\0", 8), string("MM\0*\0\0\0\x08", 8), "\xff\xd8\xff\xd9", "\xff\xd8\xff", "\xff\xd8", "GIF89a", "true", "wOFF", string("OTTO\0\1", 6) + string(26, '\0')};
        i -= S.size();
        if(i < D.size()) use_file(s, D[i], "has " + to_string(D[i].size()) + " bytes of no font or image", cx);
    }
}
// Paths that are no files.
static void path_case(size_t i, Ctx &cx) {
    static const char *EXT[] = {"", ".png", ".tif", ".jpg", ".ttf", ".icc"};
    int what = (int)(i % 4); i /= 4;
    string p = string("$OUT/p") + EXT[i % 6];
    i /= 6;
    auto real = subst(p);
    remove(real.c_str());
    if(what == 1) mkdir(real.c_str(), 0700);
    if(what == 2) (void)!symlink(real.c_str(), real.c_str());
    if(what == 3) {
        if(i >= 5) return; // an empty path is no profile
        p = "";
    }
    B b;
    b.props();
    auto &s = b.s;
    size_t lo;
    switch(i) {
    case 0: b.start(); lo = s.size(); s("generator_load_font", b.gen, p, null); break;
    case 1: b.start(); lo = s.size(); s("generator_load_image", b.gen, p); break;
    case 2: b.start(); lo = s.size(); s("generator_load_icc_profile", b.gen, p); break;
    case 3: b.start(); lo = s.size(); s("3d_stream_new", p, 0); break;
    case 4: { b.start(); auto e = s("embedded_file_new"); lo = s.size(); s("embedded_file_load_file", e, p); break; }
    default: lo = s.size(); s("document_properties_set_device_profile", b.md, 0, p); b.start(); --lo; lo = 0; break;
    }
    s("generator_add_page", b.gen, b.dc);
    s("generator_write", b.gen);
    cx.script(s);
    auto o = execute(s);
    cx.transitions(s.size());
    cx.traces();
    bool failed = false;
    for(int r : o.rc) failed |= r != 0;
    if(!failed) cx.violation("a path that is no file is accepted", fns()[s.ops[lo].fn].name + " " + p + " " + to_string(what));
    cx.state(to_string(i) + to_string(what) + (failed ? "f" : "a"));
    remove(real.c_str());
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C14";
    c.bounds = "synthetic fonts of every format, real fonts' structural tables, PNG, TIFF and JPEG files of every kind, ICC profiles: every truncation, at every position every one of 4 (thorough: 13) bytes and of 3 to 5 (7 to 10) 16 and 32 bit values, with PNG checksums made right (thorough: and wrong), "
               "a byte removed or doubled (thorough); every table of every font cut at every length, removed, doubled or exchanged; thorough: every pair of structural words with 16 pairs of extreme values; every sample under every other format's name; paths that are no files. Each file is loaded in every way, used in every way and the document is written, with address and undefined behaviour sanitizers.";
    c.assumptions = {"Allocations of more than 512 MB fail.", "The system libraries for fonts, images and colours are not instrumented."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        auto &S = SAMPLES();
        for(size_t k = 0; k < S.size(); ++k) {
            f.push_back({S[k].name, positions(k).size(), [=](size_t i, Ctx &cx) { corrupt_case(k, i, cx); }});
            if(S[k].kind == FONT && S[k].ext != ".ttc") f.push_back({"tables of " + S[k].name, table_cases(k), [=](size_t i, Ctx &cx) { table_case(k, i, cx); }});
            if(thorough && S[k].kind == FONT && S[k].where.empty()) f.push_back({"pairs of " + S[k].name, hot(k).size() * hot(k).size(), [=](size_t i, Ctx &cx) { pair_case(k, i, cx); }});
        }
        f.push_back({"other", S.size() * (S.size() + 25), other_case});
        f.push_back({"paths", 4 * 6 * 6, path_case});
        return f;
    };
    return check_main(argc, argv, c);
}
