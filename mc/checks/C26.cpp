// uses: features.cpp
// uses: rejects.cpp
// uses: badargs.cpp
// uses: fontgen.cpp
// Everything that is acquired is released. Every allocation of the process is counted; histories that end in
// every possible way are run until they are known not to grow only once, and then nothing may be left.
#include "samples.hpp"
#include "rejects.hpp"
#include "badargs.hpp"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <new>
#include <sys/resource.h>
#include <unistd.h>

// --- the allocator
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace {
struct Entry { void *p; unsigned gen; int op; size_t size; };
constexpr size_t CAP = 1u << 20;
Entry table[CAP];
unsigned gen_now = 0;
bool tracking = false;
int op_now = 0;
long new_countdown = 0; // the n-th `new` of the library fails; 0: none
bool new_sticky = false;
long new_count = 0, new_failed = 0;
size_t slot_of(void *p) { return ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
void put(void *p, size_t n) {
    if(!tracking || !p) return;
    for(size_t k = slot_of(p), c = 0; c < CAP; ++c, k = (k + 1) % CAP)
        if(table[k].gen != gen_now || !table[k].p) { table[k] = {p, gen_now, op_now, n}; return; }
}
void drop(void *p) {
    if(!tracking || !p) return;
    for(size_t k = slot_of(p), c = 0; c < CAP; ++c, k = (k + 1) % CAP) {
        if(table[k].gen != gen_now) return; // was there before
        if(table[k].p == p) { table[k].p = nullptr; return; }
    }
}
} // namespace
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); put(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); put(p, a * b); return p; }
void *realloc(void *q, size_t n) {
    drop(q);
    void *p = __libc_realloc(q, n);
    put(p ? p : n ? q : nullptr, n);
    return p;
}
void free(void *p) { drop(p); __libc_free(p); }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); put(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
}
static void *take(size_t n) {
    if(mc::in_api) {
        ++new_count;
        if(new_countdown && (new_count == new_countdown || (new_sticky && new_count > new_countdown))) {
            ++new_failed;
            throw std::bad_alloc();
        }
        if(n > (512u << 20)) throw std::bad_alloc();
    }
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
static void *take_or_null(size_t n) noexcept {
    try {
        return take(n);
    } catch(const std::bad_alloc &) {
        return nullptr;
    }
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take_or_null(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take_or_null(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// --- what is left
struct Left {
    std::string memory, fds, maps, files;
    bool none() const { return memory.empty() && fds.empty() && maps.empty() && files.empty(); }
};
static std::string fds() {
    std::string r;
    for(int k = 0; k < 200; ++k)
        if(fcntl(k, F_GETFD) != -1) r += to_string(k) + " ";
    return r;
}
static size_t maps() {
    char buf[1 << 16];
    size_t n = 0;
    std::string all;
    int fd = open("/proc/self/maps", O_RDONLY);
    for(ssize_t k; (k = read(fd, buf, sizeof buf)) > 0;) all.append(buf, (size_t)k);
    close(fd);
    for(auto w : {std::string("/testdata/"), scratch()})
        for(size_t p = 0; (p = all.find(w, p)) != std::string::npos; ++p) ++n;
    return n;
}
struct Opt {
    int order = 0;          // 0: handles are destroyed in reverse order, 1: in order of creation, the generator last
    size_t upto = SIZE_MAX; // calls after that are not made
    long fail_new = 0;
    bool sticky = false;
    long limit = -1;        // size of files
    int nofile = -1;        // more files than that can not be opened
};
static std::vector<std::string> listing() {
    std::vector<std::string> r;
    std::error_code ec;
    for(auto &e : std::filesystem::recursive_directory_iterator(scratch(), ec)) r.push_back(e.path().string().substr(scratch().size()));
    std::sort(r.begin(), r.end());
    return r;
}
// The failing resource is in effect only while the library runs.
static void execute_with(const Script &s, const Opt &o) {
    Script cut = s;
    if(o.upto < cut.ops.size()) cut.ops.resize(o.upto);
    op_now = 1;
    new_count = new_failed = 0;
    new_countdown = o.fail_new;
    new_sticky = o.sticky;
    struct rlimit fs{}, nf{};
    getrlimit(RLIMIT_FSIZE, &fs);
    getrlimit(RLIMIT_NOFILE, &nf);
    if(o.limit >= 0) { auto x = fs; x.rlim_cur = (rlim_t)o.limit; setrlimit(RLIMIT_FSIZE, &x); }
    if(o.nofile >= 0) {
        int lowest = dup(0);
        close(lowest);
        auto x = nf; x.rlim_cur = (rlim_t)(lowest + o.nofile); setrlimit(RLIMIT_NOFILE, &x);
    }
    execute(cut, [&](size_t i, int, CallCtx &c) {
        op_now = (int)i + 2;
        if(i + 1 != cut.ops.size()) return;
        new_countdown = 0; // destructors can not fail
        setrlimit(RLIMIT_FSIZE, &fs);
        setrlimit(RLIMIT_NOFILE, &nf);
        if(o.order == 1) {
            Script d;
            for(int gens = 0; gens < 2; ++gens)
                for(size_t k = 0; k < c.vars.size(); ++k) {
                    auto &v = c.vars[k];
                    if(v.t != Slot::Handle || !v.p || (v.type == "CapyPDF_Generator") != (gens == 1)) continue;
                    for(auto &f : fns())
                        if(f.name.ends_with("_destroy") && f.params.size() == 1 && f.params[0].ctype == v.type) {
                            Op op;
                            op.fn = (int)(&f - &fns()[0]);
                            op.a.push_back(mkval(V{(int)k}));
                            c.run(op);
                            break;
                        }
                }
        }
    });
    new_countdown = 0;
    setrlimit(RLIMIT_FSIZE, &fs);
    setrlimit(RLIMIT_NOFILE, &nf);
}
static std::vector<std::string> outputs(const Script &s) {
    std::vector<std::string> r;
    for(auto &o : s.ops)
        if(fns()[(size_t)o.fn].name == "capy_generator_new") r.push_back(subst(o.a[0].s));
    return r;
}
static Left run_once(const Script &s, const Opt &o) {
    Left l;
    std::error_code ec;
    for(auto &f : outputs(s)) if(f.starts_with(scratch() + "/")) std::filesystem::remove(f, ec);
    auto f0 = fds();
    auto m0 = maps();
    auto before = listing();
    ++gen_now;
    tracking = true;
    execute_with(s, o);
    tracking = false;
    size_t n = 0;
    int first = INT32_MAX;
    for(size_t k = 0; k < CAP; ++k)
        if(table[k].gen == gen_now && table[k].p) {
            ++n; first = std::min(first, table[k].op);
        }
    if(n) {
        auto i = (size_t)first - 1;
        l.memory = i < s.ops.size() ? fns()[(size_t)s.ops[i].fn].name : "the destruction";
    }
    if(fds() != f0) l.fds = fds() + "instead of " + f0;
    if(maps() != m0) l.maps = to_string(maps()) + " instead of " + to_string(m0);
    auto good = outputs(s);
    for(auto &p : listing())
        if(!std::binary_search(before.begin(), before.end(), p) && std::find(good.begin(), good.end(), scratch() + p) == good.end()) l.files += p + " ";
    return l;
}
static void examine(const Script &s, const Opt &o, Ctx &cx, const std::string &what) {
    
    auto clean = [&] { std::error_code ec; for(auto &e : std::filesystem::directory_iterator(scratch(), ec)) if(e.path().filename().string().starts_with("out.pdf") || e.path().filename().string().starts_with("other.pdf")) std::filesystem::remove_all(e.path(), ec); };
    cx.note(what);
    Left l;
    for(int k = 0; k < 4; ++k) { // what is left every time is a leak; caches are filled once
        l = run_once(s, o);
        cx.transitions(s.ops.size());
        cx.traces();
        if(l.none()) break;
        clean();
    }
    if(!l.memory.empty()) cx.violation("memory is not released: allocated in " + l.memory, what);
    if(!l.fds.empty()) cx.violation("file descriptors are not closed", what + ": " + l.fds);
    if(!l.maps.empty()) cx.violation("files stay mapped", what + ": " + l.maps);
    if(!l.files.empty()) cx.violation("temporary files are left", what + ": " + l.files);
}

static Script feature_script(size_t k, int variant) {
    B b;
    b.props();
    b.start();
    features()[k].add(b, variant);
    b.finish();
    return b.s;
}
struct Arg { int base, op, param; Bad bad; };

int main(int argc, char **argv) {
    signal(SIGXFSZ, SIG_IGN);
    Check c;
    c.id = "C26";
    c.bounds = "every feature written once; every script of the catalogue that uses every function, abandoned after every call, with handles destroyed in both orders; every call of it with every invalid argument; every broken rule; every sample file cut at every length (step in the quick tier) and with every damaged table; "
               "every size limit of the output (step) and every number of files that can be opened; every single allocation of the library failing, alone and with all later ones";
    c.assumptions = {"What is allocated by only one of several identical runs is a cache of a system library."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        auto feats = std::make_shared<std::vector<std::pair<size_t, int>>>();
        for(size_t k = 0; k < features().size(); ++k)
            for(int v = 0; v < features()[k].variants; ++v) feats->push_back({k, v});
        f.push_back({"features", feats->size() * 2, [=](size_t i, Ctx &cx) {
            auto [k, v] = (*feats)[i / 2];
            Opt o;
            o.order = (int)(i % 2);
            examine(feature_script(k, v), o, cx, features()[k].name + " " + to_string(v));
            cx.state(features()[k].name + to_string(v));
        }, nullptr});
        for(size_t k = 0; k < bases().size(); ++k)
            f.push_back({"abandoned " + bases()[k].name, bases()[k].s.size() * 2, [=](size_t i, Ctx &cx) {
                Opt o;
                o.order = (int)(i % 2);
                o.upto = i / 2 + 1;
                auto &s = bases()[k].s;
                examine(s, o, cx, bases()[k].name + " abandoned after " + fns()[(size_t)s.ops[i / 2].fn].name);
                cx.state(to_string(i));
            }, nullptr});
        auto args = std::make_shared<std::vector<Arg>>();
        for(size_t b = 0; b < bases().size(); ++b)
            for(size_t k = 0; k < bases()[b].s.size(); ++k) {
                auto &o = bases()[b].s.ops[k];
                for(size_t p = 0; p < o.a.size(); ++p)
                    for(auto &bad : bad_values(fns()[(size_t)o.fn].params[p], o.a[p])) args->push_back({(int)b, (int)k, (int)p, bad});
            }
        f.push_back({"arguments", args->size(), [=](size_t i, Ctx &cx) {
            auto &a = (*args)[i];
            Script s = bases()[(size_t)a.base].s;
            s.ops[(size_t)a.op].a[(size_t)a.param] = a.bad.v;
            auto &fn = fns()[(size_t)s.ops[(size_t)a.op].fn];
            examine(s, {}, cx, fn.name + "." + fn.params[(size_t)a.param].name + " = " + a.bad.name);
            cx.state(fn.name + fn.params[(size_t)a.param].name + a.bad.name);
        }, nullptr});
        f.push_back({"rules", rejects().size(), [=](size_t i, Ctx &cx) {
            auto &r = rejects()[i];
            B b;
            b.props();
            if(r.md) r.md(b);
            b.start();
            if(r.setup) r.setup(b);
            r.bad(b);
            b.finish();
            examine(b.s, {}, cx, r.name);
            cx.state(r.name);
        }, nullptr});
        for(size_t k = 0; k < SAMPLES().size(); ++k) {
            auto &S = SAMPLES()[k];
            size_t step = thorough ? 1 : std::max<size_t>(1, positions(k).size() / 60);
            f.push_back({"cut " + S.name, positions(k).size() / step + 1, [=](size_t i, Ctx &cx) {
                auto &S = SAMPLES()[k];
                auto &ps = positions(k);
                size_t p = ps[std::min(i * step, ps.size() - 1)], g = 0;
                for(int v = 0; v < 3; ++v) {
                    auto x = S.data;
                    if(v == 0) x.resize(p);
                    else if(p == S.data.size()) continue;
                    else x[p] = (char)(v == 1 ? 0xff : x[p] ^ 1);
                    if(S.png) x = png_crc(x);
                    examine(use_script(S, x, g), {}, cx, S.name + (v == 0 ? " cut at " : v == 1 ? " with 255 at " : " with a changed bit at ") + to_string(p));
                }
                cx.state(to_string(p));
            }, nullptr});
            if(S.kind == FONT && S.ext != ".ttc") {
                size_t st = thorough ? 1 : 9;
                f.push_back({"tables of " + S.name, table_cases(k) / st, [=](size_t i, Ctx &cx) {
                    std::string what;
                    size_t g = 0;
                    auto x = table_file(k, i * st, what);
                    examine(use_script(SAMPLES()[k], x, g), {}, cx, SAMPLES()[k].name + " " + what);
                    cx.state(what);
                }, nullptr});
            }
        }
        // A document with a bit of everything that is opened and written.
        auto mixed = [] {
            B b;
            b.props();
            b.s("document_properties_set_title", b.md, "A title");
            b.start();
            b.s("dc_render_text", b.dc, "Text", b.font(), 10.0, 1.0, 2.0);
            b.s("dc_cmd_Do_image", b.dc, b.image(4, 4, 3));
            b.s("dc_cmd_Do_image", b.dc, [&] { auto im = b.s("generator_load_image", b.gen, "$REPO/testdata/images/flame_gray.png"); auto p = b.s("image_pdf_properties_new"); return b.s("generator_add_image", b.gen, im, p); }());
            b.icc();
            auto e = b.s("embedded_file_new");
            b.s("embedded_file_load_file", e, "$REPO/testdata/icc/FOGRA29L.icc");
            b.s("embedded_file_set_pdf_name", e, "x");
            b.s("generator_embed_file", b.gen, e);
            b.s("generator_add_outline", b.gen, [&] { auto o = b.s("outline_new"); b.s("outline_set_title", o, "t"); return o; }());
            b.finish();
            return b.s;
        };
        for(auto out : {"$OUT/out.pdf", "$OUT/no such/out.pdf", "$OUT", "/dev/full", "/dev/null/x", ""})
            f.push_back({std::string("output ") + out, 4, [=](size_t i, Ctx &cx) {
                auto s = mixed();
                for(auto &o : s.ops)
                    if(fns()[(size_t)o.fn].name == "capy_generator_new") o.a[0].s = out;
                if(i > 1) { auto w = s.ops.back(); s.ops.push_back(w); } // written twice
                Opt o;
                o.order = (int)(i % 2);
                examine(s, o, cx, std::string("output to ") + out);
                cx.state(out);
            }, nullptr});
        f.push_back({"size limit", thorough ? 3000u : 200u, [=](size_t i, Ctx &cx) {
            Opt o;
            o.limit = (long)(thorough ? i < 2000 ? i : 2000 + (i - 2000) * 1000 : i < 100 ? i * 40 : 4000 + (i - 100) * 9000);
            examine(mixed(), o, cx, "files are limited to " + to_string(o.limit) + " bytes");
            cx.state(to_string(i));
        }, nullptr});
        f.push_back({"few files", 12, [=](size_t i, Ctx &cx) {
            Opt o;
            o.nofile = (int)i;
            examine(mixed(), o, cx, "only " + to_string(i) + " files can be opened");
            cx.state(to_string(i));
        }, nullptr});
        // Every allocation fails once.
        auto memory = [&](const std::string &name, const std::function<Script()> &mk, size_t n, size_t step) {
            f.push_back({"memory " + name, n * 2, [=](size_t i, Ctx &cx) {
                Opt o;
                o.fail_new = (long)(i / 2 * step + 1);
                o.sticky = i % 2;
                auto s = mk();
                execute_with(s, o);
                if(!new_failed) { cx.state("none"); return; }
                examine(s, o, cx, "allocation " + to_string(o.fail_new) + (o.sticky ? " and all later ones fail" : " fails") + " in " + name);
                cx.state(to_string(i));
            }, nullptr});
        };
        memory("mixed", mixed, thorough ? 6000 : 600, thorough ? 1 : 10);
        for(size_t k = 0; k < bases().size(); ++k) memory(bases()[k].name, [=] { return bases()[k].s; }, thorough ? 4000 : 400, thorough ? 1 : 7);
        for(size_t k = 0; k < features().size(); ++k) memory(features()[k].name, [=] { return feature_script(k, 0); }, thorough ? 1500 : 40, thorough ? 1 : 19);
        for(size_t k = 0; k < SAMPLES().size(); ++k) memory(SAMPLES()[k].name, [=] { size_t g; return use_script(SAMPLES()[k], SAMPLES()[k].data, g); }, thorough ? 3000 : 60, thorough ? 1 : 17);
        return f;
    };
    return check_main(argc, argv, c);
}
