// uses: features.cpp
// uses: trace.cpp
#include "explore.hpp"
#include "features.hpp"
#include "trace.hpp"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <filesystem>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using std::string;
using std::to_string;
namespace fs = std::filesystem;

// --- documents
static void content(B &b, size_t n) {
    for(size_t k = 0; k < n; ++k) b.s("dc_cmd_re", b.dc, k * 1.0, k * 2.0, 3.0, 4.5);
    b.s("dc_cmd_f", b.dc);
}
struct DocKind { const char *name; std::function<void(B &)> make; bool debug = false; };
static const std::vector<DocKind> &docs() {
    static const std::vector<DocKind> d = {
        {"tiny", [](B &b) { b.props(); b.start(); }},
        {"table", [](B &b) { b.props(); b.s("document_properties_set_pdfx", b.md, E("CAPY_PDFX_1_2001")); b.s("document_properties_set_device_profile", b.md, E("CAPY_DEVICE_CS_CMYK"), "$REPO/testdata/icc/FOGRA29L.icc");
                             b.s("document_properties_set_colorspace", b.md, E("CAPY_DEVICE_CS_CMYK")); b.s("document_properties_set_output_intent", b.md, "i"); b.s("document_properties_set_title", b.md, "T"); b.start(); }},
        {"plain", [](B &b) { b.props(); b.start(); content(b, 2500); }, true},
        {"pages", [](B &b) { b.props(); b.start(); for(int k = 0; k < 60; ++k) { content(b, 20); b.page(); } }},
        {"rich", [](B &b) {
             b.props();
             b.s("document_properties_set_title", b.md, "T");
             b.start();
             auto im = b.image(50, 40, 3);
             b.s("dc_cmd_Do_image", b.dc, im);
             auto f = b.font();
             b.s("dc_render_text", b.dc, "Some text", f, 12.0, 10.0, 10.0);
             auto e = b.s("embedded_file_new");
             string big;
             unsigned x = 1;
             for(int k = 0; k < 150000; ++k) big += (char)((x = x * 1664525u + 1013904223u) >> 24);
             b.s("embedded_file_set_contents", e, big);
             b.s("embedded_file_set_pdf_name", e, "big.bin");
             b.s("generator_embed_file", b.gen, e);
         }},
    };
    return d;
}
struct Target { const char *name; const char *old; }; // file name in the scratch directory; its previous contents
static const Target targets[] = {{"out.pdf", nullptr}, {"out.pdf", "old"}, {"noext", "old"}, {"x.pdf~", "old"}, {"a.txt", nullptr}, {"sub.d/y.pdf", "old"}, {"r\xc3\xa4 (1).pdf", "old"}};
static const size_t NT = sizeof targets / sizeof *targets;
static const string OLD = "previous contents of this file\n";

struct Job {
    Script s;
    size_t write = 0;
    string path, old;
    bool has_old = false;
    void reset() const {
        std::error_code ec;
        for(auto &e : fs::directory_iterator(scratch(), ec)) fs::remove_all(e.path(), ec);
        fs::create_directories(fs::path(path).parent_path(), ec);
        if(has_old) write_file(path, old);
    }
};
static Job job(const DocKind &k, const Target &t) {
    Job j;
    if(k.debug) setenv("CAPY_DEBUG_PDF", "1", 1);
    else unsetenv("CAPY_DEBUG_PDF");
    B b;
    b.file = string("$OUT/") + t.name;
    k.make(b);
    b.s("generator_add_page", b.gen, b.dc);
    b.s("dc_destroy", b.dc);
    b.s("generator_write", b.gen);
    j.write = b.s.size() - 1;
    b.s("generator_write", b.gen); // a second attempt never makes it worse
    b.s("generator_destroy", b.gen);
    j.s = b.s;
    j.path = scratch() + "/" + t.name;
    j.has_old = t.old != nullptr;
    if(t.old) j.old = OLD;
    return j;
}
// Everything but the random document id.
static string normal(string s) {
    auto p = s.rfind("/ID");
    if(p == string::npos) return s;
    for(size_t k = p, inside = 0; k < s.size() && s[k] != ']'; ++k) {
        if(s[k] == '<') inside = 1;
        else if(s[k] == '>') inside = 0;
        else if(inside && isxdigit((unsigned char)s[k])) s[k] = '0';
    }
    return s;
}
struct Judge {
    const Job &j;
    string want; // normalised complete document
    size_t len = 0;
    bool is_complete(const string &s) const { return s.size() == len && normal(s) == want; }
    bool is_old(bool exists, const string &s) const { return j.has_old ? exists && s == j.old : !exists; }
    bool allowed(bool exists, const string &s) const { return is_old(exists, s) || (exists && is_complete(s)); }
};

// --- the model of a file system that loses what was not synchronised
struct Node {
    string data, durable;
    struct Op { bool trunc; size_t pos; string bytes; };
    std::vector<Op> pending;
    static void apply(string &s, const Op &o, size_t upto) {
        if(o.trunc) { s.resize(o.pos, '\0'); return; }
        if(upto == 0) return;
        if(s.size() < o.pos + upto) s.resize(o.pos + upto, '\0');
        s.replace(o.pos, upto, o.bytes, 0, upto);
    }
    void add(Op o) {
        apply(data, o, o.bytes.size());
        pending.push_back(std::move(o));
    }
    void sync() { durable = data; pending.clear(); }
    // All contents that may be found after a crash.
    void after_crash(const std::function<void(const string &)> &f) const {
        string s = durable;
        f(s);
        for(size_t k = 0; k < pending.size(); ++k) { // prefixes, the last one torn
            auto &o = pending[k];
            if(!o.trunc && o.bytes.size() > 1) {
                string t = s;
                apply(t, o, o.bytes.size() / 2);
                f(t);
            }
            apply(s, o, o.bytes.size());
            f(s);
        }
        if(pending.size() > 1 && pending.size() < 64)
            for(size_t drop = 0; drop + 1 < pending.size(); ++drop) { // out of order
                string t = durable;
                for(size_t k = 0; k < pending.size(); ++k)
                    if(k != drop) apply(t, pending[k], pending[k].bytes.size());
                f(t);
            }
    }
};
struct Disk {
    struct Fd { int node = -1; size_t pos = 0; bool append = false; };
    std::vector<Node> nodes;
    std::map<string, int> names, durable;
    struct NOp { string from, to; int node; }; // rename: from -> to; create: "" -> to; unlink: from -> ""
    std::vector<NOp> pending;
    std::map<int, Fd> fds;
    static void apply(std::map<string, int> &m, const NOp &o) {
        if(!o.from.empty()) m.erase(o.from);
        if(!o.to.empty()) m[o.to] = o.node;
    }
    void name(NOp o) { apply(names, o); pending.push_back(o); }
    int preset(const string &path, const string &data) {
        nodes.push_back({data, data, {}});
        names[path] = durable[path] = (int)nodes.size() - 1;
        return (int)nodes.size() - 1;
    }
    void step(const Sys &c) {
        if(c.ret < 0) { if(c.cls == "close") fds.erase(c.fd); return; }
        auto fd = fds.find(c.fd);
        if(c.cls == "open" && c.io) {
            int n;
            auto it = names.find(c.path);
            if(it == names.end()) {
                nodes.push_back({});
                n = (int)nodes.size() - 1;
                name({"", c.path, n});
            } else {
                n = it->second;
                if(c.flags & O_TRUNC) nodes[(size_t)n].add({true, 0, ""});
            }
            fds[(int)c.ret] = {n, 0, (c.flags & O_APPEND) != 0};
        } else if(c.cls == "write" && fd != fds.end()) {
            auto &nd = nodes[(size_t)fd->second.node];
            size_t pos = c.offset >= 0 ? (size_t)c.offset : fd->second.append ? nd.data.size() : fd->second.pos;
            nd.add({false, pos, c.data.substr(0, (size_t)c.ret)});
            if(c.offset < 0) fd->second.pos = pos + (size_t)c.ret;
        } else if(c.cls == "seek" && fd != fds.end()) fd->second.pos = (size_t)c.ret;
        else if(c.cls == "truncate" && fd != fds.end() && (!c.flags || c.count > nodes[(size_t)fd->second.node].data.size())) nodes[(size_t)fd->second.node].add({true, (size_t)c.count, ""});
        else if(c.cls == "truncate" && fd == fds.end() && names.count(c.path)) nodes[(size_t)names[c.path]].add({true, (size_t)c.count, ""});
        else if(c.cls == "fsync") {
            if(c.fd < 0) { for(auto &n : nodes) n.sync(); for(auto &o : pending) apply(durable, o); pending.clear(); }
            else if(fd != fds.end()) nodes[(size_t)fd->second.node].sync();
        } else if(c.cls == "close") fds.erase(c.fd);
        else if(c.cls == "rename" && names.count(c.path)) name({c.path, c.path2, names[c.path]});
        else if(c.cls == "link" && names.count(c.path)) name({"", c.path2, names[c.path]});
        else if(c.cls == "unlink") name({c.path, "", -1});
    }
    // Every state of the path after losing power now.
    size_t crash(const string &path, const std::function<void(bool, const string &)> &f) const {
        size_t n = 0;
        auto m = durable;
        std::set<int> seen;
        for(size_t k = 0;; ++k) {
            auto it = m.find(path);
            int node = it == m.end() ? -1 : it->second;
            if(seen.insert(node).second) {
                if(node < 0) { f(false, ""); ++n; }
                else nodes[(size_t)node].after_crash([&](const string &s) { f(true, s); ++n; });
            }
            if(k == pending.size()) return n;
            apply(m, pending[k]);
        }
    }
};
static string show(const Fault &f) {
    static const char *k[] = {"none", "fail", "short", "killed before", "killed after"};
    string r = string(k[f.kind]) + " at " + f.cls + to_string(f.at);
    if(f.kind == Fault::FAIL) r += string(" ") + strerror(f.err) + (f.sticky ? " from then on" : "");
    if(f.kind == Fault::SHORT) r += " " + to_string(f.count) + " bytes";
    return r;
}
static size_t crash_states;
// Executes with the faults and judges all it can lead to. Returns the trace.
static Traced run(const Job &j, const Judge &jd, const std::vector<Fault> &faults, Ctx &cx, bool crashes) {
    j.reset();
    auto t = trace_script(j.s, j.write, j.write, faults);
    cx.traces();
    cx.transitions(t.calls.size());
    string what;
    for(auto &f : faults) what += (what.empty() ? "" : ", ") + show(f);
    auto bad = [&](const string &key, const string &more = "") {
        string calls;
        for(auto &c : t.calls)
            if(c.io) calls += "\n  " + c.cls + " " + (c.path.empty() ? to_string(c.fd) : c.path) + (c.path2.empty() ? "" : " -> " + c.path2) + (c.cls == "write" ? " " + to_string(c.count) : "") + " = " + to_string(c.ret) + (c.injected ? " (injected)" : "");
        cx.script(j.s);
        cx.violation(key, "target " + j.path.substr(scratch().size()) + "; fault: " + what + "; " + more + calls);
    };
    if(!t.works) { bad("system calls cannot be traced here"); return t; }
    bool exists = file_exists(j.path);
    string now = exists ? read_file(j.path) : "";
    int rc = t.rc[j.write];
    string first = faults.empty() ? "" : t.calls.empty() ? "?" : "";
    if(t.killed) {
        if(!jd.allowed(exists, now)) bad("after the process was killed the file is neither the old nor the new one", to_string(now.size()) + " bytes");
    } else {
        if(t.signal) { bad("a failing system call ends the process", "signal " + to_string(t.signal)); return t; }
        if(rc == UNSET_RC) { bad("the call did not return"); return t; }
        if(rc == 0 && !(exists && jd.is_complete(now))) bad("success was reported but the file is not complete", to_string(now.size()) + " of " + to_string(jd.len) + " bytes");
        if(rc != 0 && !jd.allowed(exists, now)) bad("after an error the file is neither the old nor the new one", to_string(now.size()) + " bytes");
        bool harmless = true;
        for(auto &f : faults) harmless = harmless && (f.kind == Fault::SHORT && f.count > 0);
        if(harmless && rc != 0) bad("writing failed although nothing went wrong", error_text(rc));
    }
    // losing power at any point of this history
    if(crashes) {
        Disk d;
        if(j.has_old) d.preset(j.path, j.old);
        size_t step = 0;
        auto look = [&] {
            bool reported = false;
            crash_states += d.crash(j.path, [&](bool e, const string &s) {
                if(reported || jd.allowed(e, s)) return;
                reported = true;
                bad("after a power failure the file is neither the old nor the new one", "after system call " + to_string(step) + ": " + to_string(s.size()) + " of " + to_string(jd.len) + " bytes");
            });
        };
        look();
        bool changed = false;
        for(auto &c : t.calls) {
            ++step;
            if(!c.io) continue;
            d.step(c);
            changed = true;
            // writes to files other than the target cannot change its states
            if(c.cls != "write" || (d.names.count(j.path) && d.fds.count(c.fd) && d.names[j.path] == d.fds[c.fd].node)) { look(); changed = false; }
            if(cx.nviol > 4) break;
        }
        if(changed) look();
        cx.transitions(step);
        // the model must agree with the disk
        if(!t.killed && rc == 0) {
            auto it = d.names.find(j.path);
            if(it == d.names.end() || d.nodes[(size_t)it->second].data != now) bad("the history does not explain the file (written by other means?)");
            else if(!d.nodes[(size_t)it->second].pending.empty()) bad("success was reported before the file was synchronised");
        }
    }
    string sig = to_string(rc) + (jd.is_old(exists, now) ? "old" : "new") + what.substr(0, what.find(' '));
    for(auto &c : t.calls)
        if(c.io) sig += c.cls[0];
    cx.state(sig);
    return t;
}
static bool reference(const Job &j, Judge &jd, Ctx &cx, int &points) {
    j.reset();
    auto t = trace_script(j.s, j.write, j.write, {});
    auto s = read_file(j.path);
    points = t.points;
    jd.want = normal(s);
    jd.len = s.size();
    if(!t.works || t.signal || t.rc[j.write] != 0) {
        cx.script(j.s);
        cx.violation("valid document cannot be written", "rc " + to_string(t.rc.at(j.write)) + " signal " + to_string(t.signal) + (t.works ? "" : " (no tracing)"));
        return false;
    }
    try {
        pdf::Doc::parse(s);
    } catch(const pdf::ParseError &e) {
        cx.violation(string("invalid file: ") + e.what(), "");
        return false;
    }
    return true;
}
static std::vector<int> errnos(const string &c, bool thorough) {
    if(c == "open") return thorough ? std::vector<int>{ENOSPC, EACCES, EMFILE, EROFS, EINTR, EDQUOT, EIO} : std::vector<int>{ENOSPC, EACCES, EMFILE};
    if(c == "write") return thorough ? std::vector<int>{ENOSPC, EIO, EDQUOT, EFBIG, EINTR, EAGAIN} : std::vector<int>{ENOSPC, EIO, EINTR};
    if(c == "fsync") return {EIO, ENOSPC, EINTR, EROFS};
    if(c == "close") return {EIO, ENOSPC, EINTR, EDQUOT};
    if(c == "rename") return {EACCES, ENOSPC, EXDEV, EIO, EBUSY, ENOENT, EISDIR, EPERM};
    return {EIO, ENOSPC};
}
static const int STRIPES = 12;

int main(int argc, char **argv) {
    Check c;
    c.id = "C06";
    c.bounds = "For 5 documents (one per combination of cross reference form, size and compression) and 7 output paths with and without a previous file: every system call of the write path x every errno class, once "
               "and from then on; short transfers of every write; the process killed before and after every system call; loss of power after every system call, with every prefix of the pending directory changes and "
               "every prefix, torn last write and single reordering of the unsynchronised writes of the file; every limit on the file size around every write boundary; failing memory allocations; thorough also pairs of faults.";
    c.assumptions = {"Linux x86-64. Directory changes reach the disk in order. File data reaches the disk at the latest when fsync returns.", "That the rename itself has reached the disk when success is reported is not demanded."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        const size_t ND = docs().size();
        // kind: 0 fail 1 fail from then on 2 short 3 killed
        f.push_back({"faults", ND * NT * STRIPES, [=](size_t i, Ctx &cx) {
            size_t stripe = i % STRIPES;
            i /= STRIPES;
            auto j = job(docs()[i % ND], targets[i / ND]);
            if(i % ND > 1 && i / ND > 1 && !thorough) return; // the path matters only for its name
            Judge jd{j};
            int points;
            if(!reference(j, jd, cx, points)) return;
            auto t0 = run(j, jd, {}, cx, true);
            std::vector<Sys> io;
            for(auto &x : t0.calls)
                if(x.io) io.push_back(x);
            size_t from = 0;
            for(size_t k = from + stripe; k < io.size(); k += STRIPES) {
                std::vector<Fault> fl;
                for(int e : errnos(io[k].cls, thorough)) fl.push_back({Fault::FAIL, (int)k, e});
                fl.push_back({Fault::FAIL, (int)k, ENOSPC, 0, true});
                if(io[k].cls == "write")
                    for(uint64_t n : {(uint64_t)0, (uint64_t)1, io[k].count / 2, io[k].count - 1})
                        if(n < io[k].count && (n || thorough)) fl.push_back({Fault::SHORT, (int)k, 0, n});
                for(auto &x : fl) {
                    run(j, jd, {x}, cx, x.kind != Fault::SHORT || x.count == 1);
                    if(cx.nviol > 8) return;
                }
                // a short write after which the disk is full
                if(io[k].cls == "write" && io[k].count > 1) run(j, jd, {{Fault::SHORT, (int)k, 0, io[k].count / 2}, {Fault::FAIL, (int)k + 1, ENOSPC, 0, true}}, cx, false);
                run(j, jd, {{Fault::KILL_BEFORE, (int)k}}, cx, false);
                run(j, jd, {{Fault::KILL_AFTER, (int)k}}, cx, false);
                if(cx.nviol > 8) return;
            }
            cx.sample(string(docs()[i % ND].name) + " " + targets[i / ND].name + ": " + to_string(io.size()) + " system calls");
        }, nullptr, 120});
        // memory runs out
        f.push_back({"memory", ND * STRIPES, [=](size_t i, Ctx &cx) {
            size_t stripe = i % STRIPES;
            i /= STRIPES;
            auto j = job(docs()[i], targets[1]);
            Judge jd{j};
            int points;
            if(!reference(j, jd, cx, points)) return;
            auto t0 = run(j, jd, {}, cx, false);
            size_t n = 0;
            for(auto &x : t0.calls) n += x.cls == "mem";
            size_t step = thorough ? 1 : std::max<size_t>(1, n / 60);
            for(size_t k = stripe * step; k < n; k += STRIPES * step) {
                run(j, jd, {{Fault::FAIL, (int)k, ENOMEM, 0, true, "mem"}}, cx, false);
                run(j, jd, {{Fault::FAIL, (int)k, ENOMEM, 0, false, "mem"}}, cx, false);
                if(cx.nviol > 8) return;
            }
        }, nullptr, 120});
        // a real limit on the size of files
        f.push_back({"limit", ND * 16, [=](size_t i, Ctx &cx) {
            auto j = job(docs()[i / 16], targets[1]);
            Judge jd{j};
            int points;
            if(!reference(j, jd, cx, points)) return;
            std::set<size_t> limits;
            for(size_t k = 0; k <= jd.len + 4096; k += thorough ? 512 : 4096)
                for(long o : {-1L, 0L, 1L}) limits.insert((size_t)std::max(0L, (long)k + o));
            for(long o = -40; o <= 40; ++o) limits.insert((size_t)((long)jd.len + o));
            size_t n = 0;
            for(auto lim : limits) {
                if(n++ % 16 != i % 16) continue;
                j.reset();
                pid_t p = fork();
                if(p == 0) {
                    signal(SIGXFSZ, SIG_IGN);
                    int nul = open("/dev/null", O_WRONLY);
                    dup2(nul, 2);
                    int rc = 99;
                    execute(j.s, [&](size_t op, int r, CallCtx &) {
                        if(op + 1 == j.write) { rlimit rl{lim, lim}; setrlimit(RLIMIT_FSIZE, &rl); }
                        if(op == j.write) rc = r;
                    });
                    _exit(rc == 0 ? 0 : 1);
                }
                int st;
                waitpid(p, &st, 0);
                cx.traces();
                cx.transitions(1);
                bool exists = file_exists(j.path);
                auto now = exists ? read_file(j.path) : "";
                string w = "limit " + to_string(lim) + " of " + to_string(jd.len);
                if(!WIFEXITED(st)) cx.violation("a full disk ends the process", w);
                else if(WEXITSTATUS(st) == 0 ? !(exists && jd.is_complete(now)) : !jd.is_old(exists, now) && !jd.is_complete(now)) {
                    cx.script(j.s);
                    cx.violation(WEXITSTATUS(st) == 0 ? "success was reported but the file is not complete" : "after an error the file is neither the old nor the new one", w);
                } else if((WEXITSTATUS(st) == 0) != (lim >= jd.len)) cx.violation("unexpected result", w);
                cx.state(to_string(WEXITSTATUS(st)) + to_string(exists) + to_string(lim / 4096));
            }
        }, nullptr, 120});
        // places where nothing can be written
        f.push_back({"places", ND * 4, [=](size_t i, Ctx &cx) {
            auto j = job(docs()[i % ND], targets[0]);
            std::error_code ec;
            j.reset();
            string p;
            switch(i / ND) {
            case 0: p = "missing/out.pdf"; break;
            case 1: p = "dir"; fs::create_directory(scratch() + "/dir", ec); write_file(scratch() + "/dir/x", "x"); break;
            case 2: p = "file/out.pdf"; write_file(scratch() + "/file", "x"); break;
            case 3: p = string(300, 'n') + ".pdf"; break;
            }
            for(auto &o : j.s.ops)
                for(auto &a : o.a)
                    if(a.k == Val::STR && a.s == "$OUT/out.pdf") { a.s = "$OUT/" + p; a.i = (int64_t)a.s.size(); }
            auto before = i / ND == 1 ? read_file(scratch() + "/dir/x") : "";
            cx.script(j.s);
            auto o = execute(j.s);
            cx.traces();
            cx.transitions(j.s.size());
            if(o.rc[j.write] == 0) cx.violation("success was reported but nothing can be written there", p);
            if(i / ND == 1 && read_file(scratch() + "/dir/x") != before) cx.violation("writing removed a directory");
            if(i / ND == 2 && read_file(scratch() + "/file") != "x") cx.violation("writing changed another file");
            cx.state(p.substr(0, 8) + to_string(o.rc[j.write]));
        }, nullptr});
        if(thorough)
            f.push_back({"pairs", 3 * 2 * 64, [=](size_t i, Ctx &cx) {
                size_t stripe = i % 64;
                i /= 64;
                auto j = job(docs()[i % 3], targets[i / 3]);
                Judge jd{j};
                int points;
                if(!reference(j, jd, cx, points)) return;
                size_t n = 0;
                for(int a = 0; a < points; ++a)
                    for(int b = a + 1; b < points; ++b) {
                        if(n++ % 64 != stripe) continue;
                        for(int k = 0; k < 4; ++k) {
                            Fault x{Fault::FAIL, a, k & 1 ? EINTR : EIO}, y{Fault::FAIL, b, ENOSPC};
                            if(k == 2) x = {Fault::SHORT, a, 0, 1};
                            if(k == 3) y = {Fault::KILL_AFTER, b};
                            run(j, jd, {x, y}, cx, k == 0);
                            if(cx.nviol > 8) return;
                        }
                    }
            }, nullptr, 200});
        return f;
    };
    return check_main(argc, argv, c);
}
