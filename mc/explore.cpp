#include "explore.hpp"
#include <atomic>
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace fs = std::filesystem;

namespace mc {
using Clock = std::chrono::steady_clock;
static const size_t TXT = 1 << 18;
struct WSlot {
    std::atomic<int64_t> cur; // global case number being executed, or -1
    std::atomic<int64_t> started_ms;
};
struct Shared {
    std::atomic<uint64_t> next, transitions, traces, done;
    WSlot w[64];
    char text[TXT]; // replay mode: what was being executed
    size_t textlen;
};
static Shared *sh;
static std::string root_dir; // scratch root of this run
static std::unordered_set<uint64_t> hashes;
static std::vector<uint64_t> new_hashes;
static int viol_fd = -1;
static int64_t worker_seq = 0;
static int hist_fd = -1;
static bool is_thorough;
static std::vector<std::string> local_samples;
bool thorough() { return is_thorough; }
static int64_t now_ms() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now().time_since_epoch()).count();
}
static std::string esc(const std::string &s) {
    std::string r;
    char b[8];
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
// one violation record: fields separated by \x1f, terminated by \x1e
static void rec_write(int fd, const std::vector<std::string> &f) {
    std::string r;
    for(auto &x : f) {
        std::string y = x;
        for(auto &c : y)
            if(c == '\x1e' || c == '\x1f') c = '?';
        r += y + "\x1f";
    }
    r += "\x1e";
    (void)!write(fd, r.data(), r.size());
}
static std::vector<std::vector<std::string>> rec_read(const std::string &path) {
    std::string t = read_file(path);
    std::vector<std::vector<std::string>> out;
    std::vector<std::string> cur;
    std::string f;
    for(char c : t) {
        if(c == '\x1f') { cur.push_back(f); f.clear(); }
        else if(c == '\x1e') { out.push_back(cur); cur.clear(); f.clear(); }
        else f += c;
    }
    return out;
}
static size_t cur_global;
static int cur_worker;
void Ctx::violation(const std::string &key, const std::string &detail) {
    if(++nviol > 20) return;
    rec_write(viol_fd, {family, std::to_string(index), key, detail.substr(0, 6000), std::to_string(cur_global),
                        std::to_string(cur_worker), std::to_string(worker_seq)});
}
void Ctx::note(const std::string &t) {
    if(!replaying) return;
    size_t n = std::min(t.size(), TXT - 1);
    memcpy(sh->text, t.data(), n);
    sh->textlen = n;
}
void Ctx::script(const Script &s) {
    if(replaying) note(s.text());
}
void Ctx::state(std::string_view o) {
    auto h = pdf::hash(o);
    if(hashes.insert(h).second) new_hashes.push_back(h);
}
void Ctx::transitions(size_t n) { sh->transitions += n; }
void Ctx::traces(size_t n) { sh->traces += n; }
void Ctx::sample(const std::string &t) {
    if(local_samples.size() < 2) local_samples.push_back(t);
}

bool run_good(const Script &s, Ctx &cx, pdf::Doc &doc, Result *res, const std::string &file) { return run_expect(s, {}, cx, doc, res, file); }
bool run_reject(const Script &s, size_t lo, size_t hi, Ctx &cx, pdf::Doc &doc, const std::string &file) {
    cx.script(s);
    Result r = run_pdf(s, file);
    cx.transitions(s.size());
    cx.traces();
    bool rejected = false;
    for(size_t i = 0; i < s.size(); ++i) {
        if(r.o.rc[i] == 0) continue;
        if(i >= lo && i < hi) { rejected = true; continue; }
        auto &name = fns()[s.ops[i].fn].name;
        cx.violation("valid call rejected: " + name, op_text(s.ops[i]) + " returned " + std::to_string(r.o.rc[i]) + " " + error_text(r.o.rc[i]));
        return false;
    }
    if(!rejected) {
        auto &name = fns()[s.ops[hi - 1].fn].name;
        cx.violation("call accepted although it must be rejected: " + name, op_text(s.ops[lo]) + " ... " + op_text(s.ops[hi - 1]));
        return false;
    }
    try {
        doc = pdf::Doc::parse(r.bytes);
    } catch(const pdf::ParseError &e) {
        cx.violation(std::string("invalid file after a rejected call: ") + e.what(), "");
        return false;
    }
    return true;
}
bool run_expect(const Script &s, const std::set<size_t> &rejected, Ctx &cx, pdf::Doc &doc, Result *res, const std::string &file) {
    cx.script(s);
    Result r = run_pdf(s, file);
    cx.transitions(s.size());
    cx.traces();
    for(size_t i = 0; i < s.size(); ++i) {
        bool want = rejected.count(i) == 0;
        if((r.o.rc[i] == 0) == want) continue;
        auto &name = fns()[s.ops[i].fn].name;
        if(want) cx.violation("valid call rejected: " + name, op_text(s.ops[i]) + " returned " + std::to_string(r.o.rc[i]) + " " + error_text(r.o.rc[i]));
        else cx.violation("call accepted although it must be rejected: " + name, op_text(s.ops[i]) + " (call " + std::to_string(i) + ")");
        return false;
    }
    if(res) *res = r;
    try {
        doc = pdf::Doc::parse(r.bytes);
    } catch(const pdf::ParseError &e) {
        cx.violation(std::string("invalid file: ") + e.what(), "");
        return false;
    }
    return true;
}

struct Flat { size_t fam, idx; };
static Flat flat(const std::vector<Family> &fs, size_t g) {
    for(size_t i = 0; i < fs.size(); ++i) {
        if(g < fs[i].n) return {i, g};
        g -= fs[i].n;
    }
    return {fs.size(), 0};
}
static void run_case(const std::vector<Family> &fams, size_t g, bool replaying) {
    auto f = flat(fams, g);
    Ctx cx;
    cx.family = fams[f.fam].name;
    cx.index = f.idx;
    cx.replaying = replaying;
    cur_global = g;
    static FILE *times = getenv("MC_TIMES") ? fopen(getenv("MC_TIMES"), "a") : nullptr;
    struct Timer {
        const std::vector<Family> &fams;
        Flat f;
        std::chrono::steady_clock::time_point t = std::chrono::steady_clock::now();
        ~Timer() {
            if(!times) return;
            auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t).count();
            fprintf(times, "%ld %s %s\n", (long)us, fams[f.fam].name.c_str(), fams[f.fam].describe ? fams[f.fam].describe(f.idx).c_str() : std::to_string(f.idx).c_str());
            fflush(times);
        }
    } timer{fams, f};
    try {
        fams[f.fam].run(f.idx, cx);
    } catch(const pdf::ParseError &e) {
        cx.violation(std::string("malformed output: ") + e.what(), "");
    } catch(const std::exception &e) {
        cx.violation(std::string("unexpected observation: ") + e.what(), "");
    }
}
static std::string case_name(const std::vector<Family> &fams, const Flat &f) {
    return fams[f.fam].describe ? fams[f.fam].describe(f.idx) : std::to_string(f.idx);
}
static void child_setup(const std::string &dir) {
    fs::create_directories(dir);
    set_scratch(dir);
    if(chdir(dir.c_str()) != 0) _exit(9);
    int e = open((dir + "/stderr.txt").c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    dup2(e, 2);
    dup2(e, 1);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
static std::string tail(const std::string &p, size_t n) {
    auto t = read_file(p);
    return t.size() > n ? t.substr(t.size() - n) : t;
}
static std::string signame(int st) {
    if(WIFSIGNALED(st)) return "signal " + std::to_string(WTERMSIG(st));
    return "exit " + std::to_string(WEXITSTATUS(st));
}
static std::string crash_summary(const std::string &err) {
    // the most telling line of the captured stderr
    std::istringstream in(err);
    std::string l, best;
    while(std::getline(in, l)) {
        if(l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
           l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos)
            best = l;
    }
    return best.substr(0, 300);
}

struct Replay {
    std::vector<std::vector<std::string>> viols; // as records
    bool crashed = false, hung = false;
    std::string crash, text, err;
};
// Executes the given cases in a fresh process; what the last one reports is the answer.
static Replay replay(const std::vector<Family> &fams, const std::vector<size_t> &seq, int timeout_s) {
    Replay r;
    std::string dir = root_dir + "/replay";
    fs::remove_all(dir);
    fs::create_directories(dir);
    std::string vp = dir + "/viol";
    sh->textlen = 0;
    pid_t p = fork();
    if(p == 0) {
        child_setup(dir + "/w");
        for(size_t i = 0; i < seq.size(); ++i) {
            bool last = i + 1 == seq.size();
            viol_fd = open(last ? vp.c_str() : "/dev/null", O_CREAT | O_WRONLY | O_APPEND, 0600);
            run_case(fams, seq[i], last);
            close(viol_fd);
        }
        _exit(0);
    }
    auto t0 = now_ms();
    int st = 0;
    while(waitpid(p, &st, WNOHANG) == 0) {
        if(now_ms() - t0 > timeout_s * 1000) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            r.hung = true;
            break;
        }
        usleep(300);
    }
    r.viols = rec_read(vp);
    r.text = std::string(sh->text, sh->textlen);
    r.err = tail(dir + "/w/stderr.txt", 4000);
    if(!r.hung && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        r.crashed = true;
        r.crash = signame(st) + " " + crash_summary(r.err);
    }
    return r;
}

int check_main(int argc, char **argv, const Check &chk) {
    auto t0 = now_ms();
    setenv("SOURCE_DATE_EPOCH", "1700000000", 0);
    setenv("TZ", "UTC", 1);
    const char *tier = getenv("VERIF_TIER");
    is_thorough = tier && std::string(tier) == "thorough";
    std::string verif = getenv("MC_VERIF") ? getenv("MC_VERIF") : "/verif";
    int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    std::string only;
    std::string replay_case;
    int nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
    int deadline_s = is_thorough ? 800 : 400;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "thorough" || a == "quick") is_thorough = a == "thorough";
        else if(a == "--family" && i + 1 < argc) only = argv[++i];
        else if(a == "--case" && i + 1 < argc) replay_case = argv[++i];
        else if(a == "--jobs" && i + 1 < argc) nw = atoi(argv[++i]);
    }
    if(nw > 32) nw = 32;
    if(nw < 1) nw = 1;
    char tmpl[64];
    strcpy(tmpl, access("/dev/shm", W_OK) == 0 ? "/dev/shm/mcXXXXXX" : "/tmp/mcXXXXXX");
    if(!mkdtemp(tmpl)) return 2;
    root_dir = tmpl;
    set_scratch(root_dir);
    struct Cleanup {
        pid_t me = getpid();
        ~Cleanup() {
            if(getpid() == me) {
                std::error_code ec;
                fs::remove_all(root_dir, ec);
            }
        }
    } cleanup;
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto fams = chk.families(is_thorough);
    if(!only.empty()) std::erase_if(fams, [&](auto &f) { return f.name.find(only) == std::string::npos; });
    size_t total = 0;
    for(auto &f : fams) total += f.n;
    if(!replay_case.empty()) { // family:index[,index...]
        auto c = replay_case.find(':');
        std::string fam = replay_case.substr(0, c), rest = replay_case.substr(c + 1);
        std::vector<size_t> seq;
        std::istringstream in(rest);
        std::string it;
        while(std::getline(in, it, ',')) {
            // "fam/idx" or "idx"
            auto sl = it.find('/');
            std::string f = sl == std::string::npos ? fam : it.substr(0, sl);
            size_t idx = std::stoul(sl == std::string::npos ? it : it.substr(sl + 1));
            size_t base = 0;
            for(auto &x : fams) {
                if(x.name == f) { seq.push_back(base + idx); break; }
                base += x.n;
            }
        }
        auto r = replay(fams, seq, 120);
        printf("%s\n", r.text.c_str());
        for(auto &v : r.viols) printf("violation: %s\n  %s\n", v.at(2).c_str(), v.at(3).c_str());
        if(r.crashed) printf("crash: %s\n%s\n", r.crash.c_str(), r.err.c_str());
        if(r.hung) printf("hang\n");
        if(!r.crashed && !r.err.empty()) printf("stderr: %s\n", r.err.c_str());
        if(getenv("MC_KEEP")) fs::copy(root_dir, getenv("MC_KEEP"), fs::copy_options::recursive | fs::copy_options::overwrite_existing);
        return r.viols.empty() && !r.crashed && !r.hung ? 0 : 1;
    }
    for(auto &w : sh->w) w.cur = -1;
    std::string vpath = root_dir + "/viol";
    viol_fd = open(vpath.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
    struct W { pid_t pid = 0; int64_t seq = 0; };
    std::vector<W> ws(nw);
    int64_t seqno = 0;
    auto dirof = [&](int slot, int64_t seq) { return root_dir + "/w" + std::to_string(slot) + "_" + std::to_string(seq); };
    bool stopping = false;
    auto spawn = [&](int slot) {
        ws[slot].seq = ++seqno;
        pid_t p = fork();
        if(p == 0) {
            worker_seq = ws[slot].seq;
            cur_worker = slot;
            std::string d = dirof(slot, worker_seq);
            child_setup(d + "/s");
            hist_fd = open((d + "/hist").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
            std::vector<uint64_t> hist;
            int hfd = open((d + "/hash").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
            int64_t last_flush = now_ms();
            while(true) {
                uint64_t g = sh->next++;
                if(g >= total) break;
                (void)!write(hist_fd, &g, 8);
                sh->w[slot].started_ms = now_ms();
                sh->w[slot].cur = (int64_t)g;
                run_case(fams, g, false);
                sh->w[slot].cur = -1;
                sh->done++;
                auto f = flat(fams, g);
                if(f.idx == 0 || f.idx == fams[f.fam].n / 2) {
                    for(auto &s : local_samples)
                        write_file(root_dir + "/sample_" + std::to_string(f.fam) + "_" + std::to_string(f.idx), s);
                }
                local_samples.clear();
                if(now_ms() - last_flush > 500 && !new_hashes.empty()) {
                    (void)!write(hfd, new_hashes.data(), new_hashes.size() * 8);
                    new_hashes.clear();
                    last_flush = now_ms();
                }
            }
            (void)!write(hfd, new_hashes.data(), new_hashes.size() * 8);
            _exit(0);
        }
        ws[slot].pid = p;
    };
    struct Abn { size_t g; int64_t seq; int slot; std::string what; bool hang; };
    std::vector<Abn> abn;
    for(int i = 0; i < nw && (size_t)i < std::max<size_t>(total, 1); ++i) spawn(i);
    bool capped = false;
    size_t live = 0;
    for(auto &w : ws) live += w.pid != 0;
    while(live > 0) {
        usleep(2000);
        for(int i = 0; i < nw; ++i) {
            if(!ws[i].pid) continue;
            int st = 0;
            bool killed = false;
            int64_t cur = sh->w[i].cur;
            if(cur >= 0) {
                int to = fams[flat(fams, (size_t)cur).fam].timeout_s;
                if(now_ms() - sh->w[i].started_ms > to * 1000 && sh->w[i].cur == cur) {
                    kill(ws[i].pid, SIGKILL);
                    killed = true;
                }
            }
            if(stopping && !killed && now_ms() - t0 > (deadline_s + 5) * 1000) kill(ws[i].pid, SIGKILL);
            pid_t r = waitpid(ws[i].pid, &st, killed ? 0 : WNOHANG);
            if(r == 0) continue;
            ws[i].pid = 0;
            --live;
            cur = sh->w[i].cur;
            sh->w[i].cur = -1;
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if(stopping && now_ms() - t0 > (deadline_s + 5) * 1000) continue;
            if(cur >= 0) {
                abn.push_back({(size_t)cur, ws[i].seq, i, signame(st), killed});
                // A tree that crashes everywhere needs no full enumeration.
                if(abn.size() > 400) { sh->next = total; capped = true; }
            }
            if(sh->next < total) {
                spawn(i);
                ++live;
            }
        }
        if(!stopping && now_ms() - t0 > deadline_s * 1000) {
            capped = capped || sh->next < total;
            sh->next = total;
            stopping = true;
        }
    }
    // --- collect
    std::unordered_set<uint64_t> all;
    for(auto &e : fs::directory_iterator(root_dir)) {
        auto hp = e.path() / "hash";
        if(!fs::exists(hp)) continue;
        auto b = read_file(hp);
        for(size_t i = 0; i + 8 <= b.size(); i += 8) {
            uint64_t h;
            memcpy(&h, b.data() + i, 8);
            all.insert(h);
        }
    }
    // --- known findings
    std::set<std::pair<std::string, std::string>> known;
    std::map<std::string, std::string> known_what;
    {
        std::ifstream f(verif + "/known_findings.txt");
        std::string l;
        while(std::getline(f, l)) { // "known: property=<id> key=<key> ## what"
            std::string pre = "known: property=" + chk.id + " key=";
            if(l.rfind(pre, 0) != 0) continue;
            auto e = l.find(" ## ");
            std::string k = l.substr(pre.size(), e == std::string::npos ? e : e - pre.size());
            known.insert({chk.id, k});
            known_what[k] = e == std::string::npos ? k : l.substr(e + 4);
        }
    }
    // --- violations: group by family and key
    struct Cand { std::string fam, key, detail; size_t g; int64_t seq; int slot; bool crash; };
    std::vector<Cand> cands;
    std::set<std::string> seen;
    auto vr = rec_read(vpath);
    std::sort(vr.begin(), vr.end(), [](auto &a, auto &b) { return std::stoull(a.at(4)) < std::stoull(b.at(4)); });
    std::map<std::string, size_t> counts;
    for(auto &v : vr) {
        ++counts[v[0] + "/" + v[2]];
        if(seen.insert(v[0] + "/" + v[2]).second)
            cands.push_back({v[0], v[2], v[3], std::stoull(v[4]), std::stoll(v[6]), std::stoi(v[5]), false});
    }
    for(auto &a : abn) {
        auto f = flat(fams, a.g);
        std::string key = std::string(a.hang ? "hang: " : "crash: ") + case_name(fams, f);
        ++counts[fams[f.fam].name + "/" + key];
        cands.push_back({fams[f.fam].name, key, a.what, a.g, a.seq, a.slot, true});
    }
    size_t reported = 0, unreproduced = 0, tried = 0;
    std::set<std::string> known_hit;
    std::string out_dir = verif + "/evidence/replays";
    std::vector<std::string> lines;
    std::vector<std::string> unrep;
    auto tconf = now_ms();
    for(auto &c : cands) {
        std::string fkey = c.fam + "/" + c.key;
        if(known.count({chk.id, fkey})) { known_hit.insert(fkey); continue; }
        if(reported >= (getenv("MC_ALL") ? 200u : 12u) || tried >= 300 || now_ms() - tconf > 120000) { ++tried; continue; }
        ++tried;
        auto f = flat(fams, c.g);
        int to = fams[f.fam].timeout_s * 3;
        auto same = [&](const Replay &r) {
            if(c.crash) return r.crashed || r.hung || !r.viols.empty();
            for(auto &v : r.viols)
                if(v.at(2) == c.key) return true;
            return r.crashed;
        };
        std::vector<size_t> seq{c.g};
        Replay r = replay(fams, seq, to);
        bool rep = same(r);
        if(!rep) { // depends on what the same process executed before?
            auto hb = read_file(dirof(c.slot, c.seq) + "/hist");
            std::vector<size_t> hist;
            for(size_t i = 0; i + 8 <= hb.size(); i += 8) {
                uint64_t g;
                memcpy(&g, hb.data() + i, 8);
                hist.push_back(g);
                if(g == c.g) break;
            }
            for(size_t n : {size_t(2), size_t(8), size_t(64), size_t(512), hist.size()}) {
                if(n > hist.size()) continue;
                seq.assign(hist.end() - (long)n, hist.end());
                r = replay(fams, seq, to * 2);
                if(same(r)) { rep = true; break; }
            }
        }
        if(!rep) {
            ++unreproduced;
            unrep.push_back(fkey + " " + c.detail.substr(0, 300));
            continue;
        }
        ++reported;
        fs::create_directories(out_dir);
        std::string rp = out_dir + "/" + chk.id + "-" + std::to_string(reported) + ".txt";
        std::ofstream o(rp);
        o << "% property " << chk.id << "\n% family " << c.fam << " case " << case_name(fams, f) << "\n% replay: ./run.sh "
          << chk.id << (is_thorough ? " thorough" : " quick") << " --case " << c.fam << ":";
        for(size_t i = 0; i < seq.size(); ++i) {
            auto x = flat(fams, seq[i]);
            o << (i ? "," : "") << fams[x.fam].name << "/" << x.idx;
        }
        o << "\n% what: " << c.key << "\n";
        std::istringstream dd(c.detail);
        std::string l;
        while(std::getline(dd, l)) o << "% " << l << "\n";
        if(r.crashed) o << "% " << r.crash << "\n";
        if(r.hung) o << "% does not terminate\n";
        o << r.text << "\n";
        if(!r.err.empty()) o << "% --- stderr\n" << r.err << "\n";
        lines.push_back("VIOLATION property=" + chk.id + " replay=" + rp);
        lines.push_back("  [" + c.fam + " " + case_name(fams, f) + "] " + c.key + (r.crashed ? " (" + r.crash + ")" : "") +
                        " x" + std::to_string(counts[fkey]));
        if(getenv("MC_VERBOSE")) lines.push_back("    " + c.detail.substr(0, 600));
    }
    for(auto &k : known_hit) printf("KNOWN-FINDING: property=%s %s\n", chk.id.c_str(), known_what[k].c_str());
    for(auto &l : lines) printf("%s\n", l.c_str());
    if(tried > reported + unreproduced)
        printf("  (%zu further violations not replayed)\n", tried - reported - unreproduced);
    for(auto &u : unrep) printf("  not reproduced, not reported: %s\n", u.c_str());
    double wall = (double)(now_ms() - t0) / 1000.0;
    // --- evidence
    std::vector<std::string> samples;
    for(auto &e : fs::directory_iterator(root_dir)) {
        auto n = e.path().filename().string();
        if(n.rfind("sample_", 0) == 0 && samples.size() < 8) samples.push_back(read_file(e.path()).substr(0, 4000));
    }
    if(samples.empty() && !fams.empty()) samples.push_back(fams[0].name + " " + case_name(fams, {0, 0}));
    fs::create_directories(verif + "/evidence");
    std::ofstream ev(verif + "/evidence/" + chk.id + ".json");
    ev << "{\n \"property\": \"" << chk.id << "\",\n \"tier\": \"" << (is_thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
       << ",\n \"level\": \"" << chk.level << "\",\n \"coverage\": {\n";
    if(chk.level == "model_checking") {
        ev << "  \"states\": " << all.size() << ",\n  \"transitions\": " << sh->transitions.load()
           << ",\n  \"traces_validated_against_impl\": " << sh->traces.load() << ",\n";
    } else {
        ev << "  \"evaluations\": " << sh->done.load() << ",\n  \"distinct_nontrivial\": " << all.size() << ",\n  \"rule\": \"" << esc(chk.bounds)
           << "\",\n";
    }
    ev << "  \"cases\": " << sh->done.load() << ",\n  \"exhaustive\": " << (capped || !only.empty() ? "false" : "true") << ",\n  \"bounds\": \""
       << esc(chk.bounds) << "\",\n  \"families\": {";
    for(size_t i = 0; i < fams.size(); ++i)
        ev << (i ? ", " : "") << "\"" << esc(fams[i].name) << "\": " << fams[i].n;
    ev << "},\n  \"unreproduced\": " << unreproduced << ",\n  \"known_findings_seen\": " << known_hit.size() << ",\n  \"samples\": [";
    for(size_t i = 0; i < samples.size(); ++i) ev << (i ? ", " : "") << "\"" << esc(samples[i]) << "\"";
    ev << "]\n },\n \"assumptions\": [";
    for(size_t i = 0; i < chk.assumptions.size(); ++i) ev << (i ? ", " : "") << "\"" << esc(chk.assumptions[i]) << "\"";
    ev << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << reported << "\n}\n";
    printf("%s: %zu families, %zu/%zu cases, %zu distinct states, %zu transitions, %zu traces, %.1fs%s\n", chk.id.c_str(), fams.size(),
           (size_t)sh->done.load(), total, all.size(), (size_t)sh->transitions.load(), (size_t)sh->traces.load(), wall,
           capped ? " (time cap hit)" : "");
    fflush(stdout);
    return reported ? 1 : 0;
}
} // namespace mc
