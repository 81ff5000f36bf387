#include "trace.hpp"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <limits.h>
namespace mc {
static const long MARK = 0x7fff1;
static std::string peek(pid_t p, unsigned long addr, size_t n) {
    std::string s(n, '\0');
    iovec l{s.data(), n}, r{(void *)addr, n};
    auto got = process_vm_readv(p, &l, 1, &r, 1, 0);
    if(got < 0) got = 0;
    s.resize((size_t)got);
    return s;
}
static std::string peekstr(pid_t p, unsigned long addr) {
    std::string r;
    while(r.size() < 8192) {
        // up to the end of the page
        size_t n = 4096 - (addr & 4095);
        auto c = peek(p, addr, n);
        if(c.empty()) break;
        auto z = c.find('\0');
        if(z != std::string::npos) return r + c.substr(0, z);
        r += c;
        addr += n;
    }
    return r;
}
static Sys decode(pid_t p, const user_regs_struct &g) {
    Sys s;
    s.nr = (long)g.orig_rax;
    s.cls = "other";
    switch(s.nr) {
    case SYS_open: s.cls = "open"; s.path = peekstr(p, g.rdi); s.flags = (int)g.rsi; break;
    case SYS_openat: s.cls = "open"; s.path = peekstr(p, g.rsi); s.flags = (int)g.rdx; break;
    case SYS_creat: s.cls = "open"; s.path = peekstr(p, g.rdi); s.flags = O_WRONLY | O_CREAT | O_TRUNC; break;
    case SYS_write: s.cls = "write"; s.fd = (int)g.rdi; s.count = g.rdx; s.data = peek(p, g.rsi, g.rdx); break;
    case SYS_pwrite64: s.cls = "write"; s.fd = (int)g.rdi; s.count = g.rdx; s.data = peek(p, g.rsi, g.rdx); s.offset = (int64_t)g.r10; break;
    case SYS_writev: {
        s.cls = "write";
        s.fd = (int)g.rdi;
        auto v = peek(p, g.rsi, g.rdx * sizeof(iovec));
        for(size_t k = 0; k + sizeof(iovec) <= v.size(); k += sizeof(iovec)) {
            iovec x;
            memcpy(&x, v.data() + k, sizeof x);
            s.data += peek(p, (unsigned long)x.iov_base, x.iov_len);
        }
        s.count = s.data.size();
        break;
    }
    case SYS_fsync: case SYS_fdatasync: case SYS_syncfs: s.cls = "fsync"; s.fd = (int)g.rdi; break;
    case SYS_sync: s.cls = "fsync"; break;
    case SYS_close: s.cls = "close"; s.fd = (int)g.rdi; break;
    case SYS_rename: s.cls = "rename"; s.path = peekstr(p, g.rdi); s.path2 = peekstr(p, g.rsi); break;
    case SYS_renameat: case SYS_renameat2: s.cls = "rename"; s.path = peekstr(p, g.rsi); s.path2 = peekstr(p, g.r10); break;
    case SYS_link: s.cls = "link"; s.path = peekstr(p, g.rdi); s.path2 = peekstr(p, g.rsi); break;
    case SYS_linkat: s.cls = "link"; s.path = peekstr(p, g.rsi); s.path2 = peekstr(p, g.r10); break;
    case SYS_unlink: s.cls = "unlink"; s.path = peekstr(p, g.rdi); break;
    case SYS_unlinkat: s.cls = "unlink"; s.path = peekstr(p, g.rsi); break;
    case SYS_ftruncate: s.cls = "truncate"; s.fd = (int)g.rdi; s.count = g.rsi; break;
    case SYS_truncate: s.cls = "truncate"; s.path = peekstr(p, g.rdi); s.count = g.rsi; break;
    case SYS_fallocate: s.cls = "truncate"; s.fd = (int)g.rdi; s.count = g.rdx + g.r10; s.flags = 1; break;
    case SYS_lseek: s.cls = "seek"; s.fd = (int)g.rdi; s.offset = (int64_t)g.rsi; s.flags = (int)g.rdx; break;
    case SYS_fstat: s.cls = "stat"; s.fd = (int)g.rdi; break;
    case SYS_newfstatat: s.cls = "stat"; s.fd = (int)g.rdi; s.path = peekstr(p, g.rsi); break;
    case SYS_brk: s.cls = "mem"; break;
    case SYS_mmap: s.cls = (int)g.r8 < 0 ? "mem" : "other"; break;
    case SYS_mremap: s.cls = "mem"; break;
    }
    return s;
}
Traced trace_script(const Script &s, size_t first, size_t last, const std::vector<Fault> &faults) {
    Traced t;
    const size_t n = s.size();
    auto *rcs = (int *)mmap(nullptr, (n + 1) * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(rcs == MAP_FAILED) throw std::runtime_error("mmap");
    for(size_t i = 0; i <= n; ++i) rcs[i] = UNSET_RC;
    pid_t p = fork();
    if(p == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        close(nul);
        auto begin = [] {
            if(ptrace(PTRACE_TRACEME, 0, 0, 0) != 0) _exit(77);
            raise(SIGSTOP);
        };
        if(first == 0) begin();
        execute(s, [&](size_t i, int rc, CallCtx &) {
            rcs[i] = rc;
            if(i + 1 == first) begin();
            if(i == last) syscall(MARK);
        });
        _exit(0);
    }
    int st = 0;
    auto finish = [&] {
        if(WIFSIGNALED(st)) t.signal = WTERMSIG(st);
        for(size_t i = 0; i < n; ++i) t.rc.push_back(rcs[i]);
        munmap(rcs, (n + 1) * sizeof(int));
    };
    waitpid(p, &st, WUNTRACED);
    if(!WIFSTOPPED(st)) { // ended before the traced part (or tracing is not possible)
        t.works = !(WIFEXITED(st) && WEXITSTATUS(st) == 77);
        finish();
        return t;
    }
    t.works = true;
    ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    std::set<int> fds;                 // opened for writing while traced
    std::map<std::string, Fault> sticky;
    bool entry = true;
    int points = 0, memory = 0;
    Sys cur;
    const Fault *hit = nullptr;
    bool fail = false;
    int err = 0;
    long sig = 0;
    user_regs_struct entered{};
    while(true) {
        ptrace(PTRACE_SYSCALL, p, 0, sig);
        sig = 0;
        waitpid(p, &st, 0);
        if(!WIFSTOPPED(st)) break;
        if(WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); continue; }
        user_regs_struct g;
        ptrace(PTRACE_GETREGS, p, 0, &g);
        if(entry) {
            if((long)g.orig_rax == MARK) {
                ptrace(PTRACE_DETACH, p, 0, 0);
                waitpid(p, &st, 0);
                break;
            }
            cur = decode(p, g);
            entered = g;
            hit = nullptr;
            fail = false;
            const auto &c = cur.cls;
            if(c == "open") cur.io = (cur.flags & O_ACCMODE) != O_RDONLY || (cur.flags & (O_CREAT | O_TRUNC));
            else if(c == "rename" || c == "unlink" || c == "link") cur.io = true;
            else if(c == "truncate" && cur.fd < 0) cur.io = true;
            else if(c == "fsync" && cur.fd < 0) cur.io = true;
            else if(c != "mem" && c != "other") cur.io = cur.fd >= 0 && fds.count(cur.fd);
            for(auto &f : faults) {
                bool mem = f.cls == "mem";
                if(mem ? c == "mem" && memory == f.at : cur.io && points == f.at) hit = &f;
            }
            if(cur.io) ++points;
            if(c == "mem") ++memory;
            if(hit && hit->sticky) sticky[c] = *hit;
            auto sk = sticky.find(c);
            bool stuck = !hit && sk != sticky.end() && (cur.io || c == "mem");
            if(hit && hit->kind == Fault::KILL_BEFORE) {
                t.killed = true;
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                break;
            }
            if((hit && hit->kind == Fault::FAIL) || stuck) {
                fail = true;
                err = hit ? hit->err : sk->second.err;
                cur.injected = true;
                if(cur.nr == SYS_brk) { // the kernel answers with the unchanged break
                    g.rdi = 0;
                    ptrace(PTRACE_SETREGS, p, 0, &g);
                } else if(c != "close") { // a failing close closes all the same
                    g.orig_rax = (unsigned long)-1;
                    ptrace(PTRACE_SETREGS, p, 0, &g);
                }
            }
            if(hit && hit->kind == Fault::SHORT && c == "write" && hit->count < cur.count) {
                cur.injected = true;
                if(cur.nr != SYS_writev) {
                    g.rdx = hit->count;
                    ptrace(PTRACE_SETREGS, p, 0, &g);
                } else { // transfer nothing but the first part
                    g.rdx = 1;
                    ptrace(PTRACE_SETREGS, p, 0, &g);
                }
            }
            entry = false;
        } else {
            entry = true;
            if(fail && cur.nr != SYS_brk) {
                g.rax = (unsigned long)-(long)err;
                ptrace(PTRACE_SETREGS, p, 0, &g);
            }
            if(g.rdi != entered.rdi || g.rdx != entered.rdx) { // arguments are preserved by the kernel
                g.rdi = entered.rdi;
                g.rdx = entered.rdx;
                ptrace(PTRACE_SETREGS, p, 0, &g);
            }
            cur.ret = (long)g.rax;
            if(cur.cls == "open" && cur.io && cur.ret >= 0) fds.insert((int)cur.ret);
            if(cur.cls == "close") fds.erase(cur.fd);
            t.calls.push_back(cur);
            if(hit && hit->kind == Fault::KILL_AFTER) {
                t.killed = true;
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                break;
            }
        }
    }
    t.points = points;
    finish();
    return t;
}
} // namespace mc
