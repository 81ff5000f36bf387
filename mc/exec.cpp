#include "mc.hpp"
#include <capypdf.h>
#include <memory>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>

namespace mc {
volatile bool in_api = false; // the library is running
template<typename F, typename... A> static int api_call(F f, A... a) {
    in_api = true;
    int rc = (int)f(a...);
    in_api = false;
    return rc;
}
#include "api_gen.inc"

const std::vector<FnInfo> &fns() { return gen_fns; }
const std::vector<EnumInfo> &enums() { return gen_enums; }

int fn_index(const std::string &name) {
    static const std::map<std::string, int> idx = [] {
        std::map<std::string, int> m;
        for(size_t i = 0; i < gen_fns.size(); ++i) {
            m[gen_fns[i].name] = (int)i;
            m[gen_fns[i].name.substr(5)] = (int)i;
        }
        return m;
    }();
    auto it = idx.find(name);
    if(it == idx.end()) throw std::runtime_error("no API function " + name);
    return it->second;
}
const EnumInfo &enum_info(const std::string &name) {
    for(auto &e : gen_enums)
        if(e.name == name) return e;
    throw std::runtime_error("no enum " + name);
}
int E(const std::string &vn) {
    for(auto &e : gen_enums)
        for(auto &[n, v] : e.vals)
            if(n == vn) return v;
    throw std::runtime_error("no enumerator " + vn);
}

V Script::add(const std::string &name, std::vector<Val> args) {
    Op o;
    o.fn = fn_index(name);
    const auto &fi = gen_fns[o.fn];
    size_t ai = 0;
    V ret;
    for(auto &p : fi.params) {
        if(is_out(p.k)) {
            Val v;
            v.k = Val::OUT;
            if(ai < args.size() && args[ai].k == Val::OUT) {
                v = args[ai++];
            } else v.i = newvar().slot;
            if(ret.slot < 0) ret.slot = (int)v.i;
            o.a.push_back(v);
        } else {
            if(ai >= args.size()) throw std::runtime_error("too few arguments for " + name);
            o.a.push_back(args[ai++]);
        }
    }
    if(ai != args.size()) throw std::runtime_error("too many arguments for " + name);
    ops.push_back(std::move(o));
    return ret;
}

// ---- text form
static void val_text(const Val &v, std::string &r) {
    char b[64];
    switch(v.k) {
    case Val::NUL: r += "null"; break;
    case Val::VAR: r += "$" + std::to_string(v.i); break;
    case Val::OUT: r += ">" + std::to_string(v.i); break;
    case Val::INT: r += "#" + std::to_string(v.i); break;
    case Val::DBL: snprintf(b, sizeof b, "~%.17g", v.d); r += b; break;
    case Val::STR:
        r += '"';
        for(unsigned char c : v.s) {
            if(c == '"' || c == '\\' || c < 32 || c > 126) {
                snprintf(b, sizeof b, "\\x%02x", c);
                r += b;
            } else r += (char)c;
        }
        r += "\"";
        if(v.i != (int64_t)v.s.size()) r += "@" + std::to_string(v.i);
        break;
    case Val::DARR:
        r += "[";
        for(size_t i = 0; i < v.da.size(); ++i) {
            snprintf(b, sizeof b, "%s%.17g", i ? "," : "", v.da[i]);
            r += b;
        }
        r += "]";
        break;
    case Val::LIST:
        r += "{";
        for(size_t i = 0; i < v.l.size(); ++i) {
            if(i) r += ",";
            val_text(v.l[i], r);
        }
        r += "}";
        break;
    }
}
std::string op_text(const Op &o) {
    std::string r = gen_fns[o.fn].name + "(";
    for(size_t i = 0; i < o.a.size(); ++i) {
        if(i) r += ", ";
        val_text(o.a[i], r);
    }
    return r + ")";
}
std::string Script::text() const {
    std::string r;
    for(auto &o : ops) r += op_text(o) + "\n";
    return r;
}
static Val parse_val(const std::string &t, size_t &p) {
    Val v;
    auto num = [&]() {
        size_t n;
        double d = std::stod(t.substr(p, 64), &n);
        p += n;
        return d;
    };
    auto integer = [&]() {
        size_t n;
        auto d = std::stoll(t.substr(p, 64), &n);
        p += n;
        return (int64_t)d;
    };
    switch(t.at(p)) {
    case 'n': p += 4; return v;
    case '$': ++p; v.k = Val::VAR; v.i = integer(); return v;
    case '>': ++p; v.k = Val::OUT; v.i = integer(); return v;
    case '#': ++p; v.k = Val::INT; v.i = integer(); v.d = (double)v.i; return v;
    case '~': ++p; return mkval(num());
    case '"':
        ++p;
        v.k = Val::STR;
        while(t.at(p) != '"') {
            if(t[p] == '\\') {
                v.s += (char)std::stoi(t.substr(p + 2, 2), nullptr, 16);
                p += 4;
            } else v.s += t[p++];
        }
        ++p;
        v.i = (int64_t)v.s.size();
        if(p < t.size() && t[p] == '@') { ++p; v.i = integer(); }
        return v;
    case '[':
        ++p;
        v.k = Val::DARR;
        while(t.at(p) != ']') {
            if(t[p] == ',') ++p;
            else v.da.push_back(num());
        }
        ++p;
        return v;
    case '{':
        ++p;
        v.k = Val::LIST;
        while(t.at(p) != '}') {
            if(t[p] == ',') ++p;
            else v.l.push_back(parse_val(t, p));
        }
        ++p;
        return v;
    }
    throw std::runtime_error("bad script value: " + t.substr(p, 20));
}
Script Script::parse(const std::string &text) {
    Script s;
    std::istringstream in(text);
    std::string line;
    while(std::getline(in, line)) {
        if(line.empty() || line[0] == '%') continue;
        Op o;
        auto lp = line.find('(');
        o.fn = fn_index(line.substr(0, lp));
        size_t p = lp + 1;
        while(line.at(p) != ')') {
            if(line[p] == ',' || line[p] == ' ') { ++p; continue; }
            o.a.push_back(parse_val(line, p));
            auto &v = o.a.back();
            auto upd = [&](const Val &x) {
                if(x.k == Val::VAR || x.k == Val::OUT) s.nvars = std::max(s.nvars, (int)x.i + 1);
            };
            upd(v);
            for(auto &x : v.l) upd(x);
        }
        s.ops.push_back(std::move(o));
    }
    return s;
}

// ---- execution
static std::string scratch_dir;
std::string scratch() { return scratch_dir; }
void set_scratch(const std::string &d) { scratch_dir = d; }
std::string repo_dir() {
    const char *r = getenv("MC_REPO");
    return r ? r : "/repo";
}
std::string subst(const std::string &s) {
    std::string r = s;
    for(auto [k, v] : {std::pair<std::string, std::string>{"$OUT", scratch_dir}, {"$REPO", repo_dir()}}) {
        size_t p = 0;
        while((p = r.find(k, p)) != std::string::npos) {
            r.replace(p, k.size(), v);
            p += v.size();
        }
    }
    return r;
}
std::string error_text(int rc) {
    if(rc == SKIPPED) return "skipped";
    const char *m = capy_error_message(rc);
    return m ? m : "(null)";
}

void *CallCtx::h(const Op &o, int n) {
    auto &v = o.a.at(n);
    return v.k == Val::VAR ? slot(v.i).p : nullptr;
}
const char *CallCtx::str(const Op &o, int n) {
    auto &v = o.a.at(n);
    if(v.k != Val::STR) return nullptr;
    std::string s = v.s.find('$') != std::string::npos ? subst(v.s) : v.s;
    std::vector<char> b(s.begin(), s.end());
    if(!exact_strings || v.i < 0) b.push_back(0);
    b.shrink_to_fit();
    strs.push_back(std::move(b));
    return strs.back().data();
}
int64_t CallCtx::len(const Op &o, int n) {
    auto &v = o.a.at(n);
    if(v.k != Val::STR) return v.k == Val::NUL ? 0 : v.i;
    if(v.i == (int64_t)v.s.size() && v.s.find('$') != std::string::npos) return (int64_t)subst(v.s).size();
    return v.i;
}
int64_t CallCtx::i64(const Op &o, int n) {
    auto &v = o.a.at(n);
    if(v.k == Val::VAR) return slot(v.i).i;
    return v.i;
}
int32_t CallCtx::i32(const Op &o, int n) { return (int32_t)i64(o, n); }
double CallCtx::dbl(const Op &o, int n) {
    auto &v = o.a.at(n);
    if(v.k == Val::VAR) return slot(v.i).d;
    return v.d;
}
double *CallCtx::outdbl(const Op &o, int n) {
    cells.emplace_back(new int64_t[1]{0});
    outs[(int)o.a.at(n).i] = {Slot::Dbl, cells.back().get()};
    return (double *)cells.back().get();
}
void **CallCtx::outh(const Op &o, int n) {
    cells.emplace_back(new int64_t[1]{0});
    outs[(int)o.a.at(n).i] = {Slot::Handle, cells.back().get()};
    return (void **)cells.back().get();
}
int32_t *CallCtx::outi(const Op &o, int n) {
    cells.emplace_back(new int64_t[1]{0});
    outs[(int)o.a.at(n).i] = {Slot::Int, cells.back().get()};
    return (int32_t *)cells.back().get();
}
double *CallCtx::darr(const Op &o, int n) {
    auto &v = o.a.at(n);
    if(v.k == Val::DARR) {
        size_t nb = v.da.size() ? v.da.size() : 1;
        cells.emplace_back(new int64_t[nb]{});
        if(!v.da.empty()) memcpy(cells.back().get(), v.da.data(), v.da.size() * 8);
        return (double *)cells.back().get();
    }
    if(v.k == Val::DBL || v.k == Val::INT) {
        cells.emplace_back(new int64_t[1]);
        memcpy(cells.back().get(), &v.d, 8);
        return (double *)cells.back().get();
    }
    return nullptr;
}
int64_t CallCtx::darrlen(const Op &o, int n) { return (int64_t)o.a.at(n).da.size(); }
void **CallCtx::harr(const Op &o, int n) {
    std::vector<void *> r;
    for(auto &x : o.a.at(n).l) r.push_back(slot(x.i).p);
    r.push_back(nullptr);
    ptrs.push_back(std::move(r));
    return ptrs.back().data();
}
int32_t *CallCtx::iarr(const Op &o, int n) {
    std::vector<int32_t> r;
    for(auto &x : o.a.at(n).l) r.push_back((int32_t)(x.k == Val::VAR ? slot(x.i).i : x.i));
    if(r.empty()) r.push_back(0);
    ints.push_back(std::move(r));
    return ints.back().data();
}
int64_t CallCtx::iarrlen(const Op &o, int n) { return (int64_t)o.a.at(n).l.size(); }
int32_t *CallCtx::iptr(const Op &o, int n) {
    auto &v = o.a.at(n);
    if(v.k == Val::NUL) return nullptr;
    ints.push_back({i32(o, n)});
    return ints.back().data();
}
bool CallCtx::inputs_set(const Op &o) const {
    auto good = [&](const Val &v) {
        return v.k != Val::VAR || (v.i >= 0 && (size_t)v.i < vars.size() && vars[v.i].t != Slot::Unset);
    };
    for(auto &v : o.a) {
        if(!good(v)) return false;
        for(auto &x : v.l)
            if(!good(x)) return false;
    }
    return true;
}
static int destroy_fn(const std::string &type) {
    static const std::map<std::string, int> m = [] {
        std::map<std::string, int> r;
        for(size_t i = 0; i < gen_fns.size(); ++i) {
            auto &f = gen_fns[i];
            if(f.name.ends_with("_destroy") && f.params.size() == 1) r[f.params[0].ctype] = (int)i;
        }
        return r;
    }();
    auto it = m.find(type);
    return it == m.end() ? -1 : it->second;
}
int CallCtx::run(const Op &o) {
    if(!inputs_set(o)) return SKIPPED;
    const auto &f = gen_fns[o.fn];
    outs.clear();
    strs.clear(); // nothing the caller passes needs to outlive the call
    ptrs.clear();
    ints.clear();
    cells.clear();
    int rc = f.call(*this, o);
    if(rc == 0) {
        for(size_t i = 0; i < o.a.size(); ++i) {
            if(o.a[i].k != Val::OUT) continue;
            auto &[t, cell] = outs[(int)o.a[i].i];
            if((size_t)o.a[i].i >= vars.size()) vars.resize(o.a[i].i + 1);
            auto &s = slot(o.a[i].i);
            s.t = t;
            if(t == Slot::Handle) {
                s.p = *(void **)cell;
                s.type = f.params[i].ctype;
            } else if(t == Slot::Int) {
                s.i = *(int32_t *)cell;
                s.d = (double)s.i;
            } else if(t == Slot::Dbl) s.d = *(double *)cell;
        }
        if(f.params.size() == 1 && f.name.ends_with("_destroy") && o.a[0].k == Val::VAR) {
            slot(o.a[0].i).t = Slot::Unset;
            slot(o.a[0].i).p = nullptr;
        }
    }
    return rc;
}
void CallCtx::destroy_all() {
    for(size_t i = vars.size(); i-- > 0;) {
        if(vars[i].t != Slot::Handle || !vars[i].p) continue;
        int d = destroy_fn(vars[i].type);
        if(d < 0) continue;
        Op o;
        o.fn = d;
        o.a.push_back(mkval(V{(int)i}));
        gen_fns[d].call(*this, o);
        vars[i].t = Slot::Unset;
    }
}
Outcome execute(const Script &s, const std::function<void(size_t, int, CallCtx &)> &after) {
    Outcome r;
    CallCtx cx;
    cx.vars.resize(s.nvars);
    for(size_t i = 0; i < s.ops.size(); ++i) {
        int rc = cx.run(s.ops[i]);
        r.rc.push_back(rc);
        if(rc != 0) ++r.failures;
        if(after) after(i, rc, cx);
    }
    r.vars = cx.vars;
    return r;
}
std::string read_file(const std::string &path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
void write_file(const std::string &path, const std::string &data) {
    std::ofstream f(path, std::ios::binary);
    f.write(data.data(), (std::streamsize)data.size());
}
bool file_exists(const std::string &path) {
    struct stat st;
    return lstat(path.c_str(), &st) == 0;
}
Result run_pdf(const Script &s, const std::string &file) {
    Result r;
    std::string p = scratch_dir + "/" + file;
    ::unlink(p.c_str());
    r.o = execute(s);
    r.bytes = read_file(p);
    return r;
}
} // namespace mc
