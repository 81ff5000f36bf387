// The C++ and Python interfaces against the C interface: the same script of calls is executed through each.
// bindings
// uses: features.cpp
// uses: badargs.cpp
#include "explore.hpp"
#include "badargs.hpp"
#include <dirent.h>
#include <signal.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using std::string;
using std::to_string;
using std::vector;

static const char *const BIND[2] = {"python", "c++"};

// --- the servers
static string bind_dir() {
    char b[4096];
    auto n = readlink("/proc/self/exe", b, sizeof b - 1);
    return string(b, n > 0 ? n : 0) + ".bind";
}
struct Server {
    pid_t pid = 0;
    int to = -1;
    FILE *from = nullptr;
    void start(int which) {
        int a[2], b[2];
        if(pipe(a) || pipe(b)) throw std::runtime_error("pipe");
        pid = fork();
        if(pid == 0) {
            dup2(a[0], 0);
            dup2(b[1], 1);
            for(int i = 3; i < 256; ++i) close(i);
            auto d = bind_dir();
            setenv("CAPYPDF_SO_OVERRIDE", d.c_str(), 1);
            setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            auto py = string(getenv("MC_VERIF") ? getenv("MC_VERIF") : "/verif") + "/mc/bind/pyrun.py";
            if(which == 0) execlp("python3", "python3", py.c_str(), nullptr);
            else execl((d + "/cppbind").c_str(), "cppbind", nullptr);
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        to = a[1];
        from = fdopen(b[0], "rb");
    }
    string ask(int which, const string &req) {
        if(!pid) start(which);
        auto m = to_string(req.size()) + "\n" + req;
        for(size_t n = 0; n < m.size();) {
            auto w = ::write(to, m.data() + n, m.size() - n);
            if(w <= 0) return "broken the interface cannot be loaded";
            n += w;
        }
        char b[64];
        if(!fgets(b, sizeof b, from)) return "broken the interface cannot be loaded";
        string r(atol(b), 0);
        if(fread(r.data(), 1, r.size(), from) != r.size()) return "broken short reply";
        return r;
    }
};
static Server servers[2];

static string hex(const string &s) {
    string r;
    char b[4];
    for(unsigned char c : s) snprintf(b, sizeof b, "%02x", c), r += b;
    return r;
}
static string unhex(const string &s) {
    string r;
    for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
    return r;
}
static string num(double d) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static string in_dir(const string &s, const string &dir) {
    auto old = scratch();
    set_scratch(dir);
    auto r = subst(s);
    set_scratch(old);
    return r;
}
static const char *pkname(PK k) {
    static const char *n[] = {"H", "OPTH", "OUTH", "ID", "OPTID", "OUTID", "ENUM", "OPTENUM", "INT", "OPTINT", "OUTI", "DBL", "OPTDBL", "OUTDBL", "STRN", "OPTSTRN", "CSTR", "BUF", "DARR", "DARRN", "HARR", "IDARRN"};
    return n[(int)k];
}
static string json_val(const Val &v, const Param &p, const string &dir) {
    string r = string("{\"k\":\"") + pkname(p.k) + "\",\"t\":\"" + p.ctype + "\"";
    switch(v.k) {
    case Val::NUL: r += ",\"v\":null"; break;
    case Val::VAR: r += ",\"var\":" + to_string(v.i); break;
    case Val::OUT: r += ",\"v\":" + to_string(v.i); break;
    case Val::INT:
    case Val::DBL:
        if(p.k == PK::DBL || p.k == PK::OPTDBL) r += ",\"v\":" + num(v.d);
        else r += ",\"v\":" + to_string(v.i);
        break;
    case Val::STR: {
        auto s = in_dir(v.s, dir);
        r += ",\"v\":\"" + hex(s) + "\",\"len\":" + to_string(v.i == (int64_t)v.s.size() ? (int64_t)s.size() : v.i);
        break;
    }
    case Val::DARR:
        r += ",\"v\":[";
        for(size_t i = 0; i < v.da.size(); ++i) r += (i ? "," : "") + num(v.da[i]);
        r += "]";
        break;
    case Val::LIST:
        r += ",\"v\":[";
        for(size_t i = 0; i < v.l.size(); ++i) r += string(i ? "," : "") + (v.l[i].k == Val::VAR ? "{\"var\":" : "{\"v\":") + to_string(v.l[i].i) + "}";
        r += "]";
        break;
    }
    if((p.k == PK::ENUM || p.k == PK::OPTENUM) && v.k == Val::INT) {
        string n = "null", all;
        for(auto &[name, x] : enum_info(p.ctype).vals) {
            if(x == v.i) n = "\"" + name + "\"";
            all += (all.empty() ? "[\"" : ",[\"") + name + "\"," + to_string(x) + "]";
        }
        r += ",\"n\":" + n;
        if(p.ctype.ends_with("_Flags")) r += ",\"all\":[" + all + "]";
    }
    return r + "}";
}
static string json(const Script &s, int mode, int inject, int sub, int code, const string &dir) {
    string r = "{\"mode\":" + to_string(mode) + ",\"inject\":" + to_string(inject) + ",\"sub\":" + to_string(sub) + ",\"code\":" + to_string(code) + ",\"forward\":" + (mode ? "false" : "true") + ",\"ff\":[";
    bool first = true;
    for(auto &[n, v] : enum_info("CapyPDF_Form_Field_Flags").vals) {
        r += (first ? "[\"" : ",[\"") + n + "\"," + to_string(v) + "]";
        first = false;
    }
    r += "],\"ops\":[";
    for(size_t i = 0; i < s.ops.size(); ++i) {
        auto &f = fns()[s.ops[i].fn];
        r += (i ? ",[\"" : "[\"") + f.name + "\",[";
        for(size_t k = 0; k < f.params.size(); ++k) r += (k ? "," : "") + json_val(s.ops[i].a[k], f.params[k], dir);
        r += "]]";
    }
    return r + "]}";
}

// --- one execution
struct Reply {
    vector<string> op; // per call
    int calls = 0, hit = 0;
    string problems, broken;
};
static std::map<string, string> clean_dir(const string &d, bool remove) {
    std::map<string, string> r;
    mkdir(d.c_str(), 0700);
    if(auto *p = opendir(d.c_str())) {
        while(auto *e = readdir(p)) {
            string n = e->d_name;
            if(n == "." || n == "..") continue;
            if(remove) unlink((d + "/" + n).c_str());
            else r[n] = read_file(d + "/" + n);
        }
        closedir(p);
    }
    return r;
}
static Reply through(int which, const Script &s, int mode, int inject = 0, int sub = 1, int code = 0) {
    Reply r;
    auto dir = scratch() + "/b";
    clean_dir(dir, true);
    auto err = bind_dir() + "/cppbind.err";
    if(which == 1 && file_exists(err)) {
        r.broken = "broken does not compile: " + read_file(err).substr(0, 600);
        return r;
    }
    string req = which == 0 ? json(s, mode, inject, sub, code, dir)
                            : to_string(mode) + " " + to_string(inject) + " " + to_string(sub) + " " + to_string(code) + " " + dir + "\n" + s.text();
    std::istringstream is(servers[which].ask(which, req));
    string l;
    while(std::getline(is, l)) {
        if(l.starts_with("broken") || l.starts_with("crash")) {
            r.broken = l;
            return r;
        }
        if(l.starts_with("end ")) {
            int n = 0;
            sscanf(l.c_str(), "end %d %d %n", &r.calls, &r.hit, &n);
            r.problems = l.substr(n);
            return r;
        }
        r.op.push_back(l);
    }
    r.broken = "broken reply is incomplete";
    return r;
}
// Everything but the random document id.
static string normal(string s) {
    auto p = s.rfind("/ID");
    if(p == string::npos) return s;
    for(size_t k = p, inside = 0; k < s.size() && s[k] != ']'; ++k) {
        if(s[k] == '<') inside = 1;
        else if(s[k] == '>') inside = 0;
        else if(inside && isxdigit((unsigned char)s[k])) s[k] = '0';
    }
    return s;
}
static string first_difference(const string &a, const string &b) {
    size_t i = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    auto cut = [&](const string &s) {
        string r;
        for(unsigned char c : s.substr(i > 30 ? i - 30 : 0, 90)) r += c >= 32 && c < 127 ? (char)c : '.';
        return r;
    };
    return "at byte " + to_string(i) + ": [" + cut(a) + "] instead of [" + cut(b) + "]";
}

// The calls and their results through the C interface.
struct Direct {
    vector<int> rc;
    vector<string> res; // "ok" and the results
    std::map<string, string> files;
};
static Direct direct(const Script &s) {
    Direct r;
    auto dir = scratch() + "/c", old = scratch();
    clean_dir(dir, true);
    set_scratch(dir);
    r.res.resize(s.ops.size());
    auto o = execute(s, [&](size_t i, int rc, CallCtx &c) {
        if(rc != 0) return;
        string t = "ok";
        auto &f = fns()[s.ops[i].fn];
        for(size_t k = 0; k < f.params.size(); ++k) {
            if(!is_out(f.params[k].k)) continue;
            auto &sl = c.slot(s.ops[i].a[k].i);
            if(sl.t == Slot::Handle) t += " h";
            else if(sl.t == Slot::Int) t += " i" + to_string((int32_t)sl.i);
            else if(sl.t == Slot::Dbl) t += " d" + num(sl.d);
        }
        r.res[i] = t;
    });
    set_scratch(old);
    r.rc = o.rc;
    r.files = clean_dir(dir, false);
    return r;
}
static bool same_result(const string &a, const string &b) {
    std::istringstream x(a), y(b);
    string p, q;
    while(true) {
        bool g = (bool)(x >> p), h = (bool)(y >> q);
        if(g != h) return false;
        if(!g) return true;
        if(p == q) continue;
        if(p[0] == 'd' && q[0] == 'd' && std::stod(p.substr(1)) == std::stod(q.substr(1))) continue;
        if(p.starts_with("eCAPY_")) { p = "i" + to_string(E(p.substr(1))); if(p == q) continue; }
        return false;
    }
}
// A call that did not happen. The variables it would set stay unset.
static Script without(const Script &s, const vector<bool> &drop, vector<int> &where) {
    Script r;
    r.nvars = s.nvars;
    where.assign(s.ops.size(), -1);
    for(size_t i = 0; i < s.ops.size(); ++i)
        if(!drop[i]) {
            where[i] = (int)r.ops.size();
            r.ops.push_back(s.ops[i]);
        }
    return r;
}
static bool started(const string &s, const char *p) { return s.starts_with(p); }

// The whole judgement of one execution through an interface. failed: the call whose first C call was made to fail.
static string judge(int which, const Script &s, int mode, Reply &r, string &key, int failed = -1, int code = 0) {
    key = string(BIND[which]) + "/";
    if(!r.broken.empty()) {
        key += started(r.broken, "crash") ? "crash" : "broken";
        return r.broken;
    }
    if(r.op.size() != s.ops.size()) {
        key += "broken";
        return "incomplete reply";
    }
    vector<bool> drop(s.ops.size());
    for(size_t i = 0; i < s.ops.size(); ++i) drop[i] = started(r.op[i], "unsup") || (int)i == failed;
    vector<int> where;
    auto c = without(s, drop, where);
    auto d = direct(c);
    auto fn = [&](size_t i) { return fns()[s.ops[i].fn].name; };
    // the failure of a C call must come out as an exception with its message
    auto raised = [&](const string &t, int want) -> string {
        std::istringstream is(t);
        string kind, m;
        int rc = 0;
        is >> kind >> rc >> m;
        if(kind == "lost") return "the failure is not reported";
        if(kind == "exc" && rc != 0) return "the failure is reported as " + t;
        if(kind == "err" && rc != 0 && rc != want) return "error " + to_string(rc) + " instead of " + to_string(want);
        if(kind == "err" && rc != 0 && unhex(m) != error_text(rc)) return "message \"" + unhex(m) + "\" instead of \"" + error_text(rc) + "\"";
        return "";
    };
    for(size_t i = 0; i < s.ops.size(); ++i) {
        auto &t = r.op[i];
        key = string(BIND[which]) + "/" + fn(i);
        auto what = op_text(s.ops[i]).substr(0, 300) + ": ";
        if((int)i == failed) {
            if(!started(t, "err") && !started(t, "exc") && !started(t, "lost")) return what + "a failing C function: " + t;
            auto e = raised(t, code);
            if(!e.empty()) return what + e;
            continue;
        }
        if(where[i] < 0) continue;
        auto rc = d.rc[where[i]];
        if(rc == SKIPPED) {
            if(t != "skip") return what + "internal: " + t;
        } else if(rc == 0) {
            if(!same_result(t, d.res[where[i]])) {
                auto msg = started(t, "err") ? t + " (" + unhex(t.substr(t.rfind(' ') + 1)) + ")" : t;
                return what + "the interface gives \"" + msg + "\", the C function \"" + d.res[where[i]] + "\"";
            }
        } else {
            if(!started(t, "err") && !started(t, "exc") && !started(t, "lost")) return what + "the C function fails with \"" + error_text(rc) + "\", the interface gives \"" + t + "\"";
            auto e = raised(t, rc);
            if(!e.empty()) return what + e;
        }
    }
    if(!r.problems.empty()) {
        key = string(BIND[which]) + "/objects/" + r.problems.substr(0, r.problems.find(';'));
        return r.problems;
    }
    auto files = clean_dir(scratch() + "/b", false);
    key = string(BIND[which]) + "/document";
    for(auto &[n, x] : d.files)
        if(!files.count(n)) return "file " + n + " is not written";
    for(auto &[n, x] : files) {
        if(!d.files.count(n)) return "file " + n + " should not be there";
        auto a = normal(x), b = normal(d.files[n]);
        if(a != b) return "the documents differ " + first_difference(a, b);
    }
    return "";
}
// MC_SUP=file: which calls the interfaces have a form for
static void report_unsup(int which, const Script &s, const Reply &r) {
    static const char *out = getenv("MC_SUP");
    if(!out) return;
    if(auto *f = fopen(out, "a")) {
        for(size_t i = 0; i < r.op.size(); ++i)
            if(started(r.op[i], "unsup") || started(r.op[i], "ok")) fprintf(f, "%s %s %s\n", BIND[which], fns()[s.ops[i].fn].name.c_str(), r.op[i].substr(0, started(r.op[i], "ok") ? 2 : 80).c_str());
        fclose(f);
    }
}
static void one(int which, int mode, const Script &s, const string &name, Ctx &cx) {
    auto r = through(which, s, mode);
    report_unsup(which, s, r);
    string key;
    auto e = judge(which, s, mode, r, key);
    size_t n = 0;
    for(auto &t : r.op) n += !started(t, "unsup");
    cx.transitions(2 * n);
    cx.traces();
    string st;
    for(auto &t : r.op) st += t.substr(0, 3);
    cx.state(st);
    if(!e.empty()) {
        cx.script(s);
        cx.violation(key, name + " mode " + to_string(mode) + ": " + e);
    }
}

// --- the programs: the catalogue of documents, the drawing features in every kind of context, and what the interfaces have no form for in the catalogue
static const vector<Base0> &programs() {
    static const vector<Base0> all = [] {
        auto r = bases();
        for(int where = 1; where <= 3; ++where)
            for(auto &f : features()) {
                if(!f.drawing || f.name == "image_file") continue;
                for(int v = 0; v < std::min(f.variants, 2); ++v) {
                    B b;
                    b.props();
                    b.start();
                    auto page = b.dc;
                    b.dc = where == 1 ? b.s("form_xobject_new", b.gen, 0.0, 1.0, 100.0, 90.0) : where == 2 ? b.s("transparency_group_new", b.gen, 0.0, 2.0, 101.0, 90.0) : b.s("tiling_pattern_context_new", b.gen, 0.0, 3.0, 102.0, 90.0);
                    f.add(b, v);
                    if(where == 1) b.s("generator_add_form_xobject", b.gen, b.dc);
                    else if(where == 2) {
                        auto id = b.s("generator_add_transparency_group", b.gen, b.dc);
                        b.s("dc_cmd_Do_trgroup", page, id);
                    } else {
                        auto id = b.s("generator_add_tiling_pattern", b.gen, b.dc);
                        auto c = b.s("color_new");
                        b.s("color_set_pattern", c, id);
                        b.s("dc_set_nonstroke", page, c);
                        b.s("dc_set_stroke", page, c);
                    }
                    b.dc = page;
                    b.finish();
                    r.push_back({f.name + "." + to_string(v) + " in context " + to_string(where), b.s});
                }
            }
        for(int k = 0; k < 4; ++k) {
            B b;
            b.props();
            if(k == 0) b.s("document_properties_set_metadata_xml", b.md, "<x><pdf:Producer>CapyPDF</pdf:Producer>\xc3\xa9</x>");
            b.start();
            if(k == 1)
                for(auto *n : {"1bit_noalpha.png", "gray_alpha.png", "flame_gradient.png", "cmyk_tiff.tif"}) {
                    auto im = b.s("generator_load_image", b.gen, string("$REPO/testdata/images/") + n);
                    b.s("raster_image_get_size", im);
                    b.s("raster_image_get_colorspace", im);
                    b.s("raster_image_has_profile", im);
                    auto ip = b.s("image_pdf_properties_new");
                    b.s("dc_cmd_Do_image", b.dc, b.s("generator_add_image", b.gen, im, ip));
                }
            if(k == 2) {
                vector<V> c;
                for(int i = 0; i < 4; ++i) c.push_back(b.rgb_color(0.125 * i, 0.5, 1 - 0.25 * i));
                auto sh = b.s("type4_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 1.0, 102.0, 103.0);
                b.s("type4_shading_add_triangle", sh, vector<double>{0, 1, 50, 100, 99, 2}, vector<V>{c[0], c[1], c[2]});
                b.s("type4_shading_extend", sh, 2, vector<double>{80, 81}, c[3]);
                b.s("type4_shading_extend", sh, 1, vector<double>{90, 80}, c[1]);
                b.s("generator_add_shading", b.gen, sh);
                sh = b.s("type6_shading_new", E("CAPY_DEVICE_CS_RGB"), 0.0, 1.0, 104.0, 105.0);
                vector<double> co;
                for(int i = 0; i < 24; ++i) co.push_back(1 + 4 * i);
                b.s("type6_shading_add_patch", sh, co, vector<V>{c[3], c[1], c[2], c[0]});
                co.resize(16);
                for(int i = 1; i < 4; ++i) b.s("type6_shading_extend", sh, i, co, vector<V>{c[i], c[0]});
                b.s("generator_add_shading", b.gen, sh);
            }
            if(k == 3) {
                auto a = b.s("link_annotation_new");
                b.s("annotation_set_rectangle", a, 1.0, 2.0, 30.0, 40.0);
                b.s("annotation_set_uri", a, "https://example.com/");
                b.s("annotation_set_flags", a, E("CAPY_ANNOTATION_FLAG_PRINT"));
                b.s("dc_annotate", b.dc, b.s("generator_add_annotation", b.gen, a));
                a = b.s("link_annotation_new");
                auto d = b.s("destination_new");
                b.s("destination_set_page_xyz", d, 0, 1.0, 2.0, 3.0);
                b.s("annotation_set_destination", a, d);
                b.s("annotation_set_rectangle", a, 1.0, 2.0, 30.0, 40.0);
                b.s("dc_annotate", b.dc, b.s("generator_add_annotation", b.gen, a));
            }
            b.finish();
            r.push_back({"program" + to_string(k), b.s});
        }
        return r;
    }();
    return all;
}

// --- the scripts
static const vector<string> &origins(const Script &s) { // function that makes each variable
    static thread_local vector<string> r;
    r.assign(s.nvars, "");
    for(auto &o : s.ops)
        for(size_t k = 0; k < o.a.size(); ++k)
            if(o.a[k].k == Val::OUT) r[o.a[k].i] = fns()[o.fn].name;
    return r;
}
// The kind of a call: the function, and what its handles are.
static string kind_of(const Script &s, const Op &o) {
    auto &org = origins(s);
    string r = fns()[o.fn].name;
    auto &ps = fns()[o.fn].params;
    for(size_t k = 0; k < ps.size(); ++k)
        if((ps[k].k == PK::H || ps[k].k == PK::OPTH) && o.a[k].k == Val::VAR) r += "," + org[o.a[k].i];
        else if(ps[k].k == PK::OPTH) r += ",-";
    return r;
}
struct Variation { size_t base, op, arg; string name; Val v; };
static vector<Variation> variations(bool deep) {
    vector<Variation> r;
    std::map<string, int> seen;
    auto &bs = programs();
    for(size_t b = 0; b < bs.size(); ++b) {
        auto &s = bs[b].s;
        for(size_t i = 0; i < s.ops.size(); ++i) {
            auto &f = fns()[s.ops[i].fn];
            if(f.name.ends_with("_destroy")) continue;
            auto kind = kind_of(s, s.ops[i]);
            for(size_t k = 0; k < f.params.size(); ++k) {
                auto &p = f.params[k];
                auto &v = s.ops[i].a[k];
                if(seen[kind + "." + to_string(k) + "." + to_string((int)v.k)]++ >= (deep ? 3 : 1)) continue;
                vector<Bad> vs = bad_values(p, v);
                auto add = [&](const string &n, Val x) { vs.push_back({n, x}); };
                switch(p.k) {
                case PK::ENUM:
                case PK::OPTENUM:
                    for(auto &[n, x] : enum_info(p.ctype).vals) add(n, mkval(x));
                    if(p.ctype.ends_with("_Flags")) {
                        int all = 0;
                        for(auto &[n, x] : enum_info(p.ctype).vals) all |= x;
                        add("all flags", mkval(all));
                        add("no flags", mkval(0));
                    }
                    break;
                case PK::INT:
                case PK::OPTINT:
                    for(int x : {0, 1, 2, 3, 4, 7, 13, 255, -1, 65, 8364, 0x1F600}) add(to_string(x), mkval(x));
                    break;
                case PK::DBL:
                case PK::OPTDBL:
                    for(double x : {0.0, 1.0, 0.37, -2.625, 123.5, 2.0}) add(num(x), mkval(x));
                    break;
                case PK::STRN:
                case PK::OPTSTRN:
                    add("terminated", mkval(nts("Zq")));
                    [[fallthrough]];
                case PK::CSTR:
                    for(auto *x : {"", "x", "\xc3\xa9\xe2\x82\xac", "\xf0\x9f\x98\x80", "a(b)\\c", "two words", "Fit"})
                        add(string("text ") + x, p.k == PK::CSTR ? mkval(nts(x)) : mkval(string(x)));
                    break;
                case PK::BUF:
                    add("bytes", mkval(string("a\0b\xff\x80", 5)));
                    add("empty", mkval(string()));
                    break;
                case PK::DARR:
                case PK::DARRN:
                    if(v.k == Val::DARR) {
                        for(size_t j = 0; j < v.da.size() && (deep || j < 12 || j + 1 == v.da.size()); ++j) {
                            auto w = v.da;
                            w[j] = 0.37;
                            add("element " + to_string(j), mkval(w));
                        }
                        if(p.k == PK::DARRN) {
                            auto w = v.da;
                            w.push_back(0.5);
                            add("longer", mkval(w));
                            if(!v.da.empty()) {
                                w = v.da;
                                w.pop_back();
                                add("shorter", mkval(w));
                                add("none", mkval(vector<double>{}));
                            }
                        }
                    }
                    break;
                case PK::IDARRN:
                    if(v.k == Val::LIST && v.l.size()) {
                        auto w = v;
                        std::reverse(w.l.begin(), w.l.end());
                        add("reversed", w);
                        w.l.pop_back();
                        add("shorter", w);
                        w.l.clear();
                        add("none", w);
                    }
                    break;
                default: break;
                }
                bool optional = p.k == PK::OPTH || p.k == PK::OPTID || p.k == PK::OPTENUM || p.k == PK::OPTINT || p.k == PK::OPTDBL || p.k == PK::OPTSTRN;
                if(optional && v.k != Val::NUL && f.params[0].k != PK::OPTH) add("null", Val{});
                for(auto &x : vs) {
                    // ids that exist and ids that do not
                    if(!deep && p.k == PK::ID && x.v.k == Val::INT && x.v.i > 6 && x.v.i < 1000) continue;
                    if(!deep && (p.k == PK::STRN || p.k == PK::CSTR || p.k == PK::OPTSTRN) && x.name.starts_with("utf8z-")) continue;
                    r.push_back({b, i, k, x.name, x.v});
                }
            }
        }
    }
    return r;
}
struct Fault { size_t base, op; };
static vector<Fault> faults(bool deep) {
    vector<Fault> r;
    std::map<string, int> seen;
    auto &bs = programs();
    for(size_t b = 0; b < bs.size(); ++b)
        for(size_t i = 0; i < bs[b].s.ops.size(); ++i) {
            auto &n = fns()[bs[b].s.ops[i].fn].name;
            if(n.ends_with("_destroy")) continue;
            if(seen[kind_of(bs[b].s, bs[b].s.ops[i])]++ < (deep ? 4 : 1)) r.push_back({b, i});
        }
    return r;
}
static void fault(int which, const Fault &f, Ctx &cx) {
    auto &b = programs()[f.base];
    for(int sub = 1; sub <= 8; ++sub) {
        int code = 2 + (int)((f.op * 7 + sub * 11 + f.base) % 40);
        auto r = through(which, b.s, 0, (int)f.op + 1, sub, code);
        if(r.broken.empty() && !r.hit) break;
        if(r.broken.empty() && f.op < r.op.size() && started(r.op[f.op], "unsup")) break;
        string key;
        // when an earlier part of the same operation was carried out only the report is judged
        string e;
        if(sub == 1 || !r.broken.empty()) e = judge(which, b.s, 0, r, key, (int)f.op, code);
        else {
            auto &t = r.op[f.op];
            key = string(BIND[which]) + "/" + fns()[b.s.ops[f.op].fn].name;
            if(!started(t, "err ")) e = op_text(b.s.ops[f.op]) + ": a failing C function: " + t;
            if(e.empty() && !r.problems.empty()) e = r.problems;
        }
        cx.transitions(2 * b.s.ops.size());
        cx.traces();
        string st;
        for(auto &t : r.op) st += t.substr(0, 3);
        cx.state(st);
        if(!e.empty()) {
            cx.script(b.s);
            cx.violation(key, b.name + " call " + to_string(f.op) + " C call " + to_string(sub) + " fails: " + e);
            return;
        }
    }
}

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    setenv("SOURCE_DATE_EPOCH", "1700000000", 1);
    Check c;
    c.id = "C25";
    c.bounds = "every script of the catalogue of well-formed documents (every function of the C interface is used in it) through the C++ and the Python interface, in the plain form and in the forms with "
               "context managers, default arguments and other argument types; every argument of every function (and kind of object) replaced by every enumerator, optional value, boundary number, text and invalid value; "
               "every C function made to fail once at every kind of call";
    c.assumptions = {"calls and values that an interface has no form for are left out of both executions",
                     "an interface may reject with an exception of its own what the C function rejects", "documents are compared byte by byte except for the random document id"};
    c.families = [](bool deep) {
        vector<Family> r;
        auto &bs = programs();
        auto vs = std::make_shared<vector<Variation>>(variations(deep));
        auto fs = std::make_shared<vector<Fault>>(faults(deep));
        for(int w = 0; w < 2; ++w) {
            string bn = w ? "cpp" : "python";
            for(int mode = 0; mode < 2; ++mode)
                r.push_back({"scripts." + bn + "." + to_string(mode), bs.size(), [=](size_t i, Ctx &cx) { one(w, mode, programs()[i].s, programs()[i].name, cx); }, [](size_t i) { return programs()[i].name; }, 40});
            r.push_back({"values." + bn, vs->size(), [=](size_t i, Ctx &cx) {
                             auto &v = (*vs)[i];
                             auto s = programs()[v.base].s;
                             s.ops[v.op].a[v.arg] = v.v;
                             one(w, (int)(i & 1), s, programs()[v.base].name + " " + fns()[s.ops[v.op].fn].params[v.arg].name + " = " + v.name, cx);
                         },
                         [=](size_t i) {
                             auto &v = (*vs)[i];
                             auto &f = fns()[programs()[v.base].s.ops[v.op].fn];
                             return programs()[v.base].name + " " + f.name + "." + f.params[v.arg].name + " = " + v.name;
                         }, 40});
            r.push_back({"faults." + bn, fs->size(), [=](size_t i, Ctx &cx) { fault(w, (*fs)[i], cx); },
                         [=](size_t i) { return programs()[(*fs)[i].base].name + " " + fns()[programs()[(*fs)[i].base].s.ops[(*fs)[i].op].fn].name; }, 60});
        }
        return r;
    };
    return check_main(argc, argv, c);
}
