// uses: features.cpp
// uses: badargs.cpp
// uses: view.cpp
#include "explore.hpp"
#include "badargs.hpp"
#include "view.hpp"
#include <cfloat>
#include <climits>
#include <clocale>
#include <locale>
#include <sys/stat.h>
using namespace mc;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

// An argument that is a number: parameter of a function, element of an array.
struct Entry { int fn, param, elem; bool integer; };
static string entry_name(const Entry &e) {
    auto &f = fns()[(size_t)e.fn];
    return f.name + "." + f.params[(size_t)e.param].name + (e.elem >= 0 ? "[" + to_string(e.elem) + "]" : "");
}
struct Site { size_t base, op; };
static bool is_dbl(PK k) { return k == PK::DBL || k == PK::OPTDBL || k == PK::DARR || k == PK::DARRN; }
static bool is_int(PK k) { return k == PK::INT || k == PK::OPTINT; }

static const std::vector<std::pair<Entry, std::vector<Site>>> &entries() {
    static const auto r = [] {
        std::map<std::tuple<int, int, int>, std::vector<Site>> m;
        for(size_t b = 0; b < bases().size(); ++b)
            for(size_t k = 0; k < bases()[b].s.size(); ++k) {
                auto &o = bases()[b].s.ops[k];
                auto &fn = fns()[(size_t)o.fn];
                for(size_t p = 0; p < fn.params.size(); ++p) {
                    auto kind = fn.params[p].k;
                    if(!is_dbl(kind) && !is_int(kind)) continue;
                    if(o.a[p].k == Val::NUL || o.a[p].k == Val::VAR) continue;
                    int n = kind == PK::DARR || kind == PK::DARRN ? (int)o.a[p].da.size() : 0;
                    for(int e = n ? 0 : -1; e < n; ++e) m[{o.fn, (int)p, e}].push_back({b, k});
                }
            }
        std::vector<std::pair<Entry, std::vector<Site>>> v;
        for(auto &[k, s] : m) {
            auto &[f, p, e] = k;
            v.push_back({Entry{f, p, e, is_int(fns()[(size_t)f].params[(size_t)p].k)}, s});
        }
        return v;
    }();
    return r;
}
// Numbers that are not written as such: booleans, indices of things and coordinates of meshes, which are packed (see C18).
static bool indirect(const string &n) {
    for(auto p : {"collection_field_set_E.", "collection_field_set_V.", "set_page_fit.", "set_page_xyz.physical", "set_tagged.", "set_named_instance.", "set_subfont.", "set_variation.", "add_icc_profile.", "text_width.", "graphics_state_set_AIS.",
                  "graphics_state_set_OP.", "graphics_state_set_TK.", "graphics_state_set_op.", "set_mask.", "shading_set_extend.", "image_builder_set_size.", "image_builder_set_pixel_depth.", "image_builder_set_alpha_depth.", "text_sequence_append_codepoint.", "append_ligature_glyph.", "append_raw_glyph.", "transition_set_B.",
                  "group_properties_set_I.", "group_properties_set_K.", "type4_shading_add_triangle.", "type4_shading_extend.", "type6_shading_add_patch.", "type6_shading_extend."})
        if(n.find(p) != string::npos) return true;
    return false;
}

static void numbers_in(const string &path, const Obj &o, std::map<string, Obj> &out) {
    switch(o.t) {
    case Obj::Int:
    case Obj::Real: out[path] = o; break;
    case Obj::Arr:
        for(size_t i = 0; i < o.a.size(); ++i) numbers_in(path + "[" + to_string(i) + "]", o.a[i], out);
        break;
    case Obj::Dict:
    case Obj::Stream:
        for(auto &[k, v] : o.d)
            if(!(o.t == Obj::Stream && k == "Length")) numbers_in(path + "/" + k, v, out);
        break;
    default: break;
    }
}
static std::map<string, Obj> numbers(const Doc &d) {
    std::map<string, Obj> out;
    std::set<int> content;
    auto ops = [&](const string &path, const std::vector<pdf::COp> &c) {
        for(size_t i = 0; i < c.size(); ++i)
            for(size_t k = 0; k < c[i].a.size(); ++k) numbers_in(path + " " + to_string(i) + " " + c[i].op + " " + to_string(k), c[i].a[k], out);
    };
    for(auto &[n, o] : d.objs) {
        if(o.isdict())
            if(auto *t = o.get("Type"); t && (t->isname("ObjStm") || t->isname("XRef"))) continue;
        numbers_in(to_string(n), o, out);
        if(o.t == Obj::Stream && o.get("BBox")) ops(to_string(n) + " content", pdf::parse_content(d.stream_data(o)));
        if(o.t == Obj::Stream && o.get("FunctionType") && o.get("FunctionType")->i == 4) continue;
    }
    for(int p : d.pages()) ops("page " + to_string(p), d.page_ops(p));
    return out;
}
static Script with(const Entry &e, const Site &s, double v) {
    Script r = bases()[s.base].s;
    auto &a = r.ops[s.op].a[(size_t)e.param];
    if(e.elem >= 0) a.da[(size_t)e.elem] = v;
    else if(e.integer) a = mkval((int64_t)v);
    else a = mkval(v);
    return r;
}
// false: the value is rejected
static bool eval(const Script &s, const Site &at, std::map<string, Obj> &out, Ctx &cx, bool must) {
    cx.script(s);
    Result r;
    r = run_pdf(s);
    cx.transitions(s.size());
    cx.traces();
    if(r.o.failures) {
        if(must) throw std::runtime_error("rejected");
        return false;
    }
    (void)at;
    out = numbers(Doc::parse(r.bytes));
    return true;
}
static bool near(const Obj &o, double v, bool exact) {
    if(o.t == Obj::Int && o.s.size() < 18) return exact ? (double)o.i == v : std::fabs((double)o.i - v) <= 5e-7;
    if(exact) return o.num() == v;
    return std::fabs(o.num() - v) <= 5e-7 * (1 + 1e-6) + std::fabs(v) * 1e-15;
}
struct Found { bool ok = false; Site site; std::vector<string> paths; string why; double sample = 0; };
static Found discover(const Entry &e, const std::vector<Site> &sites, Ctx &cx, size_t skip = 0) {
    static const std::vector<std::vector<double>> D = {{0.4375, 0.3125}, {31.4375, 32.3125}, {131.4375, 133.3125}, {1.25, 1.75}, {0.53125, 0.515625}, {-3.4375, -5.3125}, {413.4375, 433.3125}}, I = {{413, 433}, {2, 3}, {61, 67}, {5, 7}, {1, 0}, {0, 1}, {90, 180}};
    Found f;
    std::set<size_t> seen;
    f.why = "rejected";
    for(auto &s : sites) {
        if(!seen.insert(s.base).second && seen.size() > 6) continue;
        for(auto &p : e.integer ? I : D) {
            std::map<string, Obj> a, b;
            try {
                if(!eval(with(e, s, p[0]), s, a, cx, false) || !eval(with(e, s, p[1]), s, b, cx, false)) continue;
            } catch(const pdf::ParseError &) { continue; }
            f.why = "not written";
            for(auto &[k, x] : a)
                if(auto y = b.find(k); y != b.end() && near(x, p[0], e.integer) && near(y->second, p[1], e.integer)) f.paths.push_back(k);
            if(f.paths.empty()) continue;
            if(skip) { --skip; f.paths.clear(); break; }
            f.ok = true;
            f.site = s;
            f.sample = p[0];
            return f;
        }
        if(seen.size() > 40) break;
    }
    return f;
}
static bool clamped(const string &n) {
    for(auto p : {"color_set_rgb", "color_set_gray", "color_set_cmyk", "cmd_rg", "cmd_RG", "cmd_g.", "cmd_G.", "cmd_k.", "cmd_K.", "outline_set_C.", "set_CA.", "set_ca."})
        if(n.find(p) != string::npos) return true;
    return false;
}
static void check_value(const Entry &e, const Found &f, double v, Ctx &cx) {
    std::map<string, Obj> m;
    auto what = entry_name(e);
    char val[64];
    snprintf(val, sizeof val, e.integer ? "%.0f" : "%a", v);
    try {
        if(!eval(with(e, f.site, v), f.site, m, cx, false)) { cx.state(what + " rejected " + val); return; }
    } catch(const pdf::ParseError &err) {
        cx.violation(what + " makes the document invalid", string(val) + ": " + err.what());
        return;
    }
    for(auto &p : f.paths) {
        auto i = m.find(p);
        // no style flags are the default; the first page has another place in the tree of labels
        if(i == m.end() && v == 0 && (what.find("outline_set_F.") != string::npos || what.find("start_page") != string::npos)) continue;
        if(i == m.end()) { cx.violation(what + " is not written", val); continue; }
        auto &o = i->second;
        if(near(o, v, e.integer)) { cx.state(what + o.s); continue; }
        if(clamped(what) && near(o, v < 0 ? 0 : v > 1 ? 1 : v, false)) { cx.state(what + o.s); continue; }
        cx.violation(what + " is written with another value", string(val) + " at " + p + " as " + o.s.substr(0, 60));
    }
}

static const std::vector<double> &critical() {
    static const auto r = [] {
        std::vector<double> v = {0.0, DBL_MIN, DBL_TRUE_MIN, DBL_EPSILON, DBL_MAX, 0.1, 1.0 / 3, 2.0 / 3, 0.5, 1, 1.5, 2, 2.5e-7, 5e-7, 4.9999999e-7, 5.0000001e-7, 1.5e-6, 9.999995e-1, 0.9999994, 0.9999996, 9.9999995, 99.9999995,
                                 999999.5, 9999999.5, 123456.789012, 1234567.8901234, 0.123456789, 12345678.123456, 360, 359.99999951, 14400, 32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, 2147483649.5, 4294967295.0, 4294967296.0,
                                 4503599627370496.5, 9007199254740991.0, 9007199254740992.0, 9223372036854775807.0, 18446744073709551616.0, 3.4028234663852886e38, 3.5e38, 1e15, 1e16, 1e17, 1e18, 1e21, 1e22, 1e23, 1e100, 1e308};
        for(int k = -12; k <= 14; ++k) v.push_back(std::pow(10.0, k)), v.push_back(std::pow(10.0, k) * 1.2345678901);
        for(size_t i = v.size(); i--;) v.push_back(-v[i]);
        return v;
    }();
    return r;
}
static std::vector<double> grid(bool all) {
    std::vector<double> v;
    for(int e = -1074; e <= 1023; e += all ? 1 : (std::abs(e) < 64 ? 1 : 24))
        for(double m : all ? std::vector<double>{1, 1 + DBL_EPSILON, 1.2345678901234567, 1.5, 2 - DBL_EPSILON} : std::vector<double>{1.2345678901234567})
            for(int s : {1, -1}) v.push_back(s * std::ldexp(m, e));
    return v;
}
static const std::vector<double> &integers() {
    static const auto r = [] {
        std::vector<double> v;
        for(int64_t k = -300; k <= 300; ++k) v.push_back((double)k);
        for(int b = 9; b < 32; ++b)
            for(int64_t d = -1; d <= 1; ++d)
                for(int s : {1, -1}) {
                    auto x = s * ((int64_t(1) << b) + d);
                    if(x >= INT32_MIN && x <= INT32_MAX) v.push_back((double)x);
                }
        v.push_back(1e9); v.push_back(-1e9); v.push_back(999); v.push_back(1000); v.push_back(-1000); v.push_back(1000000); v.push_back(123456789);
        return v;
    }();
    return r;
}
static const std::vector<double> &values(const Entry &e, int part) {
    if(e.integer) return integers();
    static const auto q = grid(false), t = grid(true);
    return part == 0 ? critical() : part == 1 ? q : t;
}
static void entry_case(size_t i, Ctx &cx, int part) {
    auto &[e, sites] = entries()[i];
    auto f = discover(e, sites, cx);
    auto n = entry_name(e);
    if(n.find("image_builder") != string::npos) return; // bound to the data (see C09)
    if(!f.ok) {
        if(!indirect(n)) cx.violation(n + " does not appear in the document", f.why);
        return;
    }
    if(part) { // bounded work per document
        for(auto v : values(e, part)) check_value(e, f, v, cx);
        return;
    }
    bool is_unsigned = fns()[(size_t)e.fn].params[(size_t)e.param].ctype.find("uint32_t") != string::npos;
    for(auto v : values(e, 0))
        if(v >= 0 || !is_unsigned) check_value(e, f, v, cx);
}

// Numbers that are passed in one call: products of critical values (of all of them if there are few, else of every pair).
struct Group { std::vector<size_t> members; };
static const std::vector<Group> &groups() {
    static const auto r = [] {
        std::map<int, Group> m;
        for(size_t i = 0; i < entries().size(); ++i) m[entries()[i].first.fn].members.push_back(i);
        std::vector<Group> v;
        for(auto &[fn, g] : m)
            if(g.members.size() > 1) v.push_back(g);
        return v;
    }();
    return r;
}
static void group_case(size_t i, Ctx &cx, bool thorough) {
    struct M { Entry e; Found f; std::vector<double> vals; };
    std::vector<M> ms;
    for(auto k : groups()[i].members) {
        auto &[e, sites] = entries()[k];
        auto n = entry_name(e);
        if(n.find("image_builder") != string::npos || n.find("start_page") != string::npos || indirect(n)) continue;
        std::vector<Site> here;
        for(auto &s : sites)
            if(ms.empty() || (s.base == ms[0].f.site.base && s.op == ms[0].f.site.op)) here.push_back(s);
        if(here.empty()) continue;
        auto f = discover(e, here, cx);
        std::erase_if(f.paths, [](const string &p) { return p.ends_with("Step"); }); // a difference of two numbers
        if(!f.ok) continue;
        bool uns = fns()[(size_t)e.fn].params[(size_t)e.param].ctype.find("uint32_t") != string::npos;
        ms.push_back({e, f, e.integer ? uns ? std::vector<double>{0, 1, 2, 9, 100} : std::vector<double>{0, 1, -1, 2, 90} : std::vector<double>{0, 1, -1, 2.5, 0.25}});
        if(thorough) {
            if(e.integer) ms.back().vals.push_back(1000);
            else for(double x : {-0.5, 300.0}) ms.back().vals.push_back(x);
        }
    }
    if(ms.size() < 2) return;
    auto run = [&](const std::vector<std::pair<size_t, double>> &sel) {
        Script s = bases()[ms[0].f.site.base].s;
        for(auto &[k, v] : sel) {
            auto &e = ms[k].e;
            auto &a = s.ops[ms[0].f.site.op].a[(size_t)e.param];
            if(e.elem >= 0) a.da[(size_t)e.elem] = v;
            else if(e.integer) a = mkval((int64_t)v);
            else a = mkval(v);
        }
        std::map<string, Obj> m;
        string vals;
        for(auto &[k, v] : sel) vals += entry_name(ms[k].e) + "=" + to_string(v) + " ";
        try {
            if(!eval(s, ms[0].f.site, m, cx, false)) { cx.state("rejected " + vals); return; }
        } catch(const pdf::ParseError &err) {
            cx.violation("numbers make the document invalid", vals + err.what());
            return;
        }
        for(auto &[k, v] : sel) {
            auto what = entry_name(ms[k].e);
            for(auto &p : ms[k].f.paths) {
                auto it = m.find(p);
                if(it == m.end() && v == 0 && what.find("outline_set_F.") != string::npos) continue;
                if(it == m.end()) { cx.violation(what + " is not written among others", vals); continue; }
                auto &o = it->second;
                if(near(o, v, ms[k].e.integer) || (clamped(what) && near(o, v < 0 ? 0 : v > 1 ? 1 : v, false))) continue;
                cx.violation(what + " is written with another value among others", vals + "at " + p + " as " + o.s.substr(0, 60));
            }
        }
        cx.state(vals);
    };
    for(auto &m : ms)
        if(!thorough && ms.size() > 5) m.vals.resize(4);
    size_t total = 1;
    for(auto &m : ms) total *= m.vals.size();
    if(total <= (thorough ? 120000 : 5000)) {
        for(size_t n = 0; n < total; ++n) {
            std::vector<std::pair<size_t, double>> sel;
            size_t r = n;
            for(size_t k = 0; k < ms.size(); ++k) { sel.push_back({k, ms[k].vals[r % ms[k].vals.size()]}); r /= ms[k].vals.size(); }
            run(sel);
        }
        return;
    }
    for(size_t a = 0; a < ms.size(); ++a)
        for(size_t b = 0; b < a; ++b)
            for(auto x : ms[a].vals)
                for(auto y : ms[b].vals) run({{a, x}, {b, y}});
}

// A C locale (as compiled by localedef) with decimal_point "," thousands_sep "." grouping 3;3
static const unsigned char LOCALE[] = {20, 17, 3, 32, 6, 0, 0, 0, 32, 0, 0, 0, 34, 0, 0, 0, 36, 0, 0, 0, 40, 0, 0, 0, 44, 0, 0, 0, 48, 0, 0, 0, 44, 0, 46, 0, 3, 3, 0, 0, 44, 0, 0, 0, 46, 0, 0, 0, 65, 78, 83, 73, 95, 88, 51, 46, 52, 45, 49, 57, 54, 56, 0};
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    string do_grouping() const override { return "\3"; }
    string do_truename() const override { return "wahr"; }
    string do_falsename() const override { return "falsch"; }
};
// kinds of locale: 1 the C library's, 2 the C++ global one, 3 both
static void locale_case(size_t i, Ctx &cx) {
    int kind = (int)(i % 3) + 1;
    auto &b = bases()[i / 3];
    auto run = [&] {
        auto r = run_pdf(b.s);
        cx.transitions(b.s.size());
        cx.traces();
        return r;
    };
    cx.script(b.s);
    auto plain = run();
    string dir = scratch() + "/locale";
    mkdir(dir.c_str(), 0755);
    mkdir((dir + "/vv_VV").c_str(), 0755);
    write_file(dir + "/vv_VV/LC_NUMERIC", string((const char *)LOCALE, sizeof LOCALE));
    setenv("LOCPATH", dir.c_str(), 1);
    if(kind & 1) {
        if(!setlocale(LC_NUMERIC, "vv_VV")) throw std::runtime_error("the locale can not be used");
        char t[32];
        snprintf(t, sizeof t, "%.1f", 0.5);
        if(string(t) != "0,5") throw std::runtime_error("the locale has no effect");
    }
    auto old = std::locale();
    if(kind & 2) std::locale::global(std::locale(std::locale::classic(), new Punct));
    Result r;
    try { r = run(); } catch(...) { std::locale::global(old); setlocale(LC_ALL, "C"); throw; }
    std::locale::global(old);
    setlocale(LC_ALL, "C");
    auto strip = [](const string &s) {
        try {
            auto d = Doc::parse(s);
            return d.canon();
        } catch(const pdf::ParseError &e) { return string("invalid: ") + e.what(); }
    };
    if(plain.o.rc != r.o.rc) cx.violation("the locale changes results", b.name);
    else if(plain.o.failures == 0 && strip(plain.bytes) != strip(r.bytes)) cx.violation("the locale changes the document", b.name + " " + strip(r.bytes).substr(0, 100));
    cx.state(strip(r.bytes));
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C23";
    c.bounds = "Every parameter of every function that is a number, each element of the arrays of numbers in the base documents: critical values (powers of ten, rounding boundaries, type limits, subnormal and largest numbers, both signs) and a grid of binary exponents times mantissas "
               "(thorough: all 2098 exponents, five mantissas, two signs); integers -300..300 and all neighbours of powers of two. Numbers of one call: all products of four or five (seven) values, or all pairs of numbers when there are more than 5000 (120000) products. Each base document under a C locale and a C++ locale with comma as decimal separator and grouping.";
    c.families = [](bool thorough) {
        std::vector<Family> f;
        size_t n = entries().size();
        auto name = [](size_t i) { return entry_name(entries()[i].first); };
        f.push_back({"critical", n, [](size_t i, Ctx &cx) { entry_case(i, cx, 0); }, name, 120});
        f.push_back({"grid", n, [](size_t i, Ctx &cx) { if(!entries()[i].first.integer) entry_case(i, cx, 1); }, name, 120});
        if(thorough) f.push_back({"exponents", n, [](size_t i, Ctx &cx) { if(!entries()[i].first.integer) entry_case(i, cx, 2); }, name, 800});
        f.push_back({"products", groups().size(), [thorough](size_t i, Ctx &cx) { group_case(i, cx, thorough); }, [](size_t i) { return fns()[(size_t)entries()[groups()[i].members[0]].first.fn].name; }, thorough ? 800 : 120});
        f.push_back({"locale", bases().size() * 3, locale_case, [](size_t i) { return bases()[i / 3].name + "/" + to_string(i % 3); }});
        return f;
    };
    return check_main(argc, argv, c);
}
