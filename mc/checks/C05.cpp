// uses: features.cpp
// uses: rejects.cpp
// uses: badargs.cpp
// sanitize
#include "explore.hpp"
#include "features.hpp"
#include "rejects.hpp"
#include "badargs.hpp"
#include <set>
#include <climits>
using namespace mc;

struct Case { int base, op, param; Bad bad; };
static std::set<int64_t> issued(const Script &s, const std::string &type, size_t upto) {
    Script t = s;
    t.ops.resize(upto);
    auto o = execute(t);
    std::set<int64_t> r;
    for(size_t i = 0; i < t.ops.size(); ++i) {
        auto &f = fns()[t.ops[i].fn];
        for(size_t k = 0; k < f.params.size(); ++k)
            if(f.params[k].k == PK::OUTID && f.params[k].ctype == type) {
                auto &sl = o.vars.at((size_t)t.ops[i].a[k].i);
                if(sl.t == Slot::Int) r.insert(sl.i);
            }
    }
    return r;
}

static void run_case(const Case &c, Ctx &cx) {
    const auto &b = bases()[(size_t)c.base];
    Script s = b.s;
    auto &o = s.ops[(size_t)c.op];
    auto &f = fns()[o.fn];
    auto &p = f.params[(size_t)c.param];
    if((p.k == PK::ID || p.k == PK::OPTID)) {
        static std::map<std::tuple<int, int, std::string>, std::set<int64_t>> memo;
        auto &is = memo.try_emplace({c.base, c.op, p.ctype}, std::set<int64_t>{-12345}).first->second;
        if(is.count(-12345)) is = issued(b.s, p.ctype, (size_t)c.op);
        if(is.count(c.bad.v.i)) { cx.state("issued"); return; }
        // The soft mask of an image with alpha is an image of its own, whose identifier precedes the one issued.
        if(p.ctype == "CapyPDF_ImageId" && c.bad.v.i >= 0 && !is.empty() && c.bad.v.i < *is.rbegin()) { cx.state("soft mask"); return; }
    }
    o.a[(size_t)c.param] = c.bad.v;
    cx.script(s);
    cx.note(f.name + " " + p.name + " = " + c.bad.name);
    auto out = execute(s);
    cx.transitions(s.size());
    cx.traces();
    int rc = out.rc[(size_t)c.op];
    if(rc == 0) {
        // Objects that exist outside a document are checked when they are put in one.
        bool indoc = false, later = false;
        for(auto &q : f.params)
            if(q.ctype == "CapyPDF_Generator" || q.ctype == "CapyPDF_DrawContext") indoc = true;
        for(size_t k = (size_t)c.op + 1; k < out.rc.size(); ++k)
            if(out.rc[k] && fns()[s.ops[k].fn].name != "capy_generator_write") later = true;
        if(indoc || !later || p.k == PK::ENUM || p.k == PK::OPTENUM) cx.violation(f.name + " accepts an invalid " + p.name, c.bad.name);
        else cx.state(f.name + p.name + c.bad.name + "later");
        return;
    }
    auto msg = error_text(rc);
    if(msg.empty() || msg == "Invalid error code.") cx.violation(f.name + " returns an error without a message");
    cx.state(f.name + p.name + c.bad.name + msg);
}

static void run_rule(const Reject &r, Ctx &cx) {
    B b;
    b.props();
    if(r.md) r.md(b);
    b.start();
    if(r.setup) r.setup(b);
    r.bad(b);
    size_t at = b.s.size() - 1;
    cx.script(b.s);
    cx.note(r.name);
    auto out = execute(b.s);
    cx.transitions(b.s.size());
    cx.traces();
    for(size_t i = 0; i < at; ++i)
        if(out.rc[i]) { cx.violation("a valid call fails: " + fns()[b.s.ops[i].fn].name, error_text(out.rc[i])); return; }
    if(!out.rc[at]) { cx.violation("rule not enforced: " + r.name); return; }
    auto msg = error_text(out.rc[at]);
    if(msg.empty() || msg == "Invalid error code.") cx.violation("error without a message");
    cx.state(r.name + msg);
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C05";
    c.bounds = "arguments: in every call of a set of valid scripts that together use every function of the API, every identifier, enumeration and string argument is replaced, one at a time, by every value of a catalogue of invalid ones "
               "(every identifier -2 .. 47 that was not issued plus five extreme ones, six values outside the enumeration, 14 kinds of bad UTF-8 with and without explicit length, embedded NULs, negative lengths); "
               "rules: every documented rule of the API (context type, nesting, ownership, single use, colour space, size, version) broken in every context it applies to; NULL for a non-optional pointer and non-finite numbers are outside the API's contract";
    c.families = [](bool thorough) {
        std::vector<Family> f;
        std::vector<Case> cases;
        std::map<std::string, int> uses;
        for(size_t b = 0; b < bases().size(); ++b)
            for(size_t k = 0; k < bases()[b].s.size(); ++k) {
                auto &o = bases()[b].s.ops[k];
                auto &fn = fns()[o.fn];
                if(uses[fn.name]++ >= (thorough ? 40 : 6)) continue;
                for(size_t p = 0; p < fn.params.size(); ++p)
                    for(auto &bad : bad_values(fn.params[p], o.a[p]))
                        if(!allowed(fn.name, fn.params[p], bad.name)) cases.push_back({(int)b, (int)k, (int)p, bad});
            }
        if(getenv("MC_UNCOVERED"))
            for(auto &fn : fns())
                if(!uses.count(fn.name) && fn.name.find("_destroy") == std::string::npos) fprintf(stderr, "uncovered %s\n", fn.name.c_str());
        f.push_back({"arguments", cases.size(), [=](size_t i, Ctx &cx) { run_case(cases[i], cx); },
                     [=](size_t i) {
                         auto &c = cases[i];
                         auto &o = bases()[(size_t)c.base].s.ops[(size_t)c.op];
                         return bases()[(size_t)c.base].name + "/" + fns()[o.fn].name + "." + fns()[o.fn].params[(size_t)c.param].name + "=" + c.bad.name;
                     }});
        f.push_back({"rules", rejects().size(), [](size_t i, Ctx &cx) { run_rule(rejects()[i], cx); }, [](size_t i) { return rejects()[i].name; }});
        return f;
    };
    return check_main(argc, argv, c);
}
