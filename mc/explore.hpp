// Bounded exhaustive exploration: a finite list of cases per family, every one of them executed
// against the real library in worker processes, with crash/hang isolation and replay-before-report.
#pragma once
#include "mc.hpp"

namespace mc {

struct Ctx {
    std::string family;
    size_t index = 0;
    bool replaying = false;
    // Reports a violation. The key identifies what fails (input, call site, history).
    void violation(const std::string &key, const std::string &detail = "");
    void script(const Script &s);        // what is being executed (recorded when replaying)
    void note(const std::string &text);  // same, free text
    void state(std::string_view observed); // one distinct observation
    void transitions(size_t n);
    void traces(size_t n = 1);
    void sample(const std::string &text);
    size_t nviol = 0;
};

struct Family {
    std::string name;
    size_t n = 0;
    std::function<void(size_t, Ctx &)> run;
    std::function<std::string(size_t)> describe; // stable name of a case; optional
    int timeout_s = 20;
};

struct Check {
    std::string id;
    std::string level = "model_checking";
    std::string bounds;                  // what was enumerated, in words
    std::vector<std::string> assumptions;
    std::function<std::vector<Family>(bool thorough)> families;
};

bool thorough();
int check_main(int argc, char **argv, const Check &c);

// Runs the script, checks that every call succeeded and the document parses strictly.
// On failure reports a violation and returns false.
bool run_good(const Script &s, Ctx &cx, pdf::Doc &doc, Result *res = nullptr, const std::string &file = "out.pdf");
// The same when exactly the given calls must be rejected.
bool run_expect(const Script &s, const std::set<size_t> &rejected, Ctx &cx, pdf::Doc &doc, Result *res = nullptr, const std::string &file = "out.pdf");
// The same when at least one of the calls [lo, hi) must be rejected and all the others accepted.
bool run_reject(const Script &s, size_t lo, size_t hi, Ctx &cx, pdf::Doc &doc, const std::string &file = "out.pdf");
} // namespace mc
