// Scripts of public API calls: the alphabet, the executor and the builder used by all checks.
#pragma once
#include "pdf.hpp"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <initializer_list>

namespace mc {

enum class PK { H, OPTH, OUTH, ID, OPTID, OUTID, ENUM, OPTENUM, INT, OPTINT, OUTI, DBL, OPTDBL,
                OUTDBL, STRN, OPTSTRN, CSTR, BUF, DARR, DARRN, HARR, IDARRN };

struct Val {
    enum K { NUL, VAR, INT, DBL, STR, DARR, LIST, OUT } k = NUL;
    int64_t i = 0; // VAR/OUT: slot. INT: value. STR: length passed to the library.
    double d = 0;
    std::string s;
    std::vector<double> da;
    std::vector<Val> l;
};

struct V { int slot = -1; };               // a script variable
struct Null {};
inline constexpr Null null{};
struct SZ { std::string s; int64_t len; }; // string with an explicit length argument
inline SZ nts(std::string s) { return SZ{std::move(s), -1}; }

inline Val mkval(Null) { return {}; }
inline Val mkval(V v) { Val r; r.k = Val::VAR; r.i = v.slot; return r; }
inline Val mkval(bool b) { Val r; r.k = Val::INT; r.i = b; return r; }
inline Val mkval(int b) { Val r; r.k = Val::INT; r.i = b; r.d = b; return r; }
inline Val mkval(int64_t b) { Val r; r.k = Val::INT; r.i = b; r.d = (double)b; return r; }
inline Val mkval(unsigned b) { return mkval((int64_t)b); }
inline Val mkval(size_t b) { return mkval((int64_t)b); }
inline Val mkval(double b) { Val r; r.k = Val::DBL; r.d = b; r.i = (std::fabs(b) < 1e9) ? (int64_t)b : 0; return r; }
inline Val mkval(const std::string &s) { Val r; r.k = Val::STR; r.s = s; r.i = (int64_t)s.size(); return r; }
inline Val mkval(const char *s) { return mkval(std::string(s)); }
inline Val mkval(const SZ &s) { Val r; r.k = Val::STR; r.s = s.s; r.i = s.len; return r; }
inline Val mkval(const std::vector<double> &d) { Val r; r.k = Val::DARR; r.da = d; return r; }
inline Val mkval(const std::vector<V> &d) { Val r; r.k = Val::LIST; for(auto v : d) r.l.push_back(mkval(v)); return r; }
inline Val mkval(const std::vector<int> &d) { Val r; r.k = Val::LIST; for(auto v : d) r.l.push_back(mkval(v)); return r; }
inline Val mkval(const Val &v) { return v; }

struct Op {
    int fn = -1;
    std::vector<Val> a;
};

struct Param { PK k; std::string ctype, name; };
struct EnumInfo { std::string name; std::vector<std::pair<std::string, int>> vals; };
class CallCtx;
struct FnInfo { std::string name; std::vector<Param> params; int (*call)(CallCtx &, const Op &); };

const std::vector<FnInfo> &fns();
const std::vector<EnumInfo> &enums();
int fn_index(const std::string &name); // with or without the capy_ prefix; throws when unknown
const EnumInfo &enum_info(const std::string &name);
int E(const std::string &value_name);  // value of an enumerator
inline bool is_out(PK k) { return k == PK::OUTH || k == PK::OUTID || k == PK::OUTI || k == PK::OUTDBL; }

constexpr int NO_SUCH_FUNCTION = -1000;
extern volatile bool in_api;
constexpr int SKIPPED = -1001;

struct Script {
    std::vector<Op> ops;
    int nvars = 0;

    V newvar() { return V{nvars++}; }
    // Appends a call. Out parameters that are not given get fresh variables; the first is returned.
    V add(const std::string &name, std::vector<Val> args);
    template <class... A> V operator()(const std::string &name, A &&...args) {
        return add(name, std::vector<Val>{mkval(args)...});
    }
    size_t size() const { return ops.size(); }
    std::string text() const;
    static Script parse(const std::string &text);
};
std::string op_text(const Op &o);

struct Slot {
    enum T { Unset, Handle, Int, Dbl } t = Unset;
    void *p = nullptr;
    std::string type;
    int64_t i = 0;
    double d = 0;
};

struct Outcome {
    std::vector<int> rc; // one per op; SKIPPED when an input variable was unset
    std::vector<Slot> vars;
    int failures = 0;    // number of nonzero return codes (including skipped)
    bool ok(size_t i) const { return rc.at(i) == 0; }
};

std::string scratch();                       // this process's scratch directory
std::string subst(const std::string &s);     // replaces $OUT and $REPO
void set_scratch(const std::string &dir);
std::string repo_dir();
std::string error_text(int rc);              // capy_error_message

class CallCtx {
public:
    std::vector<Slot> vars;
    std::vector<std::vector<char>> strs;
    std::vector<std::vector<void *>> ptrs;
    std::vector<std::vector<int32_t>> ints;
    std::vector<std::unique_ptr<int64_t[]>> cells;
    bool exact_strings = false; // strings are passed in exact-size heap blocks
    std::map<int, std::pair<Slot::T, void *>> outs; // slot -> cell of the current call

    Slot &slot(int64_t i) { return vars.at((size_t)i); }
    void *h(const Op &o, int n);
    const char *str(const Op &o, int n);
    int64_t len(const Op &o, int n);
    double *outdbl(const Op &o, int n);
    double *darr(const Op &o, int n);
    int64_t darrlen(const Op &o, int n);
    void **outh(const Op &o, int n);
    void **harr(const Op &o, int n);
    int32_t i32(const Op &o, int n);
    int32_t *outi(const Op &o, int n);
    int32_t *iarr(const Op &o, int n);
    int64_t iarrlen(const Op &o, int n);
    int32_t *iptr(const Op &o, int n);
    double dbl(const Op &o, int n);
    int64_t i64(const Op &o, int n);
    bool inputs_set(const Op &o) const;
    int run(const Op &o); // one op
    void destroy_all();
    ~CallCtx() { destroy_all(); }
};

// Runs a script from start to end and destroys what is left. after(i, rc, ctx) is called after each op.
Outcome execute(const Script &s, const std::function<void(size_t, int, CallCtx &)> &after = {});
std::string read_file(const std::string &path);
void write_file(const std::string &path, const std::string &data);
bool file_exists(const std::string &path);
// Executes and then parses $OUT/<file>. Throws pdf::ParseError.
struct Result {
    Outcome o;
    std::string bytes;
};
Result run_pdf(const Script &s, const std::string &file = "out.pdf");

// --- common script pieces
struct Base {
    Script s;
    V md, gen;
};
} // namespace mc
