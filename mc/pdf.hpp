// A small, strict and independent reader of PDF files.  It shares no code with the
// library under test; it is the observation function of every model in this directory.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <stdexcept>
#include <functional>
#include <optional>

namespace pdf {

struct ParseError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Obj {
    enum T { Null, Bool, Int, Real, Str, Name, Arr, Dict, Ref, Stream } t = Null;
    bool b = false;
    int64_t i = 0; // Int value, Bool, or object number of a Ref
    int gen = 0;
    double r = 0;
    std::string s; // Str, Name: decoded bytes. Numbers: the lexeme.
    bool hex = false;
    std::vector<Obj> a;
    std::vector<std::pair<std::string, Obj>> d; // Dict and Stream
    std::string data;                           // Stream: raw bytes

    bool isnum() const { return t == Int || t == Real; }
    double num() const { return t == Int ? (double)i : r; }
    bool isdict() const { return t == Dict || t == Stream; }
    const Obj *get(std::string_view key) const {
        for(auto &[k, v] : d)
            if(k == key) return &v;
        return nullptr;
    }
    bool isname(std::string_view n) const { return t == Name && s == n; }
};

struct COp { // one content stream operator with its operands
    std::string op;
    std::vector<Obj> a;
};

class Lexer {
public:
    Lexer(std::string_view buf, size_t pos = 0, size_t end = std::string_view::npos)
        : v(buf), p(pos), e(std::min(end, buf.size())) {}
    std::string_view v;
    size_t p, e;
    std::vector<std::string> *warn = nullptr;

    static bool ws(unsigned char c) {
        return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32;
    }
    static bool delim(unsigned char c) {
        return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '{' ||
               c == '}' || c == '/' || c == '%';
    }
    static bool regular(unsigned char c) { return !ws(c) && !delim(c); }
    bool eof() const { return p >= e; }
    int peek() const { return p < e ? (unsigned char)v[p] : -1; }
    [[noreturn]] void fail(const std::string &m) const {
        throw ParseError(m + " at byte " + std::to_string(p));
    }
    void skipws() {
        while(p < e) {
            if(ws((unsigned char)v[p])) ++p;
            else if(v[p] == '%') {
                while(p < e && v[p] != '\n' && v[p] != '\r') ++p;
            } else break;
        }
    }
    std::string_view word() { // run of regular characters
        size_t s = p;
        while(p < e && regular((unsigned char)v[p])) ++p;
        return v.substr(s, p - s);
    }
    bool accept(std::string_view w) {
        if(v.substr(p, std::min(w.size(), e - p)) == w) {
            p += w.size();
            return true;
        }
        return false;
    }
    void expect(std::string_view w) {
        if(!accept(w)) fail("expected '" + std::string(w) + "'");
    }
    static int hexval(int c) {
        if(c >= '0' && c <= '9') return c - '0';
        if(c >= 'a' && c <= 'f') return c - 'a' + 10;
        if(c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    static bool number_lexeme(std::string_view w, Obj &o) {
        size_t i = 0;
        if(i < w.size() && (w[i] == '+' || w[i] == '-')) ++i;
        size_t nd = 0, dots = 0;
        for(; i < w.size(); ++i) {
            if(w[i] >= '0' && w[i] <= '9') ++nd;
            else if(w[i] == '.') ++dots;
            else return false;
        }
        if(nd == 0 || dots > 1) return false;
        o.s = std::string(w);
        if(dots == 0) {
            if(nd > 18) {
                o.t = Obj::Real;
                o.r = strtod(o.s.c_str(), nullptr);
            } else {
                o.t = Obj::Int;
                o.i = strtoll(o.s.c_str(), nullptr, 10);
            }
        } else {
            o.t = Obj::Real;
            o.r = strtod(o.s.c_str(), nullptr);
        }
        return true;
    }
    Obj literal_string() {
        Obj o;
        o.t = Obj::Str;
        int depth = 1;
        while(true) {
            if(p >= e) fail("unterminated string");
            unsigned char c = v[p++];
            if(c == '\\') {
                if(p >= e) fail("unterminated string");
                unsigned char n = v[p++];
                switch(n) {
                case 'n': o.s += '\n'; break;
                case 'r': o.s += '\r'; break;
                case 't': o.s += '\t'; break;
                case 'b': o.s += '\b'; break;
                case 'f': o.s += '\f'; break;
                case '(': case ')': case '\\': o.s += n; break;
                case '\n': break;
                case '\r': if(p < e && v[p] == '\n') ++p; break;
                default:
                    if(n >= '0' && n <= '7') {
                        int val = n - '0';
                        for(int k = 0; k < 2 && p < e && v[p] >= '0' && v[p] <= '7'; ++k)
                            val = val * 8 + (v[p++] - '0');
                        if(val > 255) fail("octal escape overflow");
                        o.s += (char)val;
                    } else {
                        o.s += n; // spec: ignore the backslash
                    }
                }
            } else if(c == '(') {
                ++depth;
                o.s += '(';
            } else if(c == ')') {
                if(--depth == 0) return o;
                o.s += ')';
            } else if(c == '\r') { // an unescaped end of line marker reads as LF
                if(p < e && v[p] == '\n') ++p;
                o.s += '\n';
            } else o.s += c;
        }
    }
    Obj hex_string() {
        Obj o;
        o.t = Obj::Str;
        o.hex = true;
        int have = -1;
        while(true) {
            if(p >= e) fail("unterminated hex string");
            unsigned char c = v[p++];
            if(c == '>') break;
            if(ws(c)) continue;
            int h = hexval(c);
            if(h < 0) fail("bad character in hex string");
            if(have < 0) have = h;
            else {
                o.s += (char)(have * 16 + h);
                have = -1;
            }
        }
        if(have >= 0) o.s += (char)(have * 16);
        return o;
    }
    Obj name() {
        Obj o;
        o.t = Obj::Name;
        while(p < e && regular((unsigned char)v[p])) {
            unsigned char c = v[p++];
            if(c == '#') {
                int a = p < e ? hexval((unsigned char)v[p]) : -1;
                int b = p + 1 < e ? hexval((unsigned char)v[p + 1]) : -1;
                if(a < 0 || b < 0) fail("bad # escape in name");
                p += 2;
                if(a * 16 + b == 0) fail("null byte in name");
                o.s += (char)(a * 16 + b);
            } else o.s += c;
        }
        return o;
    }
    // Parses one object. allow_refs: "n g R" is an indirect reference.
    Obj object(bool allow_refs = true, int depth = 0) {
        if(depth > 200) fail("nesting too deep");
        skipws();
        if(p >= e) fail("unexpected end of data");
        unsigned char c = v[p];
        if(c == '/') {
            ++p;
            return name();
        }
        if(c == '(') {
            ++p;
            return literal_string();
        }
        if(c == '<') {
            if(p + 1 < e && v[p + 1] == '<') {
                p += 2;
                Obj o;
                o.t = Obj::Dict;
                std::set<std::string> seen;
                while(true) {
                    skipws();
                    if(p >= e) fail("unterminated dictionary");
                    if(v[p] == '>') {
                        expect(">>");
                        return o;
                    }
                    if(v[p] != '/') fail("dictionary key is not a name");
                    ++p;
                    Obj k = name();
                    if(k.s.empty()) fail("empty dictionary key");
                    if(!seen.insert(k.s).second) fail("duplicate dictionary key /" + k.s);
                    skipws();
                    if(peek() == '>' && (p + 1 < e && v[p + 1] == '>'))
                        fail("dictionary key /" + k.s + " has no value");
                    Obj val = object(allow_refs, depth + 1);
                    o.d.emplace_back(std::move(k.s), std::move(val));
                }
            }
            ++p;
            return hex_string();
        }
        if(c == '[') {
            ++p;
            Obj o;
            o.t = Obj::Arr;
            while(true) {
                skipws();
                if(p >= e) fail("unterminated array");
                if(v[p] == ']') {
                    ++p;
                    return o;
                }
                o.a.push_back(object(allow_refs, depth + 1));
            }
        }
        if(delim(c)) fail(std::string("unexpected delimiter ") + (char)c);
        size_t start = p;
        auto w = word();
        Obj o;
        if(number_lexeme(w, o)) {
            if(allow_refs && o.t == Obj::Int && w[0] != '-' && w[0] != '+') {
                // lookahead for "g R"
                size_t save = p;
                size_t q = p;
                while(q < e && ws((unsigned char)v[q])) ++q;
                size_t gs = q;
                while(q < e && v[q] >= '0' && v[q] <= '9') ++q;
                if(q > gs && q - gs < 6) {
                    size_t ge = q;
                    while(q < e && ws((unsigned char)v[q])) ++q;
                    if(q > ge && q < e && v[q] == 'R' && (q + 1 >= e || !regular((unsigned char)v[q + 1]))) {
                        Obj rf;
                        rf.t = Obj::Ref;
                        rf.i = o.i;
                        rf.gen = atoi(std::string(v.substr(gs, ge - gs)).c_str());
                        p = q + 1;
                        return rf;
                    }
                }
                p = save;
            }
            return o;
        }
        if(w == "true" || w == "false") {
            o.t = Obj::Bool;
            o.b = w == "true";
            return o;
        }
        if(w == "null") return o;
        p = start;
        fail("unknown token '" + std::string(w.substr(0, 40)) + "'");
    }
};

std::string inflate(std::string_view in); // throws ParseError
std::vector<COp> parse_content(std::string_view s);

struct Doc {
    std::string raw;
    std::string version;               // from the header
    std::map<int, Obj> objs;           // every in-use object
    std::set<int> compressed;          // those that live in object streams
    Obj trailer;
    bool xref_is_stream = false;

    // Parses the whole file strictly; throws ParseError on the first problem.
    static Doc parse(std::string bytes);

    const Obj &deref(const Obj &o) const;
    const Obj *dget(const Obj &dict, std::string_view key) const; // deref'd dictionary lookup, or null
    const Obj &need(const Obj &dict, std::string_view key) const; // same, throws when absent
    const Obj &root() const { return need(trailer, "Root"); }
    std::vector<int> pages() const;                               // page object numbers, in order
    const Obj *inherited(int pagenum, std::string_view key) const;
    std::string stream_data(const Obj &st) const;                 // decoded
    std::vector<COp> page_ops(int page) const;
    std::string canon(bool drop_volatile = true) const;           // canonical text of the reachable graph
    std::string canon_obj(const Obj &o) const;                    // canonical text of one object, refs expanded
};

std::string show(const Obj &o, int depth = 4);
// Decodes a PDF text string to UTF-8, or nullopt if it is not a valid one.
std::optional<std::string> text_string(const Obj &o);
uint64_t hash(std::string_view s);

} // namespace pdf
