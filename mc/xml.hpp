// A strict reader of the XML that metadata streams contain: well-formedness, namespaces, elements, text.
#pragma once
#include <map>
#include <string>
#include <string_view>
#include <stdexcept>
#include <vector>
namespace xml {
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
struct Node {
    std::string ns, name, text; // text: all character data directly inside
    std::map<std::string, std::string> attr; // "{namespace}name" or "name"
    std::vector<Node> kids;
    const Node *child(std::string_view n, std::string_view nm) const {
        for(auto &k : kids) if(k.ns == n && k.name == nm) return &k;
        return nullptr;
    }
};
class Reader {
    std::string_view s;
    size_t p = 0;
    [[noreturn]] void fail(const std::string &m) { throw Error(m + " at offset " + std::to_string(p)); }
    bool at(std::string_view t) { return s.substr(p, t.size()) == t; }
    void ws() { while(p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p; }
    uint32_t ch() { // one UTF-8 character that XML permits
        unsigned char c = (unsigned char)s[p];
        int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
        if(n < 0 || p + (size_t)n >= s.size()) fail("bad UTF-8");
        uint32_t v = n == 0 ? c : c & (0x3F >> n);
        for(int i = 1; i <= n; ++i) {
            unsigned char d = (unsigned char)s[p + (size_t)i];
            if((d & 0xC0) != 0x80) fail("bad UTF-8");
            v = v << 6 | (d & 0x3F);
        }
        if((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || (v >= 0xD800 && v < 0xE000) || v > 0x10FFFF) fail("bad UTF-8");
        if((v < 0x20 && v != 9 && v != 10 && v != 13) || v == 0xFFFE || v == 0xFFFF) fail("a character that XML does not permit");
        p += (size_t)n + 1;
        return v;
    }
    static void put(std::string &o, uint32_t v) {
        if(v < 0x80) o += (char)v;
        else if(v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); }
        else if(v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
        else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
    }
    std::string name() {
        size_t b = p;
        auto start = [](unsigned char c) { return isalpha(c) || c == '_' || c >= 0x80; };
        if(p >= s.size() || !start((unsigned char)s[p])) fail("a name is expected");
        while(p < s.size() && (start((unsigned char)s[p]) || isdigit((unsigned char)s[p]) || s[p] == '-' || s[p] == '.' || s[p] == ':')) ++p;
        return std::string(s.substr(b, p - b));
    }
    void reference(std::string &o) {
        size_t e = s.find(';', p);
        if(e == std::string_view::npos || e - p > 10) fail("bad entity");
        auto n = s.substr(p + 1, e - p - 1);
        if(n == "amp") o += '&';
        else if(n == "lt") o += '<';
        else if(n == "gt") o += '>';
        else if(n == "quot") o += '"';
        else if(n == "apos") o += '\'';
        else if(n.size() > 1 && n[0] == '#') {
            uint32_t v = (uint32_t)strtoul(std::string(n.substr(n[1] == 'x' ? 2 : 1)).c_str(), nullptr, n[1] == 'x' ? 16 : 10);
            if((v < 0x20 && v != 9 && v != 10 && v != 13) || v > 0x10FFFF) fail("a character that XML does not permit");
            put(o, v);
        } else fail("unknown entity");
        p = e + 1;
    }
    void misc() { // comments and processing instructions
        for(;;) {
            ws();
            if(at("<!--")) {
                size_t e = s.find("--", p + 4);
                if(e == std::string_view::npos || s.substr(e, 3) != "-->") fail("bad comment");
                p = e + 3;
            } else if(at("<?")) {
                size_t e = s.find("?>", p);
                if(e == std::string_view::npos) fail("bad processing instruction");
                while(p < e) ch();
                p = e + 2;
            } else return;
        }
    }
    std::string resolve(const std::string &q, const std::map<std::string, std::string> &ns, bool attr, std::string &local) {
        auto c = q.find(':');
        if(c == std::string::npos) {
            local = q;
            auto i = ns.find("");
            return attr || i == ns.end() ? "" : i->second;
        }
        local = q.substr(c + 1);
        auto pre = q.substr(0, c);
        if(pre == "xml") return "xml";
        auto i = ns.find(pre);
        if(i == ns.end() || local.empty() || local.find(':') != std::string::npos) fail("undeclared prefix " + pre);
        return i->second;
    }
    Node element(std::map<std::string, std::string> ns, int depth) {
        if(depth > 50) fail("too deep");
        ++p;
        auto q = name();
        std::vector<std::pair<std::string, std::string>> at_;
        for(;;) {
            size_t b = p;
            ws();
            if(at(">") || at("/>")) break;
            if(b == p) fail("white space is expected");
            auto an = name();
            ws();
            if(!at("=")) fail("= is expected");
            ++p;
            ws();
            if(!at("\"") && !at("'")) fail("a quote is expected");
            char qc = s[p++];
            std::string v;
            for(;;) {
                if(p >= s.size()) fail("unterminated attribute");
                if(s[p] == qc) { ++p; break; }
                if(s[p] == '<') fail("< in an attribute");
                if(s[p] == '&') reference(v);
                else put(v, ch());
            }
            for(auto &x : at_) if(x.first == an) fail("attribute given twice");
            at_.push_back({an, v});
        }
        for(auto &[k, v] : at_) {
            if(k == "xmlns") ns[""] = v;
            else if(k.rfind("xmlns:", 0) == 0) ns[k.substr(6)] = v;
        }
        Node n;
        n.ns = resolve(q, ns, false, n.name);
        for(auto &[k, v] : at_) {
            if(k == "xmlns" || k.rfind("xmlns:", 0) == 0) continue;
            std::string l;
            auto u = resolve(k, ns, true, l);
            n.attr[u.empty() ? l : "{" + u + "}" + l] = v;
        }
        if(at("/>")) { p += 2; return n; }
        ++p;
        for(;;) {
            if(p >= s.size()) fail("unterminated element " + q);
            if(at("</")) {
                p += 2;
                if(name() != q) fail("wrong end tag");
                ws();
                if(!at(">")) fail("> is expected");
                ++p;
                return n;
            }
            if(at("<!--") || at("<?")) {
                size_t b = p;
                misc();
                if(p == b) fail("bad markup");
            } else if(at("<![CDATA[")) {
                size_t e = s.find("]]>", p);
                if(e == std::string_view::npos) fail("bad CDATA");
                n.text += s.substr(p + 9, e - p - 9);
                p = e + 3;
            } else if(at("<")) n.kids.push_back(element(ns, depth + 1));
            else if(at("&")) reference(n.text);
            else if(at("]]>")) fail("]]> in text");
            else if(s[p] == '\r') { // line ends are normalised
                ++p;
                if(!at("\n")) n.text += '\n';
            } else put(n.text, ch());
        }
    }
public:
    explicit Reader(std::string_view d) : s(d) {}
    Node document() {
        misc();
        if(!at("<")) fail("an element is expected");
        auto n = element({}, 0);
        misc();
        if(p != s.size()) fail("there is something after the element");
        return n;
    }
};
inline Node parse(std::string_view s) { return Reader(s).document(); }
} // namespace xml
