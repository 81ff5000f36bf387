#include "view.hpp"
#include <cmath>
namespace mc {
using namespace pdf;

std::string utf8(uint32_t c) {
    std::string r;
    if(c < 0x80) r += (char)c;
    else if(c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
std::string utf16_to_utf8(const std::string &b, bool bom) {
    size_t i = 0;
    if(bom) {
        if(b.substr(0, 2) != "\xfe\xff") throw ParseError("missing BOM");
        i = 2;
    }
    if((b.size() - i) % 2) throw ParseError("odd UTF-16 length");
    std::string r;
    for(; i < b.size(); i += 2) {
        uint32_t u = (unsigned char)b[i] << 8 | (unsigned char)b[i + 1];
        if(u >= 0xd800 && u < 0xdc00) {
            if(i + 3 >= b.size()) throw ParseError("truncated surrogate pair");
            uint32_t v = (unsigned char)b[i + 2] << 8 | (unsigned char)b[i + 3];
            if(v < 0xdc00 || v > 0xdfff) throw ParseError("bad surrogate pair");
            u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
            i += 2;
        } else if(u >= 0xdc00 && u < 0xe000) throw ParseError("stray surrogate");
        r += utf8(u);
    }
    return r;
}

static std::string numtext(double d) {
    char b[400];
    snprintf(b, sizeof b, "%.6f", d);
    std::string s = b;
    while(s.find('.') != std::string::npos && (s.back() == '0' || s.back() == '.')) {
        bool dot = s.back() == '.';
        s.pop_back();
        if(dot) break;
    }
    return s == "-0" ? "0" : s;
}
std::string show(const XOp &x) {
    std::string r;
    for(auto &a : x.a) r += (a.num ? numtext(a.d) : "{" + a.s + "}") + " ";
    return r + x.op;
}
std::string show(const std::vector<XOp> &x) {
    std::string r;
    for(auto &o : x) r += show(o) + "; ";
    return r;
}
bool close(double got, double want) { return std::fabs(got - want) <= 5.1e-7 + std::fabs(want) * 1e-12; }

std::string diff(const std::vector<XOp> &g, const std::vector<XOp> &w) {
    for(size_t i = 0; i < std::max(g.size(), w.size()); ++i) {
        if(i >= g.size()) return "operator " + std::to_string(i) + " missing: expected " + show(w[i]);
        if(i >= w.size()) return "unexpected operator " + std::to_string(i) + ": " + show(g[i]);
        bool same = g[i].op == w[i].op && g[i].a.size() == w[i].a.size();
        for(size_t k = 0; same && k < g[i].a.size(); ++k) {
            auto &a = g[i].a[k], &b = w[i].a[k];
            same = a.num == b.num && (a.num ? close(a.d, b.d) : a.s == b.s);
        }
        if(!same) return "operator " + std::to_string(i) + " is '" + show(g[i]) + "', expected '" + show(w[i]) + "'";
    }
    return "";
}

static std::string n(const Obj *o) { return o && o->isnum() ? numtext(o->num()) : "?"; }
static std::string numarr(const Doc &d, const Obj *o) {
    std::string r;
    if(!o || o->t != Obj::Arr) return "?";
    for(auto &x : o->a) r += (r.empty() ? "" : ",") + n(&d.deref(x));
    return r;
}

std::string label(const Doc &d, const Obj &o) {
    if(o.t == Obj::Arr) {
        auto &h = d.deref(o.a.at(0));
        if(h.isname("ICCBased")) return "icc" + n(d.dget(d.deref(o.a.at(1)), "N")) + ":" + std::to_string(hash(d.stream_data(d.deref(o.a.at(1)))) % 100000);
        if(h.isname("Separation")) return "sep " + d.deref(o.a.at(1)).s;
        if(h.isname("Lab")) return "lab " + numarr(d, d.dget(d.deref(o.a.at(1)), "WhitePoint"));
        return "array " + h.s;
    }
    if(o.t == Obj::Name) return o.s;
    if(!o.isdict()) return "?";
    auto type = d.dget(o, "Type"), sub = d.dget(o, "Subtype");
    if(type && type->isname("Font")) return "font " + font_view(d, o).name;
    if(type && type->isname("OCG")) return "ocg " + text_string(d.need(o, "Name")).value_or("?");
    if(type && type->isname("ExtGState")) return "gs " + n(d.dget(o, "CA"));
    if(type && type->isname("Pattern")) {
        if(d.need(o, "PatternType").i == 2) return "shpattern " + label(d, d.need(o, "Shading"));
        return "tiling " + numarr(d, d.dget(o, "BBox"));
    }
    if(sub && sub->isname("Image")) return "image " + n(d.dget(o, "Width")) + "x" + n(d.dget(o, "Height"));
    if(sub && sub->isname("Form")) return (d.dget(o, "Group") ? "group " : "form ") + numarr(d, d.dget(o, "BBox"));
    if(auto st = d.dget(o, "ShadingType")) {
        if(auto c = d.dget(o, "Coords")) return "shading" + n(st) + " " + numarr(d, c);
        return "shading" + n(st) + " " + numarr(d, d.dget(o, "Decode"));
    }
    return "dict";
}
std::string label_ref(const Doc &d, const Obj *o) { return o ? label(d, d.deref(*o)) : "none"; }

FontView font_view(const Doc &d, const Obj &font) {
    FontView f;
    f.name = d.need(font, "BaseFont").s;
    auto plus = f.name.find('+');
    if(plus != std::string::npos) f.name = f.name.substr(plus + 1);
    auto *tu = d.dget(font, "ToUnicode");
    if(!tu) return f;
    std::string cm = d.stream_data(*tu);
    // bfchar sections: <code> <utf16>
    size_t p = 0;
    while((p = cm.find("beginbfchar", p)) != std::string::npos) {
        p += 11;
        size_t e = cm.find("endbfchar", p);
        if(e == std::string::npos) throw ParseError("unterminated bfchar");
        Lexer lx(cm, p, e);
        while(true) {
            lx.skipws();
            if(lx.eof()) break;
            Obj a = lx.object(false), b = lx.object(false);
            int code = 0;
            for(unsigned char c : a.s) code = code << 8 | c;
            f.tounicode[code] = utf16_to_utf8(b.s);
        }
        p = e;
    }
    p = 0;
    while((p = cm.find("beginbfrange", p)) != std::string::npos) {
        p += 12;
        size_t e = cm.find("endbfrange", p);
        if(e == std::string::npos) throw ParseError("unterminated bfrange");
        Lexer lx(cm, p, e);
        while(true) {
            lx.skipws();
            if(lx.eof()) break;
            Obj a = lx.object(false), b = lx.object(false), c = lx.object(false);
            auto val = [](const Obj &o) { int v = 0; for(unsigned char ch : o.s) v = v << 8 | ch; return v; };
            for(int k = val(a); k <= val(b); ++k) {
                if(c.t == Obj::Arr) f.tounicode[k] = utf16_to_utf8(c.a.at((size_t)(k - val(a))).s);
                else {
                    std::string s = c.s;
                    if(s.empty()) throw ParseError("empty bfrange target");
                    s.back() = (char)(s.back() + (k - val(a)));
                    f.tounicode[k] = utf16_to_utf8(s);
                }
            }
        }
        p = e;
    }
    return f;
}

// a property list: sorted key=value pairs
static std::string proplist(const Doc &d, const Obj &o) {
    std::map<std::string, std::string> m;
    for(auto &[k, v] : o.d) {
        auto &x = d.deref(v);
        m[k] = x.isnum() ? numtext(x.num()) : x.t == Obj::Str ? text_string(x).value_or("?") : x.t == Obj::Name ? "/" + x.s : d.canon_obj(x);
    }
    std::string r = "<<";
    for(auto &[k, v] : m) r += (r.size() > 2 ? ";" : "") + k + "=" + v;
    return r + ">>";
}
static const Obj *find_res(const Doc &d, const Obj *res, const char *cat, const std::string &name) {
    if(!res) return nullptr;
    auto *c = d.dget(*res, cat);
    if(!c) return nullptr;
    return c->get(name);
}
static std::string lookup(const Doc &d, const Obj *res, const char *cat, const std::string &name) {
    auto *o = find_res(d, res, cat, name);
    if(!o) throw ParseError("resource /" + name + " is not in /" + cat);
    return label(d, d.deref(*o));
}

std::vector<XOp> view_ops(const Doc &d, const std::vector<COp> &ops, const Obj *res) {
    std::vector<XOp> r;
    const Obj *font = nullptr;
    std::vector<const Obj *> saved;
    std::map<const Obj *, FontView> cache;
    auto text = [&](const Obj &s) {
        if(!font) throw ParseError("text without a font");
        auto it = cache.find(font);
        if(it == cache.end()) it = cache.emplace(font, font_view(d, *font)).first;
        auto &fv = it->second;
        std::string out;
        if(s.s.size() % 2) throw ParseError("odd glyph string length");
        for(size_t i = 0; i < s.s.size(); i += 2) {
            int code = (unsigned char)s.s[i] << 8 | (unsigned char)s.s[i + 1];
            auto k = fv.tounicode.find(code);
            out += k == fv.tounicode.end() ? "<" + std::to_string(code) + ">" : k->second;
        }
        return out;
    };
    for(auto &o : ops) {
        XOp x{o.op, {}};
        auto &op = o.op;
        for(size_t i = 0; i < o.a.size(); ++i) {
            auto &v = o.a[i];
            if(v.isnum()) x.a.push_back(A(v.num()));
            else if(v.t == Obj::Name) {
                bool last = i + 1 == o.a.size();
                if(op == "Do") x.a.push_back(A(lookup(d, res, "XObject", v.s)));
                else if(op == "gs") x.a.push_back(A(lookup(d, res, "ExtGState", v.s)));
                else if(op == "sh") x.a.push_back(A(lookup(d, res, "Shading", v.s)));
                else if((op == "cs" || op == "CS") && v.s != "Pattern" && v.s.rfind("Device", 0) != 0) x.a.push_back(A(lookup(d, res, "ColorSpace", v.s)));
                else if((op == "scn" || op == "SCN")) x.a.push_back(A(lookup(d, res, "Pattern", v.s)));
                else if(op == "Tf") {
                    auto *f = find_res(d, res, "Font", v.s);
                    if(!f) throw ParseError("font /" + v.s + " is not a resource");
                    font = &d.deref(*f);
                    x.a.push_back(A(label(d, *font)));
                } else if((op == "BDC" || op == "DP") && last) x.a.push_back(A(lookup(d, res, "Properties", v.s)));
                else x.a.push_back(A("/" + v.s));
            } else if(v.t == Obj::Str && (op == "Tj" || op == "'")) x.a.push_back(A(text(v)));
            else if(v.t == Obj::Arr) {
                // adjacent strings of a TJ array merge: how they are split does not matter
                std::string acc;
                for(auto &e : v.a) {
                    if(e.isnum()) acc += "|" + numtext(e.num()) + "|";
                    else if(op == "TJ") acc += text(e);
                    else acc += d.canon_obj(e);
                }
                x.a.push_back(A("[" + acc + "]"));
            } else if(v.t == Obj::Dict) x.a.push_back(A(proplist(d, v)));
            else x.a.push_back(A(d.canon_obj(v)));
        }
        if(op == "q") saved.push_back(font);
        if(op == "Q" && !saved.empty()) { font = saved.back(); saved.pop_back(); }
        r.push_back(std::move(x));
    }
    return r;
}
std::vector<XOp> view_page(const Doc &d, int page) {
    auto *res = d.inherited(page, "Resources");
    return view_ops(d, d.page_ops(page), res ? &d.deref(*res) : nullptr);
}
std::vector<XOp> view_stream(const Doc &d, const Obj &x) {
    return view_ops(d, parse_content(d.stream_data(x)), d.dget(x, "Resources"));
}
} // namespace mc
