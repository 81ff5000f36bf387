#include "fontview.hpp"
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_MULTIPLE_MASTERS_H
#include FT_OUTLINE_H
#include <cmath>
namespace mc {
using namespace pdf;

static FT_Library lib() {
    static FT_Library l = [] { FT_Library x; FT_Init_FreeType(&x); return x; }();
    return l;
}
struct Face::Impl {
    FT_Face f = nullptr;
    std::string bytes;
};
Face::Face() : im(new Impl) {}
Face::~Face() { if(im->f) FT_Done_Face(im->f); }

std::shared_ptr<Face> Face::memory(std::string bytes) {
    auto r = std::make_shared<Face>();
    r->im->bytes = std::move(bytes);
    if(FT_New_Memory_Face(lib(), (const FT_Byte *)r->im->bytes.data(), (FT_Long)r->im->bytes.size(), 0, &r->im->f)) return nullptr;
    return r;
}
std::shared_ptr<Face> Face::open(const std::string &path) {
    static std::map<std::string, std::shared_ptr<Face>> cache;
    auto &c = cache[path];
    if(!c) c = memory(read_file(path));
    return c;
}
std::shared_ptr<Face> Face::variation(const std::string &path, int instance, const std::vector<std::pair<std::string, int>> &axes) {
    auto f = memory(read_file(path));
    if(!f) return f;
    FT_MM_Var *mm;
    if(FT_Get_MM_Var(f->im->f, &mm)) return nullptr;
    FT_UInt def = 0;
    FT_Get_Default_Named_Instance(f->im->f, &def);
    FT_Set_Named_Instance(f->im->f, instance < 0 ? def : (FT_UInt)instance);
    std::vector<FT_Fixed> c(mm->num_axis);
    FT_Get_Var_Design_Coordinates(f->im->f, mm->num_axis, c.data());
    for(auto &[k, v] : axes)
        for(FT_UInt i = 0; i < mm->num_axis; ++i) {
            auto t = mm->axis[i].tag;
            const char tag[5] = {(char)(t >> 24), (char)(t >> 16), (char)(t >> 8), (char)t, 0};
            if(k == tag) c[i] = (FT_Fixed)v * 65536;
        }
    FT_Set_Var_Design_Coordinates(f->im->f, mm->num_axis, c.data());
    FT_Done_MM_Var(lib(), mm);
    return f;
}
std::vector<Face::Axis> Face::axes() const {
    std::vector<Axis> r;
    FT_MM_Var *mm;
    if(FT_Get_MM_Var(im->f, &mm)) return r;
    for(FT_UInt i = 0; i < mm->num_axis; ++i) {
        auto t = mm->axis[i].tag;
        const char tag[5] = {(char)(t >> 24), (char)(t >> 16), (char)(t >> 8), (char)t, 0};
        r.push_back({tag, (int)(mm->axis[i].minimum >> 16), (int)(mm->axis[i].def >> 16), (int)(mm->axis[i].maximum >> 16)});
    }
    FT_Done_MM_Var(lib(), mm);
    return r;
}
int Face::instances() const {
    FT_MM_Var *mm;
    if(FT_Get_MM_Var(im->f, &mm)) return 0;
    int n = (int)mm->num_namedstyles;
    FT_Done_MM_Var(lib(), mm);
    return n;
}
int Face::upem() const { return im->f->units_per_EM; }
int Face::nglyphs() const { return (int)im->f->num_glyphs; }
std::string Face::psname() const { auto n = FT_Get_Postscript_Name(im->f); return n ? n : ""; }
uint32_t Face::gid(uint32_t cp) const { return FT_Get_Char_Index(im->f, cp); }
std::vector<std::pair<uint32_t, uint32_t>> Face::cmap() const {
    std::vector<std::pair<uint32_t, uint32_t>> r;
    FT_UInt g;
    for(auto c = FT_Get_First_Char(im->f, &g); g; c = FT_Get_Next_Char(im->f, c, &g)) r.emplace_back((uint32_t)c, g);
    return r;
}
bool Face::composite(uint32_t gid) const {
    return FT_Load_Glyph(im->f, gid, FT_LOAD_NO_SCALE | FT_LOAD_NO_RECURSE) == 0 && im->f->glyph->format == FT_GLYPH_FORMAT_COMPOSITE;
}
bool Face::glyph(uint32_t gid, Glyph &o) const {
    if(FT_Load_Glyph(im->f, gid, FT_LOAD_NO_SCALE | FT_LOAD_NO_BITMAP | FT_LOAD_NO_HINTING)) return false;
    auto &ol = im->f->glyph->outline;
    o.outline.clear();
    for(int i = 0; i < ol.n_points; ++i)
        o.outline += std::to_string(ol.points[i].x) + "," + std::to_string(ol.points[i].y) + "," + std::to_string(ol.tags[i] & 3) + " ";
    for(int i = 0; i < ol.n_contours; ++i) o.outline += "|" + std::to_string(ol.contours[i]);
    o.advance = im->f->glyph->metrics.horiAdvance;
    for(int i = 0; i < ol.n_points; ++i) {
        int x = (int)ol.points[i].x, y = (int)ol.points[i].y;
        if(i == 0 || x < o.box[0]) o.box[0] = x;
        if(i == 0 || y < o.box[1]) o.box[1] = y;
        if(i == 0 || x > o.box[2]) o.box[2] = x;
        if(i == 0 || y > o.box[3]) o.box[3] = y;
    }
    return true;
}

// --- independent sfnt validation
static uint32_t u32(const std::string &b, size_t p) {
    if(p + 4 > b.size()) throw ParseError("sfnt: read past the end");
    return (uint32_t)(unsigned char)b[p] << 24 | (unsigned char)b[p + 1] << 16 | (unsigned char)b[p + 2] << 8 | (unsigned char)b[p + 3];
}
static uint16_t u16(const std::string &b, size_t p) {
    if(p + 2 > b.size()) throw ParseError("sfnt: read past the end");
    return (uint16_t)((unsigned char)b[p] << 8 | (unsigned char)b[p + 1]);
}
static uint32_t checksum(const std::string &b, size_t p, size_t n) {
    uint32_t s = 0;
    for(size_t i = 0; i < n; i += 4) {
        uint32_t w = 0;
        for(size_t k = 0; k < 4; ++k) w = w << 8 | (i + k < n ? (unsigned char)b[p + i + k] : 0);
        s += w;
    }
    return s;
}
std::vector<std::string> check_sfnt(const std::string &b) {
    std::vector<std::string> r;
    try {
        if(u32(b, 0) != 0x10000) r.push_back("sfnt version");
        int n = u16(b, 4);
        int p2 = 1, l = 0;
        while(p2 * 2 <= n) { p2 *= 2; ++l; }
        if(u16(b, 6) != 16 * p2 || u16(b, 8) != l || u16(b, 10) != 16 * n - 16 * p2) r.push_back("table directory search fields");
        std::map<std::string, std::pair<size_t, size_t>> t;
        std::vector<std::pair<size_t, size_t>> ext;
        std::string prev;
        for(int i = 0; i < n; ++i) {
            size_t e = 12 + 16 * (size_t)i;
            std::string tag = b.substr(e, 4);
            size_t off = u32(b, e + 8), len = u32(b, e + 12);
            if(off + len > b.size()) { r.push_back("table " + tag + " is outside the file"); return r; }
            if(off % 4) r.push_back("table is not aligned");
            if(tag <= prev) r.push_back("table directory is not sorted");
            prev = tag;
            auto sum = checksum(b, off, len);
            if(tag == "head" && len >= 12) sum -= u32(b, off + 8);
            if(sum != u32(b, e + 4)) r.push_back("checksum of table " + tag);
            t[tag] = {off, len};
            ext.emplace_back(off, len);
        }
        std::sort(ext.begin(), ext.end());
        for(size_t i = 1; i < ext.size(); ++i)
            if(ext[i - 1].first + ext[i - 1].second > ext[i].first) r.push_back("tables overlap");
        for(auto k : {"head", "hhea", "maxp", "glyf", "loca", "hmtx"})
            if(!t.count(k)) { r.push_back(std::string("no table ") + k); return r; }
        if(checksum(b, 0, b.size()) != 0xB1B0AFBA) r.push_back("checksum of the file");
        auto [ho, hl] = t["head"];
        if(hl != 54) r.push_back("length of head");
        if(u32(b, ho + 12) != 0x5f0f3cf5) r.push_back("magic of head");
        int locfmt = u16(b, ho + 50);
        if(t["hhea"].second != 36) r.push_back("length of hhea");
        auto [mo, ml] = t["maxp"];
        auto mv = u32(b, mo);
        if(!(mv == 0x10000 && ml == 32)) r.push_back("maxp does not have version 1 and 32 bytes");
        size_t ng = u16(b, mo + 4);
        size_t nm = u16(b, t["hhea"].first + 34);
        if(nm < 1 || nm > ng) r.push_back("number of horizontal metrics");
        if(t["hmtx"].second != nm * 4 + (ng - nm) * 2) r.push_back("length of hmtx");
        auto [lo, ll] = t["loca"];
        if(ll != (ng + 1) * (locfmt ? 4u : 2u)) r.push_back("length of loca");
        auto [go, gl] = t["glyf"];
        size_t prevo = 0;
        for(size_t i = 0; i <= ng; ++i) {
            size_t o = locfmt ? u32(b, lo + 4 * i) : 2u * u16(b, lo + 2 * i);
            if(o < prevo || o > gl) { r.push_back("loca entry"); break; }
            if(i && o > prevo) { // glyph i - 1
                size_t g = go + prevo, len = o - prevo;
                if(len < 10) r.push_back("glyph shorter than its header");
                else {
                    int nc = (int16_t)u16(b, g);
                    if(nc < 0) { // composite
                        size_t q = 10;
                        while(true) {
                            if(q + 4 > len) { r.push_back("truncated composite glyph"); break; }
                            int fl = u16(b, g + q), gi = u16(b, g + q + 2);
                            if((size_t)gi >= ng) r.push_back("component outside the font");
                            q += 4 + (fl & 1 ? 4 : 2) + (fl & 8 ? 2 : fl & 0x40 ? 4 : fl & 0x80 ? 8 : 0);
                            if(!(fl & 0x20)) break;
                        }
                    }
                }
            }
            prevo = o;
        }
        if(t.count("cmap")) {
            auto [co, cl] = t["cmap"];
            int nt = u16(b, co + 2);
            for(int i = 0; i < nt; ++i) {
                size_t so = u32(b, co + 4 + 8 * (size_t)i + 4);
                if(so + 4 > cl) { r.push_back("cmap subtable offset"); continue; }
                if(u16(b, co + so) == 6) {
                    size_t len = u16(b, co + so + 2), cnt = u16(b, co + so + 8), first = u16(b, co + so + 6);
                    if(len != 10 + 2 * cnt || so + len > cl) r.push_back("cmap subtable length");
                    else
                        for(size_t k = 0; k < cnt; ++k)
                            if(u16(b, co + so + 10 + 2 * k) != first + k) { r.push_back("cmap does not map codes to glyphs"); break; }
                }
            }
        }
    } catch(ParseError &e) { r.push_back(e.what()); }
    return r;
}

std::vector<std::string> check_tounicode(const std::string &cm) {
    std::vector<std::string> r;
    size_t p = 0;
    for(auto k : {"begincmap", "endcmap", "begincodespacerange", "/CMapName", "/CMapType 2 def"})
        if(cm.find(k) == std::string::npos) r.push_back(std::string("CMap without ") + k);
    while((p = cm.find("beginbfchar", p)) != std::string::npos) {
        size_t q = cm.find_last_not_of(" \n", p - 1);
        size_t s = q;
        while(s > 0 && isdigit((unsigned char)cm[s - 1])) --s;
        int n = atoi(cm.substr(s, q - s + 1).c_str());
        size_t e = cm.find("endbfchar", p);
        if(e == std::string::npos) { r.push_back("unterminated bfchar"); break; }
        int have = 0;
        Lexer lx(cm, p + 11, e);
        try {
            while(true) {
                lx.skipws();
                if(lx.eof()) break;
                Obj a = lx.object(false), b = lx.object(false);
                if(a.t != Obj::Str || a.s.size() != 2 || b.t != Obj::Str || b.s.empty() || b.s.size() % 2) r.push_back("malformed bfchar entry");
                ++have;
            }
        } catch(ParseError &x) { r.push_back(x.what()); }
        if(have != n) r.push_back("bfchar count is wrong");
        if(n > 100) r.push_back("more than 100 entries in one bfchar section");
        if(n < 1) r.push_back("empty bfchar section");
        p = e;
    }
    return r;
}

EmbeddedFont embedded_font(const Doc &d, const Obj &font) {
    EmbeddedFont f;
    auto bad = [&](const std::string &s) { f.problems.push_back(s); };
    f.view = font_view(d, font);
    if(auto *tu = d.dget(font, "ToUnicode")) f.tounicode_text = d.stream_data(*tu);
    for(auto &x : check_tounicode(f.tounicode_text)) bad("ToUnicode: " + x);
    if(!d.need(font, "Encoding").isname("Identity-H")) bad("encoding");
    auto &df = d.need(font, "DescendantFonts");
    if(df.a.size() != 1) bad("descendant fonts");
    auto &cid = d.deref(df.a.at(0));
    auto &fd = d.need(cid, "FontDescriptor");
    for(auto o : {&font, &cid})
        if(d.need(*o, "BaseFont").s != d.need(font, "BaseFont").s) bad("BaseFont differs");
    if(d.need(fd, "FontName").s != d.need(font, "BaseFont").s) bad("FontName differs");
    auto st = d.need(cid, "Subtype").s;
    f.cff = st == "CIDFontType0";
    auto &ff = d.need(fd, "FontFile3");
    auto fst = d.need(ff, "Subtype").s;
    if(f.cff ? fst != "CIDFontType0C" : fst != "OpenType") bad("font program subtype " + fst);
    if(!f.cff && !d.need(cid, "CIDToGIDMap").isname("Identity")) bad("CIDToGIDMap");
    f.program = d.stream_data(ff);
    if(auto dw = d.dget(cid, "DW")) f.dw = dw->num();
    if(auto w = d.dget(cid, "W"))
        for(size_t i = 0; i < w->a.size();) {
            int c = (int)d.deref(w->a[i]).i;
            auto &n = d.deref(w->a.at(i + 1));
            if(n.t == Obj::Arr) {
                for(size_t k = 0; k < n.a.size(); ++k) f.widths[c + (int)k] = n.a[k].num();
                i += 2;
            } else {
                for(int k = c; k <= (int)n.i; ++k) f.widths[k] = d.deref(w->a.at(i + 2)).num();
                i += 3;
            }
        }
    f.face = Face::memory(f.program);
    if(!f.face) bad("FreeType can not open the embedded font");
    if(!f.cff)
        for(auto &x : check_sfnt(f.program)) bad("font program: " + x);
    return f;
}

std::vector<Drawn> drawn_codes(const Doc &d, const std::vector<COp> &ops, const Obj *res) {
    std::vector<Drawn> r;
    int font = -1;
    std::vector<int> saved;
    std::vector<std::string> actual;
    auto codes = [&](const Obj &s) {
        if(s.s.size() % 2) throw ParseError("odd number of bytes in a string drawn with a composite font");
        for(size_t i = 0; i < s.s.size(); i += 2)
            r.push_back({font, (unsigned char)s.s[i] << 8 | (unsigned char)s.s[i + 1], actual.empty() ? "" : actual.back()});
    };
    for(auto &o : ops) {
        if(o.op == "q") saved.push_back(font);
        else if(o.op == "Q") { font = saved.at(saved.size() - 1); saved.pop_back(); }
        else if(o.op == "Tf") {
            auto fonts = res ? d.dget(*res, "Font") : nullptr;
            auto f = fonts ? fonts->get(o.a.at(0).s) : nullptr;
            if(!f || f->t != Obj::Ref) throw ParseError("font resource");
            font = (int)f->i;
        } else if(o.op == "Tj") codes(o.a.at(0));
        else if(o.op == "TJ") {
            for(auto &x : o.a.at(0).a)
                if(x.t == Obj::Str) codes(x);
        } else if(o.op == "BDC") {
            std::string a;
            if(o.a.size() == 2 && o.a[1].isdict())
                if(auto t = o.a[1].get("ActualText")) a = pdf::text_string(*t).value_or("?");
            actual.push_back(a);
        } else if(o.op == "BMC") actual.push_back("");
        else if(o.op == "EMC") actual.pop_back();
    }
    return r;
}
} // namespace mc
