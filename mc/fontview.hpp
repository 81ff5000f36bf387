// Embedded fonts, as a viewer and FreeType see them.
#pragma once
#include "view.hpp"
#include <memory>
namespace mc {

// An outline in font units, an advance and a units-per-em.
struct Glyph {
    std::string outline; // canonical text of points, tags and contours
    long advance = 0;
    int box[4] = {0, 0, 0, 0};
    bool operator==(const Glyph &o) const { return outline == o.outline; }
};

// A font file opened with FreeType.
class Face {
public:
    static std::shared_ptr<Face> open(const std::string &path);      // cached
    static std::shared_ptr<Face> memory(std::string bytes);
    static std::shared_ptr<Face> variation(const std::string &path, int instance /* -1 default */, const std::vector<std::pair<std::string, int>> &axes);
    ~Face();
    Face();
    int upem() const;
    int nglyphs() const;
    std::string psname() const;
    std::vector<std::pair<uint32_t, uint32_t>> cmap() const; // codepoint, glyph
    uint32_t gid(uint32_t cp) const;
    bool glyph(uint32_t gid, Glyph &out) const; // false when FreeType can not load it
    bool composite(uint32_t gid) const;
    struct Axis { std::string tag; int lo, def, hi; };
    std::vector<Axis> axes() const;
    int instances() const;
    struct Impl;
    std::unique_ptr<Impl> im;
};

// What is wrong with a bare sfnt file, empty when nothing is.
std::vector<std::string> check_sfnt(const std::string &b);
// What is wrong with a ToUnicode CMap.
std::vector<std::string> check_tounicode(const std::string &cm);

struct EmbeddedFont {
    bool cff = false;
    std::string program, tounicode_text;
    std::shared_ptr<Face> face;
    std::map<int, double> widths;
    double dw = 1000;
    FontView view;
    std::vector<std::string> problems;
};
EmbeddedFont embedded_font(const pdf::Doc &d, const pdf::Obj &font);

// The codes that are drawn by a content stream, in order, with the font that is selected.
struct Drawn { int fontobj; int code; std::string actual; };
std::vector<Drawn> drawn_codes(const pdf::Doc &d, const std::vector<pdf::COp> &ops, const pdf::Obj *resources);
} // namespace mc
