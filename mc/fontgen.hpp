// Small synthetic fonts, so that every structural variant of the font formats is exercised.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace mc {
struct CffSpec {
    bool cid = true;
    int nfd = 1;
    int fdselect = 3;      // format
    int charset = 0;       // format 0, 1 or 2
    int strings = 31;      // bits: Notice FullName FamilyName Weight FontBBox
    bool cidversion = true, cidcount = true;
    int upem = 1000;       // other than 1000: a FontMatrix is written
    int subrs = 1;         // 0 none 1 local 2 local and global 3 local, Subrs is not the last operator
    bool shortints = true; // operands -1131..1131 only by the one and two byte forms, others by 28
    int nominal = 300;     // nominalWidthX of FD k is nominal + 50k
    int nglyphs = 9;
    bool gsubr_many = false; // 1300 global subroutines: another bias
};
// Glyph i of the font is mapped from codepoint 'a' + i - 1.
std::string make_cff_otf(const CffSpec &s);
struct TtSpec {
    int loca = 0;          // index format
    int nhm = 0;           // number of long metrics, 0: all
    int tables = 7;        // bits: cvt fpgm prep
    bool name = true, post = true;
    int nglyphs = 12;      // glyphs 1..4 are simple, 5 is empty, the others composites of earlier ones
    int words = 0;         // component arguments are words
    int scale = 0;         // 0 none 1 one scale 2 two scales 3 matrix
    int ncomp = 2;         // components of a composite
    int upem = 1000;
    bool instructions = false; // composite glyphs have instructions
    bool kern = false;     // a kern table with a pair for every two glyphs
    int headflags = 3;
    int pad = 0;           // bytes after each glyph, so that the offsets get large
    bool overlap = false;  // the last four glyphs are components of each other's chain (depth 4)
};
std::string make_ttf(const TtSpec &s);
} // namespace mc
