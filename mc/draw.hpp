// A reference model of draw contexts: what a viewer must see for every accepted call.
#pragma once
#include "features.hpp"
#include "view.hpp"
namespace mc {

// A document with labelled resources, created when first used.
struct W : B {
    int nstruct = 0;
    V img(int k);      // image 5x3 + k
    V group(int k);    // transparency group, BBox 0 0 30+k 30
    V gs(int k);       // CA 0.25 + k/4
    V shade(int k);    // axial shading x1 = 10+k
    V tiling(int k);   // tiling pattern BBox 0 0 5+k 5
    V shpat(int k);
    V fontk(int k);    // 0 NotoSans-Regular 1 P052-Roman 2 NotoSerif-Regular 3 NotoSans-Bold
    V form(int k);
    V structure();     // a fresh structure item of type P
    V context(int kind); // 0 page 1 form 2 group 3 tiling
};
std::string img_label(int k);
std::string group_label(int k);
std::string gs_label(int k);
std::string shade_label(int k);
std::string tiling_label(int k);
std::string shpat_label(int k);
std::string font_label(int k);
std::string form_label(int k);

struct DrawOp {
    std::string name;
    std::function<void(W &, V)> emit;       // the last call appended is the one being judged
    std::vector<XOp> want;
    enum Kind { PLAIN, PUSH_Q, POP_Q, PUSH_M, POP_M, NEEDS_NO_M, BAD } kind = PLAIN;
    bool page_only = false;
    bool mcid = false; // want contains the marker operand "MCID" to be numbered
};
const std::vector<DrawOp> &draw_ops();
const DrawOp &draw_op(const std::string &name);
std::vector<DrawOp> nesting_ops(); // the subset that matters for nesting

struct DCModel {
    std::string stack;
    std::vector<XOp> out;
    int mcids = 0;
    bool apply(const DrawOp &o); // true when the call must be accepted
    bool balanced() const { return stack.empty(); }
};
} // namespace mc
