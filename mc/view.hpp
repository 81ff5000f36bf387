// Content streams as seen by a viewer: operands are numbers or the *meaning* of the resource a name refers to.
#pragma once
#include "mc.hpp"
namespace mc {

struct Arg {
    bool num = false;
    double d = 0;
    std::string s;
};
inline Arg A(double d) { return {true, d, {}}; }
inline Arg A(int d) { return {true, (double)d, {}}; }
inline Arg A(const char *s) { return {false, 0, s}; }
inline Arg A(std::string s) { return {false, 0, std::move(s)}; }
struct XOp {
    std::string op;
    std::vector<Arg> a;
};
template <class... T> XOp X(std::string op, T &&...t) { return XOp{std::move(op), {A(t)...}}; }
std::string show(const XOp &x);
std::string show(const std::vector<XOp> &x);

// Printed numbers must carry the value to six decimals.
bool close(double got, double want);
// Empty when equal, otherwise a description of the first difference.
std::string diff(const std::vector<XOp> &got, const std::vector<XOp> &want);

// A short, creation order independent description of a resource object.
std::string label(const pdf::Doc &d, const pdf::Obj &o);
std::string label_ref(const pdf::Doc &d, const pdf::Obj *o); // null is "none"

struct FontView { // a simplified view on a Type0 font
    std::map<int, std::string> tounicode; // code -> utf8
    std::string name;
};
FontView font_view(const pdf::Doc &d, const pdf::Obj &font);

std::vector<XOp> view_ops(const pdf::Doc &d, const std::vector<pdf::COp> &ops, const pdf::Obj *resources);
std::vector<XOp> view_page(const pdf::Doc &d, int page);
std::vector<XOp> view_stream(const pdf::Doc &d, const pdf::Obj &xobj); // form, group or tiling pattern
std::string utf16_to_utf8(const std::string &be, bool bom = false);
std::string utf8(uint32_t cp);
} // namespace mc
