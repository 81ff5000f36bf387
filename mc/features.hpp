// Building blocks: every feature is one well-formed use of a part of the public API.
#pragma once
#include "mc.hpp"
namespace mc {
struct B {
    Script s;
    V md, gen, dc;
    int npages = 0;
    std::string file = "$OUT/out.pdf";
    std::map<std::string, V> memo; // resources shared inside one document
    B() = default;
    // md with the given options, then the generator and the first page context
    void props(double w = 200, double h = 200);
    void start();
    void page();                         // commits dc as a page and starts a new page context
    void finish();                       // commits the open page and writes
    V res(const std::string &name, const std::function<V()> &mk);
    V gray_color(double g);
    V rgb_color(double r, double g, double b);
    V fn2(int ncomp = 3);
    V font(const std::string &path = "NotoSans-Regular.ttf");
    V image(int w, int h, int comps, int alpha = 0, int depth = 8);
    V ocg(const std::string &name);
    V icc();
    V sep();
    V lab();
};
struct Feature {
    std::string name;
    int variants;
    std::function<void(B &, int)> add;
    bool drawing = true; // works in any draw context, not only in a page
};
const std::vector<Feature> &features();
} // namespace mc
