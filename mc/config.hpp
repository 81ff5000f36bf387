// Document-wide configurations, shared by several checks.
#pragma once
#include "features.hpp"
namespace mc {
struct Config {
    int sub;   // 0 none, 1..12 PDF/X types, 13..22 PDF/A types
    int cs;    // output colour space: 0 RGB 1 GRAY 2 CMYK
    int tagged;
    int debug; // CAPY_DEBUG_PDF
};
inline constexpr int NCONFIG = 23 * 3 * 2 * 2;
inline Config config(int i) { return {i / 12, i / 4 % 3, i / 2 % 2, i % 2}; }
std::string config_name(const Config &c);
// Creates b.md with this configuration (sets the environment for the process as well).
void apply_config(B &b, const Config &c);
void clear_config_env();
}
