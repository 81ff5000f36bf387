// Whole-document validation against the object and content stream grammar of ISO 32000.
#pragma once
#include "pdf.hpp"
namespace pdf {
// Returns the problems found; empty when the document is fine.
std::vector<std::string> lint(const Doc &d);
// One content stream against its resource dictionary (may be null).
void lint_content(const Doc &d, const std::vector<COp> &ops, const Obj *res, const std::string &where,
                  std::vector<std::string> &out, bool page);
}
