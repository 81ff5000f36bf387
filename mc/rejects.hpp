// Rules of use that the library enforces: every entry ends with a call that has to be rejected.
#pragma once
#include "features.hpp"
namespace mc {
struct Reject {
    std::string name;
    std::function<void(B &)> bad;             // its last call has to fail, the ones before it touch no document
    std::function<void(B &)> setup = nullptr; // document state that the rule needs
    std::function<void(B &)> md = nullptr;    // document properties
    bool at_write = false;                    // the rule is only checked when the document is written
};
const std::vector<Reject> &rejects();
} // namespace mc
