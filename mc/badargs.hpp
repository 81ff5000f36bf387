// Valid scripts that together use every function, and a catalogue of invalid argument values.
#pragma once
#include "features.hpp"
namespace mc {
// A well-formed script whose calls are varied.
struct Base0 { std::string name; Script s; };
const std::vector<Base0> &bases();
struct Bad { std::string name; Val v; };
std::vector<Bad> bad_values(const Param &p, const Val &good);
// Arguments that are not invalid although they look so.
bool allowed(const std::string &fn, const Param &p, const std::string &bad);
} // namespace mc
