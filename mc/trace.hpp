// Runs part of a script under a system call tracer (ptrace of our own child) that can make any system
// call fail, transfer less than asked for, or end the process before or after it.
#pragma once
#include "mc.hpp"
namespace mc {
struct Sys {
    long nr = 0;
    std::string cls;          // open write fsync close rename unlink link truncate seek stat mem other
    std::string path, path2;
    int fd = -1;
    std::string data;         // what was to be written
    int64_t offset = -1;      // explicit offset of the write, or -1
    uint64_t count = 0;
    int flags = 0;
    long ret = 0;
    bool io = false;          // part of the write path: counts as fault point
    bool injected = false;
};
struct Fault {
    enum Kind { NONE, FAIL, SHORT, KILL_BEFORE, KILL_AFTER } kind = NONE;
    int at = -1;              // index among the fault points
    int err = 0;
    uint64_t count = 0;       // SHORT: what is transferred
    bool sticky = false;      // all later calls of the same class fail, too
    std::string cls = {};     // fault points are only the calls of this class ("mem"); otherwise all of io
};
struct Traced {
    std::vector<Sys> calls;
    std::vector<int> rc;      // of the operations; UNSET when not reached
    int signal = 0;           // the process died from it
    bool killed = false;      // by us
    int points = 0;           // number of fault points seen
    bool works = false;
};
constexpr int UNSET_RC = -999;
// Operations before 'first' run untraced, then tracing is on until the end of operation 'last'.
Traced trace_script(const Script &s, size_t first, size_t last, const std::vector<Fault> &faults);
} // namespace mc
