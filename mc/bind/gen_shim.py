#!/usr/bin/env python3
"""Generates the recording layer between a language binding and the library: every public function is
forwarded to the library's own (renamed real_*), counted, optionally made to fail, and handles are tracked."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen_api

enums, ids, handles, fns = gen_api.parse(open(sys.argv[1]).read())
w = open(sys.argv[2], 'w').write
w('''#include <map>
#include <string>
#include <stdint.h>
#include <stddef.h>
#define noexcept
#include <capypdf.h>
#undef noexcept
namespace {
std::map<const void *, std::string> live;
std::string problems;
int calls, inject_at, inject_code, hit, failure, destroys;
int enter() {
    ++calls;
    if(inject_at && calls == inject_at) { hit = 1; failure = inject_code; return inject_code; }
    return 0;
}
int leave(int rc) { if(rc) failure = rc; return rc; }
void born(const void *p, const char *t) {
    if(!p) { problems += std::string("no object;"); return; }
    live[p] = t;
}
bool dies(const void *p, const char *t) {
    ++destroys;
    if(!p) return false;
    auto it = live.find(p);
    if(it == live.end()) { problems += std::string("released twice: ") + t + ";"; return false; }
    if(it->second != t) { problems += "released as " + std::string(t) + ": " + it->second + ";"; live.erase(it); return false; }
    live.erase(it);
    return true;
}
void used(const void *p, const char *t) {
    if(!p) return;
    auto it = live.find(p);
    if(it == live.end()) problems += std::string("dead object used: ") + t + ";";
    else if(it->second != t) problems += "object of another type used: " + it->second + " as " + t + ";";
}
}
extern "C" {
#define P __attribute__((visibility("default")))
P void rec_inject(int at, int code) { inject_at = at; inject_code = code; }
P void rec_clear() { failure = 0; destroys = 0; }
P int rec_calls() { return calls; }
P int rec_hit() { return hit; }
P int rec_failure() { return failure; }
P int rec_destroys() { return destroys; }
P const char *rec_problems() {
    static std::string r;
    r = problems;
    for(auto &[p, t] : live) r += "not released: " + t + ";";
    return r.c_str();
}
''')
for ret, name, params, _ in fns:
    ps = ', '.join(f'{t} a{i}' for i, (t, n) in enumerate(params))
    ts = ', '.join(t for t, n in params)
    args = ', '.join(f'a{i}' for i in range(len(params)))
    w(f'{ret} real_{name}({ts}) __attribute__((weak));\n')
    if name == 'capy_error_message':
        w(f'P {ret} {name}({ps}) {{ return real_{name}({args}); }}\n')
        continue
    base = [t.replace('const ', '').replace('*', '').strip() for t, n in params]
    if name.endswith('_destroy'):
        w(f'P {ret} {name}({ps}) {{ if(!dies(a0, "{base[0]}")) return ({ret})0; return ({ret})real_{name}(a0); }}\n')
        continue
    body = ''.join(f'used(a{i}, "{base[i]}"); ' for i, (t, n) in enumerate(params) if base[i] in handles and t.count('*') == 1)
    out = [i for i, (t, n) in enumerate(params) if base[i] in handles and t.count('*') == 2 and n == 'out_ptr']
    after = ''.join(f'if(!rc) born(*a{i}, "{base[i]}"); ' for i in out)
    w(f'P {ret} {name}({ps}) {{ {body}if(int k = enter()) return ({ret})k; int rc = leave((int)real_{name}({args})); {after}return ({ret})rc; }}\n')
w('}\n')
