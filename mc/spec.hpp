// Expected shapes of PDF objects: small combinators that describe what an object must be, compared with
// what the written document contains. An empty result means equal, otherwise the first difference.
#pragma once
#include "view.hpp"
namespace mc::spec {
using pdf::Doc;
using pdf::Obj;
using Sp = std::function<std::string(const Doc &, const Obj *)>; // the object is dereferenced; null: absent
inline std::string at(const std::string &where, const std::string &r) { return r.empty() ? r : where + ": " + r; }
inline const Obj *clean(const Obj *o) { return o && o->t == Obj::Null ? nullptr : o; }
inline Sp absent() {
    return [](const Doc &, const Obj *o) { return clean(o) ? "present: " + pdf::show(*o, 1) : std::string(); };
}
inline Sp any() { return [](const Doc &, const Obj *) { return std::string(); }; }
inline Sp present() { return [](const Doc &, const Obj *o) { return clean(o) ? std::string() : std::string("missing"); }; }
inline Sp name(std::string n) {
    return [n](const Doc &, const Obj *o) {
        if(!o) return "missing /" + n;
        return o->isname(n) ? std::string() : "is " + pdf::show(*o, 1) + " expected /" + n;
    };
}
inline Sp num(double v, double tol = 6e-7) {
    return [=](const Doc &, const Obj *o) {
        if(!o) return "missing number " + std::to_string(v);
        if(!o->isnum()) return "is " + pdf::show(*o, 1) + " expected a number";
        return std::fabs(o->num() - v) <= tol + std::fabs(v) * 1e-12 ? std::string() : "is " + std::to_string(o->num()) + " expected " + std::to_string(v);
    };
}
inline Sp integer(int64_t v) {
    return [=](const Doc &, const Obj *o) {
        if(!o) return "missing integer " + std::to_string(v);
        return o->t == Obj::Int && o->i == v ? std::string() : "is " + pdf::show(*o, 1) + " expected " + std::to_string(v);
    };
}
inline Sp boolean(bool v) {
    return [=](const Doc &, const Obj *o) {
        if(!o) return std::string("missing boolean");
        return o->t == Obj::Bool && o->b == v ? std::string() : "is " + pdf::show(*o, 1) + " expected " + (v ? "true" : "false");
    };
}
inline Sp text(std::string utf8) { // a PDF text string
    return [=](const Doc &, const Obj *o) {
        if(!o) return "missing text '" + utf8 + "'";
        if(o->t != Obj::Str) return "is " + pdf::show(*o, 1) + " expected a text string";
        auto t = pdf::text_string(*o);
        return t && *t == utf8 ? std::string() : "is '" + t.value_or("(not a text string)") + "' expected '" + utf8 + "'";
    };
}
inline Sp bytes(std::string b) { // a byte string
    return [=](const Doc &, const Obj *o) {
        if(!o) return std::string("missing string");
        return o->t == Obj::Str && o->s == b ? std::string() : "is " + pdf::show(*o, 1) + " expected (" + b + ")";
    };
}
inline Sp arr(std::vector<Sp> v) {
    return [=](const Doc &d, const Obj *o) {
        if(!o) return std::string("missing array");
        if(o->t != Obj::Arr) return "is " + pdf::show(*o, 1) + " expected an array";
        if(o->a.size() != v.size()) return "array of " + std::to_string(o->a.size()) + " elements, expected " + std::to_string(v.size());
        for(size_t i = 0; i < v.size(); ++i) {
            auto &e = d.deref(o->a[i]);
            auto r = v[i](d, clean(&e));
            if(!r.empty()) return at("[" + std::to_string(i) + "]", r);
        }
        return std::string();
    };
}
inline Sp nums(const std::vector<double> &v, double tol = 6e-7) {
    std::vector<Sp> s;
    for(auto x : v) s.push_back(num(x, tol));
    return arr(s);
}
using Dict = std::vector<std::pair<std::string, Sp>>;
// All the keys that are not mentioned must be absent, unless open.
inline Sp dict(Dict v, bool open = false) {
    return [=](const Doc &d, const Obj *o) {
        if(!o) return std::string("missing dictionary");
        if(!o->isdict()) return "is " + pdf::show(*o, 1) + " expected a dictionary";
        for(auto &[k, s] : v) {
            auto *x = d.dget(*o, k);
            auto r = s(d, clean(x));
            if(!r.empty()) return at("/" + k, r);
        }
        if(!open)
            for(auto &[k, x] : o->d) {
                bool known = k == "Length" || k == "Filter";
                for(auto &e : v) known = known || e.first == k;
                if(!known && clean(&d.deref(x))) return "unexpected key /" + k;
            }
        return std::string();
    };
}
// The value, or nothing at all when the value is the one the standard defines as default.
inline Sp def(Sp s) {
    return [=](const Doc &d, const Obj *o) { return o ? s(d, o) : std::string(); };
}
inline Sp both(Sp a, Sp b) {
    return [=](const Doc &d, const Obj *o) { auto r = a(d, o); return r.empty() ? b(d, o) : r; };
}
inline Sp labelled(std::string l) { // what label() says about it
    return [=](const Doc &d, const Obj *o) {
        auto g = o ? label(d, *o) : std::string("none");
        return g == l ? std::string() : "is " + g + " expected " + l;
    };
}
// The object is this very object (by the address of the dereferenced object).
inline Sp same(const Obj *want) {
    return [=](const Doc &, const Obj *o) { return o == want ? std::string() : std::string("is a different object"); };
}
inline Sp page(int n) {
    return [=](const Doc &d, const Obj *o) {
        auto p = d.pages();
        if(n < 0 || (size_t)n >= p.size()) return std::string("no such page");
        return o == &d.objs.at(p[(size_t)n]) ? std::string() : "is not page " + std::to_string(n);
    };
}
} // namespace mc::spec
