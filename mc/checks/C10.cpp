// uses: features.cpp
// uses: view.cpp
// uses: draw.cpp
#include "explore.hpp"
#include "draw.hpp"
#include <algorithm>
using namespace mc;

// --- the model
struct Item {
    std::string type; // as /S
    int parent;
    std::string extra;
    V v;
    std::map<int, std::string> pending; // where it is marked: 10 * context + generation -> tag and token
    std::string content;                // "p<page>:<tag>:<token>" once committed
};
struct St {
    W w;
    std::vector<Item> items;
    V dc[2];
    int gen[2] = {0, 0};
    std::vector<int> used[2]; // marked in the open context
    int pages = 0, k = 0;
    std::vector<std::pair<size_t, bool>> expect; // op index, must it succeed
    std::vector<std::pair<std::string, std::string>> roles;
    bool bad = false;
};
static std::string node(const std::vector<Item> &it, int i) {
    std::string r = it[(size_t)i].type + "{" + it[(size_t)i].extra + "}<" + it[(size_t)i].content + ">[";
    for(size_t k = 0; k < it.size(); ++k)
        if(it[k].parent == i) r += node(it, (int)k) + " ";
    return r + "]";
}
static std::string model_text(const St &s) {
    std::string r;
    for(size_t k = 0; k < s.items.size(); ++k)
        if(s.items[k].parent < 0) r += node(s.items, (int)k) + "\n";
    return r;
}

// --- what the document says
struct Marked { std::string tag, token; };
struct View {
    const pdf::Doc &d;
    std::vector<int> pages;
    std::vector<std::map<int, Marked>> marked;                 // per page: mcid -> content
    std::set<std::pair<int, int>> claimed;                     // (page, mcid) that belong to an element
    std::map<const pdf::Obj *, std::vector<std::pair<int, int>>> of;
    int nodes = 0;
    explicit View(const pdf::Doc &doc) : d(doc), pages(doc.pages()) {
        for(int p : pages) {
            std::map<int, Marked> m;
            std::vector<int> st;
            for(auto &o : d.page_ops(p)) {
                if(o.op == "BDC" || o.op == "BMC") {
                    int id = -1;
                    if(o.op == "BDC" && o.a[1].isdict())
                        if(auto x = o.a[1].get("MCID")) {
                            id = (int)x->i;
                            if(m.count(id)) throw pdf::ParseError("the same MCID twice on a page");
                            m[id].tag = o.a[0].s;
                        }
                    st.push_back(id);
                } else if(o.op == "EMC") st.pop_back();
                else if((o.op == "w" || o.op == "Tc") && !st.empty() && st.back() >= 0) m[st.back()].token += std::to_string((int)std::lround(o.a[0].num()));
            }
            marked.push_back(m);
        }
    }
    int page_index(const pdf::Obj *o) {
        for(size_t i = 0; i < pages.size(); ++i)
            if(&d.objs.at(pages[i]) == o) return (int)i;
        throw pdf::ParseError("/Pg is not a page");
    }
    std::string content(const pdf::Obj &elem, const pdf::Obj *pg, int mcid) {
        if(!pg) throw pdf::ParseError("marked content without /Pg");
        int p = page_index(pg);
        auto it = marked[(size_t)p].find(mcid);
        if(it == marked[(size_t)p].end()) throw pdf::ParseError("no marked content sequence " + std::to_string(mcid) + " on page " + std::to_string(p));
        if(!claimed.insert({p, mcid}).second) throw pdf::ParseError("marked content sequence belongs to two elements");
        of[&elem].push_back({p, mcid});
        return "p" + std::to_string(p) + ":" + it->second.tag + ":" + it->second.token;
    }
    std::string elem(const pdf::Obj &e, const pdf::Obj *parent, int depth) {
        if(depth > 50 || ++nodes > 1000) throw pdf::ParseError("structure tree is not a tree");
        if(!d.need(e, "Type").isname("StructElem")) throw pdf::ParseError("not a structure element");
        if(d.dget(e, "P") != parent) throw pdf::ParseError("/P is not the parent");
        std::string x, c, k;
        for(auto key : {"T", "Lang", "Alt", "ActualText"})
            if(auto o = d.dget(e, key)) x += std::string(key) + "=" + pdf::text_string(*o).value_or("?") + ";";
        auto *pg = d.dget(e, "Pg");
        if(auto kids = d.dget(e, "K")) {
            std::vector<pdf::Obj> l;
            if(kids->t == pdf::Obj::Arr) l = kids->a;
            else l.push_back(*e.get("K"));
            for(auto &q : l) {
                auto &o = d.deref(q);
                if(o.t == pdf::Obj::Int) c += content(e, pg, (int)o.i);
                else if(auto t = d.dget(o, "Type"); t && t->isname("MCR")) {
                    if(d.dget(o, "Stm")) throw pdf::ParseError("marked content of a form");
                    c += content(e, d.dget(o, "Pg") ? d.dget(o, "Pg") : pg, (int)d.need(o, "MCID").i);
                } else k += elem(o, &e, depth + 1) + " ";
            }
        }
        return d.need(e, "S").s + "{" + x + "}<" + c + ">[" + k + "]";
    }
    std::string tree() {
        auto *root = d.dget(d.root(), "StructTreeRoot");
        if(!root) return "";
        std::string r;
        if(auto k = d.dget(*root, "K")) {
            if(k->t == pdf::Obj::Arr)
                for(auto &o : k->a) r += elem(d.deref(o), root, 0) + "\n";
            else r += elem(*k, root, 0) + "\n";
        }
        // the parent tree
        std::map<int64_t, const pdf::Obj *> pt;
        auto &nu = d.need(d.need(*root, "ParentTree"), "Nums");
        int64_t last = -1;
        for(size_t i = 0; i + 1 < nu.a.size(); i += 2) {
            auto key = d.deref(nu.a[i]).i;
            if(key <= last) throw pdf::ParseError("parent tree keys are not sorted");
            pt[last = key] = &d.deref(nu.a[i + 1]);
        }
        if(auto nk = d.dget(*root, "ParentTreeNextKey"); nk && nk->i <= last) throw pdf::ParseError("ParentTreeNextKey is not greater than the keys");
        std::map<std::pair<int, int>, const pdf::Obj *> owner;
        for(auto &[e, l] : of)
            for(auto &x : l) owner[x] = e;
        std::set<int64_t> keys;
        for(size_t p = 0; p < pages.size(); ++p) {
            auto *sp = d.dget(d.objs.at(pages[p]), "StructParents");
            if(!sp) {
                if(!marked[p].empty()) throw pdf::ParseError("page with marked content has no StructParents");
                continue;
            }
            if(!keys.insert(sp->i).second) throw pdf::ParseError("two pages share a parent tree entry");
            if(!pt.count(sp->i)) throw pdf::ParseError("StructParents is not in the parent tree");
            auto *a = pt[sp->i];
            if(a->a.size() != marked[p].size()) throw pdf::ParseError("parent tree entry has the wrong size");
            for(auto &[id, m] : marked[p]) {
                if(id < 0 || (size_t)id >= a->a.size()) throw pdf::ParseError("MCID is not in the parent tree");
                if(&d.deref(a->a[(size_t)id]) != owner[{(int)p, id}]) throw pdf::ParseError("parent tree and structure tree disagree");
            }
        }
        if(keys.size() != pt.size()) throw pdf::ParseError("parent tree has entries nobody uses");
        return r;
    }
};

// --- operations
static const char *type_enum[] = {"DOCUMENT", "DOCUMENT_FRAGMENT", "PART", "SECT", "DIV", "ASIDE", "NONSTRUCT", "P", "H", "H1", "H2", "H3", "H4", "H5", "H6", "H7", "TITLE", "FENOTE", "SUB", "LBL", "SPAN", "EM", "STRONG", "LINK", "ANNOT", "FORM", "RUBY", "RB", "RT", "RP", "WARICHU", "WT", "WP", "L", "LI", "LBODY", "TABLE", "TR", "TH", "TD", "THEAD", "TBODY", "TFOOT", "CAPTION", "FIGURE", "FORMULA", "ARTIFACT"};
static const char *type_name[] = {"Document", "DocumentFragment", "Part", "Sect", "Div", "Aside", "NonStruct", "P", "H", "H1", "H2", "H3", "H4", "H5", "H6", "H7", "Title", "FENote", "Sub", "Lbl", "Span", "Em", "Strong", "Link", "Annot", "Form", "Ruby", "RB", "RT", "RP", "Warichu", "WT", "WP", "L", "LI", "LBody", "Table", "TR", "TH", "TD", "THead", "TBody", "TFoot", "Caption", "Figure", "Formula", "Artifact"};
static constexpr int NTYPES = 47;
static std::string type_id(int t) { return std::string("CAPY_STRUCTURE_TYPE_") + type_enum[t]; }

static void start(St &s, bool tagged) {
    s.w.props();
    if(tagged) {
        s.w.s("document_properties_set_tagged", s.w.md, 1);
        s.w.s("document_properties_set_language", s.w.md, "en-US");
    }
    s.w.start();
    s.dc[0] = s.w.dc;
    s.dc[1] = s.w.s("page_draw_context_new", s.w.gen);
}
static void item(St &s, int type, int parent, int extra = 0, int role = -1) {
    Item it;
    it.parent = parent;
    Val ed = mkval(null);
    if(extra) {
        auto x = s.w.s("struct_item_extra_data_new");
        auto n = std::to_string(++s.k);
        if(extra & 1) { s.w.s("struct_item_extra_data_set_t", x, "Title\xc3\xa4 (" + n); it.extra += "T=Title\xc3\xa4 (" + n + ";"; }
        if(extra & 2) { s.w.s("struct_item_extra_data_set_lang", x, "sv-" + n); it.extra += "Lang=sv-" + n + ";"; }
        if(extra & 4) { s.w.s("struct_item_extra_data_set_alt", x, "Alt" + n); it.extra += "Alt=Alt" + n + ";"; }
        if(extra & 8) { s.w.s("struct_item_extra_data_set_actual_text", x, "Actual\\" + n); it.extra += "ActualText=Actual\\" + n + ";"; }
        ed = mkval(x);
    }
    Val par = parent < 0 ? mkval(null) : mkval(s.items[(size_t)parent].v);
    if(role < 0) {
        it.type = type_name[type];
        it.v = s.w.s("generator_add_structure_item", s.w.gen, E(type_id(type)), par, ed);
    } else {
        auto n = s.roles[(size_t)role].first;
        it.type = n;
        it.v = s.w.s("generator_add_custom_structure_item", s.w.gen, s.w.res("role" + n, [&] { return V{}; }), par, ed);
    }
    s.items.push_back(it);
}
static void role(St &s, const std::string &n, int type) {
    auto v = s.w.s("generator_add_rolemap_entry", s.w.gen, n, E(type_id(type)));
    s.w.memo["role" + n] = v;
    s.roles.push_back({n, type_name[type]});
}
// marks item i in context c. how: 0 BDC, 1 BDC with properties, 2 in a text object
static void mark(St &s, int i, int c, int how) {
    auto &it = s.items[(size_t)i];
    const int place = 10 * c + s.gen[c];
    bool here = it.pending.count(place);
    auto tok = std::to_string(++s.k);
    auto ok = [&](bool b) { s.expect.push_back({s.w.s.size() - 1, b}); };
    if(how < 2) {
        Val tags = mkval(null);
        if(how == 1) {
            auto t = s.w.s("bdc_tags_new");
            s.w.s("bdc_tags_add_tag", t, "Key", "val" + tok);
            tags = mkval(t);
        }
        s.w.s("dc_cmd_BDC_builtin", s.dc[c], it.v, tags);
        ok(!here);
        if(!here) {
            s.w.s("dc_cmd_w", s.dc[c], (double)s.k);
            s.w.s("dc_cmd_EMC", s.dc[c]);
        }
    } else {
        auto t = s.w.s("dc_text_new", s.dc[c]);
        s.w.s("text_cmd_BDC_builtin", t, it.v);
        s.w.s("text_cmd_Tc", t, (double)s.k);
        s.w.s("text_cmd_EMC", t);
        s.w.s("dc_render_text_obj", s.dc[c], t);
        ok(!here);
        s.w.s("text_destroy", t);
    }
    if(here) return;
    it.pending[place] = it.type + ":" + tok;
    s.used[c].push_back(i);
}
static void commit(St &s, int c) {
    s.w.s("generator_add_page", s.w.gen, s.dc[c]);
    bool ok = true;
    for(int i : s.used[c]) ok = ok && s.items[(size_t)i].content.empty();
    s.expect.push_back({s.w.s.size() - 1, ok});
    if(ok) {
        for(int i : s.used[c]) s.items[(size_t)i].content = "p" + std::to_string(s.pages) + ":" + s.items[(size_t)i].pending[10 * c + s.gen[c]];
        ++s.pages;
    } else { // the page is refused; start over
        s.w.s("dc_destroy", s.dc[c]);
        s.dc[c] = s.w.s("page_draw_context_new", s.w.gen);
    }
    s.used[c].clear();
    ++s.gen[c];
}
static void judge(St &s, Ctx &cx) {
    if(s.pages == 0) commit(s, 0);
    if(s.pages == 0) commit(s, 0);
    s.w.s("generator_write", s.w.gen);
    cx.script(s.w.s);
    auto r = run_pdf(s.w.s);
    cx.transitions(s.w.s.size());
    cx.traces();
    std::map<size_t, bool> ex(s.expect.begin(), s.expect.end());
    for(size_t i = 0; i < s.w.s.size(); ++i) {
        bool want = !ex.count(i) || ex[i];
        if((r.o.rc[i] == 0) != want) {
            cx.violation((want ? "call rejected although allowed: " : "call accepted although it must be rejected: ") + fns()[(size_t)s.w.s.ops[i].fn].name, "call " + std::to_string(i) + " returned " + std::to_string(r.o.rc[i]));
            return;
        }
    }
    try {
        auto d = pdf::Doc::parse(r.bytes);
        View v(d);
        auto got = v.tree(), want = model_text(s);
        if(got != want) cx.violation("structure tree differs", got + "expected\n" + want);
        if(!s.items.empty()) {
            auto *rm = d.dget(d.root().isdict() ? d.need(d.root(), "StructTreeRoot") : d.root(), "RoleMap");
            std::map<std::string, std::string> g, w;
            if(rm)
                for(auto &[k, o] : rm->d) g[k] = d.deref(o).s;
            for(auto &[k, t] : s.roles) w[k] = t;
            if(g != w) cx.violation("role map differs", rm ? pdf::show(*rm) : "none");
        }
        cx.state(got);
        cx.sample(got);
    } catch(pdf::ParseError &e) { cx.violation(std::string("inconsistent structure: ") + e.what(), model_text(s)); }
}

// All forests of n items: the parent of item i is none or an earlier item.
static size_t nforests(int n) { size_t r = 1; for(int i = 2; i <= n; ++i) r *= (size_t)i; return r; }
static std::vector<int> forest(size_t x, int n) {
    std::vector<int> p;
    for(int i = 0; i < n; ++i) { p.push_back((int)(x % (size_t)(i + 1)) - 1); x /= (size_t)(i + 1); }
    return p;
}
static size_t ipow(size_t b, int e) { size_t r = 1; while(e-- > 0) r *= b; return r; }

int main(int argc, char **argv) {
    Check c;
    c.id = "C10";
    c.bounds = "All forests of up to 5 (thorough 6) structure items with every assignment of their content to two pages or none, in creation and in reverse order, with all items created before or "
               "while the pages are made; all sequences up to depth 5 (thorough 7) of 11 operations that create items, mark content in two open contexts in three ways, commit and abandon; every "
               "structure type with every subset of the extra data, as builtin type and as custom role; all role names over a critical alphabet; all lists of four (thorough: six) definitions of four role names; deep chains and wide trees up to 300 items.";
    c.assumptions = {"The position of an item's own content among its child items is not specified.", "A structure item has at most one marked content sequence (documented by StructureReuse)."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        for(int n = 1; n <= (thorough ? 6 : 5); ++n) {
            const size_t F = nforests(n), A = ipow(3, n);
            for(int order = 0; order < 2; ++order) {
                if(n >= 5 && order && !thorough) continue;
                f.push_back({"forest" + std::to_string(n) + (order ? "r" : ""), F * A, [=](size_t i, Ctx &cx) {
                    St s;
                    start(s, i % 2);
                    auto p = forest(i / A, n);
                    for(int k = 0; k < n; ++k) item(s, (int)(k ? 7 + (size_t)k : 0), p[(size_t)k]);
                    for(int q = 0; q < n; ++q) {
                        int k = order ? n - 1 - q : q;
                        int where = (int)(i / ipow(3, k) % 3);
                        if(where < 2) mark(s, k, where, (int)((i / A + (size_t)k) % 3));
                    }
                    commit(s, (int)(i % 2));
                    commit(s, 1 - (int)(i % 2));
                    judge(s, cx);
                }, nullptr});
            }
        }
        // operation sequences
        const size_t NO = 11;
        for(int depth = 1; depth <= (thorough ? 6 : 5); ++depth)
            f.push_back({"ops" + std::to_string(depth), ipow(NO, depth), [=](size_t i, Ctx &cx) {
                St s;
                start(s, false);
                role(s, "Custom", 7);
                item(s, 0, -1);
                for(int k = 0; k < depth; ++k) {
                    int last = (int)s.items.size() - 1;
                    switch(i / ipow(NO, k) % NO) {
                    case 0: item(s, 7, 0); break;
                    case 1: item(s, 20, last, 1); break;
                    case 2: item(s, 0, last, 0, 0); break;
                    case 3: mark(s, last, 0, 0); break;
                    case 4: mark(s, last, 1, 1); break;
                    case 5: mark(s, last, 0, 2); break;
                    case 6: mark(s, 0, 1, 0); break;
                    case 7: commit(s, 0); break;
                    case 8: commit(s, 1); break;
                    case 9: // a page without marks
                        s.w.s("generator_add_page", s.w.gen, s.w.s("page_draw_context_new", s.w.gen));
                        ++s.pages;
                        break;
                    case 10: // abandon
                        s.w.s("dc_destroy", s.dc[0]);
                        s.dc[0] = s.w.s("page_draw_context_new", s.w.gen);
                        s.used[0].clear();
                        ++s.gen[0];
                        break;
                    }
                }
                commit(s, 0);
                commit(s, 1);
                judge(s, cx);
            }, nullptr});
        f.push_back({"types", (size_t)NTYPES * 16 * 2, [](size_t i, Ctx &cx) {
            St s;
            start(s, true);
            int t = (int)(i % NTYPES), ex = (int)(i / NTYPES % 16), custom = (int)(i / NTYPES / 16);
            item(s, 0, -1);
            if(custom) {
                role(s, "My role", t);
                role(s, "Other", (t + 1) % NTYPES);
            }
            item(s, t, 0, ex, custom ? 0 : -1);
            item(s, 7, 1, 15 - ex, custom ? 1 : -1);
            mark(s, 1, 0, 0);
            mark(s, 2, 0, 2);
            judge(s, cx);
        }, nullptr});
        // A name is defined once, whatever was defined in between.
        const int RL = thorough ? 6 : 4;
        f.push_back({"role lists", ipow(4, RL), [RL](size_t i, Ctx &cx) {
            static const char *names[] = {"R", "R2", "r", "R "};
            St s;
            start(s, true);
            item(s, 0, -1);
            for(int k = 0; k < RL; ++k) {
                std::string n = names[i / ipow(4, k) % 4];
                bool ok = true;
                for(auto &q : s.roles) ok = ok && q.first != n;
                if(ok) {
                    role(s, n, 7 + k);
                    item(s, 0, 0, 0, (int)s.roles.size() - 1);
                } else s.w.s("generator_add_rolemap_entry", s.w.gen, n, E(type_id(9 - k)));
                s.expect.push_back({ok ? s.w.s.size() - 2 : s.w.s.size() - 1, ok});
            }
            mark(s, 1, 0, 0);
            judge(s, cx);
        }, nullptr});
        f.push_back({"roles", ipow(7, 3), [](size_t i, Ctx &cx) {
            static const char *ch[] = {"a", " ", "#", "(", "\xc3\xa4", "/", "%"};
            St s;
            start(s, true);
            item(s, 0, -1);
            std::string n = "R";
            for(int k = 0; k < 3; ++k) n += ch[i / ipow(7, k) % 7];
            role(s, n, 7);
            role(s, n + "2", 8);
            item(s, 0, 0, 0, 1);
            item(s, 0, 0, 0, 0);
            mark(s, 1, 0, 0);
            mark(s, 2, 0, 2);
            judge(s, cx);
        }, nullptr});
        // many
        f.push_back({"big", 12, [](size_t i, Ctx &cx) {
            St s;
            start(s, true);
            const int n = i % 3 == 0 ? 30 : i % 3 == 1 ? 255 : 300;
            item(s, 0, -1);
            for(int k = 1; k <= n; ++k) item(s, 7 + k % 8, i / 3 == 0 ? 0 : i / 3 == 1 ? (k - 1) % 40 ? k - 1 : 0 : i / 3 == 2 ? (k - 1) / 3 : k / 2);
            for(int k = 1; k <= n; ++k) {
                mark(s, i / 3 % 2 ? n + 1 - k : k, k % 2, k % 3);
                if(k % 50 == 0) commit(s, k / 50 % 2);
            }
            commit(s, 0);
            commit(s, 1);
            judge(s, cx);
        }, nullptr, 60});
        // marked content outside of a page
        f.push_back({"elsewhere", 3 * 3, [](size_t i, Ctx &cx) {
            St s;
            start(s, true);
            item(s, 0, -1);
            item(s, 7, 0);
            auto &w = s.w;
            int kind = (int)(i / 3) + 1;
            auto x = w.context(kind);
            int how = (int)(i % 3);
            if(how < 2) {
                w.s("dc_cmd_BDC_builtin", x, s.items[1].v, null);
                w.s("dc_cmd_w", x, 3.0);
                w.s("dc_cmd_EMC", x);
            } else {
                auto t = w.s("dc_text_new", x);
                w.s("text_cmd_BDC_builtin", t, s.items[1].v);
                w.s("text_cmd_EMC", t);
                w.s("dc_render_text_obj", x, t);
            }
            size_t at = w.s.size() - (how < 2 ? 3 : 1);
            if(kind == 1) w.s("generator_add_form_xobject", w.gen, x);
            if(kind == 2) w.s("dc_cmd_Do_trgroup", w.dc, w.s("generator_add_transparency_group", w.gen, x));
            if(kind == 3) w.s("generator_add_tiling_pattern", w.gen, x);
            w.s("generator_add_page", w.gen, w.dc);
            w.s("generator_write", w.gen);
            cx.script(w.s);
            auto r = run_pdf(w.s);
            cx.transitions(w.s.size());
            cx.traces();
            if(r.o.rc[at]) return; // refused
            auto d = pdf::Doc::parse(r.bytes);
            std::string k = pdf::show(d.need(d.need(d.root(), "StructTreeRoot"), "K"), 8);
            if(k.find("/Stm") == std::string::npos) cx.violation(std::string("content marked in a ") + (kind == 1 ? "form" : kind == 2 ? "group" : "pattern") + " does not belong to its structure item");
        }, [](size_t i) { return std::string(i / 3 == 0 ? "form" : i / 3 == 1 ? "group" : "pattern") + (i % 3 < 2 ? " BDC" : " text"); }});
        return f;
    };
    return check_main(argc, argv, c);
}
