#include "pdf.hpp"
#include <zlib.h>
#include <cstring>
#include <algorithm>

namespace pdf {

uint64_t hash(std::string_view s) {
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h ^ (h >> 29);
}

std::string inflate(std::string_view in) {
    z_stream z{};
    if(inflateInit(&z) != Z_OK) throw ParseError("inflateInit");
    std::string out;
    char buf[16384];
    z.next_in = (Bytef *)in.data();
    z.avail_in = in.size();
    int rc;
    do {
        z.next_out = (Bytef *)buf;
        z.avail_out = sizeof(buf);
        rc = ::inflate(&z, Z_NO_FLUSH);
        if(rc != Z_OK && rc != Z_STREAM_END) {
            inflateEnd(&z);
            throw ParseError("compressed stream does not inflate");
        }
        out.append(buf, sizeof(buf) - z.avail_out);
    } while(rc != Z_STREAM_END && (z.avail_in > 0 || z.avail_out == 0));
    size_t left = z.avail_in;
    inflateEnd(&z);
    if(rc != Z_STREAM_END) throw ParseError("compressed stream is truncated");
    if(left != 0) throw ParseError("garbage after the end of compressed data");
    return out;
}

std::vector<COp> parse_content(std::string_view s) {
    std::vector<COp> res;
    Lexer lx(s);
    std::vector<Obj> args;
    while(true) {
        lx.skipws();
        if(lx.eof()) break;
        unsigned char c = lx.v[lx.p];
        bool operand = Lexer::delim(c) || (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.';
        if(!operand) {
            size_t save = lx.p;
            auto w = lx.word();
            if(w == "true" || w == "false" || w == "null") {
                lx.p = save;
                operand = true;
            } else {
                res.push_back(COp{std::string(w), std::move(args)});
                args.clear();
                continue;
            }
        }
        args.push_back(lx.object(false));
    }
    if(!args.empty()) throw ParseError("operands without an operator at the end of a content stream");
    return res;
}

const Obj &Doc::deref(const Obj &o) const {
    const Obj *c = &o;
    for(int k = 0; k < 20; ++k) {
        if(c->t != Obj::Ref) return *c;
        auto it = objs.find((int)c->i);
        if(it == objs.end()) throw ParseError("reference to missing object " + std::to_string(c->i));
        c = &it->second;
    }
    throw ParseError("reference cycle");
}
const Obj *Doc::dget(const Obj &dict, std::string_view key) const {
    const Obj &d = deref(dict);
    if(!d.isdict()) throw ParseError("dictionary expected where /" + std::string(key) + " is looked up");
    auto *v = d.get(key);
    return v ? &deref(*v) : nullptr;
}
const Obj &Doc::need(const Obj &dict, std::string_view key) const {
    auto *v = dget(dict, key);
    if(!v) throw ParseError("missing required key /" + std::string(key));
    return *v;
}

static size_t parse_indirect(const std::string &raw, size_t off, int num, Obj &out) {
    Lexer lx(raw, off);
    auto w = lx.word();
    if(w != std::to_string(num)) throw ParseError("cross reference of object " + std::to_string(num) + " does not point at it (offset " + std::to_string(off) + ")");
    lx.expect(" ");
    auto g = lx.word();
    if(g != "0") throw ParseError("generation of object " + std::to_string(num) + " is not 0");
    lx.expect(" obj");
    if(lx.peek() >= 0 && Lexer::regular(lx.peek())) lx.fail("bad obj keyword");
    out = lx.object();
    lx.skipws();
    if(lx.accept("stream")) {
        if(out.t != Obj::Dict) lx.fail("stream without a dictionary");
        if(lx.accept("\r\n")) {
        } else lx.expect("\n");
        auto *len = out.get("Length");
        if(!len) lx.fail("stream without /Length");
        if(len->t != Obj::Int || len->i < 0) lx.fail("stream /Length is not a direct non-negative integer");
        if(lx.p + (size_t)len->i > raw.size()) lx.fail("stream /Length runs past the end of the file");
        out.data = raw.substr(lx.p, len->i);
        lx.p += len->i;
        if(!lx.accept("\r\n")) lx.accept("\n");
        lx.expect("endstream");
        out.t = Obj::Stream;
        lx.skipws();
    }
    lx.expect("endobj");
    return lx.p;
}

std::string Doc::stream_data(const Obj &st_) const {
    const Obj &st = deref(st_);
    if(st.t != Obj::Stream) throw ParseError("stream expected");
    auto *f = dget(st, "Filter");
    if(!f) return st.data;
    if(f->isname("FlateDecode")) return inflate(st.data);
    return st.data;
}

Doc Doc::parse(std::string bytes) {
    Doc d;
    d.raw = std::move(bytes);
    const std::string &raw = d.raw;
    if(raw.size() < 20 || raw.compare(0, 5, "%PDF-") != 0) throw ParseError("no %PDF header");
    size_t eol = raw.find('\n');
    d.version = raw.substr(5, eol - 5);
    if(d.version.size() != 3 || !isdigit(d.version[0]) || d.version[1] != '.' || !isdigit(d.version[2]))
        throw ParseError("bad version in header: " + d.version);
    if(raw[eol + 1] != '%') throw ParseError("no binary marker comment after the header");
    size_t p2 = raw.find('\n', eol + 1);
    int high = 0;
    for(size_t k = eol + 2; k < p2; ++k)
        if((unsigned char)raw[k] >= 128) ++high;
    if(high < 4) throw ParseError("binary marker comment has fewer than four high bytes");

    // Tail
    size_t tail = raw.size();
    while(tail > 0 && (raw[tail - 1] == '\n' || raw[tail - 1] == '\r')) --tail;
    if(tail < 5 || raw.compare(tail - 5, 5, "%%EOF") != 0) throw ParseError("file does not end in %%EOF");
    if(raw.size() - tail > 2) throw ParseError("trailing data after %%EOF");
    size_t sx = raw.rfind("startxref");
    if(sx == std::string::npos) throw ParseError("no startxref");
    if(raw.find("startxref") != sx) {
        // may legitimately occur in stream data; nothing to check
    }
    Lexer lx(raw, sx + 9);
    lx.skipws();
    Obj n;
    auto w = lx.word();
    if(!Lexer::number_lexeme(w, n) || n.t != Obj::Int) throw ParseError("bad startxref value");
    lx.skipws(); // also skips the %%EOF comment
    if(lx.p < raw.size()) throw ParseError("garbage between startxref and %%EOF");
    size_t xoff = n.i;
    if(xoff >= raw.size()) throw ParseError("startxref points past the end of the file");

    std::map<int, size_t> offsets;                  // object number to file offset
    std::map<int, std::pair<int, int>> in_objstm;   // object number to (stream, index)
    std::set<int> freeobjs;
    std::map<size_t, size_t> extents;               // offset to end, of everything in the file
    int64_t size = 0;
    int xref_num = -1;
    if(raw.compare(xoff, 4, "xref") == 0) {
        Lexer x(raw, xoff + 4);
        if(!x.accept("\n") && !x.accept("\r\n")) x.fail("bad xref keyword line");
        while(true) {
            if(raw.compare(x.p, 7, "trailer") == 0) break;
            Obj a, b;
            if(!Lexer::number_lexeme(x.word(), a)) x.fail("bad xref subsection");
            x.expect(" ");
            if(!Lexer::number_lexeme(x.word(), b)) x.fail("bad xref subsection");
            if(!x.accept("\n") && !x.accept("\r\n")) x.fail("bad xref subsection header");
            for(int64_t k = 0; k < b.i; ++k) {
                if(x.p + 20 > raw.size()) x.fail("xref table is truncated");
                std::string_view l(raw.data() + x.p, 20);
                for(int q = 0; q < 10; ++q)
                    if(!isdigit((unsigned char)l[q])) x.fail("bad xref entry");
                if(l[10] != ' ' || l[16] != ' ') x.fail("bad xref entry");
                for(int q = 11; q < 16; ++q)
                    if(!isdigit((unsigned char)l[q])) x.fail("bad xref entry");
                if(!(l.substr(18) == " \n" || l.substr(18) == "\r\n" || l.substr(18) == " \r"))
                    x.fail("xref entry has a bad line end");
                size_t off = strtoull(std::string(l.substr(0, 10)).c_str(), nullptr, 10);
                int g = atoi(std::string(l.substr(11, 5)).c_str());
                int num = (int)(a.i + k);
                if(l[17] == 'f') {
                    if(num == 0 && g != 65535) x.fail("object 0 must have generation 65535");
                    freeobjs.insert(num);
                } else if(l[17] == 'n') {
                    if(g != 0) x.fail("nonzero generation");
                    if(!offsets.emplace(num, off).second) x.fail("object listed twice in xref");
                } else x.fail("bad xref entry type");
                x.p += 20;
            }
        }
        x.expect("trailer");
        d.trailer = x.object();
        x.skipws();
        if(x.p != sx) throw ParseError("garbage between the trailer and startxref");
        extents[xoff] = raw.size();
        if(d.trailer.t != Obj::Dict) throw ParseError("trailer is not a dictionary");
    } else {
        d.xref_is_stream = true;
        // the object number is whatever is written there
        Lexer x(raw, xoff);
        Obj num;
        if(!Lexer::number_lexeme(x.word(), num) || num.t != Obj::Int) throw ParseError("startxref does not point at a cross reference section");
        xref_num = (int)num.i;
        Obj xo;
        size_t end = parse_indirect(raw, xoff, xref_num, xo);
        Lexer chk(raw, end);
        chk.skipws();
        if(chk.p != sx) throw ParseError("garbage between the cross reference stream and startxref");
        extents[xoff] = raw.size();
        if(xo.t != Obj::Stream) throw ParseError("cross reference stream is not a stream");
        auto *ty = xo.get("Type");
        if(!ty || !ty->isname("XRef")) throw ParseError("cross reference stream lacks /Type /XRef");
        auto *W = xo.get("W");
        if(!W || W->t != Obj::Arr || W->a.size() != 3) throw ParseError("bad /W");
        int ws[3];
        for(int k = 0; k < 3; ++k) {
            if(W->a[k].t != Obj::Int || W->a[k].i < 0 || W->a[k].i > 8) throw ParseError("bad /W");
            ws[k] = (int)W->a[k].i;
        }
        std::string data = d.stream_data(xo);
        auto *sz = xo.get("Size");
        if(!sz || sz->t != Obj::Int) throw ParseError("cross reference stream without /Size");
        std::vector<std::pair<int64_t, int64_t>> idx;
        if(auto *I = xo.get("Index")) {
            if(I->t != Obj::Arr || I->a.size() % 2) throw ParseError("bad /Index");
            for(size_t k = 0; k < I->a.size(); k += 2) idx.emplace_back(I->a[k].i, I->a[k + 1].i);
        } else idx.emplace_back(0, sz->i);
        size_t rowlen = ws[0] + ws[1] + ws[2];
        size_t pos = 0;
        int64_t total = 0;
        for(auto &[s, c] : idx) total += c;
        if(data.size() != rowlen * (size_t)total) throw ParseError("cross reference stream has the wrong amount of data");
        for(auto &[s, c] : idx)
            for(int64_t k = 0; k < c; ++k) {
                uint64_t f[3] = {1, 0, 0};
                for(int q = 0; q < 3; ++q) {
                    if(ws[q]) f[q] = 0;
                    for(int z = 0; z < ws[q]; ++z) f[q] = f[q] << 8 | (unsigned char)data[pos++];
                }
                int on = (int)(s + k);
                if(f[0] == 0) freeobjs.insert(on);
                else if(f[0] == 1) {
                    if(f[2] != 0) throw ParseError("nonzero generation in cross reference stream");
                    if(!offsets.emplace(on, f[1]).second) throw ParseError("object listed twice");
                } else if(f[0] == 2) in_objstm[on] = {(int)f[1], (int)f[2]};
                else throw ParseError("unknown cross reference entry type");
            }
        d.trailer = xo;
        d.trailer.t = Obj::Dict;
        d.trailer.data.clear();
        if(offsets.count(xref_num) && offsets[xref_num] != xoff) throw ParseError("cross reference stream lists itself at a wrong offset");
    }
    auto *szo = d.trailer.get("Size");
    if(!szo || szo->t != Obj::Int) throw ParseError("trailer without /Size");
    size = szo->i;
    if(!freeobjs.count(0)) throw ParseError("object 0 is not free");
    int maxnum = 0;
    for(auto &[k, v] : offsets) maxnum = std::max(maxnum, k);
    for(auto &[k, v] : in_objstm) maxnum = std::max(maxnum, k);
    for(int k : freeobjs) maxnum = std::max(maxnum, k);
    if(size != maxnum + 1) throw ParseError("/Size is " + std::to_string(size) + " but the highest object is " + std::to_string(maxnum));

    for(auto &[num, off] : offsets) {
        if(off >= raw.size()) throw ParseError("object " + std::to_string(num) + " lies past the end of the file");
        if(num == xref_num && d.xref_is_stream) continue;
        Obj o;
        size_t end = parse_indirect(raw, off, num, o);
        if(!extents.emplace(off, end).second) throw ParseError("two objects share an offset");
        d.objs[num] = std::move(o);
    }
    // Object streams
    std::map<int, std::vector<std::pair<int, size_t>>> stm_index;
    std::map<int, std::string> stm_data;
    for(auto &[num, loc] : in_objstm) {
        int snum = loc.first;
        if(!stm_index.count(snum)) {
            auto it = d.objs.find(snum);
            if(it == d.objs.end() || d.compressed.count(snum) || it->second.t != Obj::Stream)
                throw ParseError("object " + std::to_string(num) + " is said to be in object stream " + std::to_string(snum) + ", which is not one");
            auto &st = it->second;
            auto *ty = st.get("Type");
            if(!ty || !ty->isname("ObjStm")) throw ParseError("object stream lacks /Type /ObjStm");
            auto *N = st.get("N"), *F = st.get("First");
            if(!N || !F || N->t != Obj::Int || F->t != Obj::Int) throw ParseError("object stream lacks /N or /First");
            std::string data = d.stream_data(st);
            if(F->i < 0 || (size_t)F->i > data.size()) throw ParseError("object stream /First out of range");
            Lexer h(data, 0, F->i);
            std::vector<std::pair<int, size_t>> ix;
            for(int64_t k = 0; k < N->i; ++k) {
                Obj a, b;
                h.skipws();
                if(!Lexer::number_lexeme(h.word(), a)) throw ParseError("bad object stream header");
                h.skipws();
                if(!Lexer::number_lexeme(h.word(), b)) throw ParseError("bad object stream header");
                ix.emplace_back((int)a.i, F->i + b.i);
            }
            h.skipws();
            if(!h.eof()) throw ParseError("object stream header is longer than /N says");
            // parse them all
            for(size_t k = 0; k < ix.size(); ++k) {
                size_t start = ix[k].second, end = k + 1 < ix.size() ? ix[k + 1].second : data.size();
                if(start >= end || end > data.size()) throw ParseError("object stream offsets are not increasing");
                Lexer ol(data, start, end);
                if(Lexer::ws(ol.peek())) { /* allowed */ }
                Obj o;
                try {
                    o = ol.object();
                    ol.skipws();
                } catch(ParseError &pe) {
                    throw ParseError("object " + std::to_string(ix[k].first) + " in object stream: " + pe.what());
                }
                if(!ol.eof()) throw ParseError("garbage after object " + std::to_string(ix[k].first) + " in object stream");
                auto li = in_objstm.find(ix[k].first);
                if(li == in_objstm.end() || li->second.first != snum || li->second.second != (int)k)
                    throw ParseError("object stream contains object " + std::to_string(ix[k].first) + " but the cross reference disagrees");
                d.objs[ix[k].first] = std::move(o);
                d.compressed.insert(ix[k].first);
            }
            stm_index[snum] = ix;
        }
        auto &ix = stm_index[snum];
        if(loc.second < 0 || loc.second >= (int)ix.size() || ix[loc.second].first != num)
            throw ParseError("object " + std::to_string(num) + " is not at its index in the object stream");
    }
    // Everything between the header and the cross reference belongs to a listed object.
    size_t cur = p2 + 1;
    for(auto &[s, en] : extents) {
        Lexer g(raw, cur, std::max(cur, s));
        if(s < cur) throw ParseError("objects overlap at offset " + std::to_string(s));
        g.skipws();
        if(g.p != s) throw ParseError("unlisted data between objects at byte " + std::to_string(cur));
        cur = en;
    }
    // Every reference resolves.
    std::function<void(const Obj &, int)> walk = [&](const Obj &o, int in) {
        switch(o.t) {
        case Obj::Ref:
            if(!d.objs.count((int)o.i)) throw ParseError("object " + std::to_string(in) + " refers to missing object " + std::to_string(o.i));
            if(o.gen != 0) throw ParseError("reference with nonzero generation");
            break;
        case Obj::Arr:
            for(auto &x : o.a) walk(x, in);
            break;
        case Obj::Dict:
        case Obj::Stream:
            for(auto &[k, x] : o.d) walk(x, in);
            break;
        default: break;
        }
    };
    for(auto &[num, o] : d.objs) {
        walk(o, num);
        if(o.t == Obj::Stream) {
            if(d.compressed.count(num)) throw ParseError("a stream cannot be in an object stream");
            if(auto *f = o.get("Filter")) {
                std::string fn = f->t == Obj::Name ? f->s : "";
                if(fn == "FlateDecode") (void)d.stream_data(o);
                else if(fn != "DCTDecode") throw ParseError("unexpected filter in object " + std::to_string(num));
            }
        }
    }
    walk(d.trailer, 0);
    auto *root = d.trailer.get("Root");
    if(!root || root->t != Obj::Ref) throw ParseError("trailer has no /Root reference");
    if(d.deref(*root).t != Obj::Dict) throw ParseError("/Root is not a dictionary");
    return d;
}

std::vector<int> Doc::pages() const {
    std::vector<int> res;
    std::set<int> seen;
    std::function<int64_t(const Obj &, int)> rec = [&](const Obj &ref, int parent) -> int64_t {
        if(ref.t != Obj::Ref) throw ParseError("page tree kid is not a reference");
        if(!seen.insert((int)ref.i).second) throw ParseError("page tree node visited twice");
        auto &n = deref(ref);
        auto &ty = need(n, "Type");
        if(parent >= 0) {
            auto *par = n.get("Parent");
            if(!par || par->t != Obj::Ref || par->i != parent) throw ParseError("page tree /Parent does not point back");
        }
        if(ty.isname("Page")) {
            res.push_back((int)ref.i);
            return 1;
        }
        if(!ty.isname("Pages")) throw ParseError("page tree node has a wrong /Type");
        auto &kids = need(n, "Kids");
        if(kids.t != Obj::Arr) throw ParseError("/Kids is not an array");
        int64_t c = 0;
        for(auto &k : kids.a) c += rec(k, (int)ref.i);
        auto &cnt = need(n, "Count");
        if(cnt.t != Obj::Int || cnt.i != c) throw ParseError("page tree /Count is wrong");
        return c;
    };
    auto &r = root();
    auto *pg = r.get("Pages");
    if(!pg) throw ParseError("catalog has no /Pages");
    rec(*pg, -1);
    return res;
}

const Obj *Doc::inherited(int pagenum, std::string_view key) const {
    const Obj *n = &objs.at(pagenum);
    for(int k = 0; k < 50 && n; ++k) {
        if(auto *v = n->get(key)) return &deref(*v);
        auto *par = n->get("Parent");
        n = par ? &deref(*par) : nullptr;
    }
    return nullptr;
}

std::vector<COp> Doc::page_ops(int page) const {
    auto &p = objs.at(page);
    auto *c = p.get("Contents");
    if(!c) return {};
    auto &cc = deref(*c);
    std::string s;
    if(cc.t == Obj::Arr) {
        for(auto &x : cc.a) s += stream_data(x) + "\n";
    } else s = stream_data(cc);
    return parse_content(s);
}

static std::string quote(const std::string &s) {
    std::string r = "(";
    char b[8];
    for(unsigned char c : s) {
        if(c < 32 || c > 126 || c == '(' || c == ')' || c == '\\') {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else r += c;
    }
    return r + ")";
}

std::string show(const Obj &o, int depth) {
    switch(o.t) {
    case Obj::Null: return "null";
    case Obj::Bool: return o.b ? "true" : "false";
    case Obj::Int:
    case Obj::Real: return o.s;
    case Obj::Str: return quote(o.s);
    case Obj::Name: return "/" + quote(o.s);
    case Obj::Ref: return std::to_string(o.i) + " 0 R";
    case Obj::Arr: {
        std::string r = "[";
        if(depth <= 0) return "[...]";
        for(auto &x : o.a) r += show(x, depth - 1) + " ";
        return r + "]";
    }
    default: {
        if(depth <= 0) return "<<...>>";
        std::string r = "<<";
        for(auto &[k, x] : o.d) r += "/" + k + " " + show(x, depth - 1) + " ";
        r += ">>";
        if(o.t == Obj::Stream) r += "stream[" + std::to_string(o.data.size()) + "]";
        return r;
    }
    }
}

namespace {
struct Canon {
    const Doc &d;
    std::map<int, int> num;
    std::vector<int> queue;
    bool drop;
    std::string out;
    void value(const Obj &o) {
        switch(o.t) {
        case Obj::Ref: {
            auto [it, fresh] = num.emplace((int)o.i, (int)num.size());
            if(fresh) queue.push_back((int)o.i);
            out += "@" + std::to_string(it->second);
            break;
        }
        case Obj::Arr:
            out += "[";
            for(auto &x : o.a) {
                value(x);
                out += ' ';
            }
            out += "]";
            break;
        case Obj::Dict:
        case Obj::Stream: {
            std::vector<size_t> ix(o.d.size());
            for(size_t i = 0; i < ix.size(); ++i) ix[i] = i;
            std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return o.d[a].first < o.d[b].first; });
            out += "<<";
            bool flate = false;
            for(auto i : ix) {
                auto &[k, v] = o.d[i];
                if(o.t == Obj::Stream && (k == "Length" || (k == "Filter" && d.deref(v).isname("FlateDecode")))) {
                    if(k == "Filter") flate = true;
                    continue;
                }
                if(drop && (k == "CreationDate" || k == "ModDate")) continue;
                out += "/" + quote(k) + " ";
                value(v);
                out += ' ';
            }
            out += ">>";
            if(o.t == Obj::Stream) {
                std::string data = flate ? inflate(o.data) : o.data;
                out += "stream" + std::to_string(data.size()) + ":" + data;
            }
            break;
        }
        default: out += show(o);
        }
    }
};
} // namespace

std::string Doc::canon(bool drop) const {
    Canon c{*this, {}, {}, drop, {}};
    c.out = "v" + version + "\n";
    for(auto k : {"Root", "Info"})
        if(auto *r = trailer.get(k)) {
            c.out += k;
            c.value(*r);
            c.out += "\n";
        }
    for(size_t i = 0; i < c.queue.size(); ++i) {
        c.out += "obj " + std::to_string(c.num[c.queue[i]]) + ": ";
        c.value(objs.at(c.queue[i]));
        c.out += "\n";
    }
    return c.out;
}

std::string Doc::canon_obj(const Obj &o) const {
    Canon c{*this, {}, {}, true, {}};
    c.value(o);
    for(size_t i = 0; i < c.queue.size(); ++i) {
        c.out += "\nobj " + std::to_string(c.num[c.queue[i]]) + ": ";
        c.value(objs.at(c.queue[i]));
    }
    return c.out;
}

static void put_utf8(std::string &o, uint32_t c) {
    if(c < 0x80) o += (char)c;
    else if(c < 0x800) {
        o += (char)(0xC0 | c >> 6);
        o += (char)(0x80 | (c & 63));
    } else if(c < 0x10000) {
        o += (char)(0xE0 | c >> 12);
        o += (char)(0x80 | (c >> 6 & 63));
        o += (char)(0x80 | (c & 63));
    } else {
        o += (char)(0xF0 | c >> 18);
        o += (char)(0x80 | (c >> 12 & 63));
        o += (char)(0x80 | (c >> 6 & 63));
        o += (char)(0x80 | (c & 63));
    }
}

std::optional<std::string> text_string(const Obj &o) {
    if(o.t != Obj::Str) return std::nullopt;
    const std::string &s = o.s;
    if(s.size() >= 2 && (unsigned char)s[0] == 0xFE && (unsigned char)s[1] == 0xFF) {
        if(s.size() % 2) return std::nullopt;
        std::string r;
        for(size_t i = 2; i < s.size(); i += 2) {
            uint32_t u = (unsigned char)s[i] << 8 | (unsigned char)s[i + 1];
            if(u >= 0xD800 && u < 0xDC00) {
                if(i + 3 >= s.size()) return std::nullopt;
                uint32_t l = (unsigned char)s[i + 2] << 8 | (unsigned char)s[i + 3];
                if(l < 0xDC00 || l > 0xDFFF) return std::nullopt;
                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                i += 2;
            } else if(u >= 0xDC00 && u < 0xE000) return std::nullopt;
            put_utf8(r, u);
        }
        return r;
    }
    if(s.size() >= 3 && (unsigned char)s[0] == 0xEF && (unsigned char)s[1] == 0xBB && (unsigned char)s[2] == 0xBF)
        return s.substr(3);
    // PDFDocEncoding: identical to ASCII for the characters we accept here
    std::string r;
    for(unsigned char c : s) {
        if(c < 0x80) {
            if(c >= 0x18 && c < 0x20) return std::nullopt;
            r += (char)c;
        } else if(c >= 0xA1 && c != 0xAD) put_utf8(r, c);
        else if(c == 0xA0) put_utf8(r, 0x20AC);
        else return std::nullopt;
    }
    return r;
}

} // namespace pdf
