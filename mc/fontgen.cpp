#include "fontgen.hpp"
#include <algorithm>
#include <map>
namespace mc {
static void p16(std::string &o, int v) { o += (char)(v >> 8); o += (char)v; }
static void p32(std::string &o, uint32_t v) { p16(o, (int)(v >> 16)); p16(o, (int)(v & 0xffff)); }

static std::string sfnt(uint32_t version, const std::map<std::string, std::string> &tables) {
    std::string o, body;
    int n = (int)tables.size(), p2 = 1, l = 0;
    while(p2 * 2 <= n) { p2 *= 2; ++l; }
    p32(o, version); p16(o, n); p16(o, 16 * p2); p16(o, l); p16(o, 16 * n - 16 * p2);
    auto sum = [](const std::string &s) {
        uint32_t r = 0;
        for(size_t i = 0; i < s.size(); i += 4)
            for(size_t k = 0; k < 4; ++k) r += (i + k < s.size() ? (uint32_t)(unsigned char)s[i + k] : 0) << (24 - 8 * k);
        return r;
    };
    size_t base = 12 + 16 * (size_t)n, headpos = 0;
    for(auto &[t, d] : tables) {
        o += t;
        p32(o, sum(d)); p32(o, (uint32_t)(base + body.size())); p32(o, (uint32_t)d.size());
        if(t == "head") headpos = base + body.size();
        body += d;
        while(body.size() % 4) body += '\0';
    }
    o += body;
    uint32_t adj = 0xB1B0AFBA - sum(o);
    std::string a;
    p32(a, adj);
    o.replace(headpos + 8, 4, a);
    return o;
}
static std::string head(int upem, int locfmt, int flags = 3) {
    std::string o;
    p32(o, 0x10000); p32(o, 0x10000); p32(o, 0); p32(o, 0x5f0f3cf5); p16(o, flags); p16(o, upem);
    o += std::string(16, '\0');
    p16(o, -100); p16(o, -200); p16(o, 900); p16(o, 800);
    p16(o, 0); p16(o, 8); p16(o, 2); p16(o, locfmt); p16(o, 0);
    return o;
}
static std::string hhea(int nhm) {
    std::string o;
    p32(o, 0x10000); p16(o, 800); p16(o, -200); p16(o, 90); p16(o, 1000);
    for(int i = 0; i < 11; ++i) p16(o, 0);
    p16(o, 0); p16(o, nhm);
    return o.substr(0, 34) + o.substr(o.size() - 2);
}
static std::string cmap12(int first, int n) {
    std::string o;
    p16(o, 0); p16(o, 2);
    p16(o, 3); p16(o, 1); p32(o, 20);
    std::string f4; // format 4
    p16(f4, 4); p16(f4, 32); p16(f4, 0); p16(f4, 4); p16(f4, 4); p16(f4, 1); p16(f4, 0);
    p16(f4, first + n - 1); p16(f4, 0xffff); p16(f4, 0); p16(f4, first); p16(f4, 0xffff);
    p16(f4, 1 - first); p16(f4, 1); p16(f4, 0); p16(f4, 0);
    p16(o, 3); p16(o, 10); p32(o, 20 + (uint32_t)f4.size());
    o += f4;
    p16(o, 12); p16(o, 0); p32(o, 28); p32(o, 0); p32(o, 1);
    p32(o, (uint32_t)first); p32(o, (uint32_t)(first + n - 1)); p32(o, 1);
    return o;
}
static std::string name_table(const std::string &ps) {
    std::string o;
    p16(o, 0); p16(o, 2); p16(o, 6 + 24);
    std::string u;
    for(char c : ps) p16(u, c);
    for(int id : {4, 6}) { p16(o, 3); p16(o, 1); p16(o, 0x409); p16(o, id); p16(o, (int)u.size()); p16(o, 0); }
    return o + u;
}
static std::string post3() {
    std::string o;
    p32(o, 0x30000);
    o += std::string(28, '\0');
    return o;
}

// --- CFF
static std::string dint(int v, bool s) {
    std::string o;
    if(s && v >= -107 && v <= 107) o += (char)(v + 139);
    else if(s && v >= 108 && v <= 1131) { v -= 108; o += (char)(v / 256 + 247); o += (char)(v % 256); }
    else if(s && v >= -1131 && v <= -108) { v = -v - 108; o += (char)(v / 256 + 251); o += (char)(v % 256); }
    else if(s && v >= -32768 && v <= 32767) { o += (char)28; p16(o, v); }
    else { o += (char)29; p32(o, (uint32_t)v); }
    return o;
}
static std::string dop(int op) {
    std::string o;
    if(op > 255) o += (char)12;
    o += (char)op;
    return o;
}
static std::string real(const std::string &t) {
    std::string nib;
    for(size_t i = 0; i < t.size(); ++i) {
        if(t[i] == '.') nib += (char)10;
        else if(t[i] == 'E' && t[i + 1] == '-') { nib += (char)12; ++i; }
        else if(t[i] == 'E') nib += (char)11;
        else if(t[i] == '-') nib += (char)14;
        else nib += (char)(t[i] - '0');
    }
    nib += (char)15;
    if(nib.size() % 2) nib += (char)15;
    std::string o(1, (char)30);
    for(size_t i = 0; i < nib.size(); i += 2) o += (char)(nib[i] << 4 | nib[i + 1]);
    return o;
}
static std::string index(const std::vector<std::string> &v) {
    std::string o;
    p16(o, (int)v.size());
    if(v.empty()) return o;
    size_t tot = 1;
    for(auto &s : v) tot += s.size();
    int os = tot < 256 ? 1 : tot < 65536 ? 2 : 3;
    o += (char)os;
    size_t off = 1;
    auto put = [&](size_t x) { for(int k = os - 1; k >= 0; --k) o += (char)(x >> (8 * k)); };
    for(auto &s : v) { put(off); off += s.size(); }
    put(off);
    for(auto &s : v) o += s;
    return o;
}
static std::string cs(int v) { // charstring number
    std::string o;
    if(v >= -107 && v <= 107) o += (char)(v + 139);
    else { o += (char)28; p16(o, v); }
    return o;
}
std::string make_cff_otf(const CffSpec &s) {
    const int n = s.nglyphs;
    auto fd_of = [&](int g) { return s.cid ? g * s.nfd / n : 0; };
    auto width = [&](int g) { return 400 + 17 * g; };
    std::vector<std::string> css, strings{"Adobe", "Identity", "The notice", "Synthetic Full", "Synthetic", "Heavy"};
    for(int i = 1; i < n; ++i) strings.push_back("gname" + std::to_string(i));
    const int gbias = s.gsubr_many ? 1131 : 107;
    for(int g = 0; g < n; ++g) {
        std::string c = cs(width(g) - (s.nominal + 50 * fd_of(g))) + cs(10 + g) + cs(-20 - g) + (char)21; // rmoveto
        c += cs(100 + 3 * g) + (char)6 + cs(200) + (char)7 + cs(-100 - 3 * g) + (char)6;               // hlineto vlineto hlineto
        if(s.subrs) c += cs(g % 2 - 107) + (char)10;
        if(s.subrs == 2) c += cs((s.gsubr_many ? 1200 + g % 3 : g % 3) - gbias) + (char)29;
        c += (char)14;
        css.push_back(c);
    }
    std::vector<std::string> gsubrs;
    if(s.subrs == 2)
        for(int k = 0; k < (s.gsubr_many ? 1240 : 3); ++k) gsubrs.push_back(cs(7 + k % 50) + cs(9) + (char)21 + cs(31 + k % 100) + (char)6 + cs(33) + (char)7 + (char)11);
    auto lsubrs = [&](int fd) {
        std::vector<std::string> v;
        for(int k = 0; k < 2; ++k) v.push_back(cs(300 + 40 * fd + k) + cs(50 + k) + (char)21 + cs(60 + 5 * fd) + (char)6 + cs(70 + 9 * k) + (char)7 + (char)11);
        return v;
    };
    std::string charset;
    charset += (char)s.charset;
    auto sid = [&](int g) { return s.cid ? g : 391 + 6 + g - 1; };
    if(s.charset == 0)
        for(int g = 1; g < n; ++g) p16(charset, sid(g));
    else {
        p16(charset, sid(1));
        if(s.charset == 1) charset += (char)(n - 2);
        else p16(charset, n - 2);
    }
    std::string fdsel;
    fdsel += (char)s.fdselect;
    if(s.fdselect == 0)
        for(int g = 0; g < n; ++g) fdsel += (char)fd_of(g);
    else {
        std::string r;
        int cnt = 0;
        for(int g = 0; g < n; ++g)
            if(g == 0 || fd_of(g) != fd_of(g - 1)) { p16(r, g); r += (char)fd_of(g); ++cnt; }
        p16(fdsel, cnt);
        fdsel += r;
        p16(fdsel, n);
    }
    auto priv = [&](int fd) { // dictionary and its subroutines
        auto I = [&](int v) { return dint(v, s.shortints); };
        std::string d = I(-14) + I(14) + I(480) + I(12) + dop(6) + real("0.039625") + dop(0xc09) + I(400) + dop(20) + I(s.nominal + 50 * fd) + dop(21);
        std::string tail = I(70) + dop(10);
        if(!s.subrs) return std::pair{d + tail, std::string()};
        std::string sub;
        auto with = [&](int off) {
            auto so = std::string(1, (char)29);
            p32(so, (uint32_t)off);
            so += dop(19);
            return s.subrs == 3 ? d + so + tail : d + tail + so;
        };
        return std::pair{with((int)with(0).size()), index(lsubrs(fd))};
    };
    // offsets are always written with five bytes, so two passes are enough
    std::string out;
    size_t o_charset = 0, o_fdsel = 0, o_cs = 0, o_fda = 0;
    std::vector<size_t> o_priv((size_t)std::max(1, s.nfd));
    for(int pass = 0; pass < 2; ++pass) {
        auto off = [](size_t v) { std::string o(1, (char)29); p32(o, (uint32_t)v); return o; };
        std::string top;
        auto I = [&](int v) { return dint(v, s.shortints); };
        if(s.cid) top += I(391) + I(392) + I(0) + dop(0xc1e);
        if(s.strings & 1) top += I(393) + dop(1);
        if(s.strings & 2) top += I(394) + dop(2);
        if(s.strings & 4) top += I(395) + dop(3);
        if(s.strings & 8) top += I(396) + dop(4);
        if(s.strings & 16) top += I(-1500) + I(-300) + I(2100) + I(1200) + dop(5);
        if(s.upem != 1000) {
            auto m = s.upem == 2048 ? real("0.00048828125") : real("0.0005");
            top += m + I(0) + I(0) + m + I(0) + I(0) + dop(0xc07);
        }
        if(s.cid) {
            if(s.cidversion) top += real("1.5") + dop(0xc1f);
            if(s.cidcount) top += I(n) + dop(0xc22);
            top += off(o_fda) + dop(0xc24) + off(o_fdsel) + dop(0xc25);
        } else {
            auto [d, sub] = priv(0);
            top += off(d.size()) + off(o_priv[0]) + dop(18);
        }
        top += off(o_charset) + dop(15) + off(o_cs) + dop(17);
        out = std::string("\1\0\4\4", 4) + index({"Synthetic"}) + index({top}) + index(strings) + index(gsubrs);
        o_charset = out.size();
        out += charset;
        if(s.cid) { o_fdsel = out.size(); out += fdsel; }
        o_cs = out.size();
        out += index(css);
        std::vector<std::string> fds;
        for(int k = 0; k < (s.cid ? s.nfd : 1); ++k) {
            auto [d, sub] = priv(k);
            fds.push_back(I(394) + dop(0xc26) + off(d.size()) + off(o_priv[(size_t)k]) + dop(18));
        }
        if(s.cid) { o_fda = out.size(); out += index(fds); }
        for(int k = 0; k < (s.cid ? s.nfd : 1); ++k) {
            auto [d, sub] = priv(k);
            o_priv[(size_t)k] = out.size();
            out += d + sub;
        }
    }
    std::string hmtx, maxp;
    for(int g = 0; g < n; ++g) { p16(hmtx, width(g)); p16(hmtx, 10 + g); }
    p32(maxp, 0x5000); p16(maxp, n);
    return sfnt(0x4f54544f, {{"CFF ", out}, {"head", head(s.upem, 0)}, {"hhea", hhea(n)}, {"hmtx", hmtx}, {"maxp", maxp}, {"cmap", cmap12('a', n - 1)}, {"name", name_table("Synthetic")}, {"post", post3()}});
}

// --- TrueType
std::string make_ttf(const TtSpec &s) {
    const int n = s.nglyphs;
    std::vector<std::string> gl;
    std::vector<int> xmin;
    for(int g = 0; g < n; ++g) {
        std::string o;
        int x = 0;
        if(g == 5) {
        } else if(g < 6 || (!s.overlap && g < 5)) { // a quadrilateral (g corners more)
            int np = 4 + g;
            x = 10 * g;
            p16(o, 1); p16(o, x); p16(o, -g); p16(o, x + 200 + g); p16(o, 300);
            p16(o, np - 1); p16(o, 0);
            for(int k = 0; k < np; ++k) o += (char)(k % 3 == 2 && g % 2 ? 0 : 1);
            std::vector<std::pair<int, int>> pt{{x, -g}, {x + 200 + g, -g}};
            for(int k = 0; k < g; ++k) pt.push_back({x + 190 - k, 20 * (k + 1)});
            pt.push_back({x + 200, 300});
            pt.push_back({x, 290});
            int px = 0, py = 0;
            for(auto &[a, b] : pt) { p16(o, a - px); px = a; (void)b; }
            for(auto &[a, b] : pt) { p16(o, b - py); py = b; (void)a; }
        } else {
            x = 5;
            p16(o, -1); p16(o, x); p16(o, 0); p16(o, 500); p16(o, 500);
            for(int k = 0; k < s.ncomp; ++k) {
                bool last = k == s.ncomp - 1;
                int sc = (g + k) % 2 ? s.scale : 0; // only every second component is scaled
                int fl = 2 | (s.words ? 1 : 0) | (last ? 0 : 0x20) | (sc == 1 ? 8 : sc == 2 ? 0x40 : sc == 3 ? 0x80 : 0) | (k == 0 ? 0x200 : 0);
                if(last && s.instructions) fl |= 0x100;
                p16(o, fl);
                int comp = k == 0 && s.overlap && g > 6 ? g - 1 : 1 + (g + k) % 4;
                p16(o, comp);
                if(s.words) { p16(o, 100 * k + g); p16(o, -30 * k); }
                else { o += (char)(50 * k + g); o += (char)(-30 * k); }
                if(sc == 1) p16(o, 0x2000);
                if(sc == 2) { p16(o, 0x2000); p16(o, 0x3000); }
                if(sc == 3) { p16(o, 0x2000); p16(o, 0x0800); p16(o, -0x0800); p16(o, 0x3000); }
            }
            if(s.instructions) { p16(o, 2); o += "\x4f\x4f"; }
        }
        if(o.size() % 2) o += '\0';
        gl.push_back(o);
        xmin.push_back(x);
    }
    std::string glyf, loca, hmtx, maxp;
    for(auto &g : gl) {
        if(s.loca) p32(loca, (uint32_t)glyf.size()); else p16(loca, (int)glyf.size() / 2);
        glyf += g;
        if(!g.empty()) glyf.append((size_t)s.pad, '\0');
    }
    if(s.loca) p32(loca, (uint32_t)glyf.size()); else p16(loca, (int)glyf.size() / 2);
    int nhm = s.nhm ? s.nhm : n;
    for(int g = 0; g < n; ++g) {
        if(g < nhm) p16(hmtx, 450 + 11 * g);
        p16(hmtx, xmin[(size_t)g]);
    }
    p32(maxp, 0x10000); p16(maxp, n); p16(maxp, 60); p16(maxp, 20); p16(maxp, 120); p16(maxp, 40); p16(maxp, 2);
    for(int v : {4, 16, 8, 8, 64, 64, 8, 6}) p16(maxp, v);
    std::map<std::string, std::string> t{{"head", head(s.upem, s.loca, s.headflags)}, {"hhea", hhea(nhm)}, {"hmtx", hmtx}, {"maxp", maxp}, {"cmap", cmap12('a', n - 1)}, {"glyf", glyf}, {"loca", loca}};
    if(s.tables & 1) t["cvt "] = std::string("\0\1\0\2\0\3", 6);
    if(s.tables & 2) t["fpgm"] = std::string("\xb0\1\x21", 3);
    if(s.tables & 4) t["prep"] = std::string("\xb0\2\x21\xb0\3\x21", 6);
    if(s.kern) {
        std::string k, pairs;
        int np = 0;
        for(int l = 1; l < n; ++l)
            for(int r = 1; r < n; ++r, ++np) { p16(pairs, l); p16(pairs, r); p16(pairs, (l * 7 + r * 131) % 5 * 700 - 1400); }
        int p2 = 1, es = 0;
        while(p2 * 2 <= np) { p2 *= 2; ++es; }
        p16(k, 0); p16(k, 1); p16(k, 0); p16(k, 14 + 6 * np); p16(k, 1); p16(k, np); p16(k, p2 * 6); p16(k, es); p16(k, (np - p2) * 6);
        t["kern"] = k + pairs;
    }
    if(s.name) t["name"] = name_table("SynTT");
    if(s.post) t["post"] = post3();
    return sfnt(0x10000, t);
}
} // namespace mc
