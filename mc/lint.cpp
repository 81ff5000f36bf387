#include "lint.hpp"
#include <cmath>
#include <memory>
#include <cstring>

namespace pdf {
namespace {

// spec grammar: alt = prim ('|' prim)* ; prim = '=Name' | '[' alt ']' | '{' alt '}' | '*'Type | '^'Type | '$'Type | word
const char *GRAMMAR = R"(
Catalog: Type!=Catalog; Version name; Extensions any; Pages!^Pages; PageLabels @pagelabels; Names *Names; Dests any; ViewerPreferences any;
 PageLayout =SinglePage|=OneColumn|=TwoColumnLeft|=TwoColumnRight|=TwoPageLeft|=TwoPageRight;
 PageMode =UseNone|=UseOutlines|=UseThumbs|=FullScreen|=UseOC|=UseAttachments; Outlines ^Outlines; Threads any; OpenAction any; AA any; URI any;
 AcroForm *AcroForm; Metadata $Metadata; StructTreeRoot ^StructTreeRoot; MarkInfo *MarkInfo; Lang text; SpiderInfo any; OutputIntents [*OutputIntent];
 PieceInfo any; OCProperties *OCProperties; Perms any; Legal any; Requirements any; Collection *Collection; NeedsRendering bool; DSS any; AF [*Filespec]; DPartRoot any
MarkInfo: Marked bool; UserProperties bool; Suspects bool
Names: EmbeddedFiles @embfiles; Dests any; AP any; JavaScript any
Pages: Type!=Pages; Kids![any]; Count!uint; Parent ^Pages; Resources *Resources; MediaBox rect; CropBox rect; Rotate int
Page: Type!=Page; Parent!^Pages; LastModified date; Resources *Resources; MediaBox rect; CropBox rect; BleedBox rect; TrimBox rect; ArtBox rect; BoxColorInfo any;
 Contents $Content|[$Content]; Rotate int; Group *Group; Thumb any; B any; Dur num; Trans *Trans; Annots [^Annot]; AA any; Metadata $Metadata; PieceInfo any;
 StructParents uint; ID any; PZ any; SeparationInfo any; Tabs =R|=C|=S|=A|=W; TemplateInstantiated any; PresSteps *NavNode; UserUnit pos; VP [*Viewport]; AF [*Filespec]; OutputIntents any; DPart any
Content: 
Resources: ExtGState {*ExtGState}; ColorSpace {@cs}; Pattern {@pattern}; Shading {@shading}; XObject {@xobject}; Font {@font}; ProcSet [name]; Properties {*OCG}
ExtGState: Type =ExtGState; LW nonneg; LC uint; LJ uint; ML num; D any; RI @ri; OP bool; op bool; OPM int; Font any; BG any; BG2 any; UCR any; UCR2 any; TR any; TR2 any;
 HT =Default|*Halftone; FL num; SM num; SA bool; BM @bm; SMask =None|*SMask; CA unit; ca unit; AIS bool; TK bool; UseBlackPtComp =OFF|=ON|=Default; HTO any
SMask: Type =Mask; S!=Alpha|=Luminosity; G!$Form; BC nums; TR any
Halftone: Type =Halftone; HalftoneType!int; HalftoneName any; Frequency!num; Angle!num; SpotFunction!@spot; AccurateScreens any; TransferFunction any
Group: Type =Group; S!=Transparency; CS @cs; I bool; K bool
Form: Type =XObject; Subtype!=Form; FormType int; BBox!rect; Matrix nums6; Resources *Resources; Group *Group; Ref any; Metadata any; PieceInfo any; LastModified date; StructParent uint; StructParents uint; OC any; Name name; AF any; Measure any
Image: Type =XObject; Subtype!=Image; Width!posint; Height!posint; ColorSpace @cs; BitsPerComponent =1|=2|=4|=8|=16|int; Intent @ri; ImageMask bool; Mask $Image; Decode nums; Interpolate bool; SMask $Image; SMaskInData any; Name name; StructParent uint; Metadata any; OC any; AF any
Tiling: Type =Pattern; PatternType!int; PaintType!int; TilingType!int; BBox!rect; XStep!num; YStep!num; Resources!*Resources; Matrix nums6
ShadingPattern: Type =Pattern; PatternType!int; Shading!@shading; Matrix nums6; ExtGState any
Shading2: ShadingType!int; ColorSpace!@cs; Background nums; BBox rect; AntiAlias bool; Coords!nums4; Domain nums2; Function!@function; Extend @boolpair
Shading3: ShadingType!int; ColorSpace!@cs; Background nums; BBox rect; AntiAlias bool; Coords!nums6; Domain nums2; Function!@function; Extend @boolpair
Shading4: ShadingType!int; ColorSpace!@cs; Background nums; BBox rect; AntiAlias bool; BitsPerCoordinate!int; BitsPerComponent!int; BitsPerFlag!int; Decode!nums; Function @function
Function2: FunctionType!int; Domain!nums2; Range nums; C0 nums; C1 nums; N!num
Function3: FunctionType!int; Domain!nums2; Range nums; Functions![@function]; Bounds!nums; Encode!nums
Function4: FunctionType!int; Domain!nums; Range!nums
Font1: Type!=Font; Subtype!=Type1; Name name; BaseFont!name; Encoding any; ToUnicode any
Font0: Type!=Font; Subtype!=Type0; BaseFont!name; Encoding!=Identity-H; DescendantFonts![*CIDFont]; ToUnicode $CMap
CIDFont: Type!=Font; Subtype!=CIDFontType0|=CIDFontType2; BaseFont!name; CIDSystemInfo!*CIDSystemInfo; FontDescriptor!^FontDescriptor; DW int; W @widths; DW2 any; W2 any; CIDToGIDMap =Identity
CIDSystemInfo: Registry!str; Ordering!str; Supplement!int
FontDescriptor: Type!=FontDescriptor; FontName!name; FontFamily any; FontStretch any; FontWeight any; Flags!uint; FontBBox!rect4; ItalicAngle!num; Ascent num; Descent num; Leading num; CapHeight num; XHeight num; StemV!num; StemH num; AvgWidth num; MaxWidth num; MissingWidth num; FontFile any; FontFile2 $FontFile; FontFile3 $FontFile; CharSet any; Style any; Lang any; FD any; CIDSet any
FontFile: Length1 uint; Length2 uint; Length3 uint; Subtype =CIDFontType0C|=OpenType|=Type1C; Metadata any
CMap: Type any; CMapName any; CIDSystemInfo any
Annot: Type =Annot; Subtype!name; Rect!rect; Contents text; P ^Page; NM text; M any; F uint; AP *AP; AS name; Border any; C nums; StructParent uint; OC any; AF any; ca unit; CA unit; BM any; Lang text;
 @Text Open bool; @Text Name name; @Text State any; @Link A @action; @Link Dest @dest; @Link H name; @Link PA any; @Link QuadPoints nums; @Link BS any;
 @Line L!nums4; @Line BS any; @Line LE @lineends; @Line IC nums; @Line LL num; @Line LLE num; @Line Cap bool; @Line IT name;
 @FileAttachment FS!*Filespec; @FileAttachment Name name; @Widget H name; @Widget MK any; @Widget A any; @Widget AA any; @Widget BS any; @Widget Parent ^Field;
 @PrinterMark MN name; @Screen T text; @Screen MK any; @Screen A @action; @3D 3DD!$ThreeD; @3D 3DV any; @3D 3DA any; @3D 3DI bool; @3D 3DB rect
AP: N!@apstream; R any; D any
ThreeD: Type =3D; Subtype!=U3D|=PRC; VA any; DV any; Resources any; OnInstantiate any; AN any
Field: Type any; FT =Btn|=Tx|=Ch|=Sig; Parent ^Field; Kids [any]; T text; TU text; TM text; Ff uint; V text|name; DV any; AA any; Opt [text]; TI int; I any; MaxLen uint; DA str; Q int; DS any; RV any
AcroForm: Fields![^Field]; NeedAppearances bool; SigFlags int; CO any; DR *Resources; DA str; Q int; XFA any
Outlines: Type =Outlines; First ^OutlineItem; Last ^OutlineItem; Count int
OutlineItem: Title!text; Parent!any; Prev ^OutlineItem; Next ^OutlineItem; First ^OutlineItem; Last ^OutlineItem; Count int; Dest @dest; A @action; SE any; C nums3; F uint
StructTreeRoot: Type!=StructTreeRoot; K any; IDTree any; ParentTree @numtree; ParentTreeNextKey uint; RoleMap {name}; ClassMap any; Namespaces any; AF any
StructElem: Type =StructElem; S!name; P!any; ID str; Pg ^Page; K any; A any; C any; R int; T text; Lang text; Alt text; E text; ActualText text; AF any; Ref any; NS any; PhoneticAlphabet any; Phoneme any
OCProperties: OCGs![^OCG]; D!*OCConfig; Configs any
OCConfig: Name text; Creator text; BaseState =ON|=OFF|=Unchanged; ON [^OCG]; OFF [^OCG]; Intent any; AS any; Order any; ListMode name; RBGroups any; Locked any
OCG: Type!=OCG; Name!text; Intent any; Usage any
Trans: Type =Trans; S =Split|=Blinds|=Box|=Wipe|=Dissolve|=Glitter|=R|=Fly|=Push|=Cover|=Uncover|=Fade; D nonneg; Dm =H|=V; M =I|=O; Di num|=None; SS num; B bool
NavNode: Type =NavNode; NA @action; PA @action; Next *NavNode; Prev *NavNode; Dur num
Viewport: Type =Viewport; BBox!rect; Name text; Measure *Measure; PtData any
Measure: Type =Measure; Subtype =RL|=GEO; R!text; X![*NumberFormat]; Y [*NumberFormat]; D![*NumberFormat]; A![*NumberFormat]; T any; S any; O any; CYX any
NumberFormat: Type =NumberFormat; U!text; C!num; F any; D any; FD any; RT any; RD any; PS any; SS any; O any
Filespec: Type =Filespec; FS any; F!str; UF text; EF {$EmbeddedFile}; RF any; Desc text; CI any; ID any; V bool; AFRelationship name; Thumb any
EmbeddedFile: Type =EmbeddedFile; Subtype name; Params *EFParams
EFParams: Size uint; CreationDate date; ModDate date; Mac any; CheckSum str
Collection: Type =Collection; Schema {*CollectionField}; D str; View =D|=T|=H|=C; Navigator any; Colors any; Sort any; Folders any; Split any
CollectionField: Type =CollectionField; Subtype!=S|=D|=N|=F|=Desc|=ModDate|=CreationDate|=Size|=CompressedSize; N!text; O int; V bool; E bool
OutputIntent: Type =OutputIntent; S!=GTS_PDFX|=GTS_PDFA1|=ISO_PDFE1; OutputCondition text; OutputConditionIdentifier text; RegistryName text; Info text; DestOutputProfile $ICC; DestOutputProfileRef any
ICC: N!int; Alternate @cs; Range nums; Metadata any
Info: Title text; Author text; Subject text; Keywords text; Creator text; Producer text; CreationDate date; ModDate date; Trapped =True|=False|=Unknown; GTS_PDFXVersion text; GTS_PDFXConformance text
PageLabel: Type =PageLabel; S =D|=R|=r|=A|=a; P text; St posint
Metadata: Type!=Metadata; Subtype!=XML
Lab: WhitePoint!nums3; BlackPoint nums3; Range nums4
ActURI: Type =Action; S!=URI; URI!str; IsMap bool; Next any
ActTrans: Type =Action; S!=Trans; Trans!*Trans; Next @action
ActOCG: Type =Action; S!=SetOCGState; State!@ocgstate; PreserveRB bool; Next @action
ActRend: Type =Action; S!=Rendition; R any; AN any; OP int; JS any; Next any
)";

struct Spec;
using SpecP = std::shared_ptr<Spec>;
struct Spec {
    std::vector<SpecP> alts; // when more than one
    char k = 0;              // '=', '[', '{', '*', '^', '$', 'w' word, '@' code
    std::string w;
    SpecP in;
};
struct KeySpec {
    std::string key, subtype;
    bool req = false;
    SpecP spec;
};
using TypeSpec = std::vector<KeySpec>;

SpecP parse_alt(const std::string &s, size_t &p);
SpecP parse_prim(const std::string &s, size_t &p) {
    auto r = std::make_shared<Spec>();
    auto word = [&] {
        std::string w;
        while(p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || s[p] == '-')) w += s[p++];
        return w;
    };
    char c = s.at(p);
    if(c == '=' || c == '*' || c == '^' || c == '$' || c == '@') {
        ++p;
        r->k = c;
        r->w = word();
    } else if(c == '[' || c == '{') {
        ++p;
        r->k = c;
        r->in = parse_alt(s, p);
        ++p;
    } else {
        r->k = 'w';
        r->w = word();
        if(r->w.empty()) throw std::runtime_error("bad grammar near " + s.substr(p, 20));
    }
    return r;
}
SpecP parse_alt(const std::string &s, size_t &p) {
    auto r = parse_prim(s, p);
    if(p >= s.size() || s[p] != '|') return r;
    auto a = std::make_shared<Spec>();
    a->alts.push_back(r);
    while(p < s.size() && s[p] == '|') {
        ++p;
        a->alts.push_back(parse_prim(s, p));
    }
    return a;
}
const std::map<std::string, TypeSpec> &grammar() {
    static const std::map<std::string, TypeSpec> g = [] {
        std::map<std::string, TypeSpec> r;
        std::string t = GRAMMAR, cur;
        size_t p = 0;
        // split to type blocks: a line that starts with a nonspace starts a type
        std::vector<std::string> blocks;
        while(p < t.size()) {
            size_t e = t.find('\n', p);
            std::string l = t.substr(p, e - p);
            p = e + 1;
            if(l.empty()) continue;
            if(l[0] != ' ') blocks.push_back(l);
            else blocks.back() += l;
        }
        for(auto &b : blocks) {
            size_t c = b.find(':');
            TypeSpec ts;
            size_t q = c + 1;
            while(q < b.size()) {
                while(q < b.size() && (b[q] == ' ' || b[q] == ';')) ++q;
                if(q >= b.size()) break;
                KeySpec ks;
                if(b[q] == '@') {
                    ++q;
                    while(b[q] != ' ') ks.subtype += b[q++];
                    ++q;
                }
                while(isalnum((unsigned char)b[q]) || b[q] == '_') ks.key += b[q++];
                if(b[q] == '!') { ks.req = true; ++q; }
                while(b[q] == ' ') ++q;
                ks.spec = parse_alt(b, q);
                ts.push_back(ks);
            }
            r[b.substr(0, c)] = ts;
        }
        return r;
    }();
    return g;
}

bool valid_date(const std::string &s) {
    // D:YYYYMMDDHHmmSSOHH'mm
    if(s.rfind("D:", 0) != 0) return false;
    size_t p = 2;
    auto digs = [&](int n, int lo, int hi) {
        int v = 0;
        for(int i = 0; i < n; ++i) {
            if(p >= s.size() || !isdigit((unsigned char)s[p])) return false;
            v = v * 10 + (s[p++] - '0');
        }
        return v >= lo && v <= hi;
    };
    if(!digs(4, 0, 9999)) return false;
    if(p == s.size()) return true;
    if(!digs(2, 1, 12)) return false;
    if(p == s.size()) return true;
    if(!digs(2, 1, 31)) return false;
    if(p == s.size()) return true;
    if(!digs(2, 0, 23)) return false;
    if(p == s.size()) return true;
    if(!digs(2, 0, 59)) return false;
    if(p == s.size()) return true;
    if(!digs(2, 0, 59)) return false;
    if(p == s.size()) return true;
    char o = s[p++];
    if(o == 'Z' && p == s.size()) return true;
    if(o != '+' && o != '-' && o != 'Z') return false;
    if(!digs(2, 0, 23)) return false;
    if(p == s.size()) return true;
    if(s[p++] != '\'') return false;
    if(p == s.size()) return true;
    if(!digs(2, 0, 59)) return false;
    if(p == s.size()) return true;
    return s.substr(p) == "'";
}

const std::set<std::string> std14 = {"Times-Roman", "Helvetica", "Courier", "Symbol", "Times-Bold", "Helvetica-Bold", "Courier-Bold",
    "ZapfDingbats", "Times-Italic", "Helvetica-Oblique", "Courier-Oblique", "Times-BoldItalic", "Helvetica-BoldOblique", "Courier-BoldOblique"};
const std::set<std::string> blend = {"Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight",
    "SoftLight", "Difference", "Exclusion", "Hue", "Saturation", "Color", "Luminosity", "Compatible"};
const std::set<std::string> intents = {"AbsoluteColorimetric", "RelativeColorimetric", "Saturation", "Perceptual"};
const std::set<std::string> spots = {"SimpleDot", "InvertedSimpleDot", "DoubleDot", "InvertedDoubleDot", "CosineDot", "Double", "InvertedDouble",
    "Line", "LineX", "LineY", "Round", "Ellipse", "EllipseA", "InvertedEllipseA", "EllipseB", "EllipseC", "InvertedEllipseC", "Square", "Cross", "Rhomboid", "Diamond"};
const std::set<std::string> lends = {"Square", "Circle", "Diamond", "OpenArrow", "ClosedArrow", "None", "Butt", "ROpenArrow", "RClosedArrow", "Slash"};
const std::set<std::string> stdstruct = {"Document", "DocumentFragment", "Part", "Sect", "Div", "Aside", "NonStruct", "P", "H", "H1", "H2", "H3", "H4", "H5",
    "H6", "H7", "Title", "FENote", "Sub", "Lbl", "Span", "Em", "Strong", "Link", "Annot", "Form", "Ruby", "RB", "RT", "RP", "Warichu", "WT", "WP", "L", "LI",
    "LBody", "Table", "TR", "TH", "TD", "THead", "TBody", "TFoot", "Caption", "Figure", "Formula", "Artifact"};

struct Linter {
    const Doc &d;
    std::vector<std::string> out;
    std::set<std::pair<int, std::string>> seen;
    std::map<std::string, std::set<int>> bytype; // object numbers met as a type
    explicit Linter(const Doc &doc) : d(doc) {}

    void bad(const std::string &w, const std::string &m) {
        if(out.size() < 40) out.push_back(w + ": " + m);
    }
    bool isnums(const Obj &o, int n) {
        if(o.t != Obj::Arr) return false;
        if(n >= 0 && (int)o.a.size() != n) return false;
        for(auto &x : o.a)
            if(!d.deref(x).isnum()) return false;
        return true;
    }
    bool check(const Obj &raw, const SpecP &s, const std::string &w, bool quiet = false) {
        if(!s->alts.empty()) {
            for(auto &a : s->alts) {
                size_t n = out.size();
                auto sv = seen;
                if(check(raw, a, w, true)) {
                    if(a->k == '*' || a->k == '^' || a->k == '$' || a->k == '[' || a->k == '{') {
                        out.resize(n);
                        seen = sv;
                        check(raw, a, w);
                    }
                    return true;
                }
                out.resize(n);
                seen = sv;
            }
            if(!quiet) bad(w, "no alternative matches " + show(raw, 2));
            return false;
        }
        const Obj &o = d.deref(raw);
        auto fail = [&](const std::string &m) {
            if(!quiet) bad(w, m + ": " + show(raw, 2));
            return false;
        };
        switch(s->k) {
        case '=':
            if(o.t != Obj::Name || o.s != s->w) return fail("expected /" + s->w);
            return true;
        case '[':
            if(o.t != Obj::Arr) return fail("expected an array");
            for(size_t i = 0; i < o.a.size(); ++i)
                if(!check(o.a[i], s->in, w + "[" + std::to_string(i) + "]", quiet) && quiet) return false;
            return true;
        case '{':
            if(o.t != Obj::Dict) return fail("expected a dictionary");
            for(auto &[k, v] : o.d)
                if(!check(v, s->in, w + "/" + k, quiet) && quiet) return false;
            return true;
        case '^':
        case '*':
            if(s->k == '^' && raw.t != Obj::Ref) return fail("expected an indirect reference");
            if(o.t != Obj::Dict) return fail("expected a dictionary (" + s->w + ")");
            if(quiet) return true;
            typed(raw, s->w, w);
            return true;
        case '$':
            if(raw.t != Obj::Ref || o.t != Obj::Stream) return fail("expected a stream (" + s->w + ")");
            if(quiet) return true;
            typed(raw, s->w, w);
            return true;
        case '@':
            return code(raw, s->w, w, quiet);
        }
        const auto &n = s->w;
        if(n == "any") return true;
        if(n == "int") return o.t == Obj::Int || fail("expected an integer");
        if(n == "uint") return (o.t == Obj::Int && o.i >= 0) || fail("expected a nonnegative integer");
        if(n == "posint") return (o.t == Obj::Int && o.i > 0) || fail("expected a positive integer");
        if(n == "num") return o.isnum() || fail("expected a number");
        if(n == "nonneg") return (o.isnum() && o.num() >= 0) || fail("expected a nonnegative number");
        if(n == "pos") return (o.isnum() && o.num() > 0) || fail("expected a positive number");
        if(n == "unit") return (o.isnum() && o.num() >= 0 && o.num() <= 1) || fail("expected a number in 0..1");
        if(n == "bool") return o.t == Obj::Bool || fail("expected a boolean");
        if(n == "name") return (o.t == Obj::Name && !o.s.empty()) || fail("expected a name");
        if(n == "str") return o.t == Obj::Str || fail("expected a string");
        if(n == "text") return (o.t == Obj::Str && text_string(o)) || fail("expected a text string");
        if(n == "date") return (o.t == Obj::Str && valid_date(o.s)) || fail("expected a date");
        if(n == "nums") return isnums(o, -1) || fail("expected numbers");
        if(n == "nums2") return isnums(o, 2) || fail("expected 2 numbers");
        if(n == "nums3") return isnums(o, 3) || fail("expected 3 numbers");
        if(n == "nums4" || n == "rect" || n == "rect4") return isnums(o, 4) || fail("expected 4 numbers");
        if(n == "nums6") return isnums(o, 6) || fail("expected 6 numbers");
        throw std::runtime_error("grammar: " + n);
    }
    void typed(const Obj &raw, const std::string &type, const std::string &w0) {
        const Obj &o = d.deref(raw);
        std::string w = w0;
        if(raw.t == Obj::Ref) {
            bytype[type].insert((int)raw.i);
            if(!seen.insert({(int)raw.i, type}).second) return;
            w = type + "(" + std::to_string(raw.i) + ")";
        }
        auto it = grammar().find(type);
        if(it == grammar().end()) throw std::runtime_error("grammar: no type " + type);
        std::string sub;
        if(auto *st = o.get("Subtype"); st && st->t == Obj::Name) sub = st->s;
        for(auto &k : it->second) {
            if(!k.subtype.empty() && k.subtype != sub) continue;
            auto *v = o.get(k.key);
            if(!v) {
                if(k.req) bad(w, "required key /" + k.key + " is missing");
                continue;
            }
            if(v->t == Obj::Null) {
                if(k.req) bad(w, "required key /" + k.key + " is null");
                continue;
            }
            check(*v, k.spec, w + "/" + k.key);
        }
        for(auto &[k, v] : o.d) {
            bool known = false;
            for(auto &x : it->second)
                if(x.key == k && (x.subtype.empty() || x.subtype == sub)) known = true;
            if(o.t == Obj::Stream && (k == "Length" || k == "Filter" || k == "DecodeParms" || k == "DL")) known = true;
            if(!known) bad(w, "unknown key /" + k + " in " + type);
        }
        extra(raw, o, type, w, sub);
    }
    int ncomp(const Obj &raw) { // number of components of a colour space, 0: pattern, -1: bad
        const Obj &o = d.deref(raw);
        if(o.t == Obj::Name) {
            if(o.s == "DeviceGray") return 1;
            if(o.s == "DeviceRGB") return 3;
            if(o.s == "DeviceCMYK") return 4;
            if(o.s == "Pattern") return 0;
            return -1;
        }
        if(o.t != Obj::Arr || o.a.empty()) return -1;
        const Obj &h = d.deref(o.a[0]);
        if(h.isname("ICCBased") && o.a.size() == 2) {
            auto *n = d.dget(d.deref(o.a[1]), "N");
            return n && n->t == Obj::Int ? (int)n->i : -1;
        }
        if(h.isname("Separation")) return 1;
        if(h.isname("Lab")) return 3;
        return -1;
    }
    // inputs and outputs of a function, {-1,-1} when unknown
    std::pair<int, int> arity(const Obj &raw) {
        const Obj &f = d.deref(raw);
        if(!f.isdict()) return {-1, -1};
        auto *ft = d.dget(f, "FunctionType");
        if(!ft) return {-1, -1};
        auto *dom = d.dget(f, "Domain"), *ran = d.dget(f, "Range");
        int in = dom ? (int)dom->a.size() / 2 : -1;
        if(ft->i == 2) {
            auto *c0 = d.dget(f, "C0");
            return {in, c0 ? (int)c0->a.size() : 1};
        }
        if(ft->i == 3) {
            auto *fs = d.dget(f, "Functions");
            return {in, fs && !fs->a.empty() ? arity(fs->a[0]).second : -1};
        }
        return {in, ran ? (int)ran->a.size() / 2 : -1};
    }
    bool code(const Obj &raw, const std::string &n, const std::string &w, bool quiet) {
        const Obj &o = d.deref(raw);
        auto fail = [&](const std::string &m) {
            if(!quiet) bad(w, m + ": " + show(raw, 2));
            return false;
        };
        if(n == "cs") {
            int c = ncomp(raw);
            if(c < 0) return fail("bad colour space");
            if(o.t == Obj::Arr) {
                auto &h = d.deref(o.a[0]);
                if(h.s == "ICCBased") {
                    if(o.a[1].t != Obj::Ref || d.deref(o.a[1]).t != Obj::Stream) return fail("ICCBased without a stream");
                    if(!quiet) typed(o.a[1], "ICC", w);
                } else if(h.s == "Separation") {
                    if(o.a.size() != 4) return fail("bad Separation");
                    if(d.deref(o.a[1]).t != Obj::Name || d.deref(o.a[1]).s.empty()) return fail("bad Separation name");
                    int alt = ncomp(o.a[2]);
                    if(alt <= 0) return fail("bad alternate space");
                    auto ar = arity(o.a[3]);
                    if(ar.first != 1 || ar.second != alt)
                        return fail("tint transform maps " + std::to_string(ar.first) + " to " + std::to_string(ar.second) + " components, alternate space has " +
                                    std::to_string(alt));
                    if(!quiet) code(o.a[3], "function", w, quiet);
                } else if(h.s == "Lab") {
                    if(o.a.size() != 2 || !d.deref(o.a[1]).isdict()) return fail("bad Lab");
                    if(!quiet) typed(o.a[1], "Lab", w);
                }
            }
            return true;
        }
        if(n == "ri") return (o.t == Obj::Name && intents.count(o.s)) || fail("bad rendering intent");
        if(n == "bm") return (o.t == Obj::Name && blend.count(o.s)) || fail("bad blend mode");
        if(n == "spot") return (o.t == Obj::Name && spots.count(o.s)) || fail("bad spot function");
        if(n == "boolpair")
            return (o.t == Obj::Arr && o.a.size() == 2 && d.deref(o.a[0]).t == Obj::Bool && d.deref(o.a[1]).t == Obj::Bool) || fail("expected two booleans");
        if(n == "lineends")
            return (o.t == Obj::Arr && o.a.size() == 2 && lends.count(d.deref(o.a[0]).s) && lends.count(d.deref(o.a[1]).s)) || fail("bad line endings");
        if(n == "pattern") {
            if(!o.isdict()) return fail("not a pattern");
            auto *pt = d.dget(o, "PatternType");
            if(!pt || (pt->i != 1 && pt->i != 2)) return fail("bad PatternType");
            if(pt->i == 1 && (o.t != Obj::Stream)) return fail("tiling pattern is not a stream");
            if(!quiet) typed(raw, pt->i == 1 ? "Tiling" : "ShadingPattern", w);
            return true;
        }
        if(n == "shading") {
            if(!o.isdict()) return fail("not a shading");
            auto *pt = d.dget(o, "ShadingType");
            int64_t k = pt && pt->t == Obj::Int ? pt->i : -1;
            if(k == 2 && o.t == Obj::Dict) typed(raw, "Shading2", w);
            else if(k == 3 && o.t == Obj::Dict) typed(raw, "Shading3", w);
            else if((k == 4 || k == 6 || k == 7) && o.t == Obj::Stream) typed(raw, "Shading4", w);
            else return fail("bad shading");
            auto *cs = o.get("ColorSpace");
            int nc = cs ? ncomp(*cs) : -1;
            if(nc <= 0) return fail("shading with a bad colour space");
            if(auto *f = o.get("Function")) {
                auto ar = arity(*f);
                if(ar.first != 1 || ar.second != nc)
                    return fail("function of the shading maps " + std::to_string(ar.first) + " to " + std::to_string(ar.second) + ", colour space has " +
                                std::to_string(nc) + " components");
            }
            if(k >= 4) {
                auto *dec = d.dget(o, "Decode");
                int comps = o.get("Function") ? 1 : nc;
                if(!dec || (int)dec->a.size() != 4 + 2 * comps) return fail("Decode array of the shading has the wrong size");
            }
            return true;
        }
        if(n == "function") {
            if(!o.isdict()) return fail("not a function");
            auto *pt = d.dget(o, "FunctionType");
            int64_t k = pt && pt->t == Obj::Int ? pt->i : -1;
            if(quiet) return k == 2 || k == 3 || k == 4;
            if(k == 2 && o.t == Obj::Dict) typed(raw, "Function2", w);
            else if(k == 3 && o.t == Obj::Dict) typed(raw, "Function3", w);
            else if(k == 4 && o.t == Obj::Stream) typed(raw, "Function4", w);
            else return fail("bad function");
            return true;
        }
        if(n == "xobject") {
            if(raw.t != Obj::Ref || o.t != Obj::Stream) return fail("not an XObject");
            auto *st = d.dget(o, "Subtype");
            if(!st) return fail("XObject has no subtype");
            if(quiet) return true;
            if(st->s == "Image") typed(raw, "Image", w);
            else if(st->s == "Form") typed(raw, "Form", w);
            else return fail("bad XObject subtype");
            return true;
        }
        if(n == "apstream") {
            if(o.t == Obj::Stream) {
                typed(raw, "Form", w);
                return true;
            }
            if(o.t != Obj::Dict) return fail("bad appearance");
            for(auto &[k, v] : o.d) {
                if(v.t != Obj::Ref || d.deref(v).t != Obj::Stream) return fail("appearance state is not a stream");
                typed(v, "Form", w);
            }
            return true;
        }
        if(n == "font") {
            if(o.t != Obj::Dict) return fail("not a font");
            auto *st = d.dget(o, "Subtype");
            if(st && st->isname("Type1")) {
                typed(raw, "Font1", w);
                auto *bf = d.dget(o, "BaseFont");
                if(bf && !std14.count(bf->s)) return fail("unembedded font is not one of the standard 14");
            } else if(st && st->isname("Type0")) {
                typed(raw, "Font0", w);
                auto *df = d.dget(o, "DescendantFonts");
                if(!df || df->a.size() != 1) return fail("DescendantFonts must have one element");
                auto &cid = d.deref(df->a[0]);
                auto *bf = d.dget(o, "BaseFont"), *cbf = d.dget(cid, "BaseFont"), *fd = d.dget(cid, "FontDescriptor");
                auto *fn = fd ? d.dget(*fd, "FontName") : nullptr;
                if(!bf || !cbf || !fn || cbf->s != fn->s) return fail("font names of the font and its descriptor differ");
                if(bf->s != cbf->s && bf->s != cbf->s + "-Identity-H") return fail("BaseFont does not match the descendant");
            } else return fail("bad font subtype");
            return true;
        }
        if(n == "widths") {
            if(o.t != Obj::Arr) return fail("W is not an array");
            size_t i = 0;
            while(i < o.a.size()) {
                if(d.deref(o.a[i]).t != Obj::Int || i + 1 >= o.a.size()) return fail("bad W array");
                auto &x = d.deref(o.a[i + 1]);
                if(x.t == Obj::Arr) {
                    if(!isnums(x, -1)) return fail("bad W array");
                    i += 2;
                } else {
                    if(i + 2 >= o.a.size() || !d.deref(o.a[i + 2]).isnum()) return fail("bad W array");
                    i += 3;
                }
            }
            return true;
        }
        if(n == "dest") {
            if(o.t != Obj::Arr || o.a.size() < 2) return fail("bad destination");
            if(o.a[0].t != Obj::Ref || !d.dget(d.deref(o.a[0]), "Type") || !d.dget(d.deref(o.a[0]), "Type")->isname("Page"))
                return fail("destination is not a page");
            auto &k = d.deref(o.a[1]);
            size_t want = k.isname("XYZ") ? 5 : k.isname("Fit") || k.isname("FitB") ? 2 : k.isname("FitR") ? 6 : k.isname("FitH") || k.isname("FitV") ? 3 : 0;
            if(want != o.a.size()) return fail("bad destination");
            for(size_t i = 2; i < o.a.size(); ++i)
                if(!d.deref(o.a[i]).isnum() && !(d.deref(o.a[i]).t == Obj::Null)) return fail("bad destination");
            return true;
        }
        if(n == "action") {
            if(o.t != Obj::Dict) return fail("not an action");
            auto *s = d.dget(o, "S");
            if(!s) return fail("action without /S");
            if(quiet) return true;
            if(s->s == "URI") typed(raw, "ActURI", w);
            else if(s->s == "Trans") typed(raw, "ActTrans", w);
            else if(s->s == "SetOCGState") typed(raw, "ActOCG", w);
            else if(s->s == "Rendition") typed(raw, "ActRend", w);
            else return fail("unknown action");
            return true;
        }
        if(n == "ocgstate") {
            if(o.t != Obj::Arr) return fail("State is not an array");
            for(size_t i = 0; i < o.a.size(); ++i) {
                auto &x = d.deref(o.a[i]);
                if(x.t == Obj::Name) {
                    if(x.s != "ON" && x.s != "OFF" && x.s != "Toggle") return fail("bad State");
                } else {
                    if(i == 0 || o.a[i].t != Obj::Ref) return fail("bad State");
                    typed(o.a[i], "OCG", w);
                }
            }
            return true;
        }
        if(n == "numtree" || n == "pagelabels" || n == "embfiles") {
            if(o.t != Obj::Dict) return fail("not a tree dictionary");
            bool names = n == "embfiles";
            auto leaf = [&](const Obj &v) {
                if(names) {
                    if(d.deref(v).t != Obj::Dict) return bad(w, "embedded file is not a file specification"), void();
                    typed(v, "Filespec", w);
                } else if(n == "pagelabels") {
                    if(d.deref(v).t != Obj::Dict) return bad(w, "bad page label"), void();
                    typed(v, "PageLabel", w);
                }
            };
            bool first = true;
            Obj last;
            std::function<void(const Obj &, bool, int)> walk = [&](const Obj &t, bool root, int depth) {
                if(depth > 50) return;
                auto *kids = d.dget(t, "Kids"), *arr = d.dget(t, names ? "Names" : "Nums");
                for(auto &[k, v] : t.d)
                    if(k != "Kids" && k != "Limits" && k != (names ? "Names" : "Nums")) bad(w, "unknown key /" + k + " in tree");
                if((kids != nullptr) == (arr != nullptr)) return bad(w, "tree node needs exactly one of Kids and its leaves"), void();
                if(root && t.get("Limits")) bad(w, "root of the tree has Limits");
                if(!root && !t.get("Limits")) bad(w, "tree node has no Limits");
                if(kids) {
                    for(auto &k : kids->a) walk(d.deref(k), false, depth + 1);
                    return;
                }
                if(arr->a.size() % 2) return bad(w, "odd tree leaf"), void();
                for(size_t i = 0; i < arr->a.size(); i += 2) {
                    auto &k = d.deref(arr->a[i]);
                    if(names ? k.t != Obj::Str : k.t != Obj::Int) return bad(w, "bad tree key"), void();
                    if(!first && (names ? !(last.s < k.s) : !(last.i < k.i))) bad(w, "tree keys are not in ascending order");
                    first = false;
                    last = k;
                    leaf(arr->a[i + 1]);
                }
                if(auto *lim = d.dget(t, "Limits")) {
                    if(lim->a.size() != 2 || arr->a.empty()) return bad(w, "bad Limits"), void();
                    auto &l0 = d.deref(lim->a[0]), &l1 = d.deref(lim->a[1]), &k0 = d.deref(arr->a[0]), &k1 = d.deref(arr->a[arr->a.size() - 2]);
                    if(names ? (l0.s != k0.s || l1.s != k1.s) : (l0.i != k0.i || l1.i != k1.i)) bad(w, "Limits do not match the leaves");
                }
            };
            walk(o, true, 0);
            return true;
        }
        throw std::runtime_error("grammar: @" + n);
    }
    const Obj *resources(const Obj &o) { return d.dget(o, "Resources"); }
    std::string where_of(const Obj &raw, const std::string &t) { return t + "(" + (raw.t == Obj::Ref ? std::to_string(raw.i) : "direct") + ")"; }
    void extra(const Obj &raw, const Obj &o, const std::string &type, const std::string &w, const std::string &) {
        if(type == "Form" || type == "Tiling") {
            lint_content(d, parse_content(d.stream_data(o)), resources(o), w, out, false);
            if(type == "Tiling") {
                auto pos = [&](const char *k, int64_t lo, int64_t hi) {
                    auto *v = d.dget(o, k);
                    if(v && (v->i < lo || v->i > hi)) bad(w, std::string("bad /") + k);
                };
                pos("PaintType", 1, 2);
                pos("TilingType", 1, 3);
                auto *x = d.dget(o, "XStep"), *y = d.dget(o, "YStep");
                if((x && x->num() == 0) || (y && y->num() == 0)) bad(w, "zero pattern step");
            }
        } else if(type == "Image") image(o, w);
        else if(type == "ICC") {
            auto *n = d.dget(o, "N");
            auto data = d.stream_data(o);
            if(n && n->i != 1 && n->i != 3 && n->i != 4) bad(w, "bad /N");
            if(data.size() < 128 || data.substr(36, 4) != "acsp") bad(w, "not an ICC profile");
            else {
                auto cs = data.substr(16, 4);
                int want = cs == "GRAY" ? 1 : cs == "CMYK" ? 4 : 3;
                if(n && n->i != want) bad(w, "/N does not match the profile's colour space " + cs);
            }
        } else if(type == "Function2") {
            auto *c0 = d.dget(o, "C0"), *c1 = d.dget(o, "C1");
            if((c0 ? c0->a.size() : 1) != (c1 ? c1->a.size() : 1)) bad(w, "C0 and C1 differ in size");
        } else if(type == "Function3") {
            auto *f = d.dget(o, "Functions"), *b = d.dget(o, "Bounds"), *e = d.dget(o, "Encode");
            if(f && b && e) {
                if(f->a.empty() || b->a.size() != f->a.size() - 1) bad(w, "Bounds has the wrong size");
                if(e->a.size() != f->a.size() * 2) bad(w, "Encode has the wrong size");
                for(auto &x : f->a) {
                    auto ar = arity(x);
                    if(ar.first != 1 || ar.second != arity(f->a[0]).second) bad(w, "subfunction arity mismatch");
                }
            }
        } else if(type == "Function4") {
            auto *dm = d.dget(o, "Domain"), *r = d.dget(o, "Range");
            if((dm && (dm->a.size() % 2 || dm->a.empty())) || (r && (r->a.size() % 2 || r->a.empty()))) bad(w, "odd Domain or Range");
        } else if(type == "Annot") {
            static const std::set<std::string> subs = {"Text", "Link", "Line", "FileAttachment", "Widget", "PrinterMark", "Screen", "3D"};
            auto *s = d.dget(o, "Subtype");
            if(s && !subs.count(s->s)) bad(w, "unknown annotation subtype");
            auto *ap = d.dget(o, "AP");
            auto *n = ap ? d.dget(*ap, "N") : nullptr;
            if(n && n->t == Obj::Dict && !n->d.empty()) {
                auto *as = d.dget(o, "AS");
                if(!as) bad(w, "appearance states without /AS");
                else if(!n->get(as->s)) bad(w, "/AS names no appearance state");
            }
        } else if(type == "Shading4") {
            auto *k = d.dget(o, "ShadingType");
            auto *bc = d.dget(o, "BitsPerCoordinate"), *bp = d.dget(o, "BitsPerComponent"), *bf = d.dget(o, "BitsPerFlag");
            auto *cs = o.get("ColorSpace");
            if(k && bc && bp && bf && cs) {
                int64_t nc = ncomp(*cs);
                auto data = d.stream_data(o);
                int64_t bits = (int64_t)data.size() * 8, pos = 0;
                auto take = [&](int64_t n) {
                    pos += n;
                    return pos <= bits;
                };
                auto flag = [&]() {
                    int v = 0;
                    for(int64_t i = 0; i < bf->i; ++i) {
                        if(pos >= bits) return -1;
                        v = v * 2 + ((((unsigned char)data[pos / 8]) >> (7 - pos % 8)) & 1);
                        ++pos;
                    }
                    return v;
                };
                if(k->i == 4) {
                    while(pos + 8 <= bits) {
                        int f = flag();
                        if(f < 0 || f > 2) return bad(w, "bad edge flag " + std::to_string(f));
                        if(!take(2 * bc->i + nc * bp->i)) return bad(w, "truncated mesh data");
                        pos = (pos + 7) / 8 * 8;
                    }
                } else {
                    bool first = true;
                    while(pos + 8 <= bits) {
                        int f = flag();
                        if(f < 0 || f > 3 || (first && f != 0)) return bad(w, "bad edge flag " + std::to_string(f));
                        first = false;
                        int npts = f == 0 ? 12 : 8, ncol = f == 0 ? 4 : 2;
                        if(!take(npts * 2 * bc->i + ncol * nc * bp->i)) return bad(w, "truncated mesh data");
                        pos = (pos + 7) / 8 * 8;
                    }
                }
            }
        } else if(type == "Metadata") {
            auto data = d.stream_data(o);
            if(data.empty()) bad(w, "empty metadata");
        } else if(type == "Content") {
        } else if(type == "CollectionField" || type == "Filespec") {
        }
        (void)raw;
    }
    void image(const Obj &o, const std::string &w) {
        auto *W = d.dget(o, "Width"), *H = d.dget(o, "Height"), *B = d.dget(o, "BitsPerComponent"), *im = d.dget(o, "ImageMask");
        auto *cs = o.get("ColorSpace");
        bool mask = im && im->b;
        if(!W || !H) return;
        if(mask) {
            if(cs) bad(w, "image mask has a colour space");
            if(B && B->i != 1) bad(w, "image mask with BitsPerComponent " + show(*B));
        } else if(!cs) bad(w, "image without a colour space");
        auto *f = d.dget(o, "Filter");
        if(f && f->isname("DCTDecode")) return;
        int nc = mask ? 1 : cs ? ncomp(*cs) : -1;
        int64_t bpc = mask ? 1 : B ? B->i : -1;
        if(nc <= 0 || bpc <= 0) {
            bad(w, "image without BitsPerComponent");
            return;
        }
        int64_t row = (W->i * nc * bpc + 7) / 8;
        auto data = d.stream_data(o);
        if((int64_t)data.size() != row * H->i)
            bad(w, "image data has " + std::to_string(data.size()) + " bytes, needs " + std::to_string(row * H->i));
        if(auto *sm = d.dget(o, "SMask")) {
            auto *scs = d.dget(*sm, "ColorSpace");
            if(!scs || !scs->isname("DeviceGray")) bad(w, "SMask is not gray");
        }
    }
    void outlines() {
        auto *ol = d.dget(d.root(), "Outlines");
        if(!ol) return;
        std::set<int> visited;
        // returns the number of visible descendants
        std::function<int64_t(const Obj &, int, int)> walk = [&](const Obj &node, int num, int depth) -> int64_t {
            auto *f = node.get("First"), *l = node.get("Last");
            if(!f && !l) return 0;
            if(!f || !l || f->t != Obj::Ref || l->t != Obj::Ref) return bad("outline", "First and Last must both be references"), 0;
            int cur = (int)f->i, prev = 0;
            int64_t total = 0;
            while(true) {
                if(!visited.insert(cur).second) return bad("outline", "item reached twice"), total;
                auto it = d.objs.find(cur);
                if(it == d.objs.end()) return bad("outline", "dangling item"), total;
                auto &o = it->second;
                auto *p = o.get("Parent");
                if(!p || p->t != Obj::Ref || p->i != num) bad("outline " + std::to_string(cur), "Parent is wrong");
                auto *pr = o.get("Prev");
                if(prev ? !(pr && pr->t == Obj::Ref && pr->i == prev) : pr != nullptr) bad("outline " + std::to_string(cur), "Prev is wrong");
                int64_t sub = walk(o, cur, depth + 1);
                auto *c = o.get("Count");
                if(sub == 0) {
                    if(c && c->i != 0) bad("outline " + std::to_string(cur), "Count without children");
                } else if(!c || std::llabs(c->i) != sub) bad("outline " + std::to_string(cur), "Count is " + (c ? show(*c) : "missing") + ", has " + std::to_string(sub) + " visible descendants");
                ++total;
                if(c && c->i > 0) total += sub;
                prev = cur;
                auto *nx = o.get("Next");
                if(!nx) break;
                if(nx->t != Obj::Ref) return bad("outline", "bad Next"), total;
                cur = (int)nx->i;
            }
            if(prev != (int)l->i) bad("outline", "Last is not the end of the chain");
            return total;
        };
        auto *ref = d.root().get("Outlines");
        int64_t n = walk(*ol, (int)ref->i, 0);
        auto *c = d.dget(*ol, "Count");
        if(n ? (!c || c->i != n) : (c && c->i != 0)) bad("outline", "Count of the root is " + (c ? show(*c) : "missing") + ", visible items: " + std::to_string(n));
        for(int x : bytype["OutlineItem"])
            if(!visited.count(x)) bad("outline", "item outside the tree");
    }
    void structure() {
        auto *sr = d.dget(d.root(), "StructTreeRoot");
        std::map<int64_t, std::map<int64_t, int>> used; // StructParents key -> mcid -> struct elem object
        std::map<std::string, const Obj *> unused;
        // marked content found in content streams: StructParents -> mcids
        std::map<int64_t, std::pair<std::set<int64_t>, int>> found;
        auto scan = [&](const Obj &o, int num) {
            auto *sp = d.dget(o, "StructParents");
            std::set<int64_t> ids;
            std::vector<COp> ops;
            if(o.t == Obj::Stream) ops = parse_content(d.stream_data(o));
            else ops = d.page_ops(num);
            for(auto &op : ops)
                if(op.op == "BDC" && op.a.size() == 2 && op.a[1].t == Obj::Dict)
                    if(auto *m = op.a[1].get("MCID")) {
                        if(m->t != Obj::Int || m->i < 0) bad("content of " + std::to_string(num), "bad MCID");
                        else if(!ids.insert(m->i).second) bad("content of " + std::to_string(num), "MCID used twice");
                    }
            if(!ids.empty() && !sp) bad("content of " + std::to_string(num), "marked content without StructParents");
            if(sp) {
                if(found.count(sp->i)) bad("object " + std::to_string(num), "StructParents used twice");
                found[sp->i] = {ids, num};
            }
        };
        for(int p : d.pages()) scan(d.objs.at(p), p);
        for(int x : bytype["Form"]) scan(d.objs.at(x), x);
        if(!sr) {
            if(!found.empty()) bad("structure", "StructParents without a structure tree");
            return;
        }
        int rootnum = (int)d.root().get("StructTreeRoot")->i;
        std::map<std::pair<int, int64_t>, int> mc; // (page, mcid) -> elem
        std::set<int> visited;
        auto *rm = d.dget(*sr, "RoleMap");
        std::function<void(const Obj &, int, int, int)> kid = [&](const Obj &k, int parent, int page, int depth) {
            if(depth > 60) return bad("structure", "too deep"), void();
            if(k.t == Obj::Int) {
                if(parent == rootnum) return bad("structure", "MCID at the root"), void();
                if(!page) return bad("structure element " + std::to_string(parent), "MCID without a page"), void();
                if(mc.count({page, k.i})) bad("structure element " + std::to_string(parent), "marked content owned twice");
                mc[{page, k.i}] = parent;
                return;
            }
            if(k.t != Obj::Ref) {
                if(k.t == Obj::Dict && k.get("Type") && k.get("Type")->isname("MCR")) {
                    auto *pg = k.get("Pg");
                    auto *m = k.get("MCID");
                    if(m) kid(*m, parent, pg && pg->t == Obj::Ref ? (int)pg->i : page, depth + 1);
                    return;
                }
                if(k.t == Obj::Dict && k.get("Type") && k.get("Type")->isname("OBJR")) return;
                return bad("structure", "bad kid " + show(k, 2)), void();
            }
            auto &e = d.deref(k);
            if(!e.isdict()) return bad("structure", "kid is not a dictionary"), void();
            if(!visited.insert((int)k.i).second) return bad("structure", "element reached twice"), void();
            typed(k, "StructElem", "structure");
            auto *p = e.get("P");
            if(!p || p->t != Obj::Ref || p->i != parent) bad("structure element " + std::to_string(k.i), "/P is not its parent");
            auto *s = d.dget(e, "S");
            if(s && s->t == Obj::Name && !stdstruct.count(s->s) && !(rm && rm->get(s->s)))
                bad("structure element " + std::to_string(k.i), "type /" + s->s + " is neither standard nor role mapped");
            auto *pg = e.get("Pg");
            int pn = pg && pg->t == Obj::Ref ? (int)pg->i : 0;
            if(auto *kk = e.get("K")) {
                const Obj &kd = kk->t == Obj::Ref && d.deref(*kk).t == Obj::Arr ? d.deref(*kk) : *kk;
                if(kd.t == Obj::Arr)
                    for(auto &x : kd.a) kid(x, (int)k.i, pn, depth + 1);
                else kid(kd, (int)k.i, pn, depth + 1);
            }
        };
        if(auto *kk = sr->get("K")) {
            const Obj &kd = kk->t == Obj::Ref && d.deref(*kk).t == Obj::Arr ? d.deref(*kk) : *kk;
            if(kd.t == Obj::Arr)
                for(auto &x : kd.a) kid(x, rootnum, 0, 0);
            else kid(kd, rootnum, 0, 0);
        }
        for(auto &[num, o] : d.objs)
            if(o.t == Obj::Dict && o.get("Type") && o.get("Type")->isname("StructElem") && !visited.count(num)) bad("structure element " + std::to_string(num), "not in the tree");
        if(rm)
            for(auto &[k, v] : rm->d) {
                if(!stdstruct.count(d.deref(v).s) && !rm->get(d.deref(v).s)) bad("RoleMap", "maps to an unknown type");
            }
        // parent tree
        std::map<int64_t, Obj> pt;
        std::function<void(const Obj &)> leaves = [&](const Obj &t) {
            if(auto *n = d.dget(t, "Nums"))
                for(size_t i = 0; i + 1 < n->a.size(); i += 2) pt[d.deref(n->a[i]).i] = n->a[i + 1];
            if(auto *k = d.dget(t, "Kids"))
                for(auto &x : k->a) leaves(d.deref(x));
        };
        if(auto *t = d.dget(*sr, "ParentTree")) leaves(*t);
        else if(!found.empty()) bad("structure", "no ParentTree");
        std::set<std::pair<int, int64_t>> covered;
        for(auto &[sp, f] : found) {
            auto it = pt.find(sp);
            if(it == pt.end()) {
                if(!f.first.empty()) bad("structure", "StructParents " + std::to_string(sp) + " not in the ParentTree");
                continue;
            }
            auto &arr = d.deref(it->second);
            if(arr.t != Obj::Arr) {
                bad("structure", "ParentTree entry is not an array");
                continue;
            }
            for(auto m : f.first) {
                if(m >= (int64_t)arr.a.size() || arr.a[m].t != Obj::Ref) {
                    bad("structure", "MCID without a ParentTree entry");
                    continue;
                }
                auto o = mc.find({f.second, m});
                if(o == mc.end()) bad("structure", "marked content " + std::to_string(m) + " of object " + std::to_string(f.second) + " is owned by no element");
                else {
                    if(o->second != (int)arr.a[m].i) bad("structure", "ParentTree disagrees with the structure tree");
                    covered.insert({f.second, m});
                }
            }
            for(size_t m = 0; m < arr.a.size(); ++m)
                if(arr.a[m].t == Obj::Ref && !f.first.count((int64_t)m)) bad("structure", "ParentTree names content that does not exist");
        }
        for(auto &[k, e] : mc)
            if(!covered.count(k)) bad("structure element " + std::to_string(e), "owns marked content that does not exist");
        for(auto &[k, v] : pt) {
            if(!found.count(k)) bad("structure", "ParentTree key " + std::to_string(k) + " is used by nothing");
            auto *nk = d.dget(*sr, "ParentTreeNextKey");
            if(!nk || nk->i <= k) bad("structure", "ParentTreeNextKey is not greater than all keys");
        }
    }
    void forms() {
        auto *af = d.dget(d.root(), "AcroForm");
        std::set<int> fields;
        std::function<void(int, int, int)> walk = [&](int num, int parent, int depth) {
            if(depth > 50 || !fields.insert(num).second) return bad("form", "field reached twice"), void();
            auto &f = d.objs.at(num);
            auto *p = f.get("Parent");
            if(parent ? !(p && p->t == Obj::Ref && p->i == parent) : p != nullptr) bad("field " + std::to_string(num), "Parent is wrong");
            bool ft = f.get("FT") != nullptr;
            for(int q = num, i = 0; !ft && i < 50; ++i) {
                auto *pp = d.objs.at(q).get("Parent");
                if(!pp || pp->t != Obj::Ref) break;
                q = (int)pp->i;
                ft = d.objs.at(q).get("FT") != nullptr;
            }
            if(auto *k = d.dget(f, "Kids"))
                for(auto &x : k->a) {
                    if(x.t != Obj::Ref || !d.deref(x).isdict()) {
                        bad("field " + std::to_string(num), "bad kid");
                        continue;
                    }
                    auto *st = d.dget(d.deref(x), "Subtype");
                    if(st && st->isname("Widget")) {
                        auto *wp = d.deref(x).get("Parent");
                        if(!wp || wp->t != Obj::Ref || wp->i != num) bad("field " + std::to_string(num), "widget has another parent");
                    } else {
                        typed(x, "Field", "form");
                        walk((int)x.i, num, depth + 1);
                    }
                }
            else if(!ft) bad("field " + std::to_string(num), "terminal field has no type");
        };
        if(af)
            if(auto *fs = d.dget(*af, "Fields"))
                for(auto &x : fs->a)
                    if(x.t == Obj::Ref && d.deref(x).isdict()) walk((int)x.i, 0, 0);
        for(auto &[num, o] : d.objs) {
            auto *st = o.isdict() ? d.dget(o, "Subtype") : nullptr;
            if(st && st->isname("Widget")) {
                auto *p = o.get("Parent");
                if(p) {
                    if(p->t != Obj::Ref || !fields.count((int)p->i)) bad("widget " + std::to_string(num), "parent is not a field of the form");
                    else {
                        bool in = false;
                        if(auto *k = d.dget(d.objs.at((int)p->i), "Kids"))
                            for(auto &x : k->a) in = in || (x.t == Obj::Ref && x.i == num);
                        if(!in) bad("widget " + std::to_string(num), "is not among the kids of its field");
                    }
                }
            }
        }
    }
    void run() {
        const Obj &root = d.root();
        (void)root;
        typed(*d.trailer.get("Root"), "Catalog", "Catalog");
        if(auto *i = d.trailer.get("Info")) {
            if(i->t != Obj::Ref) bad("trailer", "Info is not a reference");
            else typed(*i, "Info", "Info");
        }
        if(auto *id = d.trailer.get("ID")) {
            auto &a = d.deref(*id);
            if(a.t != Obj::Arr || a.a.size() != 2 || a.a[0].t != Obj::Str || a.a[1].t != Obj::Str || a.a[0].s.size() < 16) bad("trailer", "bad ID");
        }
        std::map<int, int> annot_page;
        for(int p : d.pages()) {
            Obj ref;
            ref.t = Obj::Ref;
            ref.i = p;
            typed(ref, "Page", "Page");
            auto &pg = d.objs.at(p);
            if(!d.inherited(p, "MediaBox")) bad("Page(" + std::to_string(p) + ")", "no MediaBox");
            auto *res = d.inherited(p, "Resources");
            if(!res) bad("Page(" + std::to_string(p) + ")", "no Resources");
            lint_content(d, d.page_ops(p), res, "Page(" + std::to_string(p) + ")", out, true);
            if(auto *an = d.dget(pg, "Annots"))
                for(auto &a : an->a)
                    if(a.t == Obj::Ref && !annot_page.insert({(int)a.i, p}).second) bad("Page(" + std::to_string(p) + ")", "annotation is on two pages or twice on one");
        }
        for(auto &[num, o] : d.objs) {
            if(!o.isdict()) continue;
            auto *t = d.dget(o, "Type");
            if(t && t->isname("Annot")) {
                auto *pp = o.get("P");
                if(pp && pp->t == Obj::Ref && annot_page.count(num) && annot_page[num] != (int)pp->i) bad("annotation " + std::to_string(num), "/P is not its page");
            }
            // everything with a telltale type is validated even when nothing refers to it
            Obj ref;
            ref.t = Obj::Ref;
            ref.i = num;
            auto *st = d.dget(o, "Subtype");
            if(t && t->t == Obj::Name) {
                static const std::map<std::string, std::string> m = {{"ExtGState", "ExtGState"}, {"Annot", "Annot"}, {"OCG", "OCG"}, {"Filespec", "Filespec"},
                    {"EmbeddedFile", "EmbeddedFile"}, {"FontDescriptor", "FontDescriptor"}, {"Metadata", "Metadata"}, {"OutputIntent", "OutputIntent"}, {"Outlines", "Outlines"}};
                if(auto it = m.find(t->s); it != m.end()) typed(ref, it->second, t->s);
                if(t->s == "XObject" && st) code(ref, "xobject", "XObject", false);
                if(t->s == "Pattern") code(ref, "pattern", "Pattern", false);
                if(t->s == "Font" && st && (st->s == "Type0" || st->s == "Type1")) code(ref, "font", "Font", false);
            }
            if(o.get("FunctionType")) code(ref, "function", "Function", false);
            if(o.get("ShadingType")) code(ref, "shading", "Shading", false);
        }
        outlines();
        structure();
        forms();
        // optional content: every group is listed
        std::set<int> listed;
        if(auto *oc = d.dget(d.root(), "OCProperties"))
            if(auto *g = d.dget(*oc, "OCGs"))
                for(auto &x : g->a)
                    if(x.t == Obj::Ref && !listed.insert((int)x.i).second) bad("OCProperties", "group listed twice");
        for(auto &[num, o] : d.objs)
            if(o.t == Obj::Dict && o.get("Type") && o.get("Type")->isname("OCG") && !listed.count(num)) bad("OCG " + std::to_string(num), "not listed in OCProperties");
    }
};
} // namespace

void lint_content(const Doc &d, const std::vector<COp> &ops, const Obj *res, const std::string &where, std::vector<std::string> &out, bool) {
    static const std::map<std::string, std::string> sig = {
        {"b", ""}, {"B", ""}, {"b*", ""}, {"B*", ""}, {"BDC", "NP"}, {"BMC", "N"}, {"BT", ""}, {"c", "nnnnnn"}, {"cm", "nnnnnn"}, {"CS", "N"}, {"cs", "N"},
        {"d", "an"}, {"Do", "N"}, {"EMC", ""}, {"ET", ""}, {"f", ""}, {"f*", ""}, {"G", "n"}, {"g", "n"}, {"gs", "N"}, {"h", ""}, {"i", "n"}, {"j", "n"},
        {"J", "n"}, {"K", "nnnn"}, {"k", "nnnn"}, {"l", "nn"}, {"m", "nn"}, {"M", "n"}, {"n", ""}, {"q", ""}, {"Q", ""}, {"re", "nnnn"}, {"RG", "nnn"},
        {"rg", "nnn"}, {"ri", "N"}, {"s", ""}, {"S", ""}, {"SC", "*"}, {"sc", "*"}, {"SCN", "*"}, {"scn", "*"}, {"sh", "N"}, {"T*", ""}, {"Tc", "n"},
        {"Td", "nn"}, {"TD", "nn"}, {"Tf", "Nn"}, {"Tj", "s"}, {"TJ", "a"}, {"TL", "n"}, {"Tm", "nnnnnn"}, {"Tr", "n"}, {"Ts", "n"}, {"Tw", "n"},
        {"Tz", "n"}, {"v", "nnnn"}, {"w", "n"}, {"W", ""}, {"W*", ""}, {"y", "nnnn"}};
    static const std::set<std::string> textonly = {"T*", "Td", "TD", "Tj", "TJ", "Tm"};
    static const std::set<std::string> nottext = {"b", "B", "b*", "B*", "c", "cm", "Do", "f", "f*", "h", "l", "m", "n", "q", "Q", "re", "s", "S", "sh", "v", "W", "W*", "y", "BT"};
    std::vector<std::string> stack;
    auto bad = [&](const std::string &m) {
        if(out.size() < 40) out.push_back(where + " content: " + m);
    };
    auto resource = [&](const char *cat, const std::string &name) -> const Obj * {
        if(!res) return nullptr;
        auto *c = d.dget(*res, cat);
        if(!c) return nullptr;
        return c->get(name);
    };
    struct GS {
        std::string scs = "DeviceGray", ncs = "DeviceGray";
        bool font = false;
    } gs;
    std::vector<GS> gstack;
    auto ncomp = [&](const std::string &cs) -> int {
        if(cs == "DeviceGray") return 1;
        if(cs == "DeviceRGB") return 3;
        if(cs == "DeviceCMYK") return 4;
        if(cs == "Pattern") return 0;
        auto *c = resource("ColorSpace", cs);
        if(!c) return -1;
        auto &o = d.deref(*c);
        if(o.t == Obj::Name) return o.s == "DeviceGray" ? 1 : o.s == "DeviceRGB" ? 3 : o.s == "DeviceCMYK" ? 4 : o.s == "Pattern" ? 0 : -1;
        if(o.t != Obj::Arr || o.a.empty()) return -1;
        auto &h = d.deref(o.a[0]);
        if(h.s == "Separation") return 1;
        if(h.s == "Lab") return 3;
        if(h.s == "ICCBased" && o.a.size() > 1) {
            auto *n = d.dget(d.deref(o.a[1]), "N");
            return n ? (int)n->i : -1;
        }
        return -1;
    };
    bool intext = false;
    for(auto &op : ops) {
        auto it = sig.find(op.op);
        if(it == sig.end()) {
            bad("unknown operator " + op.op);
            continue;
        }
        const auto &s = it->second;
        if(s != "*") {
            bool ok = op.a.size() == s.size();
            for(size_t i = 0; ok && i < s.size(); ++i) {
                auto &o = op.a[i];
                if(s[i] == 'n') ok = o.isnum();
                else if(s[i] == 'N') ok = o.t == Obj::Name && !o.s.empty();
                else if(s[i] == 's') ok = o.t == Obj::Str;
                else if(s[i] == 'a') ok = o.t == Obj::Arr;
                else if(s[i] == 'P') ok = o.t == Obj::Name || o.t == Obj::Dict;
            }
            if(!ok) {
                std::string m = "bad operands of " + op.op + ":";
                for(auto &o : op.a) m += " " + show(o, 2);
                bad(m);
                continue;
            }
        }
        const auto &o = op.op;
        if(intext && nottext.count(o)) bad(o + " inside a text object");
        if(!intext && textonly.count(o)) bad(o + " outside a text object");
        if(o == "q") {
            stack.push_back("q");
            gstack.push_back(gs);
        } else if(o == "BT") {
            stack.push_back("BT");
            intext = true;
        } else if(o == "BMC" || o == "BDC") stack.push_back("MC");
        else if(o == "Q" || o == "ET" || o == "EMC") {
            std::string want = o == "Q" ? "q" : o == "ET" ? "BT" : "MC";
            if(stack.empty() || stack.back() != want) bad(o + " does not match " + (stack.empty() ? "anything" : stack.back()));
            else stack.pop_back();
            if(o == "ET") intext = false;
            if(o == "Q" && !gstack.empty()) {
                gs = gstack.back();
                gstack.pop_back();
            }
        }
        if(o == "gs" && !resource("ExtGState", op.a[0].s)) bad("gs names no resource: " + op.a[0].s);
        if(o == "sh" && !resource("Shading", op.a[0].s)) bad("sh names no resource: " + op.a[0].s);
        if(o == "Do" && !resource("XObject", op.a[0].s)) bad("Do names no resource: " + op.a[0].s);
        if(o == "Tf") {
            if(!resource("Font", op.a[0].s)) bad("Tf names no resource: " + op.a[0].s);
            gs.font = true;
        }
        if((o == "Tj" || o == "TJ") && !gs.font) bad(o + " without a font");
        if(o == "TJ")
            for(auto &x : op.a[0].a)
                if(x.t != Obj::Str && !x.isnum()) bad("bad element of TJ: " + show(x, 2));
        if(o == "BDC" && op.a[1].t == Obj::Name && !resource("Properties", op.a[1].s)) bad("BDC names no properties: " + op.a[1].s);
        if(o == "G") gs.scs = "DeviceGray";
        if(o == "g") gs.ncs = "DeviceGray";
        if(o == "RG") gs.scs = "DeviceRGB";
        if(o == "rg") gs.ncs = "DeviceRGB";
        if(o == "K") gs.scs = "DeviceCMYK";
        if(o == "k") gs.ncs = "DeviceCMYK";
        if(o == "CS" || o == "cs") {
            if(ncomp(op.a[0].s) < 0) bad(o + " names no colour space: " + op.a[0].s);
            (o == "CS" ? gs.scs : gs.ncs) = op.a[0].s;
        }
        if(o == "SC" || o == "sc" || o == "SCN" || o == "scn") {
            auto &cs = o[0] == 'S' ? gs.scs : gs.ncs;
            int n = ncomp(cs);
            if(n == 0) {
                if(op.a.empty() || op.a.back().t != Obj::Name || !resource("Pattern", op.a.back().s)) bad(o + " names no pattern");
            } else {
                if((int)op.a.size() != n) bad(o + " has " + std::to_string(op.a.size()) + " operands in colour space " + cs);
                for(auto &x : op.a)
                    if(!x.isnum()) bad("bad operand of " + o);
            }
        }
        if(o == "J" || o == "j") {
            if(op.a[0].t != Obj::Int || op.a[0].i < 0 || op.a[0].i > 2) bad("bad operand of " + o + " " + show(op.a[0]));
        }
        if(o == "Tr" && (op.a[0].t != Obj::Int || op.a[0].i < 0 || op.a[0].i > 7)) bad("bad operand of Tr");
        if(o == "w" && op.a[0].num() < 0) bad("negative line width");
        if(o == "ri" && !intents.count(op.a[0].s)) bad("bad rendering intent");
        if(o == "d") {
            double sum = 0;
            for(auto &x : op.a[0].a) {
                if(!x.isnum() || x.num() < 0) bad("bad dash array");
                sum += x.isnum() ? x.num() : 0;
            }
            if(!op.a[0].a.empty() && sum <= 0) bad("dash array is all zeros");
        }
    }
    if(!stack.empty()) bad("unbalanced " + stack.back());
}

std::vector<std::string> lint(const Doc &d) {
    Linter l(d);
    try {
        l.run();
    } catch(const ParseError &e) {
        l.out.push_back(std::string("malformed: ") + e.what());
    }
    return l.out;
}
} // namespace pdf
