// uses: features.cpp
#include "explore.hpp"
#include "features.hpp"
#include "xml.hpp"
#include <lcms2.h>
#include <unistd.h>
using namespace mc;
using std::string;
using std::to_string;
using pdf::Doc;
using pdf::Obj;

static const int64_t EPOCH = 1700000000; // set by the harness
static const char *PDF_DATE = "D:20231114221320Z", *XMP_DATE = "2023-11-14T22:13:20Z";
static const char *XNAMES[] = {"PDF/X-1:2001", "PDF/X-1a:2001", "PDF/X-1a:2003", "PDF/X-3:2002", "PDF/X-3:2003", "PDF/X-4", "PDF/X-4p", "PDF/X-5g", "PDF/X-5pg", "PDF/X-6", "PDF/X-6p", "PDF/X-6n"};
// The newest version that each kind may use, the oldest being 1.3; PDF/A-4 and PDF/X-6 are always 2.0.
static const char *XVERSION[] = {"1.3", "1.3", "1.4", "1.3", "1.4", "1.6", "1.6", "1.6", "1.6", "2.0", "2.0", "2.0"};
static const char *ANAMES[] = {"1A", "1B", "2A", "2B", "2U", "3A", "3B", "3U", "4F", "4E"};
static const char *LAYOUTS[] = {"SinglePage", "OneColumn", "TwoColumnLeft", "TwoColumnRight", "TwoPageLeft", "TwoPageRight"};
static const char *MODES[] = {"UseNone", "UseOutlines", "UseThumbs", "FullScreen", "UseOC", "UseAttachments"};
enum { RGB, GRAY, CMYK };

static string saved(cmsHPROFILE h) {
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(h, nullptr, &n);
    string s(n, '\0');
    cmsSaveProfileToMem(h, s.data(), &n);
    cmsCloseProfile(h);
    return s;
}
static const string &icc(int cs) {
    static const string r[3] = {saved(cmsCreate_sRGBProfile()), [] {
                                    auto c = cmsBuildGamma(nullptr, 2.2);
                                    auto h = cmsCreateGrayProfile(cmsD50_xyY(), c);
                                    cmsFreeToneCurve(c);
                                    return saved(h);
                                }(), [] { // no tags, but enough to have four channels
                                    auto h = cmsCreateProfilePlaceholder(nullptr);
                                    cmsSetProfileVersion(h, 4.3);
                                    cmsSetDeviceClass(h, cmsSigOutputClass);
                                    cmsSetColorSpace(h, cmsSigCmykData);
                                    cmsSetPCS(h, cmsSigLabData);
                                    return saved(h);
                                }()};
    return r[cs];
}
static string icc_file(int cs) {
    auto n = "/p" + to_string(cs) + ".icc";
    if(!file_exists(scratch() + n)) write_file(scratch() + n, icc(cs));
    return "$OUT" + n;
}

struct Meta {
    string title, author, creator, lang, intent, xml;
    int tagged = 0, cs = RGB, layout = -1, mode = -1;
    int claim = 0; // 1..12 PDF/X, 13..22 PDF/A
    bool prof[3] = {};
    bool pdfx() const { return claim >= 1 && claim <= 12; }
    bool pdfa() const { return claim >= 13; }
    int part() const { return pdfa() ? ANAMES[claim - 13][0] - '0' : 0; }
    // What a document with this claim cannot do without.
    bool impossible() const { return (claim && (!prof[cs] || intent.empty())) || (cs == CMYK && !prof[CMYK]); }
};
static const char *USER_XML = "<?xpacket begin=\"\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?><x:xmpmeta xmlns:x=\"adobe:ns:meta/\">\n<pdf:Producer>CapyPDF 0.1</pdf:Producer> \xc3\xa4 </x:xmpmeta><?xpacket end=\"w\"?>\n";

static string text_is(const Doc &d, const Obj &dict, const char *key, const string &want) {
    auto *o = d.dget(dict, key);
    if(want.empty()) return o ? string("there is a /") + key : "";
    if(!o) return string("there is no /") + key;
    auto t = pdf::text_string(*o);
    if(!t) return string("/") + key + " is no text string";
    return *t == want ? "" : string("/") + key + " is '" + *t + "' instead of '" + want + "'";
}
static const string RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#", DC = "http://purl.org/dc/elements/1.1/", XMP = "http://ns.adobe.com/xap/1.0/", PDFNS = "http://ns.adobe.com/pdf/1.3/", AID = "http://www.aiim.org/pdfa/ns/id/";
// The value of a property in any of the descriptions; arrays have the text of their only item.
static std::optional<string> xmp(const xml::Node &rdf, const string &ns, const string &name) {
    std::optional<string> r;
    for(auto &de : rdf.kids) {
        if(de.ns != RDF || de.name != "Description") throw xml::Error("unexpected element " + de.name);
        if(!de.attr.count("{" + RDF + "}about") || !de.attr.at("{" + RDF + "}about").empty()) throw xml::Error("a description is not about this document");
        auto a = de.attr.find("{" + ns + "}" + name);
        auto *c = de.child(ns, name);
        if(a == de.attr.end() && !c) continue;
        if(r) throw xml::Error(name + " is there twice");
        if(a != de.attr.end()) { r = a->second; continue; }
        if(c->kids.empty()) { r = c->text; continue; }
        auto &arr = c->kids[0];
        if(c->kids.size() != 1 || arr.ns != RDF || arr.kids.size() != 1 || arr.kids[0].name != "li") throw xml::Error(name + " has the wrong structure");
        if(name == "title" && (arr.name != "Alt" || !arr.kids[0].attr.count("{xml}lang"))) throw xml::Error("the title is not a language alternative");
        if(name == "creator" && arr.name != "Seq") throw xml::Error("the creators are not in a sequence");
        r = arr.kids[0].text;
    }
    return r;
}
static string judge_xmp(const string &data, const Meta &m) {
    try {
        auto root = xml::parse(data);
        auto *rdf = root.ns == "adobe:ns:meta/" && root.name == "xmpmeta" ? root.child(RDF, "RDF") : nullptr;
        if(!rdf) return "there is no RDF";
        auto is = [&](const string &ns, const string &name, const string &want) -> string {
            auto v = xmp(*rdf, ns, name);
            if(want.empty()) return v ? "there is a " + name : "";
            return !v ? "there is no " + name : *v == want ? "" : name + " is '" + *v + "' instead of '" + want + "'";
        };
        string part = to_string(m.part()), conf = string(1, ANAMES[m.claim - 13][1]);
        for(auto &e : {is(AID, "part", part), is(AID, "conformance", conf), m.part() == 4 ? is(AID, "rev", "2020") : "", is(DC, "title", m.title), is(DC, "creator", m.author), is(XMP, "CreatorTool", m.creator), is(XMP, "CreateDate", XMP_DATE), is(XMP, "ModifyDate", XMP_DATE)})
            if(!e.empty()) return e;
        auto pr = xmp(*rdf, PDFNS, "Producer");
        if(!pr || pr->rfind("CapyPDF ", 0) != 0) return "the producer is wrong";
        return "";
    } catch(const xml::Error &e) { return string("the XMP metadata: ") + e.what(); }
}

// What is wrong with the document, given what was set.
static string judge(const Doc &d, const Meta &m, bool files = false) {
    auto &root = d.root();
    std::set<string> extra{"Type", "Pages"};
    // version and file structure
    if(d.version.size() != 3 || d.version < "1.3" || d.version > "2.0") return "the version is " + d.version;
    if(m.pdfx()) {
        if(d.version > XVERSION[m.claim - 1] || (m.claim >= 10 && d.version != "2.0")) return "a " + string(XNAMES[m.claim - 1]) + " document has version " + d.version;
    }
    if((m.part() == 1 && d.version > "1.4") || ((m.part() == 2 || m.part() == 3) && d.version > "1.7") || (m.part() == 4 && d.version != "2.0"))
        return "a PDF/A-" + to_string(m.part()) + " document has version " + d.version;
    if(d.version < "1.5" && (d.xref_is_stream || !d.compressed.empty())) return "a version " + d.version + " document has object streams";
    if(m.claim) {
        auto *id = d.dget(d.trailer, "ID");
        if(!id || id->a.size() != 2 || id->a[0].t != Obj::Str || id->a[0].s.size() < 16 || id->a[1].s.size() < 16) return "there is no file identifier";
        if(d.trailer.get("Encrypt")) return "the document is encrypted";
    }
    // information
    bool only_xmp = m.part() == 4;
    static const Obj none{.t = Obj::Dict};
    auto *given = d.dget(d.trailer, "Info");
    if(!given && !only_xmp) return "there is no information dictionary";
    auto &info = given ? *given : none;
    std::set<string> infokeys{"ModDate", "CreationDate", "Producer", "Title", "Author", "Creator"};
    if(given && d.need(info, "ModDate").s != PDF_DATE) return "the modification date is wrong";
    if(only_xmp) infokeys = {"ModDate"};
    else {
        for(auto &e : {text_is(d, info, "Title", m.title), text_is(d, info, "Author", m.author), text_is(d, info, "Creator", m.creator)})
            if(!e.empty()) return e;
        if(d.need(info, "CreationDate").s != PDF_DATE) return "the creation date is wrong";
        if(d.need(info, "Producer").s.rfind("CapyPDF ", 0) != 0) return "the producer is wrong";
    }
    if(m.pdfx()) {
        infokeys.insert({"GTS_PDFXVersion", "Trapped", "GTS_PDFXConformance"});
        auto &v = d.need(info, "GTS_PDFXVersion");
        if(v.t != Obj::Str) return "the PDF/X version is no string";
        if(m.claim == 2) { // ISO 15930-1: the version is that of the standard, the conformance level is separate
            auto *c = d.dget(info, "GTS_PDFXConformance");
            if(v.s != "PDF/X-1:2001" || !c || c->s != XNAMES[1]) return "the PDF/X identification is wrong: " + v.s;
        } else if(v.s != XNAMES[m.claim - 1]) return "the PDF/X version is " + v.s + " instead of " + XNAMES[m.claim - 1];
        auto &t = d.need(info, "Trapped");
        if(!t.isname("True") && !t.isname("False")) return "the trapping is not known";
    }
    for(auto &[k, v] : info.d)
        if(!infokeys.count(k)) return "there is a /" + k + " in the information";
    // catalog
    auto *lang = d.dget(root, "Lang");
    if(m.lang.empty() ? lang != nullptr : !lang || pdf::text_string(*lang).value_or("?") != m.lang) return "the language is wrong";
    auto *mi = d.dget(root, "MarkInfo");
    bool marked = mi && d.dget(*mi, "Marked") && d.dget(*mi, "Marked")->b;
    if(marked != (m.tagged != 0)) return marked ? "the document is marked" : "the document is not marked";
    auto *lay = d.dget(root, "PageLayout");
    if(m.layout < 0 ? lay != nullptr : !lay || !lay->isname(LAYOUTS[m.layout])) return "the page layout is wrong";
    auto *mode = d.dget(root, "PageMode");
    if(m.mode < 0 ? mode != nullptr : !mode || !mode->isname(MODES[m.mode])) return "the page mode is wrong";
    // output intent
    auto *oi = d.dget(root, "OutputIntents");
    if(m.claim) {
        if(!oi || oi->a.size() != 1) return "there is not one output intent";
        auto &o = d.deref(oi->a[0]);
        if(!d.need(o, "Type").isname("OutputIntent") || !d.need(o, "S").isname(m.pdfx() ? "GTS_PDFX" : "GTS_PDFA1")) return "the output intent is for something else";
        auto e = text_is(d, o, "OutputConditionIdentifier", m.intent);
        if(!e.empty()) return e;
        auto &p = d.need(o, "DestOutputProfile");
        if(p.t != Obj::Stream) return "the output profile is no stream";
        if(d.need(p, "N").i != (m.cs == RGB ? 3 : m.cs == GRAY ? 1 : 4)) return "the output profile has the wrong number of channels";
        if(d.stream_data(p) != icc(m.cs)) return "the output profile is not the one that was set";
        for(auto &[k, v] : o.d)
            if(!std::set<string>{"Type", "S", "OutputConditionIdentifier", "DestOutputProfile", "OutputCondition", "RegistryName", "Info"}.count(k)) return "there is a /" + k + " in the output intent";
    } else if(oi) return "there is an output intent without a claim";
    // metadata
    auto *md = d.dget(root, "Metadata");
    if(!m.xml.empty() || m.pdfa()) {
        if(!md || md->t != Obj::Stream) return "there is no metadata stream";
        if(!d.need(*md, "Type").isname("Metadata") || !d.need(*md, "Subtype").isname("XML")) return "the metadata are of another type";
        if(m.pdfa() && d.dget(*md, "Filter")) return "the metadata are filtered";
        auto data = d.stream_data(*md);
        if(!m.xml.empty()) {
            if(data != m.xml) return "the metadata were altered";
        } else {
            auto e = judge_xmp(data, m);
            if(!e.empty()) return e;
        }
    } else if(md) return "there are metadata";
    // embedded files
    auto *names = d.dget(root, "Names");
    auto *ef = names ? d.dget(*names, "EmbeddedFiles") : nullptr;
    if(m.part() == 4 || files) {
        if(!ef) return "there is no name tree of embedded files";
    }
    std::set<string> cat{"Type", "Pages", "Lang", "MarkInfo", "PageLayout", "PageMode", "OutputIntents", "Metadata"};
    if(m.part() == 4 || files) cat.insert({"Names", "AF"});
    for(auto &[k, v] : root.d)
        if(!cat.count(k)) return "there is a /" + k + " in the catalog";
    return "";
}

struct R { Script s; V md, gen; size_t gi = 0; };
static void props(R &r) { r.md = r.s("document_properties_new"); }
static void apply(R &r, const Meta &m) {
    if(m.title.size()) r.s("document_properties_set_title", r.md, m.title);
    if(m.author.size()) r.s("document_properties_set_author", r.md, m.author);
    if(m.creator.size()) r.s("document_properties_set_creator", r.md, m.creator);
    if(m.lang.size()) r.s("document_properties_set_language", r.md, m.lang);
    if(m.intent.size()) r.s("document_properties_set_output_intent", r.md, m.intent);
    if(m.xml.size()) r.s("document_properties_set_metadata_xml", r.md, m.xml);
    if(m.tagged) r.s("document_properties_set_tagged", r.md, 1);
    r.s("document_properties_set_colorspace", r.md, m.cs);
    if(m.layout >= 0) r.s("document_properties_set_page_layout", r.md, m.layout);
    if(m.mode >= 0) r.s("document_properties_set_page_mode", r.md, m.mode);
    if(m.pdfx()) r.s("document_properties_set_pdfx", r.md, m.claim - 1);
    if(m.pdfa()) r.s("document_properties_set_pdfa", r.md, m.claim - 13);
    for(int c = 0; c < 3; ++c)
        if(m.prof[c]) r.s("document_properties_set_device_profile", r.md, c, icc_file(c));
}
static void start(R &r) {
    r.gi = r.s.size();
    r.gen = r.s("generator_new", "$OUT/out.pdf", r.md);
}
static void finish(R &r) {
    auto p = r.s("page_draw_context_new", r.gen);
    r.s("generator_add_page", r.gen, p);
    r.s("generator_write", r.gen);
}
static void decide(R &r, const Meta &m, Ctx &cx, const std::set<size_t> &rejected = {}, bool files = false) {
    Doc d;
    if(m.impossible()) {
        cx.script(r.s);
        unlink((scratch() + "/out.pdf").c_str());
        auto o = execute(r.s);
        cx.transitions(r.s.size());
        cx.traces();
        if(o.rc[r.gi] == 0) cx.violation("a claim that cannot be satisfied is accepted", to_string(m.claim));
        else if(file_exists(scratch() + "/out.pdf")) cx.violation("a refused document is written");
        for(size_t i = 0; i < r.gi; ++i)
            if((o.rc[i] != 0) != (rejected.count(i) > 0)) cx.violation("a setting is " + string(o.rc[i] ? "rejected" : "accepted"), op_text(r.s.ops[i]));
        cx.state("refused " + to_string(o.rc[r.gi]));
        return;
    }
    if(!run_expect(r.s, rejected, cx, d)) return;
    try {
        auto e = judge(d, m, files);
        if(!e.empty()) cx.violation("the document is not as it was described", e + (m.claim ? string(" [") + (m.pdfx() ? XNAMES[m.claim - 1] : ANAMES[m.claim - 13]) + "]" : ""));
    } catch(const pdf::ParseError &e) { cx.violation("the document is not as it was described", e.what()); }
    cx.state(d.canon());
}

static void claim_case(size_t i, Ctx &cx) {
    Meta m;
    m.claim = (int)(i % 23); i /= 23;
    m.cs = (int)(i % 3); i /= 3;
    for(auto &p : m.prof) { p = i % 2; i /= 2; }
    m.intent = i % 2 ? "FOGRA (39) \xc3\xa4" : ""; i /= 2;
    m.xml = i % 2 ? USER_XML : ""; i /= 2;
    m.tagged = i % 2; i /= 2;
    m.title = i % 2 ? "The <title> & (more)" : ""; i /= 2;
    m.author = i % 2 ? "J\xc3\xb6rg \xf0\x9f\x98\x80" : ""; i /= 2;
    m.creator = i % 2 ? "tool" : ""; i /= 2;
    R r;
    props(r);
    apply(r, m);
    start(r);
    finish(r);
    decide(r, m, cx);
}
static const std::vector<string> TEXTS = {"a", " ", "  two  spaces  ", "(\\)", ")", "<&>\"'", "]]>", "&amp;", "\xc3\xa4", "\xe2\x82\xac\xef\xbf\xbd", "\xf0\x9f\x98\x80\xf4\x8f\xbf\xbf", "line\nbreak\ttab", "\xef\xbb\xbf" "bom", "\xc3\xbe\xc3\xbf", "%", string(3000, 'x') + "\xc3\xa4", "<?xpacket?>", "<!-- -->", "\x01" "control", "\xef\xbf\xbf", "cr\rlf\r\n"};
static void text_case(size_t i, Ctx &cx) {
    static const int CLAIMS[] = {0, 5, 6, 13, 14, 16, 19, 21, 22};
    Meta m;
    m.claim = CLAIMS[i % 9]; i /= 9;
    auto &t = TEXTS[i % TEXTS.size()]; i /= TEXTS.size();
    int which = (int)(i % 5);
    m.prof[0] = true;
    m.intent = "i";
    bool ascii = true;
    for(unsigned char c : t) ascii = ascii && c < 0x80;
    (which == 0 ? m.title : which == 1 ? m.author : which == 2 ? m.creator : which == 3 ? m.intent : m.lang) = t;
    if(which == 4 && (!ascii || t.size() > 100 || t[0] == 1 || t.find_first_of("\r\n") != string::npos)) return;
    R r;
    props(r);
    apply(r, m);
    start(r);
    finish(r);
    // XML has no way to write some characters
    bool unwritable = m.pdfa() && which < 3 && (t.find('\x01') != string::npos || t.find("\xef\xbf\xbf") != string::npos);
    if(unwritable) {
        unlink((scratch() + "/out.pdf").c_str());
        auto o = execute(r.s);
        cx.script(r.s);
        cx.transitions(r.s.size());
        cx.traces();
        bool ok = true;
        for(auto c : o.rc) ok = ok && c == 0;
        if(ok) {
            try {
                auto d = Doc::parse(read_file(scratch() + "/out.pdf"));
                xml::parse(d.stream_data(d.need(d.root(), "Metadata")));
                if(!m.part()) cx.state("");
            } catch(const std::exception &e) { cx.violation("text that XML cannot contain makes the metadata invalid", e.what()); }
        }
        cx.state("unwritable");
        return;
    }
    decide(r, m, cx);
}
static void view_case(size_t i, Ctx &cx) {
    Meta m;
    m.layout = (int)(i % 7) - 1; i /= 7;
    m.mode = (int)(i % 7) - 1; i /= 7;
    m.tagged = i % 2; i /= 2;
    m.lang = (const char *[]){"", "en", "fi-FI"}[i % 3]; i /= 3;
    m.claim = (int)(i % 23);
    m.prof[0] = true;
    m.intent = "i";
    R r;
    props(r);
    apply(r, m);
    start(r);
    finish(r);
    decide(r, m, cx);
}
// Setters in every order: the last accepted value counts.
struct Setter { const char *name; std::function<void(R &)> call; std::function<void(Meta &)> model; bool good = true; };
static const std::vector<Setter> &setters() {
    static const std::vector<Setter> v = {
        {"title1", [](R &r) { r.s("document_properties_set_title", r.md, "one"); }, [](Meta &m) { m.title = "one"; }},
        {"title2", [](R &r) { r.s("document_properties_set_title", r.md, "tw\xc3\xb6"); }, [](Meta &m) { m.title = "tw\xc3\xb6"; }},
        {"title0", [](R &r) { r.s("document_properties_set_title", r.md, ""); }, [](Meta &m) { m.title = ""; }},
        {"titlebad", [](R &r) { r.s("document_properties_set_title", r.md, "\xff"); }, {}, false},
        {"author", [](R &r) { r.s("document_properties_set_author", r.md, "me"); }, [](Meta &m) { m.author = "me"; }},
        {"authorbad", [](R &r) { r.s("document_properties_set_author", r.md, "\xc3"); }, {}, false},
        {"creator", [](R &r) { r.s("document_properties_set_creator", r.md, "it"); }, [](Meta &m) { m.creator = "it"; }},
        {"lang1", [](R &r) { r.s("document_properties_set_language", r.md, "en"); }, [](Meta &m) { m.lang = "en"; }},
        {"lang2", [](R &r) { r.s("document_properties_set_language", r.md, "de"); }, [](Meta &m) { m.lang = "de"; }},
        {"langbad", [](R &r) { r.s("document_properties_set_language", r.md, "\xc3\xa4"); }, {}, false},
        {"tagged1", [](R &r) { r.s("document_properties_set_tagged", r.md, 1); }, [](Meta &m) { m.tagged = 1; }},
        {"tagged0", [](R &r) { r.s("document_properties_set_tagged", r.md, 0); }, [](Meta &m) { m.tagged = 0; }},
        {"tagged2", [](R &r) { r.s("document_properties_set_tagged", r.md, 2); }, {}, false},
        {"x4", [](R &r) { r.s("document_properties_set_pdfx", r.md, 5); }, [](Meta &m) { m.claim = 6; }},
        {"x3", [](R &r) { r.s("document_properties_set_pdfx", r.md, 4); }, [](Meta &m) { m.claim = 5; }},
        {"xbad", [](R &r) { r.s("document_properties_set_pdfx", r.md, 12); }, {}, false},
        {"a3b", [](R &r) { r.s("document_properties_set_pdfa", r.md, 6); }, [](Meta &m) { m.claim = 19; }},
        {"a4f", [](R &r) { r.s("document_properties_set_pdfa", r.md, 8); }, [](Meta &m) { m.claim = 21; }},
        {"abad", [](R &r) { r.s("document_properties_set_pdfa", r.md, -1); }, {}, false},
        {"gray", [](R &r) { r.s("document_properties_set_colorspace", r.md, 1); }, [](Meta &m) { m.cs = 1; }},
        {"rgb", [](R &r) { r.s("document_properties_set_colorspace", r.md, 0); }, [](Meta &m) { m.cs = 0; }},
        {"cmyk", [](R &r) { r.s("document_properties_set_colorspace", r.md, 2); }, [](Meta &m) { m.cs = 2; }},
        {"csbad", [](R &r) { r.s("document_properties_set_colorspace", r.md, 3); }, {}, false},
        {"profgray", [](R &r) { r.s("document_properties_set_device_profile", r.md, 1, icc_file(1)); }, [](Meta &m) { m.prof[1] = true; }},
        {"profcmyk", [](R &r) { r.s("document_properties_set_device_profile", r.md, 2, icc_file(2)); }, [](Meta &m) { m.prof[2] = true; }},
        {"profrgb", [](R &r) { r.s("document_properties_set_device_profile", r.md, 0, icc_file(0)); }, [](Meta &m) { m.prof[0] = true; }},
        {"intent1", [](R &r) { r.s("document_properties_set_output_intent", r.md, "one"); }, [](Meta &m) { m.intent = "one"; }},
        {"intent2", [](R &r) { r.s("document_properties_set_output_intent", r.md, "two"); }, [](Meta &m) { m.intent = "two"; }},
        {"intentbad", [](R &r) { r.s("document_properties_set_output_intent", r.md, "\xed\xa0\x80"); }, {}, false},
        {"xml", [](R &r) { r.s("document_properties_set_metadata_xml", r.md, USER_XML); }, [](Meta &m) { m.xml = USER_XML; }},
        {"xmlbad", [](R &r) { r.s("document_properties_set_metadata_xml", r.md, "<a/>"); }, {}, false},
        {"xmlbad2", [](R &r) { r.s("document_properties_set_metadata_xml", r.md, "pdf:Producer>CapyPDF\xff"); }, {}, false},
        {"layout", [](R &r) { r.s("document_properties_set_page_layout", r.md, 2); }, [](Meta &m) { m.layout = 2; }},
        {"layoutbad", [](R &r) { r.s("document_properties_set_page_layout", r.md, 6); }, {}, false},
        {"mode", [](R &r) { r.s("document_properties_set_page_mode", r.md, 3); }, [](Meta &m) { m.mode = 3; }},
        {"modebad", [](R &r) { r.s("document_properties_set_page_mode", r.md, 6); }, {}, false},
    };
    return v;
}
// len settings; the generator is made after the first `cut` of them, the others must have no effect on it
static void history_case(size_t i, Ctx &cx, int len, bool base) {
    auto &S = setters();
    size_t cut = i % (size_t)(len + 1); i /= (size_t)(len + 1);
    Meta m;
    R r;
    props(r);
    if(base) {
        m.prof[0] = true;
        m.intent = "base";
        m.claim = 19;
        m.title = "base";
        apply(r, m);
    }
    std::set<size_t> rejected;
    for(int k = 0; k < len; ++k) {
        if((size_t)k == cut) start(r);
        auto &st = S[i % S.size()]; i /= S.size();
        if(!st.good) rejected.insert(r.s.size());
        st.call(r);
        if(st.good && (size_t)k < cut) st.model(m);
    }
    if(cut == (size_t)len) start(r);
    finish(r);
    decide(r, m, cx, rejected);
}
// Profiles of the wrong kind.
static void profile_case(size_t i, Ctx &cx) {
    int slot = (int)(i % 3); i /= 3;
    int kind = (int)(i % 7); i /= 7; // a right or wrong profile, garbage, empty, missing file, empty path
    int cs = (int)(i % 3); i /= 3;
    int claim = (int)(i % 23);
    Meta m;
    m.claim = claim;
    m.intent = "i";
    m.cs = cs;
    m.prof[slot] = true;
    R r;
    props(r);
    if(claim && claim <= 12) r.s("document_properties_set_pdfx", r.md, claim - 1);
    if(claim >= 13) r.s("document_properties_set_pdfa", r.md, claim - 13);
    r.s("document_properties_set_output_intent", r.md, "i");
    r.s("document_properties_set_colorspace", r.md, cs);
    string path;
    if(kind < 3) path = icc_file(kind);
    else if(kind == 3) { write_file(scratch() + "/garbage.icc", string(300, 'g')); path = "$OUT/garbage.icc"; }
    else if(kind == 4) { write_file(scratch() + "/empty.icc", ""); path = "$OUT/empty.icc"; }
    else if(kind == 5) path = "$OUT/missing.icc";
    r.s("document_properties_set_device_profile", r.md, slot, path);
    start(r);
    finish(r);
    if(kind == slot) { decide(r, m, cx); return; }
    if(kind == 6) { // no profile
        m.prof[slot] = false;
        decide(r, m, cx);
        return;
    }
    cx.script(r.s);
    unlink((scratch() + "/out.pdf").c_str());
    auto o = execute(r.s);
    cx.transitions(r.s.size());
    cx.traces();
    bool bad = false;
    for(size_t k = 0; k <= r.gi; ++k) bad |= o.rc[k] != 0;
    if(!bad) cx.violation("an unusable profile is accepted");
    if(file_exists(scratch() + "/out.pdf")) cx.violation("a refused document is written");
    cx.state("refused");
}
// One set of properties, changed between documents that are written in between or later.
static void reuse_case(size_t i, Ctx &cx) {
    auto &S = setters();
    auto &a = S[i % S.size()]; i /= S.size();
    auto &b = S[i % S.size()]; i /= S.size();
    bool late = i % 2;
    Meta m1;
    m1.prof[0] = true;
    m1.intent = "base";
    m1.claim = 6;
    R r;
    props(r);
    apply(r, m1);
    std::set<size_t> rejected;
    if(!a.good) rejected.insert(r.s.size());
    a.call(r);
    if(a.good) a.model(m1);
    if(m1.impossible()) return;
    V g1 = r.s("generator_new", "$OUT/first.pdf", r.md);
    auto write = [&](V g) {
        auto p = r.s("page_draw_context_new", g);
        r.s("generator_add_page", g, p);
        r.s("generator_write", g);
    };
    if(!late) write(g1);
    Meta m2 = m1;
    if(!b.good) rejected.insert(r.s.size());
    b.call(r);
    if(b.good) b.model(m2);
    if(m2.impossible()) return;
    V g2 = r.s("generator_new", "$OUT/out.pdf", r.md);
    write(g2);
    r.s("document_properties_destroy", r.md);
    if(late) write(g1);
    Doc d;
    unlink((scratch() + "/first.pdf").c_str());
    if(!run_expect(r.s, rejected, cx, d)) return;
    try {
        auto e = judge(d, m2);
        if(!e.empty()) cx.violation("the second document is not as it was described", e);
        auto d1 = Doc::parse(read_file(scratch() + "/first.pdf"));
        e = judge(d1, m1);
        if(!e.empty()) cx.violation("the first document is not as it was described", e);
        cx.state(d.canon() + d1.canon());
    } catch(const std::exception &e) { cx.violation("the document is not as it was described", e.what()); }
}
// The same with contents of the document that the catalog refers to as well.
static void files_case(size_t i, Ctx &cx) {
    Meta m;
    m.claim = (int)(i % 23); i /= 23;
    int n = 1 + (int)(i % 2); i /= 2;
    m.tagged = i % 2;
    m.prof[0] = true;
    m.intent = "i";
    m.title = "t";
    R r;
    props(r);
    apply(r, m);
    start(r);
    for(int k = 0; k < n; ++k) {
        auto nm = "/f" + to_string(k);
        write_file(scratch() + nm, "data");
        auto e = r.s("embedded_file_new");
        r.s("embedded_file_load_file", e, "$OUT" + nm);
        r.s("generator_embed_file", r.gen, e);
    }
    finish(r);
    decide(r, m, cx, {}, true);
}

int main(int argc, char **argv) {
    Check c;
    c.id = "C15";
    c.bounds = "All 23 claims x colour spaces x profiles x output intent x XMP x tagging x information entries; 21 texts in each of the entries and all assignments of four texts to three of them under nine claims; all page layouts, modes and languages; all sequences of two (thorough: three) of 36 settings, valid and invalid, with the creation of the generator at every position, from two starting points; seven kinds of profile files in each slot under every claim; all pairs of settings around two documents that share their properties; embedded files under every claim.";
    c.assumptions = {"Only what the claim requires of the document level is judged: version, file structure, identification, metadata, output intent, name tree. What the user draws is not.", "When the user supplies XMP metadata they are stored unaltered and identify the conformance themselves."};
    c.families = [](bool thorough) {
        std::vector<Family> f;
        size_t n = setters().size();
        f.push_back({"claims", 23 * 3 * 8 * 2 * 2 * 2 * 8, claim_case});
        f.push_back({"texts", 9 * TEXTS.size() * 5, text_case});
        f.push_back({"names", 9 * 64, [](size_t i, Ctx &cx) {
            static const int CLAIMS[] = {0, 5, 6, 13, 14, 16, 19, 21, 22};
            static const char *N[] = {"", "Same", "x", "Another name"};
            Meta m;
            m.claim = CLAIMS[i / 64];
            m.title = N[i % 4];
            m.author = N[i / 4 % 4];
            m.creator = N[i / 16 % 4];
            m.prof[0] = true;
            m.intent = "Same";
            R r;
            props(r);
            apply(r, m);
            start(r);
            finish(r);
            decide(r, m, cx);
        }});
        f.push_back({"viewer", 7 * 7 * 2 * 3 * 23, view_case});
        f.push_back({"profiles", 3 * 7 * 3 * 23, profile_case});
        f.push_back({"history2", 3 * n * n, [](size_t i, Ctx &cx) { history_case(i, cx, 2, false); }});
        f.push_back({"change2", 3 * n * n, [](size_t i, Ctx &cx) { history_case(i, cx, 2, true); }});
        f.push_back({"reuse", n * n * 2, reuse_case});
        f.push_back({"files", 23 * 2 * 2, files_case});
        if(thorough) {
            f.push_back({"history3", 4 * n * n * n, [](size_t i, Ctx &cx) { history_case(i, cx, 3, false); }});
            f.push_back({"change3", 4 * n * n * n, [](size_t i, Ctx &cx) { history_case(i, cx, 3, true); }});
        }
        return f;
    };
    return check_main(argc, argv, c);
}
