From 9bfea2bb45d018cd371a25b2f757ae9b9cd6d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 001/134] fix: use the /op key for the nonstroking overprint
 state

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index d236ff2..c078290 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1689,7 +1689,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
     }
     if(state.op) {
-        fmt.add_token_pair("/op2", *state.op ? "true" : "false");
+        fmt.add_token_pair("/op", *state.op ? "true" : "false");
     }
     if(state.OPM) {
         fmt.add_token_pair("/OPM", *state.OPM);
-- 
2.43.0


From 9ab7bcf45a43ce90265e87f6dc1c5cebfd8ee2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 002/134] fix: write a valid /AIS key in graphics states

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index c078290..e56b2ba 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1732,7 +1732,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ca", state.ca->v());
     }
     if(state.AIS) {
-        fmt.add_token_pair("/AIS {}", *state.AIS ? "true" : "false");
+        fmt.add_token_pair("/AIS", *state.AIS ? "true" : "false");
     }
     if(state.TK) {
         fmt.add_token_pair("/TK", *state.TK ? "true" : "false");
-- 
2.43.0


From 55787dddf1db0922a6f0a8d8ea88bb84cbd0fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 003/134] fix: write graphics state rendering intent as /RI
 name

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index e56b2ba..779d606 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1683,7 +1683,8 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ML", *state.ML);
     }
     if(state.RI) {
-        fmt.add_token_pair("/RenderingIntent", rendering_intent_names.at(*state.RI));
+        fmt.add_token("/RI");
+        fmt.add_token_with_slash(rendering_intent_names.at(*state.RI));
     }
     if(state.OP) {
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
-- 
2.43.0


From 17ab5c245f32332df5aa31e692ab7d37dd7a61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 004/134] fix: do not write /Length twice for mesh shadings

---
 src/document.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 779d606..5fdc308 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1948,7 +1948,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType4 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
@@ -1984,7 +1983,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType6 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
-- 
2.43.0


From 4e85e0e575e4c3cda0c0919ec76832546437155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 005/134] fix: write structure parent tree as a reference

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 5fdc308..97f9202 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1269,7 +1269,8 @@ void PdfDocument::create_structure_root_dict() {
     fmt.begin_array();
     fmt.add_object_ref(structure_items[rootobj->id].obj_id);
     fmt.end_array();
-    fmt.add_token_pair("/ParentTree", structure_parent_tree_object.value());
+    fmt.add_token("/ParentTree");
+    fmt.add_object_ref(structure_parent_tree_object.value());
     fmt.add_token_pair("/ParentTreeNextKey", structure_parent_tree_items.size());
     if(!rolemap.empty()) {
         fmt.add_token("/RoleMap");
-- 
2.43.0


From 3828c66de59b59262d8e3f54e4227665d2cf48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 006/134] fix: NeedAppearances belongs in the AcroForm
 dictionary

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 97f9202..50cb5de 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1080,8 +1080,8 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             }
         }
         fmt.end_array();
-        fmt.end_dict();
         fmt.add_token_pair("/NeedAppearances", "true");
+        fmt.end_dict();
     }
     if(!ocg_items.empty()) {
         fmt.add_token("/OCProperties");
-- 
2.43.0


From d979b78bac2b5b5432073ffe616fd6acf47cbb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 007/134] fix: write page label styles as names

---
 src/document.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 50cb5de..90e73e6 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -27,12 +27,12 @@ const std::array<const char *, 3> colorspace_names{
     "/DeviceCMYK",
 };
 
-const std::array<const char, 5> page_label_types{
-    'D', // Decimal
-    'R', // Roman Upper
-    'r', // Roman Lower
-    'A', // Letter Upper
-    'a', // Letter Lower
+const std::array<const char *, 5> page_label_types{
+    "/D", // Decimal
+    "/R", // Roman Upper
+    "/r", // Roman Lower
+    "/A", // Letter Upper
+    "/a", // Letter Lower
 };
 
 const std::array<const char *, 21> spot_function_names{
-- 
2.43.0


From 3c948829937cd96bf8576508d8d9528d907791a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 008/134] fix: output intent type must be a name

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 90e73e6..dd9086b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1154,7 +1154,7 @@ void PdfDocument::create_output_intent() {
     const char *gts =
         std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) ? "/GTS_PDFX" : "/GTS_PDFA1";
     fmt.begin_dict();
-    fmt.add_token_pair("/Type", "OutputIntent");
+    fmt.add_token_pair("/Type", "/OutputIntent");
     fmt.add_token_pair("/S", gts);
     fmt.add_token("/OutputConditionIdentifier");
     fmt.add_token(utf8_to_pdfutf16be(docprops.intent_condition_identifier));
-- 
2.43.0


From de7c5da7908f282c5b569069484e570b93dceb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 009/134] fix: write embedded file subtype as a name

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index dd9086b..cc8d34f 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2085,7 +2085,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/EmbeddedFile");
         if(!ef.subtype.empty()) {
-            auto quoted = pdfname_quote(ef.subtype.sv());
+            auto quoted = bytes2pdfstringliteral(ef.subtype.sv());
             fmt.add_token_pair("/Subtype", quoted);
         }
         fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::move(ef.contents))});
-- 
2.43.0


From 9fe5d99bdbff66785ac46b622413f024525c0409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 010/134] fix: write role map targets as names

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index cc8d34f..ae317c1 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1276,7 +1276,8 @@ void PdfDocument::create_structure_root_dict() {
         fmt.add_token("/RoleMap");
         fmt.begin_dict();
         for(const auto &i : rolemap) {
-            fmt.add_token_pair(bytes2pdfstringliteral(i.name), structure_type_names.at(i.builtin));
+            fmt.add_token(bytes2pdfstringliteral(i.name));
+            fmt.add_token_with_slash(structure_type_names.at(i.builtin));
         }
         fmt.end_dict();
     }
-- 
2.43.0


From 650b3199b1e394693ff715e74d0f8a3a481712d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 011/134] fix: viewport bounding box key is BBox

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a384b57..159b5c9 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -189,7 +189,7 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Viewport");
         if(vp.bbox) {
-            fmt.write_rectangle("bbox", vp.bbox.value());
+            fmt.write_rectangle("BBox", vp.bbox.value());
         }
         if(!vp.name.empty()) {
             fmt.add_token("/Name");
-- 
2.43.0


From 3f3628ee0ddc3734bb2bdb9af10dc5e22875f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 012/134] fix: escape all delimiter characters in names

---
 src/utils.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1c55548..89166de 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -77,10 +77,22 @@ bool needs_quoting(const unsigned char c) {
     if(c < '!' || c > '~') {
         return true;
     }
-    if(c == '#' || c == '(' || c == ')' || c == ' ' || c == '/') {
+    switch(c) {
+    case '#':
+    case '(':
+    case ')':
+    case '<':
+    case '>':
+    case '[':
+    case ']':
+    case '{':
+    case '}':
+    case '/':
+    case '%':
         return true;
+    default:
+        return false;
     }
-    return false;
 }
 
 template<typename T> rvoe<T> do_file_load(FILE *f) {
-- 
2.43.0


From 4b3188b8d9a0c23f70dcd6d05b8a9dec183cb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 013/134] fix: escape carriage returns in literal strings

---
 src/utils.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 89166de..0aafd72 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -283,6 +283,10 @@ std::string pdfstring_quote(std::string_view raw_string) {
     result.push_back('(');
     for(const char c : raw_string) {
         switch(c) {
+        case '\r':
+            // An unescaped CR would be read back as LF.
+            result += "\\r";
+            continue;
         case '(':
         case ')':
         case '\\':
@@ -309,6 +313,9 @@ std::string u8str2u8textstring(std::string_view u8string) {
     result.push_back(char(191));
     for(const char c : u8string) {
         switch(c) {
+        case '\r':
+            result += "\\r";
+            continue;
         case '(':
         case ')':
         case '\\':
@@ -333,6 +340,9 @@ std::string u8str2filespec(const u8string &str) {
     result.push_back(char(191));
     for(const char c : str.sv()) {
         switch(c) {
+        case '\r':
+            result += "\\r";
+            continue;
         case '(':
         case ')':
         case '\\':
-- 
2.43.0


From bc9063167ab7a3f1ff12127269c920963f466cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 014/134] fix: do not duplicate slashes in file specification
 strings

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0aafd72..8c24c7b 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -332,7 +332,7 @@ std::string u8str2u8textstring(std::string_view u8string) {
 
 std::string u8str2filespec(const u8string &str) {
     std::string result;
-    const char escaped_slash[4] = {'\\', '\\', '/', 0};
+    const char escaped_slash[3] = {'\\', '\\', 0};
     result.reserve(str.size() + 10);
     result.push_back('(');
     result.push_back(char(239));
-- 
2.43.0


From 8c03b9ea521ffab9afa49b9b4d643eb6c15133bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 015/134] fix: escape ampersands correctly in XML

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 8c24c7b..717e74a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -474,7 +474,7 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
             result += "&gt;";
             break;
         case '&':
-            result += "&quot;";
+            result += "&amp;";
             break;
         default:
             result += c;
-- 
2.43.0


From 9b3e656ff6e61da42366624ab3122f15c6ae035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 016/134] fix: quote special characters in ASCII strings

---
 src/objectformatter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6443a75..3f9d785 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -163,10 +163,7 @@ void ObjectFormatter::check_indent() {
 }
 
 void ObjectFormatter::add_pdfstring(const asciistring &str) {
-    // FIXME: add quoting for special characters.
-    check_indent();
-    std::format_to(app, "({})", str.c_str());
-    added_item();
+    add_token(pdfstring_quote(str.sv()));
 }
 
 void ObjectFormatter::add_bytestring(const std::string_view str) {
-- 
2.43.0


From 0956961602e02559e154d82ed7ddf855098c91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 017/134] fix: count a byte string as one item when formatting

---
 src/objectformatter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 3f9d785..3f57336 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -169,7 +169,6 @@ void ObjectFormatter::add_pdfstring(const asciistring &str) {
 void ObjectFormatter::add_bytestring(const std::string_view str) {
     auto quoted = pdfstring_quote(str);
     add_token(quoted);
-    added_item();
 }
 
 void ObjectFormatter::add_utf8_string(const u8string &ustr) {
-- 
2.43.0


From 97d31b056e60bdabe2c2770f132fad73db403f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 018/134] fix: separate boolean tokens from what follows

---
 src/objectformatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 3f57336..49277ee 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -98,6 +98,7 @@ void ObjectFormatter::add_token(uint64_t number) {
 void ObjectFormatter::add_token(bool value) {
     check_indent();
     buf += value ? "true" : "false";
+    added_item();
 }
 
 void ObjectFormatter::add_token_with_slash(const char *name) {
-- 
2.43.0


From 59c9686bc6d533eccf5e620dfc6e6550429d2786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 019/134] fix: quote marked content property keys and values

---
 src/commandstreamformatter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 86462b1..8dea2d9 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -2,6 +2,7 @@
 // Copyright 2025 Jussi Pakkanen
 
 #include <commandstreamformatter.hpp>
+#include <utils.hpp>
 #include <format>
 #include <cassert>
 
@@ -62,10 +63,10 @@ void CommandStreamFormatter::append_dict_entry(std::string_view key, int32_t val
 
 void CommandStreamFormatter::append_dict_entry_string(const char *key, const char *value) {
     if(key[0] == '/') {
-        std::format_to(appender, "{}{} ({})\n", lead, key, value);
-    } else {
-        std::format_to(appender, "{}/{} ({})\n", lead, key, value);
+        ++key;
     }
+    std::format_to(
+        appender, "{}{} {}\n", lead, bytes2pdfstringliteral(key), pdfstring_quote(value));
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
-- 
2.43.0


From 09925decce2ddf028f06dd5df175e2083a528a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 020/134] fix: do not write the operator when BT or BMC is
 rejected

---
 src/commandstreamformatter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 8dea2d9..377c8a3 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -70,6 +70,9 @@ void CommandStreamFormatter::append_dict_entry_string(const char *key, const cha
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
+    if(has_state(DrawStateType::Text)) {
+        RETERR(DrawStateEndMismatch);
+    }
     append("BT");
     ERCV(indent(DrawStateType::Text));
     RETOK;
@@ -94,6 +97,9 @@ rvoe<NoReturnValue> CommandStreamFormatter::Q() {
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BMC() {
+    if(has_state(DrawStateType::MarkedContent)) {
+        RETERR(NestedBMC);
+    }
     append("BMC");
     ERCV(indent(DrawStateType::MarkedContent));
     RETOK;
-- 
2.43.0


From fe8c12a3bbeb5eaf9184e250b9f6b50475a57757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 021/134] fix: return an error instead of aborting for BDC
 without properties

---
 src/drawcontext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1559156..e2a38fd 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -281,8 +281,8 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
                                             std::optional<CapyPDF_StructureItemId> sid,
                                             const BDCTags *attributes) {
     if(!sid && !attributes) {
-        fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
-        std::abort();
+        // Must specify sid or attributes. Otherwise use BMC.
+        RETERR(ArgIsNull);
     }
     cmds.append_indent();
     cmds.append_raw("/");
-- 
2.43.0


From 5494709868010efbe5dd3cc25659c263f2ff363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 022/134] fix: validate BDC arguments before writing anything

---
 src/drawcontext.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index e2a38fd..1f208e9 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -284,14 +284,21 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
         // Must specify sid or attributes. Otherwise use BMC.
         RETERR(ArgIsNull);
     }
+    if(cmds.marked_content_depth() != 0) {
+        RETERR(NestedBMC);
+    }
+    std::optional<int32_t> MCID_id;
+    if(sid) {
+        ERC(new_id, add_bcd_structure(sid.value()));
+        MCID_id = new_id;
+    }
     cmds.append_indent();
     cmds.append_raw("/");
     cmds.append_raw(name.sv());
     cmds.append_raw(" <<\n");
     ERCV(cmds.indent(DrawStateType::Dictionary));
-    if(sid) {
-        ERC(MCID_id, add_bcd_structure(sid.value()));
-        cmds.append_dict_entry("/MCID", MCID_id);
+    if(MCID_id) {
+        cmds.append_dict_entry("/MCID", *MCID_id);
     }
     if(attributes) {
         for(const auto &[key, value] : *attributes) {
@@ -321,8 +328,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid) {
-    used_ocgs.insert(ocgid);
+    CHECK_INDEXNESS(ocgid.id, doc->ocg_items);
     ERCV(cmds.indent(DrawStateType::MarkedContent));
+    used_ocgs.insert(ocgid);
     auto cmd = std::format("/OC /oc{} BDC\n", doc->ocg_object_number(ocgid));
     cmds.append(cmd);
     RETOK;
-- 
2.43.0


From ef0074f3849f75228df16750e9761bd1f334262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 023/134] fix: forget form xobjects and structure items when a
 context is reused

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1f208e9..c1fa568 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -130,6 +130,8 @@ void PdfDrawContext::clear() {
     used_annotations.clear();
     used_ocgs.clear();
     used_trgroups.clear();
+    used_form_xobjects.clear();
+    used_structures.clear();
     sub_navigations.clear();
     transition.reset();
     viewports.clear();
-- 
2.43.0


From a26968295ebf7f246560dd9665dfdc01fc3919e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 024/134] fix: quote special characters in names

---
 src/pdfcommon.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pdfcommon.cpp b/src/pdfcommon.cpp
index f4d3360..dc04b99 100644
--- a/src/pdfcommon.cpp
+++ b/src/pdfcommon.cpp
@@ -128,12 +128,10 @@ rvoe<PdfName> PdfName::from_view(std::string_view sv) {
     if(sv.find('\0') != std::string_view::npos) {
         RETERR(EmbeddedNullInString);
     }
-    if(sv[0] != '/') {
-        std::string slashed = "/";
-        slashed += sv;
-        return PdfName(std::move(slashed));
+    if(sv[0] == '/') {
+        sv.remove_prefix(1);
     }
-    return PdfName(sv);
+    return PdfName(bytes2pdfstringliteral(sv));
 }
 
 rvoe<u8string> u8string::from_cstr(const char *cstr) {
-- 
2.43.0


From 7b5680d484cced4a6fb5ae227441ff26a341aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 025/134] fix: quote marked content tags

---
 src/capi.cpp        |  2 +-
 src/drawcontext.cpp | 14 +++++---------
 src/drawcontext.hpp |  2 +-
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index cea91c4..d4aae73 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1017,7 +1017,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_BDC_testing(CapyPDF_DrawContext *ctx,
     if(!astr) {
         return conv_err(astr.error());
     }
-    return conv_err(dc->cmd_BDC(astr.value(), {}, tags ? &tags->tags : nullptr));
+    return conv_err(dc->cmd_BDC(astr->sv(), {}, tags ? &tags->tags : nullptr));
     API_BOUNDARY_END;
 }
 
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c1fa568..7825a5d 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -279,7 +279,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_Bstar() {
     RETOK;
 }
 
-rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
+rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(std::string_view name,
                                             std::optional<CapyPDF_StructureItemId> sid,
                                             const BDCTags *attributes) {
     if(!sid && !attributes) {
@@ -295,8 +295,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
         MCID_id = new_id;
     }
     cmds.append_indent();
-    cmds.append_raw("/");
-    cmds.append_raw(name.sv());
+    cmds.append_raw(bytes2pdfstringliteral(name));
     cmds.append_raw(" <<\n");
     ERCV(cmds.indent(DrawStateType::Dictionary));
     if(MCID_id) {
@@ -318,12 +317,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
                                             const BDCTags *attributes) {
     const auto &itemtype = doc->structure_items.at(sid.id).stype;
     if(auto builtin = std::get_if<CapyPDF_Structure_Type>(&itemtype)) {
-        ERC(astr, asciistring::from_cstr(structure_type_names.at(*builtin)));
-        return cmd_BDC(astr, sid, attributes);
+        return cmd_BDC(structure_type_names.at(*builtin), sid, attributes);
     } else if(auto role = std::get_if<CapyPDF_RoleId>(&itemtype)) {
-        auto quoted = bytes2pdfstringliteral(doc->rolemap.at(role->id).name, false);
-        ERC(astr, asciistring::from_cstr(quoted.c_str()));
-        return cmd_BDC(astr, sid, attributes);
+        return cmd_BDC(doc->rolemap.at(role->id).name, sid, attributes);
     } else {
         std::abort();
     }
@@ -343,7 +339,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/{} BMC\n", tag);
+    auto cmd = std::format("{} BMC\n", bytes2pdfstringliteral(tag));
     cmds.append(cmd);
     RETOK;
 }
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 247ed4e..140c7c0 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -74,7 +74,7 @@ public:
     rvoe<NoReturnValue> cmd_B();
     rvoe<NoReturnValue> cmd_bstar();
     rvoe<NoReturnValue> cmd_Bstar();
-    rvoe<NoReturnValue> cmd_BDC(const asciistring &name,
+    rvoe<NoReturnValue> cmd_BDC(std::string_view name,
                                 std::optional<CapyPDF_StructureItemId> sid,
                                 const BDCTags *attributes);
     rvoe<NoReturnValue> cmd_BDC(CapyPDF_StructureItemId sid, const BDCTags *attributes);
-- 
2.43.0


From a7526088188c92980b19ee7c6ca32a6af268ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 026/134] fix: quote collection schema keys

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index ae317c1..8dcc281 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1120,7 +1120,7 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             fmt.begin_dict();
             const auto &schema = c.schema.value();
             for(const auto &[key, value] : schema.entries) {
-                fmt.add_token_with_slash(key.c_str());
+                fmt.add_token(bytes2pdfstringliteral(key.sv()));
                 fmt.begin_dict();
                 fmt.add_token("/Subtype");
                 fmt.add_token(collection_view_subtype_names.at(value.subtype));
-- 
2.43.0


From 4f20e5932cbeca6d06e9cf277f807456f656aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 027/134] fix: name tree root must not have limits

---
 src/document.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 8dcc281..58449b2 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -835,13 +835,6 @@ rvoe<int32_t> PdfDocument::create_name_dict() {
     // At least that is what the VeraPDF validator says.
     if(!embedded_files.empty()) {
 
-        fmt.add_token("/Limits");
-
-        fmt.begin_array(2);
-        fmt.add_token(pdfstring_quote(sorted_names.front().name));
-        fmt.add_token(pdfstring_quote(sorted_names.back().name));
-        fmt.end_array();
-
         fmt.add_token("/Names");
 
         fmt.begin_array(2);
-- 
2.43.0


From d0b420f856a6f1e38a812be229a535589c47c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 028/134] fix: check fonts and glyphs of text before rendering
 it

---
 src/drawcontext.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 7825a5d..3a112e1 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1112,14 +1112,15 @@ rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text)
     std::optional<CapyPDF_FontId> font;
     for(const auto &e : text.get_events()) {
         if(const auto *Tf = std::get_if<Tf_arg>(&e)) {
+            CHECK_INDEXNESS(Tf->font.id, doc->font_objects);
             font = Tf->font;
         } else if(const auto *text_arg = std::get_if<Tj_arg>(&e)) {
             if(!font) {
                 RETERR(FontNotSpecified);
-                for(const auto &codepoint : text_arg->text) {
-                    if(!doc->font_has_character(font.value(), codepoint)) {
-                        RETERR(MissingGlyph);
-                    }
+            }
+            for(const auto codepoint : text_arg->text) {
+                if(!doc->font_has_character(font.value(), codepoint)) {
+                    RETERR(MissingGlyph);
                 }
             }
         } else if(const auto *TJ = std::get_if<TJ_arg>(&e)) {
@@ -1130,11 +1131,11 @@ rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text)
                 if(const auto *unicode = std::get_if<UnicodeCharacter>(&te)) {
                     if(!doc->font_has_character(font.value(), unicode->codepoint)) {
                         RETERR(MissingGlyph);
-                    } else if(const auto *u8str = std::get_if<u8string>(&te)) {
-                        for(const auto &codepoint : *u8str) {
-                            if(!doc->font_has_character(font.value(), codepoint)) {
-                                RETERR(MissingGlyph);
-                            }
+                    }
+                } else if(const auto *u8str = std::get_if<u8string>(&te)) {
+                    for(const auto codepoint : *u8str) {
+                        if(!doc->font_has_character(font.value(), codepoint)) {
+                            RETERR(MissingGlyph);
                         }
                     }
                 }
-- 
2.43.0


From 83ff9c23685d3de3f98c6cc5f172e3b662eba918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 029/134] fix: support all colors inside text objects instead
 of aborting

---
 src/drawcontext.cpp | 65 ++-------------------------------------------
 1 file changed, 2 insertions(+), 63 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 3a112e1..6f964aa 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -989,72 +989,11 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         [&](const Emc_arg &) -> rvoe<NoReturnValue> { return cmds.EMC(); },
 
         [&](const Stroke_arg &sarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&sarg.c)) {
-                ERCV(serialize_RG(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&sarg.c)) {
-                ERCV(serialize_G(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&sarg.c)) {
-                ERCV(serialize_K(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&sarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                std::string cmd;
-                auto app = std::back_inserter<std::string>(cmd);
-                std::format_to(app, "/CSpace{} CS\n", icc_info.object_num);
-                cmds.append(cmd);
-                cmd.clear();
-
-                for(const auto &i : icc->values) {
-                    std::format_to(app, "{:f} ", i);
-                }
-                cmd += " SCN";
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&sarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern CS\n");
-                auto cmd = std::format("/Pattern-{} SCN\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text stroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
+            return set_color(sarg.c, true);
         },
 
         [&](const Nonstroke_arg &nsarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&nsarg.c)) {
-                ERCV(serialize_rg(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&nsarg.c)) {
-                ERCV(serialize_g(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&nsarg.c)) {
-                ERCV(serialize_k(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&nsarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                auto cmd = std::format("/CSpace{} cs\n", icc_info.object_num);
-                for(const auto &i : icc->values) {
-                    std::format_to(std::back_inserter(cmd), "{:f} ", i);
-                }
-                std::format_to(std::back_inserter(cmd), "{}\n", "scn");
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&nsarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern cs\n");
-                auto cmd = std::format("/Pattern-{} scn\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text nonstroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
+            return set_color(nsarg.c, false);
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
-- 
2.43.0


From 46ca98314c9d5616dafff13e46b31723cdfb19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 030/134] fix: do not write dash phase in exponential notation

---
 src/drawcontext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 6f964aa..a0fe965 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -384,7 +384,7 @@ PdfDrawContext::cmd_d(const double *dash_array, size_t dash_array_length, double
     for(size_t i = 0; i < dash_array_length; ++i) {
         std::format_to(app, "{:f} ", dash_array[i]);
     }
-    std::format_to(app, "] {} d\n", phase);
+    std::format_to(app, "] {:f} d\n", phase);
     cmds.append(cmd);
     RETOK;
 }
@@ -1027,7 +1027,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             for(auto val : dash.array) {
                 std::format_to(std::back_inserter(cmd), "{:f} ", val);
             }
-            std::format_to(std::back_inserter(cmd), " ] {} d\n", dash.phase);
+            std::format_to(std::back_inserter(cmd), " ] {:f} d\n", dash.phase);
             cmds.append(cmd);
             RETOK;
         },
-- 
2.43.0


From b45c1b2fc34506f99964f6b9d9cb406e530bf52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 031/134] fix: check text rendering mode and line width inside
 text objects

---
 src/drawcontext.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index a0fe965..c02d472 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -948,6 +948,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const Tr_arg &tr) -> rvoe<NoReturnValue> {
+            CHECK_ENUM(tr.rmode, CAPY_TEXT_CLIP);
             cmds.append_command((int)tr.rmode, "Tr");
             RETOK;
         },
@@ -997,6 +998,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
+            if(w.width < 0) {
+                RETERR(NegativeLineWidth);
+            }
             cmds.append_command(w.width, "w");
             RETOK;
         },
-- 
2.43.0


From fe0760baeee69e4ad23994b4d295b99379c72391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 032/134] fix: write text arrays correctly when they begin with
 or contain only actual text

---
 src/drawcontext.cpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c02d472..ef356ac 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -800,23 +800,30 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
                                                            CommandStreamFormatter &serialisation,
                                                            CapyPDF_FontId &current_font) {
     CHECK_INDEXNESS(current_font.id, doc->font_objects);
-    bool is_first = true;
+    bool array_open = false;
+    auto open_array = [&serialisation, &array_open]() {
+        if(!array_open) {
+            serialisation.append_indent();
+            serialisation.append_raw("[ ");
+            array_open = true;
+        }
+    };
+    auto close_array = [&serialisation, &array_open]() {
+        if(array_open) {
+            serialisation.append_raw("] TJ\n");
+            array_open = false;
+        }
+    };
     auto glyph_appender_lambda =
-        [this, &serialisation, &is_first](const SubsetGlyph &current_subset_glyph) {
+        [this, &serialisation, &open_array](const SubsetGlyph &current_subset_glyph) {
             used_external_fonts.insert(current_subset_glyph.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
             serialisation.append_raw(glyphid);
         };
     for(const auto &e : charseq) {
         if(auto kval = std::get_if<KerningValue>(&e)) {
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             auto v = std::format("{} ", kval->v);
             serialisation.append_raw(v);
         } else if(auto uglyph = std::get_if<UnicodeCharacter>(&e)) {
@@ -829,10 +836,7 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             }
             ERC(subset, doc->get_subset_glyph(current_font, *u8str->begin(), {}));
             used_external_fonts.insert(subset.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             serialisation.append_raw("<");
             for(const auto codepoint : *u8str) {
                 ERC(current_subset_glyph, doc->get_subset_glyph(current_font, codepoint, {}));
@@ -842,13 +846,12 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             serialisation.append_raw("> ");
         } else if(auto actualtext = std::get_if<ActualTextStart>(&e)) {
             auto u16 = utf8_to_pdfutf16be(actualtext->text);
-            serialisation.append_raw("] TJ\n");
+            close_array();
             auto cmd = std::format("/Span << /ActualText {} >> BDC", u16);
             serialisation.append(cmd);
-            serialisation.append_raw("[");
         } else if(std::holds_alternative<ActualTextEnd>(e)) {
-            serialisation.append_raw("] TJ\n");
-            serialisation.append("EMC [");
+            close_array();
+            serialisation.append("EMC");
         } else if(auto glyphitem = std::get_if<GlyphItem>(&e)) {
             ERC(current_subset_glyph,
                 doc->get_subset_glyph(
@@ -863,9 +866,8 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             fprintf(stderr, "Not implemented yet.\n");
             std::abort();
         }
-        is_first = false;
     }
-    serialisation.append_raw("] TJ\n");
+    close_array();
     RETOK;
 }
 
-- 
2.43.0


From b69877fef08c6ab30e9e4af240bba784f2e3102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 033/134] fix: check structure item ids in marked content

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index ef356ac..5093a3f 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -315,6 +315,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(std::string_view name,
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
                                             const BDCTags *attributes) {
+    CHECK_INDEXNESS(sid.id, doc->structure_items);
     const auto &itemtype = doc->structure_items.at(sid.id).stype;
     if(auto builtin = std::get_if<CapyPDF_Structure_Type>(&itemtype)) {
         return cmd_BDC(structure_type_names.at(*builtin), sid, attributes);
@@ -1219,6 +1220,7 @@ rvoe<NoReturnValue> PdfDrawContext::set_group_matrix(const PdfMatrix &mat) {
 }
 
 rvoe<int32_t> PdfDrawContext::add_bcd_structure(CapyPDF_StructureItemId sid) {
+    CHECK_INDEXNESS(sid.id, doc->structure_items);
     for(const auto &id : used_structures) {
         if(id == sid) {
             RETERR(StructureReuse);
-- 
2.43.0


From 6b002f7b0faa6f7587918482e12c98cc86428a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 034/134] fix: a failed text rendering must not leave partial
 output

---
 src/commandstreamformatter.hpp | 15 +++++++++++++++
 src/drawcontext.cpp            | 32 +++++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/commandstreamformatter.hpp b/src/commandstreamformatter.hpp
index c1879a0..badce92 100644
--- a/src/commandstreamformatter.hpp
+++ b/src/commandstreamformatter.hpp
@@ -64,6 +64,21 @@ public:
 
     bool has_unclosed_state() const { return !stack.empty(); }
 
+    // Restoring is only possible while nothing that was
+    // open at the time of saving has been closed.
+    struct Savepoint {
+        size_t lead_size;
+        size_t stack_size;
+        size_t buf_size;
+    };
+
+    Savepoint get_savepoint() const { return {lead.size(), stack.size(), buf.size()}; }
+    void restore(const Savepoint &sp) {
+        lead.resize(sp.lead_size);
+        stack.resize(sp.stack_size);
+        buf.resize(sp.buf_size);
+    }
+
 private:
     bool has_state(DrawStateType stype);
 
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 5093a3f..e93d177 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -969,6 +969,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         [&](const StructureItem &sitem) -> rvoe<NoReturnValue> {
             // FIXME, convert to a serialize method and make
             // this and cmd_BDC use that.
+            if(cmds.marked_content_depth() != 0) {
+                RETERR(NestedBMC);
+            }
             ERC(mcid_id, add_bcd_structure(sitem.sid));
             auto item = doc->structure_items.at(sitem.sid.id).stype;
             if(auto itemid = std::get_if<CapyPDF_Structure_Type>(&item)) {
@@ -1046,12 +1049,31 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
     };
-    ERCV(cmds.BT());
-    for(const auto &e : textobj.get_events()) {
-        ERCV(std::visit(visitor, e));
+    // If anything fails, the context must be left as it was.
+    const auto savepoint = cmds.get_savepoint();
+    auto old_fonts = used_external_fonts;
+    auto old_colorspaces = used_colorspaces;
+    auto old_gstates = used_gstates;
+    auto old_patterns = used_patterns;
+    const auto num_structures = used_structures.size();
+    auto render_events = [&]() -> rvoe<NoReturnValue> {
+        ERCV(cmds.BT());
+        for(const auto &e : textobj.get_events()) {
+            ERCV(std::visit(visitor, e));
+        }
+        ERCV(cmds.ET());
+        RETOK;
+    };
+    auto rc = render_events();
+    if(!rc) {
+        cmds.restore(savepoint);
+        used_external_fonts = std::move(old_fonts);
+        used_colorspaces = std::move(old_colorspaces);
+        used_gstates = std::move(old_gstates);
+        used_patterns = std::move(old_patterns);
+        used_structures.resize(num_structures);
     }
-    ERCV(cmds.ET());
-    RETOK;
+    return rc;
 }
 
 rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text) {
-- 
2.43.0


From d4bc5e3264c7005ecad2d48a7842994945458a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 035/134] fix: write continuation patches of type 6 shadings
 and return errors for unusable mesh colors

---
 src/capi.cpp     |   1 +
 src/document.cpp | 116 ++++++++++++++++++-----------------------------
 2 files changed, 45 insertions(+), 72 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index d4aae73..503ea30 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -2512,6 +2512,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_extend(CapyPDF_Shading *shade,
             return conv_err(ErrorCode::BadStripStart);
         }
         ContinuationCoonsPatch ccp;
+        ccp.flag = flag;
         grab_coons_data(ccp, coords, colors);
         sh6->elements.emplace_back(std::move(ccp));
     } else {
diff --git a/src/document.cpp b/src/document.cpp
index 58449b2..21b677e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -172,6 +172,27 @@ template<typename T> rvoe<NoReturnValue> append_floatvalue(std::string &buf, dou
     RETOK;
 }
 
+rvoe<NoReturnValue>
+append_shade_color(std::string &s, CapyPDF_Device_Colorspace cs, const Color &color) {
+    if(auto *rgb = std::get_if<DeviceRGBColor>(&color); rgb && cs == CAPY_DEVICE_CS_RGB) {
+        ERCV(append_floatvalue<uint16_t>(s, rgb->r.v()));
+        ERCV(append_floatvalue<uint16_t>(s, rgb->g.v()));
+        ERCV(append_floatvalue<uint16_t>(s, rgb->b.v()));
+    } else if(auto *gray = std::get_if<DeviceGrayColor>(&color);
+              gray && cs == CAPY_DEVICE_CS_GRAY) {
+        ERCV(append_floatvalue<uint16_t>(s, gray->v.v()));
+    } else if(auto *cmyk = std::get_if<DeviceCMYKColor>(&color);
+              cmyk && cs == CAPY_DEVICE_CS_CMYK) {
+        ERCV(append_floatvalue<uint16_t>(s, cmyk->c.v()));
+        ERCV(append_floatvalue<uint16_t>(s, cmyk->m.v()));
+        ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
+        ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
+    } else {
+        RETERR(ColorspaceMismatch);
+    }
+    RETOK;
+}
+
 rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
     std::string s;
     for(const auto &e : shade.elements) {
@@ -187,85 +208,36 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
         ERCV(append_floatvalue<uint32_t>(s, xratio));
         ERCV(append_floatvalue<uint32_t>(s, yratio));
 
-        if(auto *c = std::get_if<DeviceRGBColor>(&e.sp.c)) {
-            if(shade.colorspace != CAPY_DEVICE_CS_RGB) {
-                RETERR(ColorspaceMismatch);
-            }
-            ERCV(append_floatvalue<uint16_t>(s, c->r.v()));
-            ERCV(append_floatvalue<uint16_t>(s, c->g.v()));
-            ERCV(append_floatvalue<uint16_t>(s, c->b.v()));
-        } else if(auto *g = std::get_if<DeviceGrayColor>(&e.sp.c)) {
-            if(shade.colorspace != CAPY_DEVICE_CS_GRAY) {
-                RETERR(ColorspaceMismatch);
-            }
-            ERCV(append_floatvalue<uint16_t>(s, g->v.v()));
-        } else if(auto *cmyk = std::get_if<DeviceCMYKColor>(&e.sp.c)) {
-            if(shade.colorspace != CAPY_DEVICE_CS_CMYK) {
-                RETERR(ColorspaceMismatch);
-            }
-            ERCV(append_floatvalue<uint16_t>(s, cmyk->c.v()));
-            ERCV(append_floatvalue<uint16_t>(s, cmyk->m.v()));
-            ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
-            ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
-        } else {
-            fprintf(stderr, "Color space not supported yet.");
-            std::abort();
-        }
+        ERCV(append_shade_color(s, shade.colorspace, e.sp.c));
     }
     return rvoe<std::string>{std::move(s)};
 }
 
+template<typename Patch>
+rvoe<NoReturnValue>
+append_coons_patch(std::string &s, const ShadingType6 &shade, const Patch &e, char flag) {
+    s.push_back(flag);
+    for(const auto &p : e.p) {
+        const double xratio = std::clamp((p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
+        const double yratio = std::clamp((p.y - shade.miny) / (shade.maxy - shade.miny), 0.0, 1.0);
+
+        ERCV(append_floatvalue<uint32_t>(s, xratio));
+        ERCV(append_floatvalue<uint32_t>(s, yratio));
+    }
+    for(const auto &colorobj : e.c) {
+        ERCV(append_shade_color(s, shade.colorspace, colorobj));
+    }
+    RETOK;
+}
+
 rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
     std::string s;
     for(const auto &eh : shade.elements) {
-        if(!std::holds_alternative<FullCoonsPatch>(eh)) {
-            fprintf(stderr, "Continuation patches not yet supported.\n");
-            std::abort();
-        }
-        const auto &e = std::get<FullCoonsPatch>(eh);
-        char flag = 0; //(char)e.flag;
-        assert(flag >= 0 && flag < 3);
-        const char *ptr;
-        ptr = (const char *)(&flag);
-        s.append(ptr, ptr + sizeof(char));
-
-        for(const auto &p : e.p) {
-            const double xratio =
-                std::clamp((p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
-            const double yratio =
-                std::clamp((p.y - shade.miny) / (shade.maxy - shade.miny), 0.0, 1.0);
-
-            ERCV(append_floatvalue<uint32_t>(s, xratio));
-            ERCV(append_floatvalue<uint32_t>(s, yratio));
-        }
-        for(const auto &colorobj : e.c) {
-            if(shade.colorspace == CAPY_DEVICE_CS_RGB) {
-                if(!std::holds_alternative<DeviceRGBColor>(colorobj)) {
-                    RETERR(ColorspaceMismatch);
-                }
-                const auto &c = std::get<DeviceRGBColor>(colorobj);
-                ERCV(append_floatvalue<uint16_t>(s, c.r.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.g.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.b.v()));
-            } else if(shade.colorspace == CAPY_DEVICE_CS_GRAY) {
-                if(!std::holds_alternative<DeviceGrayColor>(colorobj)) {
-                    RETERR(ColorspaceMismatch);
-                }
-                const auto &c = std::get<DeviceGrayColor>(colorobj);
-                ERCV(append_floatvalue<uint16_t>(s, c.v.v()));
-            } else if(shade.colorspace == CAPY_DEVICE_CS_CMYK) {
-                if(!std::holds_alternative<DeviceCMYKColor>(colorobj)) {
-                    RETERR(ColorspaceMismatch);
-                }
-                const auto &c = std::get<DeviceCMYKColor>(colorobj);
-                ERCV(append_floatvalue<uint16_t>(s, c.c.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.m.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.y.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.k.v()));
-            } else {
-                fprintf(stderr, "Color space not yet supported.\n");
-                std::abort();
-            }
+        if(const auto *full = std::get_if<FullCoonsPatch>(&eh)) {
+            ERCV(append_coons_patch(s, shade, *full, 0));
+        } else {
+            const auto &cont = std::get<ContinuationCoonsPatch>(eh);
+            ERCV(append_coons_patch(s, shade, cont, (char)cont.flag));
         }
     }
     return s;
-- 
2.43.0


From 847562e082d2cc4a7883049ef4fdb1df9dd80e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 036/134] fix: black point compensation name is /Default

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 21b677e..b366a1a 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -147,7 +147,7 @@ const std::array<const char *, 6> page_mode_names{
 const std::array<const char *, 3> blackpt_names{
     "/OFF",
     "/ON",
-    "/DEFAULT",
+    "/Default",
 };
 
 const std::array<const char *, 6> collection_view_subtype_names{
-- 
2.43.0


From c3533d6d973c3ee35a913121656208582f74e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 037/134] fix: predefined spot function names have no
 underscores

---
 src/document.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index b366a1a..69aee20 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -37,22 +37,22 @@ const std::array<const char *, 5> page_label_types{
 
 const std::array<const char *, 21> spot_function_names{
     "/SimpleDot",
-    "/Inverted_SimpleDot",
+    "/InvertedSimpleDot",
     "/DoubleDot",
-    "/Inverted_DoubleDot",
+    "/InvertedDoubleDot",
     "/CosineDot",
     "/Double",
-    "/Inverted_Double",
+    "/InvertedDouble",
     "/Line",
     "/LineX",
     "/LineY",
     "/Round",
     "/Ellipse",
     "/EllipseA",
-    "/Inverted_EllipseA",
+    "/InvertedEllipseA",
     "/EllipseB",
     "/EllipseC",
-    "/Inverted_EllipseC",
+    "/InvertedEllipseC",
     "/Square",
     "/Cross",
     "/Rhomboid",
-- 
2.43.0


From 3889ee4ade7d3869796473c96a4d8d80cedd50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 038/134] fix: empty streams are not written as dictionaries in
 debug mode

---
 src/pdfwriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 159b5c9..0bd0b52 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -337,7 +337,10 @@ rvoe<std::vector<ObjectOffset>> PdfWriter::write_objects() {
 
         [&](const DeflatePDFObject &pobj) -> rvoe<NoReturnValue> {
             ObjectFormatter &fmt = const_cast<ObjectFormatter &>(pobj.unclosed_dictionary);
-            if(pobj.leave_uncompressed_in_debug && !doc.docprops.compress_streams) {
+            // An empty stream is always compressed, because an object
+            // without any stream data is written as a plain dictionary.
+            if(pobj.leave_uncompressed_in_debug && !doc.docprops.compress_streams &&
+               !pobj.stream.empty()) {
                 fmt.add_token_pair("/Length", pobj.stream.size());
                 fmt.end_dict();
                 ERCV(write_finished_object(i, fmt.steal(), pobj.stream.span()));
-- 
2.43.0


From 98f8eae8232af37a7a42dc9233f591bb2258a1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 039/134] fix: reject a second page labeling that starts on the
 same page

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 69aee20..4ac7ac4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -609,7 +609,7 @@ PdfDocument::add_page_labeling(uint32_t start_page,
                                std::optional<CapyPDF_Page_Label_Number_Style> style,
                                std::optional<u8string> prefix,
                                std::optional<uint32_t> start_num) {
-    if(!page_labels.empty() && page_labels.back().start_page > start_page) {
+    if(!page_labels.empty() && page_labels.back().start_page >= start_page) {
         RETERR(NonSequentialPageNumber);
     }
     page_labels.emplace_back(start_page, style, std::move(prefix), start_num);
-- 
2.43.0


From 15c037cffda6de902072b47895b6fd06dd8cc73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 040/134] fix: adding navigation twice is an error instead of
 an abort

---
 src/drawcontext.cpp   | 2 +-
 src/errorhandling.cpp | 1 +
 src/errorhandling.hpp | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index e93d177..af00b0d 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1199,7 +1199,7 @@ PdfDrawContext::add_simple_navigation(std::span<const CapyPDF_OptionalContentGro
         RETERR(InvalidDrawContextType);
     }
     if(!sub_navigations.empty()) {
-        std::abort();
+        RETERR(NavigationExists);
     }
     for(const auto &sn : navs) {
         if(used_ocgs.find(sn) == used_ocgs.end()) {
diff --git a/src/errorhandling.cpp b/src/errorhandling.cpp
index 7a5f15c..8e79566 100644
--- a/src/errorhandling.cpp
+++ b/src/errorhandling.cpp
@@ -105,6 +105,7 @@ const std::array<const char *, (std::size_t)ErrorCode::NumErrors> error_texts{
 "The metadata XML must contain a \"pdf:Producer\" entry with the value \"CapyPDF\".",
 "Collection object already exists.",
 "Output file too big for xref table. Please report this issue in CapyPDF bug tracker.",
+"Page already has navigation steps.",
 };
 
 // clang-format on
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index 0dfd646..80a7568 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -103,6 +103,7 @@ enum class ErrorCode : int32_t {
     ProducerMissingCapy,
     CollectionExists,
     XRefOffsetTooBig,
+    NavigationExists,
 
     // When you add an error code here, also add the string representation in the .cpp file.
     NumErrors,
-- 
2.43.0


From f0847beb91043d0f22b076286739e4dbd9ce4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 041/134] fix: an empty embedded files name tree has a Names
 array

---
 src/document.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 4ac7ac4..fe0756f 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -805,17 +805,14 @@ rvoe<int32_t> PdfDocument::create_name_dict() {
     fmt.begin_dict();
     // PDF/A 4 mandates that you have an EmbeddedFiles key, even if it is empty.
     // At least that is what the VeraPDF validator says.
-    if(!embedded_files.empty()) {
-
-        fmt.add_token("/Names");
-
-        fmt.begin_array(2);
-        for(const auto &e : sorted_names) {
-            fmt.add_token(pdfstring_quote(e.name));
-            fmt.add_object_ref(embedded_files[e.i].filespec_obj);
-        }
-        fmt.end_array();
+    // A name tree root without kids must have a Names array.
+    fmt.add_token("/Names");
+    fmt.begin_array(2);
+    for(const auto &e : sorted_names) {
+        fmt.add_token(pdfstring_quote(e.name));
+        fmt.add_object_ref(embedded_files[e.i].filespec_obj);
     }
+    fmt.end_array();
     fmt.end_dict();
     fmt.end_dict();
     return add_object(FullPDFObject{fmt.steal(), {}});
-- 
2.43.0


From 47132b2f0e202d4df2c7de1560da5712c2cf1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 042/134] fix: page labels always have an entry for the first
 page

---
 src/document.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index fe0756f..320e2cb 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -965,6 +965,13 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
         fmt.begin_dict();
         fmt.add_token("/Nums");
         fmt.begin_array(2);
+        if(page_labels.front().start_page != 0) {
+            // The number tree must always have an entry for the first page.
+            fmt.add_token(0);
+            fmt.begin_dict();
+            fmt.add_token_pair("/S", "/D");
+            fmt.end_dict();
+        }
         for(const auto &page_label : page_labels) {
             fmt.add_token(page_label.start_page);
             fmt.begin_dict();
-- 
2.43.0


From 7dc20f428ff69d349e6b43bd89fff8beb1420c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 043/134] fix: out-of-range enumeration arguments are rejected
 at the API boundary

---
 src/capi.cpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 503ea30..25fa0bb 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -17,6 +17,11 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_ENUM_ARG(v, max_enum_val)                                                            \
+    if((int)(v) < 0 || (int)(v) > (int)(max_enum_val)) {                                           \
+        return conv_err(ErrorCode::BadEnum);                                                       \
+    }
+
 using namespace capypdf::internal;
 
 // These structs are not in the interop header because they are
@@ -309,6 +314,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
                                             CapyPDF_Device_Colorspace cs,
                                             const char *profile_path) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     switch(cs) {
     case CAPY_DEVICE_CS_RGB:
@@ -328,6 +334,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_colorspace(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->output_colorspace = cs;
     RETNOERR;
@@ -352,6 +359,7 @@ capy_document_properties_set_output_intent(CapyPDF_DocumentProperties *docprops,
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFX_Type xtype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(xtype, CAPY_PDFX_6n);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = xtype;
     RETNOERR;
@@ -361,6 +369,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfa(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFA_Type atype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(atype, CAPY_PDFA_4e);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = atype;
     RETNOERR;
@@ -393,6 +402,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_tagged(CapyPDF_DocumentPr
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Layout layout) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(layout, CAPY_PAGE_LAYOUT_TWO_PAGE_RIGHT);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_layout = layout;
     RETNOERR;
@@ -402,6 +412,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_mode(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Mode mode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(mode, CAPY_PAGE_MODE_ATTACHMENTS);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_mode = mode;
     RETNOERR;
@@ -459,6 +470,9 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_page_labeling(CapyPDF_Generator *ge
                                                            int32_t strsize,
                                                            uint32_t *start_num) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    if(style) {
+        CHECK_ENUM_ARG(*style, CAPY_PAGE_LABEL_NUMBER_STYLE_LETTER_LOWER);
+    }
     auto *g = static_cast<PdfGen *>(gen);
     std::optional<CapyPDF_Page_Label_Number_Style> opt_style;
     std::optional<u8string> opt_prefix;
@@ -620,6 +634,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_convert_image(CapyPDF_Generator *gen,
                                                        CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(output_cs, CAPY_DEVICE_CS_CMYK);
+    CHECK_ENUM_ARG(ri, CAPY_RI_PERCEPTUAL);
     auto *g = static_cast<PdfGen *>(gen);
     if(auto *raw = std::get_if<RawPixelImage>(&source->ri)) {
         auto rc = g->convert_image_to_cs(*raw, output_cs, ri);
@@ -696,6 +712,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_structure_item(CapyPDF_Generator *g
                                                             CapyPDF_StructureItemId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(stype, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     std::optional<CapyPDF_StructureItemId> item_parent;
     if(parent) {
@@ -819,6 +836,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_separation(CapyPDF_Generator *gen,
                                                         CapyPDF_SeparationId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *g = static_cast<PdfGen *>(gen);
     auto name = validate_ascii(separation_name, strsize);
     if(!name) {
@@ -892,6 +910,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_rolemap_entry(CapyPDF_Generator *ge
                                                            CapyPDF_RoleId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(builtin, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     auto nameobj = validate_cstring(name, namesize);
     if(!nameobj) {
@@ -1645,6 +1664,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_M(CapyPDF_Text *text, double miterlimit)
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_j(CapyPDF_Text *text,
                                           CapyPDF_Line_Join join_style) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(join_style, CAPY_LJ_BEVEL);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_j(join_style));
     API_BOUNDARY_END;
@@ -1652,6 +1672,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_j(CapyPDF_Text *text,
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_J(CapyPDF_Text *text,
                                           CapyPDF_Line_Cap cap_style) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cap_style, CAPY_LC_PROJECTION);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_J(cap_style));
     API_BOUNDARY_END;
@@ -1755,6 +1776,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tm(CapyPDF_Text *text,
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tr(CapyPDF_Text *text,
                                            CapyPDF_Text_Mode tmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(tmode, CAPY_TEXT_CLIP);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tr(tmode));
     API_BOUNDARY_END;
@@ -1865,6 +1887,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_new(CapyPDF_Transition **out_ptr) CAPY
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_S(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Type type) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(type, CAPY_TR_FADE);
     auto pt = static_cast<Transition *>(tr);
     pt->type = type;
     RETNOERR;
@@ -1883,6 +1906,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC
 capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
     pt->Di = dim;
     RETNOERR;
@@ -1892,6 +1916,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_M(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Motion m) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(m, CAPY_TR_M_O);
     auto pt = static_cast<Transition *>(tr);
     pt->M = m;
     RETNOERR;
@@ -1994,6 +2019,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_ca(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_BM(
     CapyPDF_GraphicsState *state, CapyPDF_Blend_Mode blendmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(blendmode, CAPY_BM_LUMINOSITY);
     auto *s = static_cast<GraphicsState *>(state);
     s->BM = blendmode;
     RETNOERR;
@@ -2078,6 +2104,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_TK(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_blackpoint_compensation(
     CapyPDF_GraphicsState *state, CapyPDF_Black_Point_Compensation use_comp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(use_comp, CAPY_BLACK_POINT_COMPENSATION_DEFAULT);
     auto *s = static_cast<GraphicsState *>(state);
     s->UseBlackPtComp = use_comp;
     RETNOERR;
@@ -2114,6 +2141,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_new(
 CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_set_CS(
     CapyPDF_TransparencyGroupProperties *props, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *p = static_cast<TransparencyGroupProperties *>(props);
     p->CS = cs;
     RETNOERR;
@@ -2210,6 +2238,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_alpha_data(
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_format(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Compression compression) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(compression, CAPY_COMPRESSION_DEFLATE);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.compression = compression;
     RETNOERR;
@@ -2219,6 +2248,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_f
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_colorspace(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Image_Colorspace colorspace) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(colorspace, CAPY_IMAGE_CS_CMYK);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.cs = colorspace;
     RETNOERR;
@@ -2360,6 +2390,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(PdfShading{ShadingType2{cs, x0, y0, x1, y1, func}});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2410,6 +2441,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(
         ShadingType3{cs, coords[0], coords[1], coords[2], coords[3], coords[4], coords[5], func});
     RETNOERR;
@@ -2423,6 +2455,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType4{{}, minx, miny, maxx, maxy, cs});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2472,6 +2505,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType6{
         {},
         minx,
@@ -2677,6 +2711,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_line_endings(CapyPDF_Annotation *a
                                                            CapyPDF_Line_Annotation_End_Style end)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(start, CAPY_LINE_ANNOTATION_END_SLASH);
+    CHECK_ENUM_ARG(end, CAPY_LINE_ANNOTATION_END_SLASH);
     auto *a = static_cast<Annotation *>(annotation);
     if(auto *line = std::get_if<LineAnnotation>(&a->sub)) {
         line->end_styles = LineAnnotationEndStyles{start, end};
@@ -2818,6 +2854,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_mask(CapyPDF_ImagePdfPro
 CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_interpolate(
     CapyPDF_ImagePdfProperties *par, CapyPDF_Image_Interpolation interp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(interp, CAPY_INTERPOLATION_SMOOTH);
     auto p = static_cast<ImagePDFProperties *>(par);
     p->interp = interp;
     RETNOERR;
@@ -2987,6 +3024,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_soft_mask_new(CapyPDF_Soft_Mask_Subtype subtype,
                                              CapyPDF_TransparencyGroupId trid,
                                              CapyPDF_SoftMask **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_SOFT_MASK_LUMINOSITY);
     *out_ptr = new SoftMask{{}, subtype, trid};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3189,6 +3227,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_halftone_set_type1(CapyPDF_Halftone *ht,
                                                   CapyPDF_Halftone_Spot_Function htspot)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(htspot, CAPY_HT_FUNC_DIAMOND);
     ht->ht = HalftoneType1{frequency, angle, htspot};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3207,6 +3246,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_3d_stream_new(const char *fname,
                                              CapyPDF_3D_File_Format format,
                                              CapyPDF_3DStream **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(format, CAPY_3D_PRC);
     auto rc = load_file_as_bytes(fname);
     if(!rc) {
         return conv_err(rc);
@@ -3227,6 +3267,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_3d_stream_destroy(CapyPDF_3DStream *stream) CAPYP
 CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_new(CapyPDF_Form_Field_Type type,
                                               CapyPDF_FormField **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(type, CAPY_FORM_FIELD_TYPE_CH);
     switch(type) {
     case CAPY_FORM_FIELD_TYPE_BTN:
         *out_ptr = new FormField{{}, {}, {}, {}, {}, ButtonField{}};
@@ -3455,6 +3496,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
 CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_view(CapyPDF_Collection *coll,
                                                    CapyPDF_Collection_View view) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(view, CAPY_COLLECTION_C);
     auto *c = static_cast<Collection *>(coll);
     c->View = view;
     RETNOERR;
@@ -3512,6 +3554,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_field_new(CapyPDF_Collection_Subtype s
                                                     CapyPDF_CollectionField **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_COLLECTION_SUB_COMPRESSED_SIZE);
     auto rc = validate_utf8(name, namelen);
     if(!rc) {
         return conv_err(rc);
-- 
2.43.0


From 7900c724a45c9866dd87b2696f5f6271ff1ac5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 044/134] fix: capy_transition_set_Dm sets the dimension, not
 the direction

---
 src/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 25fa0bb..036a71a 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1908,7 +1908,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
     API_BOUNDARY_START;
     CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
-    pt->Di = dim;
+    pt->Dm = dim;
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From 4d5505566d3c5022620a6528bfa332dc9a83471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 045/134] fix: UTF-8 validation rejects overlong encodings,
 surrogates and out of range values

---
 src/utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 717e74a..c7e07d7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -58,7 +58,15 @@ bool is_valid_uf8_character(std::string_view input, size_t cur, const UtfDecodeS
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Overlong encodings, surrogates and values beyond the Unicode range are not valid.
+    const uint32_t smallest_value[] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_value[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
+    return unpacked <= 0x10FFFF;
 }
 
 void append_glyph_to_utf16be(uint32_t glyph, std::vector<uint16_t> &u16buf) {
-- 
2.43.0


From dbf18c57165ff7757410e7ce36199e6403d12dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 046/134] fix: strings with an explicit size are not read past
 their end

---
 src/capi.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 036a71a..efb7ad9 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -67,11 +67,12 @@ rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
     if(strsize < -1) {
         RETERR(InvalidBufsize);
     }
-    std::string converted = buf;
-    if(strsize != -1) {
-        if(converted.size() != (size_t)strsize) {
-            RETERR(EmbeddedNullInString);
-        }
+    if(strsize == -1) {
+        return std::string(buf);
+    }
+    std::string converted(buf, strsize);
+    if(converted.find('\0') != std::string::npos) {
+        RETERR(EmbeddedNullInString);
     }
     return converted;
 }
-- 
2.43.0


From 7ad6561fa6f1eb98c49ca1f948a789c6a6815be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 047/134] fix: ids that were never issued are rejected when
 they are used

---
 src/document.cpp      | 32 +++++++++++++++++++++++++++++---
 src/document.hpp      |  4 ++++
 src/drawcontext.cpp   | 10 ++++++----
 src/errorhandling.hpp |  7 +++++++
 4 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 320e2cb..8512490 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -782,8 +782,8 @@ rvoe<CapyPDF_LabColorSpaceId> PdfDocument::add_lab_colorspace(const LabColorSpac
     }
     fmt.end_array();
 
-    add_object(FullPDFObject{fmt.steal(), {}});
-    return CapyPDF_LabColorSpaceId{(int32_t)document_objects.size() - 1};
+    lab_colorspaces.push_back(add_object(FullPDFObject{fmt.steal(), {}}));
+    return CapyPDF_LabColorSpaceId{lab_colorspaces.back()};
 }
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::load_icc_file(const char *fname) {
@@ -903,6 +903,7 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
     fmt.end_dict();
     const auto obj_num =
         add_object(FullPDFObject{fmt.steal(), RawData(std::move(stream.model_data))});
+    threed_streams.push_back(obj_num);
     return CapyPDF_3DStreamId{obj_num};
 }
 
@@ -1714,6 +1715,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
     }
     fmt.end_dict();
     add_object(FullPDFObject{fmt.steal(), {}});
+    graphics_states.push_back(id);
     return CapyPDF_GraphicsStateId{id};
 }
 
@@ -2004,7 +2006,8 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_shading_pattern(const ShadingPattern &s
         fmt.end_array();
     }
     fmt.end_dict();
-    return CapyPDF_PatternId{add_object(FullPDFObject{fmt.steal(), {}})};
+    patterns.push_back(add_object(FullPDFObject{fmt.steal(), {}}));
+    return CapyPDF_PatternId{patterns.back()};
 }
 
 rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
@@ -2021,6 +2024,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
+    patterns.push_back(objid);
     return CapyPDF_PatternId{objid};
 }
 
@@ -2028,6 +2032,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
     if(o.title.empty()) {
         RETERR(EmptyTitle);
     }
+    if(o.parent) {
+        CHECK_INDEXNESS(o.parent->id, outlines.items);
+    }
     const auto cur_id = (int32_t)outlines.items.size();
     const auto par_id = o.parent.value_or(CapyPDF_OutlineId{-1}).id;
     outlines.parent[cur_id] = par_id;
@@ -2037,6 +2044,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
 }
 
 rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+    if(field.parent) {
+        CHECK_INDEXNESS(field.parent->id, form_fields);
+    }
     auto field_id = (int32_t)form_fields.size();
     auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
     form_fields.push_back((int32_t)obj_id);
@@ -2082,6 +2092,21 @@ rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     if(!a.rect) {
         RETERR(AnnotationMissingRect);
     }
+    if(auto *faa = std::get_if<FileAttachmentAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(faa->fileid.id, embedded_files);
+    } else if(auto *pma = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(pma->appearance.id, form_xobjects);
+    } else if(auto *threed = std::get_if<ThreeDAnnotation>(&a.sub)) {
+        CHECK_OBJECT_ID(threed->stream.id, threed_streams);
+    } else if(auto *widget = std::get_if<WidgetAnnotation>(&a.sub)) {
+        if(widget->parent) {
+            CHECK_INDEXNESS(widget->parent->id, form_fields);
+        }
+        if(widget->buttoninfo) {
+            CHECK_INDEXNESS(widget->buttoninfo->on_state.id, form_xobjects);
+            CHECK_INDEXNESS(widget->buttoninfo->off_state.id, form_xobjects);
+        }
+    }
     auto annot_id = (int32_t)annotations.size();
     auto obj_id = add_object(DelayedAnnotation{{annot_id}, a});
     annotations.push_back((int32_t)obj_id);
@@ -2106,6 +2131,7 @@ rvoe<CapyPDF_StructureItemId>
 PdfDocument::add_structure_item(const CapyPDF_RoleId role,
                                 std::optional<CapyPDF_StructureItemId> parent,
                                 std::optional<StructItemExtraData> extra) {
+    CHECK_INDEXNESS(role.id, rolemap);
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
diff --git a/src/document.hpp b/src/document.hpp
index f0ea9db..7b1c568 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -629,6 +629,10 @@ private:
     std::vector<int32_t> ocg_items;
     std::vector<int32_t> transparency_groups;
     std::vector<int32_t> soft_masks;
+    std::vector<int32_t> graphics_states;
+    std::vector<int32_t> patterns;
+    std::vector<int32_t> lab_colorspaces;
+    std::vector<int32_t> threed_streams;
     std::vector<FunctionInfo> functions;
     std::vector<ShadingInfo> shadings;
     std::vector<RolemapEnty> rolemap;
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index af00b0d..782dd6c 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,7 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
@@ -432,7 +433,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_G(LimitDouble gray) { return serialize_G
 rvoe<NoReturnValue> PdfDrawContext::cmd_g(LimitDouble gray) { return serialize_g(gray); }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_gs(CapyPDF_GraphicsStateId gid) {
-    CHECK_INDEXNESS(gid.id, doc->document_objects);
+    CHECK_OBJECT_ID(gid.id, doc->graphics_states);
     used_gstates.insert(gid.id);
     auto cmd = std::format("/GS{} gs\n", gid.id);
     cmds.append(cmd);
@@ -545,7 +546,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_scn(double value) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_sh(CapyPDF_ShadingId shid) {
-    CHECK_INDEXNESS(shid.id, doc->document_objects);
+    CHECK_INDEXNESS(shid.id, doc->shadings);
     used_shadings.insert(shid.id);
     auto cmd = std::format("/SH{} sh\n", shid.id);
     cmds.append(cmd);
@@ -729,6 +730,7 @@ rvoe<NoReturnValue> PdfDrawContext::convert_to_output_cs_and_set_color(const Dev
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(CapyPDF_PatternId id, bool stroke) {
+    CHECK_OBJECT_ID(id.id, doc->patterns);
     if(stroke) {
         ERCV(cmd_CS("/Pattern"));
     } else {
@@ -756,7 +758,7 @@ rvoe<NoReturnValue> PdfDrawContext::set_color(const SeparationColor &color, bool
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(const LabColor &c, bool stroke) {
-    CHECK_INDEXNESS(c.id.id, doc->document_objects);
+    CHECK_OBJECT_ID(c.id.id, doc->lab_colorspaces);
     used_colorspaces.insert(c.id.id);
     std::string csname = std::format("/CSpace{}", c.id.id);
     if(stroke) {
@@ -1042,7 +1044,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
         [&](const gs_arg &gs) -> rvoe<NoReturnValue> {
-            CHECK_INDEXNESS(gs.gid.id, doc->document_objects);
+            CHECK_OBJECT_ID(gs.gid.id, doc->graphics_states);
             used_gstates.insert(gs.gid.id);
             auto cmd = std::format("/GS{} gs\n", gs.gid.id);
             cmds.append(cmd);
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index 80a7568..80675f1 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <expected>
 
@@ -191,6 +192,12 @@ struct NoReturnValue {};
         RETERR(BadId);                                                                             \
     }
 
+// For ids that are object numbers rather than indexes.
+#define CHECK_OBJECT_ID(id, container)                                                             \
+    if(std::find(container.begin(), container.end(), id) == container.end()) {                     \
+        RETERR(BadId);                                                                             \
+    }
+
 #define CHECK_ENUM(v, max_enum_val)                                                                \
     if((int)v < 0 || ((int)v > (int)max_enum_val)) {                                               \
         RETERR(BadEnum);                                                                           \
-- 
2.43.0


From 4ed4d764f2c42383c629efbb65d7b05a3bfabad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 048/134] fix: loading an image from a missing file without an
 extension is an error instead of a crash

---
 src/imagefileops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 100f125..de652d9 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -618,6 +618,9 @@ rvoe<RasterImage> load_image_file(const char *fname) {
     char buf[bufsize];
     buf[0] = 0;
     FILE *f = fopen(fname, "rb");
+    if(!f) {
+        RETERR(CouldNotOpenFile);
+    }
     auto rc = fread(buf, 1, bufsize, f);
     fclose(f);
     if(rc != bufsize) {
-- 
2.43.0


From 5b90b4c343b45d086bafae35fe5666cbc9c819f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 049/134] fix: optional content group names are text strings

---
 src/capi.cpp      | 7 +++++--
 src/document.cpp  | 2 +-
 src/pdfcommon.hpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index efb7ad9..7bd84d6 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1964,9 +1964,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_destroy(CapyPDF_Transition *transition
 CAPYPDF_PUBLIC CapyPDF_EC capy_optional_content_group_new(CapyPDF_OptionalContentGroup **out_ptr,
                                                           const char *name) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
-    // FIXME check for ASCIIness (or even more strict?)
+    auto u8name = validate_utf8(name, -1);
+    if(!u8name) {
+        return conv_err(u8name);
+    }
     auto *ocg = new OptionalContentGroup();
-    ocg->name = name;
+    ocg->name = std::move(u8name.value());
     *out_ptr = ocg;
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/document.cpp b/src/document.cpp
index 8512490..b2a0619 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2147,7 +2147,7 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/OCG");
-    fmt.add_token_pair("/Name", pdfstring_quote(g.name));
+    fmt.add_token_pair("/Name", utf8_to_pdfutf16be(g.name));
     fmt.end_dict();
     auto id = add_object(FullPDFObject{fmt.steal(), {}});
     ocg_items.push_back(id);
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index 0e0473e..b8100b5 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -565,7 +565,7 @@ struct Transition : public _capyPDF_Transition {
 };
 
 struct OptionalContentGroup : public _capyPDF_OptionalContentGroup {
-    std::string name;
+    u8string name;
     // std::string intent;
     //  Usage usage;
 };
-- 
2.43.0


From 3d2f8d6d9878ade8ea6e2da088c21ab8049d2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 050/134] fix: form XObjects and transparency groups of another
 document are rejected

---
 src/document.cpp  | 3 +++
 src/generator.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index b2a0619..e97c493 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2155,6 +2155,9 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
 }
 
 rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != this) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_TRANSPARENCY_GROUP) {
         RETERR(InvalidDrawContextType);
     }
diff --git a/src/generator.cpp b/src/generator.cpp
index a436bee..32334a1 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -117,6 +117,9 @@ rvoe<NoReturnValue> PdfGen::add_page_labeling(uint32_t start_page,
 }
 
 rvoe<CapyPDF_FormXObjectId> PdfGen::add_form_xobject(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != &pdoc) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_FORM_XOBJECT) {
         RETERR(InvalidDrawContextType);
     }
-- 
2.43.0


From be9598405bfb54832b94b50bde862d11e4c2a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 051/134] fix: image masks are validated like other images

---
 src/document.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index e97c493..297388b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1460,9 +1460,18 @@ PdfDocument::get_subset_glyph(CapyPDF_FontId fid, const u8string &text, uint32_t
 
 rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
                                                   const ImagePDFProperties &params) {
+    if(image.md.w < 1 || image.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(image.pixels.empty()) {
+        RETERR(MissingPixels);
+    }
     if(image.md.cs != CAPY_IMAGE_CS_GRAY || image.md.pixel_depth != 1) {
         RETERR(UnsupportedFormat);
     }
+    if(!image.alpha.empty()) {
+        RETERR(MaskAndAlpha);
+    }
     if(!params.as_mask) {
         std::abort();
     }
-- 
2.43.0


From 92fabb1b0e0cd255e514be0cd32d60c24304833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 052/134] fix: RGB JPEG images are rejected in PDF/X like other
 RGB images

---
 src/document.cpp | 7 ++++---
 src/document.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 297388b..40c1fad 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1491,7 +1491,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
     if(image.pixels.empty()) {
         RETERR(MissingPixels);
     }
-    ERCV(validate_format(image));
+    ERCV(validate_format(image.md.cs == CAPY_IMAGE_CS_RGB));
     std::optional<int32_t> smask_id;
     if(params.as_mask && !image.alpha.empty()) {
         RETERR(MaskAndAlpha);
@@ -1593,6 +1593,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image_object(const ImageObjectMetadata &m
 }
 
 rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProperties &props) {
+    ERCV(validate_format(jpg.cs == CAPY_DEVICE_CS_RGB));
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/XObject");
@@ -2269,10 +2270,10 @@ PdfDocument::load_font(FT_Library ft, const char *fname, FontProperties props) {
     return fid;
 }
 
-rvoe<NoReturnValue> PdfDocument::validate_format(const RawPixelImage &ri) const {
+rvoe<NoReturnValue> PdfDocument::validate_format(bool is_rgb) const {
     // Check that the image has the correct format.
     if(std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype)) {
-        if(ri.md.cs == CAPY_IMAGE_CS_RGB) {
+        if(is_rgb) {
             // Later versions of PDFX permit rgb images with ICC colors, but let's start simple.
             RETERR(ImageFormatNotPermitted);
         }
diff --git a/src/document.hpp b/src/document.hpp
index 7b1c568..b10b6a5 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -594,7 +594,7 @@ private:
     rvoe<NoReturnValue> generate_info_object();
     int32_t add_document_metadata_object();
 
-    rvoe<NoReturnValue> validate_format(const RawPixelImage &ri) const;
+    rvoe<NoReturnValue> validate_format(bool is_rgb) const;
 
     // Typed getters for less typing.
     IccInfo &get(CapyPDF_IccColorSpaceId id) { return icc_profiles.at(id.id); }
-- 
2.43.0


From 51add31c1a06dc7e429c121abc4d45eda2253a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 053/134] fix: ICC profiles given in memory are validated

---
 src/document.cpp  | 9 +++++++++
 src/document.hpp  | 2 ++
 src/generator.hpp | 2 +-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 40c1fad..76c88e7 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1374,6 +1374,15 @@ rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte>
     return CapyPDF_IccColorSpaceId{(int32_t)icc_profiles.size() - 1};
 }
 
+rvoe<CapyPDF_IccColorSpaceId> PdfDocument::load_icc_profile(std::span<std::byte> contents,
+                                                            int32_t num_channels) {
+    ERC(actual_channels, cm.get_num_channels(contents));
+    if(actual_channels != num_channels) {
+        RETERR(IncorrectColorChannelCount);
+    }
+    return add_icc_profile(contents, num_channels);
+}
+
 rvoe<NoReturnValue> PdfDocument::generate_info_object() {
     ObjectFormatter fmt;
     const auto current_date = current_date_string();
diff --git a/src/document.hpp b/src/document.hpp
index b10b6a5..68c5df6 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -475,6 +475,8 @@ public:
                                                  CapyPDF_FunctionId fid);
     rvoe<CapyPDF_LabColorSpaceId> add_lab_colorspace(const LabColorSpace &lab);
     rvoe<CapyPDF_IccColorSpaceId> load_icc_file(const char *fname);
+    rvoe<CapyPDF_IccColorSpaceId> load_icc_profile(std::span<std::byte> contents,
+                                                   int32_t num_channels);
     rvoe<CapyPDF_IccColorSpaceId> add_icc_profile(std::span<std::byte> contents,
                                                   int32_t num_channels);
 
diff --git a/src/generator.hpp b/src/generator.hpp
index 67fb968..6f9ba32 100644
--- a/src/generator.hpp
+++ b/src/generator.hpp
@@ -83,7 +83,7 @@ public:
     }
     rvoe<CapyPDF_IccColorSpaceId> add_icc_profile(std::span<std::byte> bytes,
                                                   uint32_t num_channels) {
-        return pdoc.add_icc_profile(bytes, num_channels);
+        return pdoc.load_icc_profile(bytes, num_channels);
     }
 
     rvoe<CapyPDF_AnnotationId> add_annotation(const Annotation &a) {
-- 
2.43.0


From 3fe2f2cf4dcca54f5a70562a318ad464021bdf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 054/134] fix: the cmap table of a subset font contains the
 glyph ids, not a memory address

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 506df11..afb9058 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -835,7 +835,9 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     append_bytes(buf, cmap_head);
     append_bytes(buf, enc);
     append_bytes(buf, glyphencoding);
-    append_bytes(buf, glyphids);
+    for(const auto id : glyphids) {
+        append_bytes(buf, id);
+    }
 
     return buf;
 }
-- 
2.43.0


From 488e0c49d41757e45a6212a3320d53fe5ff1ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 055/134] fix: text that can not be rendered leaves no glyphs
 in the font subset

---
 src/document.cpp      | 15 +++++++++++++++
 src/document.hpp      |  2 ++
 src/drawcontext.cpp   |  2 ++
 src/fontsubsetter.cpp | 12 ++++++++++++
 src/fontsubsetter.hpp |  3 +++
 5 files changed, 34 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 76c88e7..3b44a8c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1445,6 +1445,21 @@ bool PdfDocument::font_has_character(FT_Face face, uint32_t codepoint) {
     return glyphid != 0;
 }
 
+std::vector<size_t> PdfDocument::get_subset_sizes() const {
+    std::vector<size_t> sizes;
+    sizes.reserve(fonts.size());
+    for(const auto &f : fonts) {
+        sizes.push_back(f.subsets.subset_size());
+    }
+    return sizes;
+}
+
+void PdfDocument::restore_subset_sizes(const std::vector<size_t> &sizes) {
+    for(size_t i = 0; i < sizes.size(); ++i) {
+        fonts.at(i).subsets.truncate_subset(sizes[i]);
+    }
+}
+
 rvoe<SubsetGlyph> PdfDocument::get_subset_glyph(CapyPDF_FontId fid,
                                                 uint32_t codepoint,
                                                 const std::optional<uint32_t> glyph_id) {
diff --git a/src/document.hpp b/src/document.hpp
index 68c5df6..19c1fbf 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -484,6 +484,8 @@ public:
     rvoe<CapyPDF_FontId> load_font(FT_Library ft, const char *fname, FontProperties props);
     bool font_has_character(CapyPDF_FontId fid, uint32_t codepoint);
     bool font_has_character(FT_Face face, uint32_t codepoint);
+    std::vector<size_t> get_subset_sizes() const;
+    void restore_subset_sizes(const std::vector<size_t> &sizes);
     rvoe<SubsetGlyph> get_subset_glyph(CapyPDF_FontId fid,
                                        uint32_t codepoint,
                                        const std::optional<uint32_t> glyph_id);
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 782dd6c..e1ad5c7 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1058,6 +1058,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
     auto old_gstates = used_gstates;
     auto old_patterns = used_patterns;
     const auto num_structures = used_structures.size();
+    const auto subset_sizes = doc->get_subset_sizes();
     auto render_events = [&]() -> rvoe<NoReturnValue> {
         ERCV(cmds.BT());
         for(const auto &e : textobj.get_events()) {
@@ -1074,6 +1075,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         used_gstates = std::move(old_gstates);
         used_patterns = std::move(old_patterns);
         used_structures.resize(num_structures);
+        doc->restore_subset_sizes(subset_sizes);
     }
     return rc;
 }
diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 183aecc..7901e91 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -224,6 +224,18 @@ std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text) co
     return {};
 }
 
+void FontSubsetter::truncate_subset(size_t num_glyphs) {
+    if(num_glyphs >= subset.glyphs.size()) {
+        return;
+    }
+    subset.glyphs.erase(subset.glyphs.begin() + num_glyphs, subset.glyphs.end());
+    subset.font_index_mapping.clear();
+    // Glyph zero is always in the subset, but never in the mapping.
+    for(size_t i = 1; i < subset.glyphs.size(); ++i) {
+        subset.font_index_mapping[font_id_for_glyph(subset.glyphs[i])] = (uint32_t)i;
+    }
+}
+
 rvoe<std::vector<std::byte>> FontSubsetter::generate_subset(const TrueTypeFontFile &source) const {
     return generate_font(source, props, face, subset.glyphs, subset.font_index_mapping);
 }
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 10c5c03..f486054 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -50,6 +50,9 @@ public:
 
     size_t subset_size() const { return subset.glyphs.size(); }
 
+    // Drop all glyphs that were added after the subset had the given size.
+    void truncate_subset(size_t num_glyphs);
+
     rvoe<std::vector<std::byte>> generate_subset(const TrueTypeFontFile &source) const;
 
 private:
-- 
2.43.0


From f5cb2b78b0b7c27a548ef5de024081f6c6ee06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 056/134] fix: the maxp table of a subset font contains only
 the table

---
 src/ft_subsetter.cpp | 11 +++++++++--
 src/ft_subsetter.hpp |  2 ++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index afb9058..6cee4ab 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -375,6 +375,14 @@ void TTMaxp::swap_endian() {
     std::visit([](auto &d) { d.swap_endian(); }, data);
 }
 
+std::span<const std::byte> TTMaxp::bytes() const {
+    return std::visit(
+        [](const auto &d) {
+            return std::span<const std::byte>((const std::byte *)&d, sizeof(d));
+        },
+        data);
+}
+
 namespace {
 
 /*
@@ -748,8 +756,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
         odata, "hhea", std::span<const std::byte>((const std::byte *)&tf.hhea, sizeof(tf.hhea))));
 
     tf.maxp.swap_endian();
-    directory.push_back(write_raw_table(
-        odata, "maxp", std::span<const std::byte>((const std::byte *)&tf.maxp, sizeof(tf.maxp))));
+    directory.push_back(write_raw_table(odata, "maxp", tf.maxp.bytes()));
     // glyph time
     std::vector<int32_t> loca;
     size_t glyphs_start = odata.size();
diff --git a/src/ft_subsetter.hpp b/src/ft_subsetter.hpp
index b7a54f0..a1c6705 100644
--- a/src/ft_subsetter.hpp
+++ b/src/ft_subsetter.hpp
@@ -8,6 +8,7 @@
 #include <mmapper.hpp>
 #include <cffsubsetter.hpp>
 
+#include <span>
 #include <vector>
 #include <variant>
 #include <unordered_map>
@@ -108,6 +109,7 @@ public:
     uint16_t num_glyphs() const;
     void set_num_glyphs(uint16_t glyph_count);
     void swap_endian();
+    std::span<const std::byte> bytes() const;
 
 private:
     std::variant<TTMaxp05, TTMaxp10> data;
-- 
2.43.0


From 87968d5c2c44b20990499e556342ec0af58acdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 057/134] fix: subset fonts have a sorted table directory,
 aligned tables and correct checksums

---
 src/ft_subsetter.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 6cee4ab..e50e60d 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -10,6 +10,7 @@
 #include FT_FREETYPE_H
 
 #include <cassert>
+#include <algorithm>
 #include <bit>
 #include <cmath>
 
@@ -71,7 +72,7 @@ struct TTOffsetTable {
         num_tables = new_size;
         assert(new_size > 0);
         int i = 0;
-        while((1 << i) < new_size) {
+        while((1 << i) <= new_size) {
             ++i;
         }
         const auto pow2 = 1 << (i - 1);
@@ -704,8 +705,16 @@ TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &
     return subset;
 }
 
+void pad_to_table_start(std::vector<std::byte> &odata) {
+    // Tables must begin at a multiple of four.
+    while(odata.size() % sizeof(uint32_t) != 0) {
+        odata.push_back(std::byte{0});
+    }
+}
+
 TTDirEntry
 write_raw_table(std::vector<std::byte> &odata, const char *tag, std::span<const std::byte> bytes) {
+    pad_to_table_start(odata);
     TTDirEntry e;
     e.set_tag(tag);
     e.offset = odata.size();
@@ -747,9 +756,9 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     tf.head.checksum_adjustment = 0;
     // const auto start_of_head = odata.length(); // For checksum adjustment.
     tf.head.swap_endian();
-    const auto head_offset = odata.size();
     directory.push_back(write_raw_table(
         odata, "head", std::span<const std::byte>((const std::byte *)&tf.head, sizeof(tf.head))));
+    const auto head_offset = directory.back().offset;
 
     tf.hhea.swap_endian();
     directory.push_back(write_raw_table(
@@ -759,6 +768,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     directory.push_back(write_raw_table(odata, "maxp", tf.maxp.bytes()));
     // glyph time
     std::vector<int32_t> loca;
+    pad_to_table_start(odata);
     size_t glyphs_start = odata.size();
     // All new glyph data should be in the "subglyphs" parameter.
     assert(tf.glyphs.empty());
@@ -773,6 +783,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - glyphs_start;
     directory.push_back(e);
 
+    pad_to_table_start(odata);
     e.set_tag("loca");
     e.offset = odata.size();
     for(auto offset : loca) {
@@ -782,6 +793,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - e.offset;
     directory.push_back(e);
 
+    pad_to_table_start(odata);
     e.set_tag("hmtx");
     e.offset = odata.size();
     for(auto hm : tf.hmtx.longhor) {
@@ -795,10 +807,16 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - e.offset;
     directory.push_back(e);
     assert(directory.size() == (size_t)tf.num_directory_entries());
+    pad_to_table_start(odata);
     std::byte *directory_start = odata.data() + sizeof(TTOffsetTable);
     std::span<std::byte> full_view(odata.data(), odata.size());
+    // The entries must be sorted by tag.
+    std::sort(directory.begin(), directory.end(), [](const TTDirEntry &a, const TTDirEntry &b) {
+        return memcmp(a.tag, b.tag, sizeof(a.tag)) < 0;
+    });
     for(int i = 0; i < (int)directory.size(); ++i) {
-        e.checksum = ttf_checksum(full_view.subspan(e.offset, e.length));
+        auto &entry = directory[i];
+        entry.checksum = ttf_checksum(full_view.subspan(entry.offset, entry.length));
         directory[i].swap_endian();
         memcpy(directory_start + i * sizeof(TTDirEntry), &directory[i], sizeof(TTDirEntry));
     }
-- 
2.43.0


From 2a16535aa616689207d2fe7bc806577180d4c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 058/134] fix: composite glyphs with scaled components are
 subset correctly

---
 src/ft_subsetter.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index e50e60d..376e853 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -867,6 +867,23 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     return buf;
 }
 
+// The number of bytes that the transformation of a composite glyph's component takes.
+int64_t component_scale_size(uint16_t component_flag) {
+    const uint16_t WE_HAVE_A_SCALE = 0x08;
+    const uint16_t WE_HAVE_AN_X_AND_Y_SCALE = 0x40;
+    const uint16_t WE_HAVE_A_TWO_BY_TWO = 0x80;
+    if(component_flag & WE_HAVE_A_SCALE) {
+        return sizeof(int16_t);
+    }
+    if(component_flag & WE_HAVE_AN_X_AND_Y_SCALE) {
+        return 2 * sizeof(int16_t);
+    }
+    if(component_flag & WE_HAVE_A_TWO_BY_TWO) {
+        return 4 * sizeof(int16_t);
+    }
+    return 0;
+}
+
 rvoe<int16_t> num_contours(std::span<const std::byte> buf) {
     ERC(num_contours, extract<int16_t>(buf, 0));
     byte_swap_inplace(num_contours);
@@ -1087,6 +1104,7 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
         } else {
             composite_offset += 2 * sizeof(int8_t);
         }
+        composite_offset += component_scale_size(component_flag);
         subglyphs.push_back(glyph_index);
     } while(component_flag & MORE_COMPONENTS);
     return subglyphs;
@@ -1124,6 +1142,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         glyph_index = it->second;
         byte_swap_inplace(glyph_index);
         memcpy(buf.data() + header_size + index_offset, &glyph_index, sizeof(glyph_index));
+        composite_offset += component_scale_size(component_flag);
     } while(component_flag & MORE_COMPONENTS);
     RETOK;
 }
-- 
2.43.0


From 159c0950ca4ec1b39a34345666777d554b6047bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 059/134] fix: ToUnicode maps have at most one hundred entries
 in a section

---
 src/pdfwriter.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 0bd0b52..020c8b0 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -76,7 +76,7 @@ std::string create_cidfont_subset_cmap(const std::vector<TTGlyphs> &glyphs) {
     // When you have to have a PDF that humans can read but AI bros
     // can't easily steal.
     const bool scrape_protection = getenv("CAPY_SCRAPE_PROTECT");
-    std::string buf = std::format(R"(/CIDInit /ProcSet findresource begin
+    std::string buf(R"(/CIDInit /ProcSet findresource begin
 12 dict begin
 begincmap
 /CIDSystemInfo
@@ -89,12 +89,19 @@ begincmap
 1 begincodespacerange
 <0000> <ffff>
 endcodespacerange
-{} beginbfchar
-)",
-                                  glyphs.size() - 1);
+)");
+    // At most this many entries are permitted in one section.
+    const size_t max_section_size = 100;
     // Glyph zero is not mapped.
     auto appender = std::back_inserter(buf);
     for(size_t i = 1; i < glyphs.size(); ++i) {
+        if((i - 1) % max_section_size == 0) {
+            if(i > 1) {
+                buf += "endbfchar\n";
+            }
+            std::format_to(
+                appender, "{} beginbfchar\n", std::min(max_section_size, glyphs.size() - i));
+        }
         const auto &g = glyphs[i];
         if(std::holds_alternative<LigatureGlyph>(g)) {
             const auto &lg = std::get<LigatureGlyph>(g);
@@ -112,8 +119,10 @@ endcodespacerange
             std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
         }
     }
-    buf += R"(endbfchar
-endcmap
+    if(glyphs.size() > 1) {
+        buf += "endbfchar\n";
+    }
+    buf += R"(endcmap
 CMapName currentdict /CMap defineresource pop
 end
 end
-- 
2.43.0


From a9c53ea7b8d0f2431cd949667dbe7d513e455a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 060/134] fix: ToUnicode maps contain codepoints outside the
 basic multilingual plane as surrogate pairs

---
 src/pdfwriter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 020c8b0..703f28b 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -116,7 +116,16 @@ endcodespacerange
                     unicode_codepoint = std::get<RegularGlyph>(g).unicode_codepoint;
                 }
             }
-            std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            if(unicode_codepoint >= 0x10000) {
+                const uint32_t in_surrogates = unicode_codepoint - 0x10000;
+                std::format_to(appender,
+                               "<{:04X}> <{:04X}{:04X}>\n",
+                               i,
+                               0xD800 + (in_surrogates >> 10),
+                               0xDC00 + (in_surrogates & 0x3FF));
+            } else {
+                std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            }
         }
     }
     if(glyphs.size() > 1) {
-- 
2.43.0


From e32a12390f14bdbbc5151f06b95cd12527fa4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 061/134] fix: raw and ligature glyphs that share a codepoint
 or text are different glyphs

---
 src/fontsubsetter.cpp | 34 +++++++++++-----------------------
 src/fontsubsetter.hpp |  1 -
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 7901e91..9bed710 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -111,10 +111,6 @@ rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(const u8string &text,
         }
         return *existing_gid;
     }
-    auto trial = find_glyph(text);
-    if(trial) {
-        return trial.value();
-    }
     return unchecked_insert_glyph_to_last_subset(text, glyph_id);
 }
 
@@ -184,9 +180,10 @@ std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) c
     auto loc =
         std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
-                if(std::get<RegularGlyph>(ttg).glyph_index == gid) {
-                    return true;
-                }
+                return std::get<RegularGlyph>(ttg).glyph_index == gid;
+            }
+            if(std::holds_alternative<LigatureGlyph>(ttg)) {
+                return std::get<LigatureGlyph>(ttg).glyph_index == gid;
             }
             return false;
         });
@@ -197,24 +194,15 @@ std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) c
 }
 
 std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint) const {
+    // A raw glyph may have been given this codepoint, too.
+    const uint32_t glyph_index = FT_Get_Char_Index(face, codepoint);
     auto loc = std::find_if(
-        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint](const TTGlyphs &ttg) {
+        subset.glyphs.cbegin(),
+        subset.glyphs.cend(),
+        [codepoint, glyph_index](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
-                return std::get<RegularGlyph>(ttg).unicode_codepoint == codepoint;
-            }
-            return false;
-        });
-    if(loc != subset.glyphs.cend()) {
-        return FontSubsetInfo{int32_t(loc - subset.glyphs.cbegin())};
-    }
-    return {};
-}
-
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text) const {
-    auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&text](const TTGlyphs &ttg) {
-            if(std::holds_alternative<LigatureGlyph>(ttg)) {
-                return std::get<LigatureGlyph>(ttg).text == text;
+                const auto &rg = std::get<RegularGlyph>(ttg);
+                return rg.unicode_codepoint == codepoint && rg.glyph_index == glyph_index;
             }
             return false;
         });
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index f486054..178316f 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -63,7 +63,6 @@ private:
     FontProperties props;
     std::optional<FontSubsetInfo> find_existing_glyph(uint32_t gid) const;
     std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint) const;
-    std::optional<FontSubsetInfo> find_glyph(const u8string &text) const;
 
     FontSubsetData subset;
 };
-- 
2.43.0


From 7174010c506e57e636e1e5785b1d1d65bb266df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 062/134] fix: subset fonts have the metrics of the chosen
 variation

---
 src/ft_subsetter.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 376e853..d76cfaa 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -591,8 +591,8 @@ GlyphBoundingBox get_glyph_bb(FT_Outline outline) {
         const auto &px = outline.points[i].x;
         const auto &py = outline.points[i].y;
         bb.xMin = std::min(bb.xMin, px);
-        bb.xMax = std::max(bb.xMax, py);
-        bb.yMin = std::min(bb.yMin, px);
+        bb.xMax = std::max(bb.xMax, px);
+        bb.yMin = std::min(bb.yMin, py);
         bb.yMax = std::max(bb.yMax, py);
     }
     return bb;
@@ -680,8 +680,23 @@ subset_glyphs(const TrueTypeFontFile &source,
     return subset;
 }
 
-TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &glyphs) {
+rvoe<TTHmtx>
+subset_hmtx(const TrueTypeFontFile &source, FT_Face face, const std::vector<TTGlyphs> &glyphs) {
     TTHmtx subset;
+    if(FT_HAS_MULTIPLE_MASTERS(face)) {
+        // The metrics in the file are those of the default instance.
+        for(const auto &g : glyphs) {
+            auto rc = FT_Load_Glyph(face, font_id_for_glyph(g), FT_LOAD_NO_SCALE | FT_LOAD_NO_BITMAP);
+            if(rc != 0) {
+                print_freetype_error(rc);
+                RETERR(FreeTypeError);
+            }
+            subset.longhor.emplace_back(
+                TTLongHorMetric{(uint16_t)face->glyph->metrics.horiAdvance,
+                                (int16_t)get_glyph_bb(face->glyph->outline).xMin});
+        }
+        return subset;
+    }
     assert(source.hmtx.longhor.size() + source.hmtx.left_side_bearings.size() ==
            source.maxp.num_glyphs());
     assert(!source.hmtx.longhor.empty());
@@ -1009,7 +1024,8 @@ generate_truetype_font(const TrueTypeFontFile &source,
     dest.hhea = source.hhea;
     dest.maxp = source.maxp;
     dest.maxp.set_num_glyphs(subglyphs.size());
-    dest.hmtx = subset_hmtx(source, glyphs);
+    ERC(hmtx, subset_hmtx(source, face, glyphs));
+    dest.hmtx = std::move(hmtx);
     dest.hhea.num_hmetrics = dest.hmtx.longhor.size();
     dest.head.index_to_loc_format = 1;
     dest.cvt = source.cvt;
-- 
2.43.0


From b6dd56805e6169bc42b59fe7370806080e14d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 063/134] fix: raw glyphs without a codepoint are not drawn as
 missing glyphs

---
 src/ft_subsetter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index d76cfaa..53844ba 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1045,7 +1045,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
     uint32_t counter = 0;
     for(const auto &g : glyphs) {
         if(const auto *rg = std::get_if<RegularGlyph>(&g)) {
-            if(rg->unicode_codepoint == 0) {
+            if(rg->glyph_index == (uint32_t)-1) {
                 converted.emplace_back(0, 0);
             } else {
                 converted.emplace_back(rg->unicode_codepoint, rg->glyph_index);
@@ -1166,7 +1166,8 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
 uint32_t font_id_for_glyph(const TTGlyphs &g) {
     if(std::holds_alternative<RegularGlyph>(g)) {
         auto &rg = std::get<RegularGlyph>(g);
-        if(rg.unicode_codepoint == 0) {
+        if(rg.glyph_index == (uint32_t)-1) {
+            // The glyph that is always in the subset.
             return 0;
         } else {
             return rg.glyph_index;
-- 
2.43.0


From f25a5700030ff7f3b2659e535fd7141bdf0f372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 064/134] fix: font variations can have negative values

---
 src/document.cpp  | 2 +-
 src/pdfcommon.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 3b44a8c..8475f7a 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -344,7 +344,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
             memcpy(unpacked_tag, &swapped, 4);
             if(key == unpacked_tag) {
                 matched = true;
-                var_coords[i] = value << 16; // Stored in OpenType as 16x16 fixed point.
+                var_coords[i] = FT_Fixed(value) * 65536; // Stored in OpenType as 16x16 fixed point.
                 break;
             }
         }
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index b8100b5..750beb9 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -656,7 +656,7 @@ struct FontProperties : public _capyPDF_FontProperties {
     // - Vertical or Horizontal writing
     // - Other CID metadata at al
 
-    std::unordered_map<std::string, uint32_t> variations;
+    std::unordered_map<std::string, int32_t> variations;
     std::optional<uint32_t> instance_index;
 
     bool has_variations() const { return instance_index || !variations.empty(); }
-- 
2.43.0


From 670c906b2a5c3bd2c4bab262531dc8a5cb52c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 065/134] fix: CFF dictionaries are copied without loss and no
 entry of the top dictionary is assumed to exist

---
 src/cffsubsetter.cpp | 64 +++++++++++++++++++++++++++++---------------
 src/cffsubsetter.hpp |  6 ++++-
 src/ft_subsetter.cpp |  2 +-
 3 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5344fb9..3215d5d 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -159,9 +159,11 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
     std::vector<int32_t> operands;
+    size_t operands_start = 0;
     // span.at() is not available yet. Change back to span once it is.
     auto dataspan = span2sv(dataspan_orig);
     while(offset < dataspan.size()) {
+        const auto operands_end = offset;
         // Read operand
         const int32_t b0 = (uint8_t)dataspan.at(offset++);
         if(b0 <= 21) {
@@ -171,8 +173,12 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 unpacked_operator = b0 << 8 | b1;
             }
-            dict.entries.emplace_back(std::move(operands), (DictOperator)unpacked_operator);
+            std::vector<std::byte> raw_operands(dataspan_orig.begin() + operands_start,
+                                                dataspan_orig.begin() + operands_end);
+            dict.entries.emplace_back(
+                std::move(operands), (DictOperator)unpacked_operator, std::move(raw_operands));
             operands.clear();
+            operands_start = offset;
         } else if((b0 >= 28 && b0 <= 30) || (b0 >= 32 && b0 <= 254)) {
             // Is an operand.
             int32_t unpacked_operand;
@@ -187,7 +193,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
             } else if(b0 == 28) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
-                unpacked_operand = b1 << 8 | b2;
+                unpacked_operand = (int16_t)(b1 << 8 | b2);
             } else if(b0 == 29) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
@@ -200,7 +206,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 do {
                     b1 = (uint8_t)dataspan.at(offset++);
                 } while((b1 & 0xf) != 0xf);
-                unpacked_operand = -1; // FIXME
+                unpacked_operand = -1; // The value is only available in raw form.
             } else {
                 std::abort();
             }
@@ -584,6 +590,20 @@ void CFFDictWriter::append_command(const std::vector<int32_t> &operands, DictOpe
         o.output.push_back(std::byte{29});
         swap_and_append_bytes(o.output, opr);
     }
+    append_operator(op);
+}
+
+void CFFDictWriter::append_command(const CFFDictItem &e) {
+    if(e.raw_operands.empty()) {
+        append_command(e.operand, e.opr);
+        return;
+    }
+    o.offsets.push_back(o.output.size());
+    o.output.insert(o.output.end(), e.raw_operands.cbegin(), e.raw_operands.cend());
+    append_operator(e.opr);
+}
+
+void CFFDictWriter::append_operator(DictOperator op) {
     if((uint16_t)op > 0xFF) {
         o.output.push_back(std::byte{0xc});
     }
@@ -600,7 +620,7 @@ rvoe<NoReturnValue> CFFWriter::create() {
     output.assign((std::byte *)header, (std::byte *)header + 4);
     append_index(source.name);
 
-    create_topdict();
+    ERCV(create_topdict());
     append_index(source.string);
     append_index(source.global_subr);
     fixups.charsets.value = output.size();
@@ -756,11 +776,10 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::FamilyName);
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
+    copy_dict_item_if_exists(topdict, DictOperator::FontMatrix);
     if(source.is_cid) {
-        ERCV(copy_dict_item(topdict, DictOperator::CIDFontVersion));
-        ERCV(copy_dict_item(topdict, DictOperator::CIDCount));
-        ERCV(copy_dict_item(topdict, DictOperator::FDArray));  // offset needs to be fixed in post.
-        ERCV(copy_dict_item(topdict, DictOperator::FDSelect)); // offset needs to be fixed in post.
+        copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
+        copy_dict_item_if_exists(topdict, DictOperator::CIDCount);
     } else {
         std::vector<int32_t> operand;
         operand.push_back(-1);
@@ -768,24 +787,27 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
         operand.clear();
         operand.push_back(65535);
         topdict.append_command(operand, DictOperator::CIDCount);
-        operand.clear();
-        operand.push_back(-1);
-        topdict.append_command(operand, DictOperator::FDArray);
-        topdict.append_command(operand, DictOperator::FDSelect);
     }
-    ERCV(copy_dict_item(topdict, DictOperator::Charset)); // offset needs to be fixed in post.
-    ERCV(copy_dict_item(topdict,
-                        DictOperator::CharStrings)); // offset needs to be fixed in post.
+    // These offsets need to be fixed in post.
+    const std::vector<int32_t> placeholder{-1};
+    const auto fdarray_pos = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::FDArray);
+    const auto fdselect_pos = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::FDSelect);
+    const auto charsets_pos = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::Charset);
+    const auto charstrings_pos = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::CharStrings);
     // copy_dict_item(topdict, DictOperator::UnderlinePosition);
     auto serialization = topdict.steal();
     std::vector<std::vector<std::byte>> wrapper{std::move(serialization.output)};
     auto offsets = append_index(wrapper);
     assert(offsets.size() == 1);
     const auto dict_start = offsets.front();
-    fixups.fdarray.offset = serialization.offsets.at(8) + 1 + dict_start;
-    fixups.fdselect.offset = serialization.offsets.at(9) + 1 + dict_start;
-    fixups.charsets.offset = serialization.offsets.at(10) + 1 + dict_start;
-    fixups.charstrings.offset = serialization.offsets.at(11) + 1 + dict_start;
+    fixups.fdarray.offset = fdarray_pos + 1 + dict_start;
+    fixups.fdselect.offset = fdselect_pos + 1 + dict_start;
+    fixups.charsets.offset = charsets_pos + 1 + dict_start;
+    fixups.charstrings.offset = charstrings_pos + 1 + dict_start;
 
     /*
     uint32_t sanity_check_be;
@@ -809,14 +831,14 @@ rvoe<NoReturnValue> CFFWriter::copy_dict_item(CFFDictWriter &w, DictOperator op)
     if(!e) {
         RETERR(MissingCFFDictItem);
     }
-    w.append_command(e->operand, e->opr);
+    w.append_command(*e);
     RETOK;
 }
 
 void CFFWriter::copy_dict_item_if_exists(CFFDictWriter &w, DictOperator op) {
     auto *e = find_command(source, op);
     if(e) {
-        w.append_command(e->operand, e->opr);
+        w.append_command(*e);
     }
 }
 
diff --git a/src/cffsubsetter.hpp b/src/cffsubsetter.hpp
index c5aadbc..5827086 100644
--- a/src/cffsubsetter.hpp
+++ b/src/cffsubsetter.hpp
@@ -92,6 +92,8 @@ struct CFFIndex {
 struct CFFDictItem {
     std::vector<int32_t> operand;
     DictOperator opr; // "operator" is a reserved word
+    // The operands as they were in the font. Needed because reals can not be stored as integers.
+    std::vector<std::byte> raw_operands;
 };
 
 struct CFFDict {
@@ -187,13 +189,15 @@ struct Fixups {
 class CFFDictWriter {
 public:
     void append_command(const std::vector<int32_t> &operands, DictOperator op);
-    void append_command(const CFFDictItem &e) { append_command(e.operand, e.opr); };
+    void append_command(const CFFDictItem &e);
 
     DictOutput steal() { return std::move(o); }
 
     size_t current_size() const { return o.output.size(); }
 
 private:
+    void append_operator(DictOperator op);
+
     DictOutput o;
 };
 
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 53844ba..bb6236a 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1061,7 +1061,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
         }
     }
     CFFWriter w(source_data, converted);
-    w.create();
+    ERCV(w.create());
     return w.steal();
 }
 
-- 
2.43.0


From 71ea14d76c55bc253b07e171a2a7c41c6325d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 066/134] fix: the FDSelect table of a CFF font can be in
 format 0

---
 src/cffsubsetter.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 3215d5d..ea25636 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -267,13 +267,16 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
                                                    uint32_t num_glyphs) {
     std::vector<CFFSelectRange3> ranges;
     size_t offset = 0;
-    const uint8_t format = (uint8_t)dataspan[offset++];
+    ERC(format, extract<uint8_t>(dataspan, offset));
+    ++offset;
     if(format == 0) {
-        std::vector<std::byte> selector_array{dataspan.begin() + offset,
-                                              dataspan.begin() + offset + num_glyphs};
-        // FIXME. OR maybe not. This seems to be used in generated
-        // subset fonts only.
-        return ranges;
+        ERC(selectors, safe_subspan(dataspan, offset, num_glyphs));
+        for(uint32_t i = 0; i < num_glyphs; ++i) {
+            const auto fd = (uint8_t)selectors[i];
+            if(ranges.empty() || ranges.back().fd != fd) {
+                ranges.emplace_back((uint16_t)i, fd);
+            }
+        }
     } else if(format == 3) {
         ERC(nRg, extract_and_swap<uint16_t>(dataspan, offset));
         const uint32_t nRanges = nRg;
@@ -289,6 +292,11 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
         if(sentinel != num_glyphs) {
             RETERR(MalformedFontFile);
         }
+    } else {
+        RETERR(UnsupportedFormat);
+    }
+    if(ranges.empty() || ranges.front().first != 0) {
+        RETERR(MalformedFontFile);
     }
     return ranges;
 }
-- 
2.43.0


From a135c9afe39fae4a03323b6fdbc7c73971b5b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 067/134] fix: the Subrs entry of a CFF private dictionary can
 be anywhere in it

---
 src/cffsubsetter.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index ea25636..b0e92d9 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -139,22 +139,6 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     return index;
 }
 
-rvoe<CFFPrivateDict>
-build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CFFDict raw_pdict) {
-    CFFPrivateDict priv(std::move(raw_pdict), {});
-    if(priv.entries.entries.size() > 0) {
-        // This seems to always be last.
-        const auto &subrs = priv.entries.entries.back();
-        if(subrs.opr == DictOperator::Subrs) {
-            size_t local_subrs_offset = priv_dict_offset + subrs.operand.front();
-            ERC(rsdata, load_index(dataspan, local_subrs_offset));
-            priv.subr = std::move(rsdata);
-            priv.entries.entries.pop_back();
-        }
-    }
-    return priv;
-}
-
 rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
@@ -515,13 +499,12 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
 
     auto *priv = find_command(f, DictOperator::Private);
     if(priv) {
-        if(priv->operand.empty()) {
+        if(priv->operand.size() != 2) {
             RETERR(MalformedFontFile);
         }
         auto dict_offset = priv->operand[1];
         auto dict_size = priv->operand[0];
-        ERC(raw_pdict, unpack_dictionary(dataspan.subspan(dict_offset, dict_size)));
-        ERC(processed_pdict, build_pdict_from_dict(dataspan, dict_offset, raw_pdict));
+        ERC(processed_pdict, load_private_dict(dataspan, dict_offset, dict_size));
         f.pdict = std::move(processed_pdict);
     }
 
-- 
2.43.0


From 38377595a1f465cec37e071e1c623922d4486760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 068/134] fix: an empty CFF index takes up space

---
 src/cffsubsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index b0e92d9..e29a4a7 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -91,10 +91,10 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     CFFIndex index;
     ERC(cnt, extract<uint16_t>(dataspan, offset));
     const uint32_t count = std::byteswap(cnt);
+    offset += sizeof(uint16_t);
     if(count == 0) {
         return index;
     }
-    offset += sizeof(uint16_t);
     ERC(offSize, extract<uint8_t>(dataspan, offset));
     ++offset;
     std::vector<size_t> offsets;
-- 
2.43.0


From 8e2286c6fcbd0741c21474757a242258ba3ac864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 069/134] fix: raw glyph ids past the end of a CFF font are
 rejected

---
 src/fontsubsetter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 9bed710..5d0d4a3 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -133,6 +133,9 @@ FontSubsetter::unchecked_insert_glyph_to_last_subset(const uint32_t codepoint,
 
 rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
     if(ttfile.in_cff_format()) {
+        if(glyph_index >= ttfile.cff->char_strings.size()) {
+            RETERR(MissingGlyph);
+        }
         RETOK;
     }
     if(glyph_index == 0) {
-- 
2.43.0


From 5827a3c71581fbaaf25fed828b5131be44beda98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 070/134] fix: fonts without a PostScript name can be used

---
 src/pdfwriter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 703f28b..37d0f35 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -59,6 +59,12 @@ std::string fontname2pdfname(std::string_view original) {
     return out;
 }
 
+// Fonts without a name table do not have a name.
+const char *postscript_name(FT_Face face) {
+    const char *name = FT_Get_Postscript_Name(face);
+    return name ? name : "Unnamed";
+}
+
 std::string subsetfontname2pdfname(std::string_view original, const int32_t subset_number) {
     std::string out;
     const int bufsize = 10;
@@ -697,7 +703,7 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font(int32_t object_num,
     fmt.add_token_pair("/Type", "/Font");
     fmt.add_token_pair("/Subtype", "/Type0");
     fmt.add_token("/BaseFont");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_id));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_id));
     const int32_t ciddict_obj = object_num + 1; // FIXME
     fmt.add_token_pair("/Encoding", "/Identity-H");
     fmt.add_token("/DescendantFonts");
@@ -725,7 +731,7 @@ rvoe<NoReturnValue> PdfWriter::write_cid_dict(int32_t object_num,
     fmt.add_token_pair("/Subtype",
                        font.fontdata.fontdata.in_cff_format() ? "/CIDFontType0" : "/CIDFontType2");
     fmt.add_token("/BaseFont");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_id));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_id));
     fmt.add_token("/CIDSystemInfo");
     fmt.begin_dict();
     fmt.add_token_pair("/Registry", "(Adobe)");
@@ -786,7 +792,7 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font_descriptor(int32_t object_num,
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/FontDescriptor");
     fmt.add_token("/FontName");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_number));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_number));
     fmt.add_token_pair("/Flags", fflags);
     fmt.add_token("/FontBBox");
     fmt.begin_array();
-- 
2.43.0


From 6c141d0207cbf9fb50d2127903a8601898f1489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 071/134] fix: structure items that have both children and
 content keep the content

---
 src/pdfwriter.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 37d0f35..9cabbb6 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -1229,24 +1229,25 @@ rvoe<NoReturnValue> PdfWriter::write_delayed_structure_item(int obj_num,
     fmt.add_token("/P");
     fmt.add_object_ref(parent_object);
 
+    const auto it = doc.structure_use.find(dsi.sid);
+    const bool has_content = it != doc.structure_use.end();
+    if(has_content) {
+        fmt.add_token("/Pg");
+        fmt.add_object_ref(doc.pages.at(it->second.page_num).page_obj_num);
+    }
     if(!children.empty()) {
         fmt.add_token("/K");
         fmt.begin_array(1);
 
+        if(has_content) {
+            fmt.add_token(it->second.mcid_num);
+        }
         for(const auto &c : children) {
             fmt.add_object_ref(doc.structure_items.at(c.id).obj_id);
         }
         fmt.end_array();
-    } else {
-        // FIXME. Maybe not correct? Assumes that a struct item
-        // either has children or is used on a page. Not both.
-        const auto it = doc.structure_use.find(dsi.sid);
-        if(it != doc.structure_use.end()) {
-            const auto &[page_num, mcid_num] = it->second;
-            fmt.add_token("/Pg");
-            fmt.add_object_ref(doc.pages.at(page_num).page_obj_num);
-            fmt.add_token_pair("/K", mcid_num);
-        }
+    } else if(has_content) {
+        fmt.add_token_pair("/K", it->second.mcid_num);
     }
 
     // Extra elements.
-- 
2.43.0


From 348d1eb1f71e9fa289388ce7a68c747d5e002ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 072/134] fix: all root structure items are in the structure
 tree

---
 src/document.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 8475f7a..cd3bd68 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1217,27 +1217,21 @@ rvoe<int32_t> PdfDocument::create_outlines() {
 }
 
 void PdfDocument::create_structure_root_dict() {
-    std::optional<CapyPDF_StructureItemId> rootobj;
-
     if(!structure_parent_tree_object) {
         fprintf(stderr, "Internal error!\n");
         std::abort();
     }
-    for(int32_t i = 0; i < (int32_t)structure_items.size(); ++i) {
-        if(!structure_items[i].parent) {
-            rootobj = CapyPDF_StructureItemId{i};
-            break;
-        }
-        // FIXME, check that there is only one.
-    }
-    assert(rootobj);
     // /ParentTree
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/StructTreeRoot");
     fmt.add_token("/K");
     fmt.begin_array();
-    fmt.add_object_ref(structure_items[rootobj->id].obj_id);
+    for(const auto &item : structure_items) {
+        if(!item.parent) {
+            fmt.add_object_ref(item.obj_id);
+        }
+    }
     fmt.end_array();
     fmt.add_token("/ParentTree");
     fmt.add_object_ref(structure_parent_tree_object.value());
-- 
2.43.0


From 7521b32158077766aa824b7b000f952ed883f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 073/134] fix: a widget without a parent field keeps its button
 appearance

---
 src/pdfwriter.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 9cabbb6..dbf05d5 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -1169,21 +1169,21 @@ rvoe<NoReturnValue> PdfWriter::write_annotation(int obj_num, const DelayedAnnota
             const auto field_object = doc.form_fields.at(widget->parent.value().id);
             fmt.add_token("/Parent");
             fmt.add_object_ref(field_object);
-            if(widget->buttoninfo) {
-                const auto &button = widget->buttoninfo.value();
-                fmt.add_token("/AS");
-                fmt.add_token("/Off"); // FIXME, make the default value settable.
-                fmt.add_token("/AP");
-                fmt.begin_dict();
-                fmt.add_token("/N");
-                fmt.begin_dict();
-                fmt.add_token(button.on_state_name);
-                fmt.add_object_ref(doc.form_xobjects.at(button.on_state.id).xobj_num);
-                fmt.add_token("/Off");
-                fmt.add_object_ref(doc.form_xobjects.at(button.off_state.id).xobj_num);
-                fmt.end_dict();
-                fmt.end_dict();
-            }
+        }
+        if(widget->buttoninfo) {
+            const auto &button = widget->buttoninfo.value();
+            fmt.add_token("/AS");
+            fmt.add_token("/Off"); // FIXME, make the default value settable.
+            fmt.add_token("/AP");
+            fmt.begin_dict();
+            fmt.add_token("/N");
+            fmt.begin_dict();
+            fmt.add_token(button.on_state_name);
+            fmt.add_object_ref(doc.form_xobjects.at(button.on_state.id).xobj_num);
+            fmt.add_token("/Off");
+            fmt.add_object_ref(doc.form_xobjects.at(button.off_state.id).xobj_num);
+            fmt.end_dict();
+            fmt.end_dict();
         }
     } else {
         fprintf(stderr, "Unknown annotation type.\n");
-- 
2.43.0


From b4c063aa323d4048c5ad583b0ea4f695960cb8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 074/134] fix: the value of a choice field is written

---
 src/pdfwriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index dbf05d5..e37bbd0 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -965,6 +965,10 @@ rvoe<NoReturnValue> PdfWriter::write_form_field(int obj_num, const DelayedFormFi
         }
         fmt.add_token_pair("/FT", "/Tx");
     } else if(auto *choice = std::get_if<ChoiceField>(&field.sub)) {
+        if(!field.V.empty()) {
+            ERC(u8v, u8string::from_view(field.V));
+            fmt.add_token_pair("/V", utf8_to_pdfutf16be(u8v));
+        }
         fmt.add_token_pair("/FT", "/Ch");
         fmt.add_token(("/Opt"));
         {
-- 
2.43.0


From b00eebe4bb715926d804dc2270e1f53ab81ccc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 075/134] fix: only pages can be annotated

---
 src/drawcontext.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index e1ad5c7..8688676 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,9 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    if(context_type != CAPY_DC_PAGE) {
+        RETERR(InvalidDrawContextType);
+    }
     CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
-- 
2.43.0


From f3c8443f85f57b23a42e26a36fe984bc7f07d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:59 +0000
Subject: [PATCH 076/134] fix: names of one character are valid

---
 src/pdfcommon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfcommon.cpp b/src/pdfcommon.cpp
index dc04b99..064c68f 100644
--- a/src/pdfcommon.cpp
+++ b/src/pdfcommon.cpp
@@ -122,15 +122,15 @@ rvoe<asciistring> asciistring::from_view(std::string_view sv) {
 }
 
 rvoe<PdfName> PdfName::from_view(std::string_view sv) {
-    if(sv.size() < 2) {
-        RETERR(InvalidBufsize);
-    }
     if(sv.find('\0') != std::string_view::npos) {
         RETERR(EmbeddedNullInString);
     }
-    if(sv[0] == '/') {
+    if(sv.starts_with('/')) {
         sv.remove_prefix(1);
     }
+    if(sv.empty()) {
+        RETERR(InvalidBufsize);
+    }
     return PdfName(bytes2pdfstringliteral(sv));
 }
 
-- 
2.43.0


From a725f4161b712cd9cdcca91d19bd2115d69bddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 077/134] fix: the temporary file is never the output file
 itself

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index e37bbd0..99c0b9b 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -253,7 +253,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
     }
     doc.write_attempted = true;
     std::filesystem::path tempfname(ofilename);
-    tempfname.replace_extension(".pdf~");
+    tempfname += "~";
     FILE *out_file = fopen(tempfname.string().c_str(), "wb");
     if(!out_file) {
         perror(nullptr);
-- 
2.43.0


From 27def0cdaddd3ea8d8070869fb230e1e4f96eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 078/134] fix: a failing position query while writing is an
 error

---
 src/pdfwriter.cpp | 31 +++++++++++++++++++++----------
 src/pdfwriter.hpp |  1 +
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 99c0b9b..113e476 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -319,19 +319,33 @@ rvoe<NoReturnValue> PdfWriter::write_to_file_impl() {
     ERC(final_offsets, write_objects());
     compressed_object_number = final_offsets.size();
     if(use_xref) {
-        const int64_t objstm_offset = ftell(ofile);
+        ERC(objstm_offset, current_offset());
         ERCV(write_main_objstm(final_offsets));
-        const int64_t xref_offset = ftell(ofile);
+        ERC(xref_offset, current_offset());
         ERCV(write_cross_reference_stream(final_offsets, objstm_offset));
         ERCV(write_newstyle_trailer(xref_offset));
     } else {
-        const int64_t xref_offset = ftell(ofile);
+        ERC(xref_offset, current_offset());
         ERCV(write_cross_reference_table(final_offsets));
         ERCV(write_oldstyle_trailer(xref_offset));
     }
     RETOK;
 }
 
+rvoe<int64_t> PdfWriter::current_offset() {
+    const int64_t offset =
+#ifdef _MSC_VER
+        _ftelli64(ofile);
+#else
+        ftell(ofile);
+#endif
+    if(offset < 0) {
+        perror(nullptr);
+        RETERR(FileWriteError);
+    }
+    return offset;
+}
+
 rvoe<NoReturnValue> PdfWriter::write_bytes(const char *buf, size_t buf_size) {
     if(fwrite(buf, 1, buf_size, ofile) != buf_size) {
         perror(nullptr);
@@ -526,12 +540,8 @@ PdfWriter::write_cross_reference_stream(const std::vector<ObjectOffset> &final_o
         final_offsets.size() + 2; // One for objstm, one for this object.
     const size_t entry_size = 1 + 4 + 4;
     const int32_t root = total_number_of_objects - 3;
-    const uint64_t this_object_offset64 =
-#ifdef _MSC_VER
-        _ftelli64(ofile);
-#else
-        ftell(ofile);
-#endif
+    ERC(own_offset, current_offset());
+    const uint64_t this_object_offset64 = own_offset;
     if(objstm_offset64 > ((uint32_t)-1)) {
         RETERR(XRefOffsetTooBig);
     }
@@ -664,7 +674,8 @@ rvoe<NoReturnValue> PdfWriter::write_finished_object(int32_t object_number,
         return write_finished_object_to_objstm(dict_data);
     }
     std::string buf;
-    object_offsets.emplace_back(false, ftell(ofile));
+    ERC(object_offset, current_offset());
+    object_offsets.emplace_back(false, object_offset);
 
     auto appender = std::back_inserter(buf);
     std::format_to(appender, "{} 0 obj\n", object_number);
diff --git a/src/pdfwriter.hpp b/src/pdfwriter.hpp
index 52a0f83..425b02c 100644
--- a/src/pdfwriter.hpp
+++ b/src/pdfwriter.hpp
@@ -39,6 +39,7 @@ private:
                                                      uint64_t objstm_offset);
     rvoe<NoReturnValue> write_oldstyle_trailer(int64_t xref_offset);
     rvoe<NoReturnValue> write_newstyle_trailer(int64_t xref_offset);
+    rvoe<int64_t> current_offset();
     rvoe<NoReturnValue> write_finished_object(int32_t object_number,
                                               std::string_view dict_data,
                                               std::span<std::byte> stream_data);
-- 
2.43.0


From 07ff0e3a6a60407b935c476a55e0bc26adaddc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 079/134] fix: reject non-device colors in exponential
 functions instead of aborting

---
 src/document.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index cd3bd68..7213876 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -255,7 +255,7 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
-void color2numbers(ObjectFormatter &fmt, const Color &c) {
+rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
         fmt.add_token(rgb->g.v());
@@ -268,9 +268,10 @@ void color2numbers(ObjectFormatter &fmt, const Color &c) {
         fmt.add_token(cmyk->y.v());
         fmt.add_token(cmyk->k.v());
     } else {
-        fprintf(stderr, "Colorspace not supported yet.\n");
-        std::abort();
+        // Only device colors have a fixed set of components.
+        RETERR(ColorspaceMismatch);
     }
+    RETOK;
 }
 
 template<typename T1, typename T2> static void append_value_or_null(T1 &fmt, const T2 &val) {
@@ -1766,11 +1767,11 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
 
     fmt.add_token("/C0");
     fmt.begin_array();
-    color2numbers(fmt, func.C0);
+    ERCV(color2numbers(fmt, func.C0));
     fmt.end_array();
     fmt.add_token("/C1");
     fmt.begin_array();
-    color2numbers(fmt, func.C1);
+    ERCV(color2numbers(fmt, func.C1));
     fmt.end_array();
     fmt.end_dict();
 
-- 
2.43.0


From 20bfce60c78d72e1635836ae45342aaefc63a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 080/134] fix: reject functions whose arrays do not have the
 required sizes

---
 src/document.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 7213876..9844c83 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1750,6 +1750,9 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
 
 rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
     const int functiontype = 2;
+    if(func.domain.size() != 2) {
+        RETERR(InvalidBufsize);
+    }
     if(func.C0.index() != func.C1.index()) {
         RETERR(ColorspaceMismatch);
     }
@@ -1783,6 +1786,10 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType3 &func) {
     if(!func.functions.size()) {
         RETERR(EmptyFunctionList);
     }
+    if(func.domain.size() != 2 || func.bounds.size() + 1 != func.functions.size() ||
+       func.encode.size() != 2 * func.functions.size()) {
+        RETERR(InvalidBufsize);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/FunctionType", functiontype);
@@ -1821,6 +1828,10 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType3 &func) {
 }
 
 rvoe<int32_t> PdfDocument::serialize_function(const FunctionType4 &func) {
+    if(func.domain.empty() || func.domain.size() % 2 != 0 || func.range.empty() ||
+       func.range.size() % 2 != 0) {
+        RETERR(InvalidBufsize);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/FunctionType", 4);
-- 
2.43.0


From 0a89657dab432e90cf70ca6e4820d9362ec194f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 081/134] fix: reject mesh shadings whose coordinate box is
 empty

---
 src/document.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 9844c83..5c32a57 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -195,6 +195,9 @@ append_shade_color(std::string &s, CapyPDF_Device_Colorspace cs, const Color &co
 
 rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
     std::string s;
+    if(shade.minx == shade.maxx || shade.miny == shade.maxy) {
+        RETERR(InvalidBBox);
+    }
     for(const auto &e : shade.elements) {
         const double xratio =
             std::clamp((e.sp.p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
@@ -232,6 +235,9 @@ append_coons_patch(std::string &s, const ShadingType6 &shade, const Patch &e, ch
 
 rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
     std::string s;
+    if(shade.minx == shade.maxx || shade.miny == shade.maxy) {
+        RETERR(InvalidBBox);
+    }
     for(const auto &eh : shade.elements) {
         if(const auto *full = std::get_if<FullCoonsPatch>(&eh)) {
             ERCV(append_coons_patch(s, shade, *full, 0));
-- 
2.43.0


From 1e385aa08f5f40581c9b02cc0e0ec7d5c8fab8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 082/134] fix: always write a transparency group as one

---
 src/drawcontext.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 8688676..bc7a9ef 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -73,10 +73,9 @@ rvoe<DCSerialization> PdfDrawContext::serialize() {
         fmt.add_token(bbox.x2);
         fmt.add_token(bbox.y2);
         fmt.end_array();
-        if(custom_props.transparency_props) {
-            fmt.add_token("/Group");
-            custom_props.transparency_props->serialize(fmt);
-        }
+        // Without a Group dictionary this would be a plain form XObject.
+        fmt.add_token("/Group");
+        custom_props.transparency_props.value_or(TransparencyGroupProperties{}).serialize(fmt);
         if(group_matrix) {
             write_matrix(fmt, group_matrix.value());
         }
-- 
2.43.0


From a10e058fbaad2a33d28bdfab6b81d18a043be597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 083/134] fix: reject functions whose inputs and outputs do not
 fit their use

---
 src/document.cpp | 43 ++++++++++++++++++++++++++++++++++++++++++-
 src/document.hpp |  4 ++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 5c32a57..a3478b1 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -261,6 +261,18 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
+size_t num_channels_for(const CapyPDF_Device_Colorspace cs) {
+    switch(cs) {
+    case CAPY_DEVICE_CS_RGB:
+        return 3;
+    case CAPY_DEVICE_CS_GRAY:
+        return 1;
+    case CAPY_DEVICE_CS_CMYK:
+        return 4;
+    }
+    std::abort();
+}
+
 rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
@@ -748,6 +760,9 @@ rvoe<CapyPDF_SeparationId> PdfDocument::create_separation(const asciistring &nam
     if(!std::holds_alternative<FunctionType4>(f4.original)) {
         RETERR(IncorrectFunctionType);
     }
+    if(f4.num_inputs != 1 || f4.num_outputs != num_channels_for(cs)) {
+        RETERR(IncorrectColorChannelCount);
+    }
     ObjectFormatter fmt;
     fmt.begin_array();
     fmt.add_token("/Separation");
@@ -1796,6 +1811,13 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType3 &func) {
        func.encode.size() != 2 * func.functions.size()) {
         RETERR(InvalidBufsize);
     }
+    for(const auto f : func.functions) {
+        const auto &part = functions.at(f.id);
+        if(part.num_inputs != 1 ||
+           part.num_outputs != functions.at(func.functions.front().id).num_outputs) {
+            RETERR(IncorrectColorChannelCount);
+        }
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/FunctionType", functiontype);
@@ -1858,20 +1880,28 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType4 &func) {
 
 rvoe<CapyPDF_FunctionId> PdfDocument::add_function(PdfFunction f) {
     int32_t object_number;
+    size_t num_inputs = 1;
+    size_t num_outputs;
     if(auto *f2 = std::get_if<FunctionType2>(&f)) {
         ERC(rc, serialize_function(*f2));
         object_number = rc;
+        num_outputs = std::holds_alternative<DeviceGrayColor>(f2->C0)  ? 1
+                      : std::holds_alternative<DeviceRGBColor>(f2->C0) ? 3
+                                                                       : 4;
     } else if(auto *f3 = std::get_if<FunctionType3>(&f)) {
         ERC(rc, serialize_function(*f3));
         object_number = rc;
+        num_outputs = functions.at(f3->functions.front().id).num_outputs;
     } else if(auto *f4 = std::get_if<FunctionType4>(&f)) {
         ERC(rc, serialize_function(*f4));
         object_number = rc;
+        num_inputs = f4->domain.size() / 2;
+        num_outputs = f4->range.size() / 2;
     } else {
         fprintf(stderr, "Function type not implemented yet.\n");
         std::abort();
     }
-    functions.emplace_back(FunctionInfo{std::move(f), object_number});
+    functions.emplace_back(FunctionInfo{std::move(f), object_number, num_inputs, num_outputs});
     return CapyPDF_FunctionId{(int32_t)functions.size() - 1};
 }
 
@@ -1889,7 +1919,17 @@ rvoe<int32_t> PdfDocument::serialize_shading(const PdfShading &shade) {
     std::abort();
 }
 
+rvoe<NoReturnValue> PdfDocument::validate_shading_function(CapyPDF_FunctionId fid,
+                                                           CapyPDF_Device_Colorspace cs) const {
+    const auto &func = functions.at(fid.id);
+    if(func.num_inputs != 1 || func.num_outputs != num_channels_for(cs)) {
+        RETERR(IncorrectColorChannelCount);
+    }
+    RETOK;
+}
+
 rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType2 &shade) {
+    ERCV(validate_shading_function(shade.function, shade.colorspace));
     const int shadingtype = 2;
     ObjectFormatter fmt;
     fmt.begin_dict();
@@ -1923,6 +1963,7 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType2 &shade) {
 }
 
 rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType3 &shade) {
+    ERCV(validate_shading_function(shade.function, shade.colorspace));
     const int shadingtype = 3;
     ObjectFormatter fmt;
     fmt.begin_dict();
diff --git a/src/document.hpp b/src/document.hpp
index 19c1fbf..07732fd 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -392,6 +392,8 @@ struct RolemapEnty {
 struct FunctionInfo {
     PdfFunction original;
     int32_t object_number;
+    size_t num_inputs;
+    size_t num_outputs;
 };
 
 struct ShadingInfo {
@@ -509,6 +511,8 @@ public:
     rvoe<CapyPDF_FunctionId> add_function(PdfFunction f);
 
     // Shading
+    rvoe<NoReturnValue> validate_shading_function(CapyPDF_FunctionId fid,
+                                                  CapyPDF_Device_Colorspace cs) const;
     rvoe<int32_t> serialize_shading(const PdfShading &shade);
     rvoe<int32_t> serialize_shading(const ShadingType2 &shade);
     rvoe<int32_t> serialize_shading(const ShadingType3 &shade);
-- 
2.43.0


From 1db8637cb174f6a3fc3ad2f0086262b95e40aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 084/134] fix: check the pixel format and amount of data of
 images that are converted

---
 src/colorconverter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 8a967e6..bb5c76c 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -233,15 +233,23 @@ cmsHPROFILE PdfColorConverter::profile_for(CapyPDF_Image_Colorspace cs) const {
 rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
                                                         CapyPDF_Device_Colorspace output_format,
                                                         CapyPDF_Rendering_Intent intent) const {
+    // The pixel formats used below have 8 bits per channel.
+    if(ri.md.pixel_depth != 8 || ri.md.compression != CAPY_COMPRESSION_NONE) {
+        RETERR(UnsupportedFormat);
+    }
+    if(ri.md.w < 1 || ri.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
     RawPixelImage converted;
     converted.md = ri.md;
     converted.alpha = std::move(ri.alpha);
     cmsHPROFILE input_profile;
     const uint32_t input_pixelformat = pixelformat_for(ri.md.cs);
     const uint32_t output_pixelformat = pixelformat_for(output_format);
-    assert(ri.md.w > 0);
-    assert(ri.md.h > 0);
     const uint64_t num_pixels = ((uint64_t)ri.md.w) * ri.md.h;
+    if(ri.pixels.size() / num_bytes_for((CapyPDF_Device_Colorspace)ri.md.cs) < num_pixels) {
+        RETERR(MissingPixels);
+    }
     LcmsHolder icc_holder;
     if(ri.icc_profile.empty()) {
         input_profile = profile_for(ri.md.cs);
-- 
2.43.0


From 626c5f8460197222732cc3ec821bfa542b92e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 085/134] fix: give embedded files one file specification with
 readable non-ASCII names

---
 src/document.cpp | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index a3478b1..5c8f5ea 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -844,28 +844,7 @@ rvoe<int32_t> PdfDocument::create_AF_dict() {
     ObjectFormatter fmt;
     fmt.begin_array(1);
     for(const auto &e : embedded_files) {
-        fmt.begin_dict();
-        fmt.add_token_pair("/Type", "/Filespec");
-        if(!e.ef.description.empty()) {
-            fmt.add_token("/Desc");
-            fmt.add_token(u8str2u8textstring(e.ef.description));
-        }
-        fmt.add_token_pair("/AFRelationship", "/Data");
-        // Yes, these two are the same. For BW reasons I guess?
-        fmt.add_token("/F");
-        fmt.add_token(u8str2filespec(e.ef.pdfname));
-        fmt.add_token("/UF");
-        fmt.add_token(u8str2filespec(e.ef.pdfname));
-        fmt.add_token("/EF");
-        {
-            fmt.begin_dict();
-            fmt.add_token("/F");
-            fmt.add_object_ref(e.contents_obj);
-            fmt.add_token("/UF");
-            fmt.add_object_ref(e.contents_obj);
-            fmt.end_dict();
-        }
-        fmt.end_dict();
+        fmt.add_object_ref(e.filespec_obj);
     }
     fmt.end_array();
     return add_object(FullPDFObject{fmt.steal(), {}});
@@ -2162,11 +2141,18 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         ObjectFormatter fmt;
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Filespec");
+        if(!ef.description.empty()) {
+            fmt.add_token_pair("/Desc", utf8_to_pdfutf16be(ef.description));
+        }
+        fmt.add_token_pair("/AFRelationship", "/Data");
         fmt.add_token_pair("/F", pdfstring_quote(ef.pdfname.sv()));
+        fmt.add_token_pair("/UF", utf8_to_pdfutf16be(ef.pdfname));
         fmt.add_token("/EF");
         fmt.begin_dict();
         fmt.add_token("/F");
         fmt.add_object_ref(fileobj_id);
+        fmt.add_token("/UF");
+        fmt.add_object_ref(fileobj_id);
         fmt.end_dict();
         fmt.end_dict();
         auto filespec_id = add_object(FullPDFObject{fmt.steal(), {}});
-- 
2.43.0


From ff409da8104a51fc70e84c0753efba2a99becc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 086/134] fix: reject invalid form field values when they are
 set

---
 src/capi.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 7bd84d6..e88a686 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -3328,6 +3328,20 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_set_V(CapyPDF_FormField *field,
     API_BOUNDARY_START;
     auto *f = static_cast<FormField *>(field);
     auto rc = validate_raw_string(V, strsize);
+    if(rc && !rc.value().empty()) {
+        // The value of a button is a name, the others are text.
+        if(std::holds_alternative<ButtonField>(f->sub)) {
+            auto name = PdfName::from_view(rc.value());
+            if(!name) {
+                return conv_err(name);
+            }
+        } else {
+            auto text = u8string::from_view(rc.value());
+            if(!text) {
+                return conv_err(text);
+            }
+        }
+    }
     if(rc) {
         f->V = std::move(rc.value());
     } else {
-- 
2.43.0


From 96bac62fba6a95e072ef0a637c5ee912b35238a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 087/134] fix: accept marked content tags of one character

---
 src/drawcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index bc7a9ef..559788e 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -339,7 +339,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
-    if(tag.size() < 2 || tag.front() == '/') {
+    if(tag.empty() || tag.front() == '/') {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-- 
2.43.0


From 34b8c61b80ec9986c82dc6e4bb873e571867b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 088/134] fix: keep annotations in the order in which they were
 added to the page

---
 src/document.cpp    | 2 +-
 src/document.hpp    | 2 +-
 src/drawcontext.cpp | 6 ++++--
 src/drawcontext.hpp | 5 +++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 5c8f5ea..e71eb72 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -570,7 +570,7 @@ rvoe<NoReturnValue> PdfDocument::init() {
 rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
                                           std::string command_stream,
                                           const PageProperties &custom_props,
-                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                                          const std::vector<CapyPDF_AnnotationId> &annots,
                                           const std::vector<CapyPDF_StructureItemId> &structs,
                                           const std::optional<Transition> &transition,
                                           const std::vector<SubPageNavigation> &subnav,
diff --git a/src/document.hpp b/src/document.hpp
index 07732fd..c453448 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -457,7 +457,7 @@ public:
     rvoe<NoReturnValue> add_page(std::string resource_dict,
                                  std::string command_stream,
                                  const PageProperties &custom_props,
-                                 const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                                 const std::vector<CapyPDF_AnnotationId> &annots,
                                  const std::vector<CapyPDF_StructureItemId> &structs,
                                  const std::optional<Transition> &transition,
                                  const std::vector<SubPageNavigation> &subnav,
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 559788e..6aa3df0 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -8,6 +8,7 @@
 #include FT_FREETYPE_H
 #include FT_IMAGE_H
 #include <utils.hpp>
+#include <algorithm>
 #include <format>
 #include <array>
 #include <cmath>
@@ -250,10 +251,11 @@ rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
         RETERR(InvalidDrawContextType);
     }
     CHECK_INDEXNESS(annotation.id, doc->annotations);
-    if(used_annotations.find(annotation) != used_annotations.end()) {
+    if(std::find(used_annotations.cbegin(), used_annotations.cend(), annotation) !=
+       used_annotations.cend()) {
         RETERR(AnnotationReuse);
     }
-    used_annotations.insert(annotation);
+    used_annotations.push_back(annotation);
     RETOK;
 }
 
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 140c7c0..48befb2 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -179,7 +179,7 @@ public:
 
     int32_t marked_content_depth() const { return cmds.marked_content_depth(); }
 
-    const std::unordered_set<CapyPDF_AnnotationId> &get_annotation_usage() const {
+    const std::vector<CapyPDF_AnnotationId> &get_annotation_usage() const {
         return used_annotations;
     }
     const std::vector<CapyPDF_StructureItemId> &get_structure_usage() const {
@@ -229,7 +229,8 @@ private:
     std::unordered_set<int32_t> used_shadings;
     std::unordered_set<int32_t> used_patterns;
     std::unordered_set<int32_t> used_form_xobjects;
-    std::unordered_set<CapyPDF_AnnotationId> used_annotations;
+    // In the order in which they are painted.
+    std::vector<CapyPDF_AnnotationId> used_annotations;
     std::vector<CapyPDF_StructureItemId> used_structures; // A vector because numbering is relevant.
     std::unordered_set<CapyPDF_OptionalContentGroupId> used_ocgs;
     std::unordered_set<CapyPDF_TransparencyGroupId> used_trgroups;
-- 
2.43.0


From c3d43fcf66fa5e980714919ce9ff2efbf68b8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 089/134] fix: reject names that are not valid UTF-8

---
 src/capi.cpp      | 10 +++++++---
 src/pdfcommon.cpp |  3 +++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index e88a686..ada6c38 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -913,11 +913,11 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_rolemap_entry(CapyPDF_Generator *ge
     API_BOUNDARY_START;
     CHECK_ENUM_ARG(builtin, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
-    auto nameobj = validate_cstring(name, namesize);
+    auto nameobj = validate_utf8(name, namesize);
     if(!nameobj) {
         return conv_err(nameobj);
     }
-    auto rc = g->add_rolemap_entry(std::move(*nameobj), builtin);
+    auto rc = g->add_rolemap_entry(std::string{nameobj->sv()}, builtin);
     if(rc) {
         *out_ptr = rc.value();
     }
@@ -1053,7 +1053,11 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_BMC(CapyPDF_DrawContext *ctx,
                                           const char *tag) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
     auto *dc = static_cast<PdfDrawContext *>(ctx);
-    return conv_err(dc->cmd_BMC(tag));
+    auto u8tag = validate_utf8(tag, -1);
+    if(!u8tag) {
+        return conv_err(u8tag);
+    }
+    return conv_err(dc->cmd_BMC(u8tag->sv()));
     API_BOUNDARY_END;
 }
 
diff --git a/src/pdfcommon.cpp b/src/pdfcommon.cpp
index 064c68f..7b55778 100644
--- a/src/pdfcommon.cpp
+++ b/src/pdfcommon.cpp
@@ -131,6 +131,9 @@ rvoe<PdfName> PdfName::from_view(std::string_view sv) {
     if(sv.empty()) {
         RETERR(InvalidBufsize);
     }
+    if(!is_valid_utf8(sv)) {
+        RETERR(BadUtf8);
+    }
     return PdfName(bytes2pdfstringliteral(sv));
 }
 
-- 
2.43.0


From 510fdb693b6bd39d29b9d7daa2a81767b11aadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 090/134] fix: reject text objects whose drawing context no
 longer exists

---
 src/drawcontext.cpp | 10 ++++++++--
 src/drawcontext.hpp |  4 ++++
 src/pdftext.hpp     |  7 ++++---
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 6aa3df0..91a1a97 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <format>
 #include <array>
+#include <atomic>
 #include <cmath>
 #include <cassert>
 
@@ -34,11 +35,16 @@ void write_matrix(ObjectFormatter &fmt, const PdfMatrix &gm) {
 
 GstatePopper::~GstatePopper() { (void)ctx->cmd_Q(); }
 
+static uint64_t next_context_id() {
+    static std::atomic<uint64_t> counter{0};
+    return counter++;
+}
+
 PdfDrawContext::PdfDrawContext(PdfDocument *doc_,
                                PdfColorConverter *cm_,
                                CapyPDF_Draw_Context_Type dtype,
                                const PdfRectangle &area)
-    : doc(doc_), cm(cm_), context_type{dtype}, bbox{area} {}
+    : context_id{next_context_id()}, doc(doc_), cm(cm_), context_type{dtype}, bbox{area} {}
 
 PdfDrawContext::~PdfDrawContext() {}
 
@@ -879,7 +885,7 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
 }
 
 rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
-    if(textobj.creator() != this) {
+    if(textobj.creator() != id()) {
         RETERR(WrongDrawContext);
     }
     ERCV(validate_text_contents(textobj));
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 48befb2..1a33537 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -171,6 +171,7 @@ public:
 
     CapyPDF_Draw_Context_Type draw_context_type() const { return context_type; }
     PdfDocument &get_doc() { return *doc; }
+    uint64_t id() const { return context_id; }
 
     void build_resource_dict(ObjectFormatter &fmt);
 
@@ -218,6 +219,7 @@ private:
 
     rvoe<NoReturnValue> validate_text_contents(const PdfText &text);
 
+    const uint64_t context_id; // Unique within the process.
     PdfDocument *doc;
     PdfColorConverter *cm;
     CapyPDF_Draw_Context_Type context_type;
@@ -249,4 +251,6 @@ private:
     CommandStreamFormatter cmds;
 };
 
+inline PdfText::PdfText(const PdfDrawContext *dc) : context_id{dc->id()} {}
+
 } // namespace capypdf::internal
diff --git a/src/pdftext.hpp b/src/pdftext.hpp
index 908364f..2707e46 100644
--- a/src/pdftext.hpp
+++ b/src/pdftext.hpp
@@ -220,7 +220,7 @@ typedef std::variant<TStar_arg,
 
 class PdfText : public _capyPDF_Text {
 public:
-    explicit PdfText(PdfDrawContext *dc_) : dc{dc_} {};
+    explicit PdfText(const PdfDrawContext *dc);
 
     rvoe<NoReturnValue> cmd_BDC(CapyPDF_StructureItemId sid) {
         events.emplace_back(StructureItem{sid});
@@ -335,11 +335,12 @@ public:
         RETOK;
     }
 
-    PdfDrawContext *creator() const { return dc; }
+    uint64_t creator() const { return context_id; }
     const std::vector<TextEvent> &get_events() const { return events; }
 
 private:
-    PdfDrawContext *dc;
+    // Not a pointer, because another context could later live at the same address.
+    uint64_t context_id;
     std::vector<TextEvent> events;
 };
 
-- 
2.43.0


From 388ac0349f11c38426374000f9d101060ebaea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 091/134] fix: check that images have all the samples that
 their size needs

---
 src/document.cpp | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e71eb72..a464a6c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -273,6 +273,38 @@ size_t num_channels_for(const CapyPDF_Device_Colorspace cs) {
     std::abort();
 }
 
+rvoe<NoReturnValue> validate_samples(const RasterImageMetadata &md,
+                                     uint32_t depth,
+                                     uint32_t num_channels,
+                                     const std::vector<std::byte> &samples) {
+    if(depth != 1 && depth != 2 && depth != 4 && depth != 8 && depth != 16) {
+        RETERR(UnsupportedFormat);
+    }
+    // The amount of compressed data can not be known in advance.
+    if(md.compression == CAPY_COMPRESSION_NONE) {
+        const uint64_t bytes_per_row = ((uint64_t)md.w * num_channels * depth + 7) / 8;
+        if(samples.size() / bytes_per_row < md.h) {
+            RETERR(MissingPixels);
+        }
+    }
+    RETOK;
+}
+
+rvoe<NoReturnValue> validate_raw_image(const RawPixelImage &image) {
+    if(image.md.w < 1 || image.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(image.pixels.empty()) {
+        RETERR(MissingPixels);
+    }
+    ERCV(validate_samples(
+        image.md, image.md.pixel_depth, num_channels_for(image.md.cs), image.pixels));
+    if(!image.alpha.empty()) {
+        ERCV(validate_samples(image.md, image.md.alpha_depth, 1, image.alpha));
+    }
+    RETOK;
+}
+
 rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
@@ -1479,12 +1511,7 @@ PdfDocument::get_subset_glyph(CapyPDF_FontId fid, const u8string &text, uint32_t
 
 rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
                                                   const ImagePDFProperties &params) {
-    if(image.md.w < 1 || image.md.h < 1) {
-        RETERR(InvalidImageSize);
-    }
-    if(image.pixels.empty()) {
-        RETERR(MissingPixels);
-    }
+    ERCV(validate_raw_image(image));
     if(image.md.cs != CAPY_IMAGE_CS_GRAY || image.md.pixel_depth != 1) {
         RETERR(UnsupportedFormat);
     }
@@ -1504,12 +1531,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
 
 rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
                                              const ImagePDFProperties &params) {
-    if(image.md.w < 1 || image.md.h < 1) {
-        RETERR(InvalidImageSize);
-    }
-    if(image.pixels.empty()) {
-        RETERR(MissingPixels);
-    }
+    ERCV(validate_raw_image(image));
     ERCV(validate_format(image.md.cs == CAPY_IMAGE_CS_RGB));
     std::optional<int32_t> smask_id;
     if(params.as_mask && !image.alpha.empty()) {
-- 
2.43.0


From 4a4711a97aaefbb198830de3207176f21ac10c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 092/134] fix: load PNG images with other than 8 bits per
 sample or a transparent color correctly

---
 src/imagefileops.cpp | 110 ++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 64 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index de652d9..d99d2fc 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -23,70 +23,33 @@ const std::string_view JPG_SIG("\xff\xd8\xff", 3);
 const std::string_view TIF_SIG1("II*", 3);
 const std::string_view TIF_SIG2("MM", 2);
 
-void load_rgb_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
+// All formats that have only color channels, possibly followed by an alpha channel.
+void load_channels_png(png_struct *png_ptr,
+                       png_info *info_ptr,
+                       CapyPDF_Image_Colorspace cs,
+                       const size_t num_colors,
+                       const bool has_alpha,
+                       RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
-    result.md.cs = CAPY_IMAGE_CS_RGB;
-    result.pixels.reserve(result.md.w * result.md.h * 3);
-
-    for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
-        std::byte *current_row = (std::byte *)rows[row_number];
-        for(size_t i = 0; i < result.md.w * 3; i += 3) {
-            result.pixels.push_back(current_row[i]);
-            result.pixels.push_back(current_row[i + 1]);
-            result.pixels.push_back(current_row[i + 2]);
-        }
+    result.md.pixel_depth = png_get_bit_depth(png_ptr, info_ptr);
+    result.md.cs = cs;
+    const size_t sample_bytes = result.md.pixel_depth / 8; // Big-endian in both PNG and PDF.
+    const size_t color_bytes = num_colors * sample_bytes;
+    const size_t alpha_bytes = has_alpha ? sample_bytes : 0;
+    const size_t num_pixels = size_t(result.md.w) * result.md.h;
+    result.pixels.reserve(num_pixels * color_bytes);
+    if(has_alpha) {
+        result.md.alpha_depth = result.md.pixel_depth;
+        result.alpha.reserve(num_pixels * alpha_bytes);
     }
-}
-
-void load_rgba_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
-    unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
-    result.md.alpha_depth = 8;
-    result.md.cs = CAPY_IMAGE_CS_RGB;
-
-    result.pixels.reserve(result.md.w * result.md.h * 3);
-    result.alpha.reserve(result.md.w * result.md.h);
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
-        std::byte *current_row = (std::byte *)rows[row_number];
-        for(size_t i = 0; i < result.md.w * 4; i += 4) {
-            result.pixels.push_back(current_row[i]);
-            result.pixels.push_back(current_row[i + 1]);
-            result.pixels.push_back(current_row[i + 2]);
-            result.alpha.push_back(current_row[i + 3]);
-        }
-    }
-}
-
-void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
-    unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
-    result.md.cs = CAPY_IMAGE_CS_GRAY;
-
-    result.pixels.reserve(result.md.w * result.md.h);
-
-    for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
-        std::byte *current_row = (std::byte *)rows[row_number];
+        auto *pixel = (const std::byte *)rows[row_number];
         for(size_t i = 0; i < result.md.w; ++i) {
-            result.pixels.push_back(current_row[i]);
-        }
-    }
-}
-
-void load_ga_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
-    unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
-    result.md.alpha_depth = 8;
-    result.md.cs = CAPY_IMAGE_CS_GRAY;
-
-    result.pixels.reserve(result.md.w * result.md.h);
-    result.alpha.reserve(result.md.w * result.md.h);
-    for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
-        std::byte *current_row = (std::byte *)rows[row_number];
-        for(size_t i = 0; i < result.md.w * 2; i += 2) {
-            result.pixels.push_back(current_row[i]);
-            result.alpha.push_back(current_row[i + 1]);
+            result.pixels.insert(result.pixels.end(), pixel, pixel + color_bytes);
+            pixel += color_bytes;
+            result.alpha.insert(result.alpha.end(), pixel, pixel + alpha_bytes);
+            pixel += alpha_bytes;
         }
     }
 }
@@ -205,13 +168,13 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
     }
     const auto image_format = png_get_color_type(png_ptr, info_ptr);
     if(image_format == PNG_COLOR_TYPE_RGB_ALPHA) {
-        load_rgba_png(png_ptr, info_ptr, image);
+        load_channels_png(png_ptr, info_ptr, CAPY_IMAGE_CS_RGB, 3, true, image);
     } else if(image_format == PNG_COLOR_TYPE_RGB) {
-        load_rgb_png(png_ptr, info_ptr, image);
+        load_channels_png(png_ptr, info_ptr, CAPY_IMAGE_CS_RGB, 3, false, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY) {
-        load_gray_png(png_ptr, info_ptr, image);
+        load_channels_png(png_ptr, info_ptr, CAPY_IMAGE_CS_GRAY, 1, false, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY_ALPHA) {
-        load_ga_png(png_ptr, info_ptr, image);
+        load_channels_png(png_ptr, info_ptr, CAPY_IMAGE_CS_GRAY, 1, true, image);
     } else if(image_format == PNG_COLOR_TYPE_PALETTE) {
         png_color *palette;
         int palette_size;
@@ -456,7 +419,26 @@ rvoe<RasterImage> load_png_file(FILE *f) {
         RETERR(UnsupportedFormat);
     }
     png_init_io(pclose.p, f);
-    png_read_png(pclose.p, pclose.i, PNG_TRANSFORM_PACKING, nullptr);
+    png_read_info(pclose.p, pclose.i);
+    if(png_get_color_type(pclose.p, pclose.i) == PNG_COLOR_TYPE_PALETTE) {
+        png_set_packing(pclose.p);
+    } else {
+        // Gray samples of less than 8 bits become 8 bit ones and a transparent color becomes an
+        // alpha channel.
+        png_set_expand(pclose.p);
+    }
+    png_set_interlace_handling(pclose.p);
+    png_read_update_info(pclose.p, pclose.i);
+    const auto num_rows = png_get_image_height(pclose.p, pclose.i);
+    const auto row_bytes = png_get_rowbytes(pclose.p, pclose.i);
+    auto rows = (png_bytepp)png_calloc(pclose.p, num_rows * sizeof(png_bytep));
+    png_set_rows(pclose.p, pclose.i, rows);
+    png_data_freer(pclose.p, pclose.i, PNG_DESTROY_WILL_FREE_DATA, PNG_FREE_ROWS);
+    for(png_uint_32 i = 0; i < num_rows; ++i) {
+        rows[i] = (png_bytep)png_malloc(pclose.p, row_bytes);
+    }
+    png_read_image(pclose.p, rows);
+    png_read_end(pclose.p, nullptr);
     return do_png_load(pclose.p, pclose.i);
 }
 
-- 
2.43.0


From b95c2997b6074dccb746e82f664a772d35f70a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 093/134] fix: load PNG images with a palette of black, white
 and transparent correctly

---
 src/imagefileops.cpp | 123 +++++++++++++++++++------------------------
 1 file changed, 55 insertions(+), 68 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index d99d2fc..d61cef4 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -54,26 +54,44 @@ void load_channels_png(png_struct *png_ptr,
     }
 }
 
-bool is_white(const png_color *c) { return c->red == 255 && c->green == 255 && c->blue == 255; }
-bool is_white(const png_color &c) { return is_white(&c); }
+bool is_white(const png_color &c) { return c.red == 255 && c.green == 255 && c.blue == 255; }
+bool is_black(const png_color &c) { return c.red == 0 && c.green == 0 && c.blue == 0; }
+
+// Only palettes that have nothing but black, white and fully transparent colors can be
+// stored as 1-bit images.
+rvoe<NoReturnValue> validate_mono_palette(std::span<png_color> palette,
+                                          std::span<unsigned char> alpha) {
+    for(size_t i = 0; i < palette.size(); ++i) {
+        const auto opacity = i < alpha.size() ? alpha[i] : 255;
+        if(opacity == 0) {
+            continue;
+        }
+        if(opacity != 255 || (!is_white(palette[i]) && !is_black(palette[i]))) {
+            RETERR(NonBWColormap);
+        }
+    }
+    RETOK;
+}
 
-void load_mono_png(png_struct *png_ptr,
-                   png_info *info_ptr,
-                   std::span<png_color> palette,
-                   RawPixelImage &result) {
+rvoe<NoReturnValue> load_mono_png(png_struct *png_ptr,
+                                  png_info *info_ptr,
+                                  std::span<png_color> palette,
+                                  RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    const size_t final_size = (result.md.w + 7) / 8 * result.md.h;
+    const size_t final_size = (size_t(result.md.w) + 7) / 8 * result.md.h;
     result.pixels.reserve(final_size);
     result.md.pixel_depth = 1;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
     const int num_padding_bits = (result.md.w % 8) == 0 ? 0 : 8 - result.md.w % 8;
-    const int white_pixel = is_white(palette[0]) ? 0 : 1;
     for(uint32_t j = 0; j < result.md.h; ++j) {
         unsigned char current_byte = 0;
         auto current_row = rows[j];
         for(uint32_t i = 0; i < result.md.w; ++i) {
+            if(current_row[i] >= palette.size()) {
+                RETERR(UnsupportedFormat);
+            }
             current_byte <<= 1;
-            if(current_row[i] != white_pixel) {
+            if(!is_white(palette[current_row[i]])) {
                 current_byte |= 1;
             }
             if((i % 8 == 0) && i > 0) {
@@ -90,67 +108,40 @@ void load_mono_png(png_struct *png_ptr,
         result.pixels.push_back(std::byte(~current_byte));
     }
     assert(result.pixels.size() == final_size);
-}
-
-template<typename T> bool span_contains(std::span<T> &span, const T &value) {
-    for(const auto &e : span) {
-        if(e == value) {
-            return true;
-        }
-    }
-    return false;
+    RETOK;
 }
 
 // Special case for images that have 1-bit monochrome colors and a 1-bit alpha channel.
-rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
-                                            png_info *info_ptr,
-                                            std::span<png_color> palette,
-                                            std::span<unsigned char> alpha,
-                                            RawPixelImage &result) {
+rvoe<NoReturnValue> load_mono_alpha_png(png_struct *png_ptr,
+                                        png_info *info_ptr,
+                                        std::span<png_color> palette,
+                                        std::span<unsigned char> alpha,
+                                        RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
+    const size_t bytes_per_row = (size_t(result.md.w) + 7) / 8;
     result.md.pixel_depth = 1;
     result.md.alpha_depth = 1;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
-    const size_t final_size = (result.md.w + 7) / 8 * result.md.h;
-    result.pixels.reserve(final_size);
-    result.alpha.reserve(final_size);
-    const int num_padding_bits = (result.md.w % 8) == 0 ? 0 : 8 - result.md.w % 8;
+    result.pixels.resize(bytes_per_row * result.md.h, std::byte{0});
+    result.alpha.resize(bytes_per_row * result.md.h, std::byte{0});
     for(uint32_t j = 0; j < result.md.h; ++j) {
-        unsigned char current_byte = 0;
-        unsigned char current_mask_byte = 255;
-        auto *current_row = rows[j];
         for(uint32_t i = 0; i < result.md.w; ++i) {
-            current_byte <<= 1;
-            current_mask_byte <<= 1;
-            auto input_value = current_row[i];
-            assert(input_value < palette.size()); // Span has .at only at c++26.
-            bool is_white_p = is_white(palette[input_value]);
-            bool is_trans_p = span_contains(alpha, current_row[i]);
-            if(!is_white_p) {
-                current_byte |= 1;
+            // PDF spec 8.9.3 "Sample representation"
+            const auto bit = std::byte(0x80 >> (i % 8));
+            const size_t offset = j * bytes_per_row + i / 8;
+            const size_t color = rows[j][i];
+            if(color >= palette.size()) {
+                RETERR(UnsupportedFormat);
             }
-            if(is_trans_p) {
-                current_mask_byte |= 1;
+            if(is_white(palette[color])) {
+                result.pixels[offset] |= bit;
             }
-            if((i % 8 == 0) && i > 0) {
-                result.pixels.push_back(std::byte(~current_byte));
-                result.alpha.push_back(std::byte(~current_mask_byte));
-                current_byte = 0;
-                current_mask_byte = 255;
+            if(color >= alpha.size() || alpha[color] != 0) {
+                result.alpha[offset] |= bit;
             }
         }
-        // PDF spec 8.9.3 "Sample representation"
-
-        if(num_padding_bits > 0) {
-            current_byte <<= num_padding_bits;
-            current_mask_byte <<= num_padding_bits;
-        }
-        result.pixels.push_back(std::byte(current_byte));
-        result.alpha.push_back(std::byte(~current_mask_byte));
     }
-    assert(result.pixels.size() == final_size);
-    assert(result.alpha.size() == final_size);
-    return NoReturnValue{};
+    RETOK;
 }
 
 rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
@@ -188,20 +179,16 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         if(num_channels != 1) {
             RETERR(UnsupportedFormat);
         }
-        if(palette_size == 2) {
-            // FIXME: validate that the two entries in the file are in fact black and white.
-
-            // Some programs write ICC profiles to monochrome images. They confuse
-            // PDF renderers quite a bit so delete.
-            image.icc_profile.clear();
-            // white
-            load_mono_png(png_ptr, info_ptr, pspan, image);
-        } else if((palette_size == 3 || palette_size == 4) && trns_rc == PNG_INFO_tRNS) {
+        // Some programs write ICC profiles to monochrome images. They confuse
+        // PDF renderers quite a bit so delete.
+        image.icc_profile.clear();
+        if(trns_rc == PNG_INFO_tRNS) {
             std::span<unsigned char> aspan(trans, num_trans);
-            image.icc_profile.clear();
-            ERCV(try_load_mono_alpha_png(png_ptr, info_ptr, pspan, aspan, image));
+            ERCV(validate_mono_palette(pspan, aspan));
+            ERCV(load_mono_alpha_png(png_ptr, info_ptr, pspan, aspan, image));
         } else {
-            RETERR(NonBWColormap);
+            ERCV(validate_mono_palette(pspan, {}));
+            ERCV(load_mono_png(png_ptr, info_ptr, pspan, image));
         }
     } else {
         RETERR(UnsupportedFormat);
-- 
2.43.0


From 7e63032562a468ab0ba3b1cfd905ae0090ae8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:08 +0000
Subject: [PATCH 094/134] fix: load the alpha channel of TIFF images correctly
 and reject planar ones

---
 src/imagefileops.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index d61cef4..c403448 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -207,7 +207,7 @@ void separate_tif_alpha(RawPixelImage &image, const size_t num_color_channels) {
         for(size_t j = 0; j < num_color_channels; ++j) {
             colors.push_back(image.pixels[i + j]);
         }
-        image.alpha.push_back(image.pixels[num_color_channels]);
+        image.alpha.push_back(image.pixels[i + num_color_channels]);
     }
     image.pixels = std::move(colors);
 }
@@ -257,7 +257,9 @@ rvoe<RasterImage> do_tiff_load(TIFF *tif) {
     if(TIFFGetField(tif, TIFFTAG_PLANARCONFIG, &planarconf) != 1) {
         RETERR(UnsupportedTIFF);
     }
-    // Maybe fail for this?
+    if(samplesperpixel > 1 && planarconf != PLANARCONFIG_CONTIG) {
+        RETERR(UnsupportedTIFF);
+    }
 
     if(TIFFGetField(tif, TIFFTAG_ICCPROFILE, &icc_count, &icc_data) == 1) {
         result.icc_profile = std::vector<std::byte>((const std::byte *)icc_data,
-- 
2.43.0


From d0ec820e14ab8d54aec8a46237b86f5d9ddca1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 095/134] fix: reject images whose ICC profile is for a
 different number of channels

---
 src/document.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index a464a6c..7bdb576 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1548,7 +1548,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
         smask_id = get(imobj).obj;
     }
     if(!image.icc_profile.empty()) {
-        ERC(icc_id, add_icc_profile(image.icc_profile, num_channels_for(image.md.cs)));
+        ERC(icc_id, load_icc_profile(image.icc_profile, num_channels_for(image.md.cs)));
         ImageObjectMetadata md;
         md.copy_common_from(image);
         md.depth = image.md.pixel_depth;
@@ -1670,7 +1670,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProper
 
         // Note: the profile is now stored twice in the output file.
         // Once as a PDF object an a second time in the embedded image file.
-        ERC(icc, add_icc_profile(jpg.icc_profile, expected_channels));
+        ERC(icc, load_icc_profile(jpg.icc_profile, expected_channels));
         fmt.add_token("/ColorSpace");
         fmt.add_object_ref(icc_profiles.at(icc.id).object_num);
     }
-- 
2.43.0


From f5030786e44395d4143dfb54b3b108e3d8bb6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 096/134] fix: invert the colors of CMYK JPEG images only when
 they have an Adobe marker

---
 src/imagefileops.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index c403448..695c369 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -522,12 +522,16 @@ rvoe<jpg_image> load_jpg_metadata(FILE *f, const char *buf, int64_t bufsize) {
         break;
     case JCS_CMYK:
         im.cs = CAPY_DEVICE_CS_CMYK;
-        // FIXME: should detect whether to invert or not:
+        // Adobe applications store the colors inverted and
+        // mark such files with their own marker.
         // https://graphicdesign.stackexchange.com/questions/12894/cmyk-jpegs-extracted-from-pdf-appear-inverted
-        im.decode = std::vector<double>{1, 0, 1, 0, 1, 0, 1, 0};
+        if(cinfo.saw_Adobe_marker) {
+            im.decode = std::vector<double>{1, 0, 1, 0, 1, 0, 1, 0};
+        }
         break;
     case JCS_YCCK:
         im.cs = CAPY_DEVICE_CS_CMYK;
+        // This format always has the Adobe marker.
         im.decode = std::vector<double>{1, 0, 1, 0, 1, 0, 1, 0};
         break;
     default:
-- 
2.43.0


From 2d29dde402a35d27176c3e267473a87216b3c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 097/134] fix: reject JPEG images that are used as masks

---
 src/document.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 7bdb576..6a17417 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1635,6 +1635,10 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image_object(const ImageObjectMetadata &m
 
 rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProperties &props) {
     ERCV(validate_format(jpg.cs == CAPY_DEVICE_CS_RGB));
+    if(props.as_mask) {
+        // Image masks have one bit per pixel.
+        RETERR(UnsupportedFormat);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/XObject");
-- 
2.43.0


From 268b03f1e2a045f66e4bbb2ae338d79a2606a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 098/134] fix: write PDF/A-1, PDF/A-2 and PDF/A-3 documents in
 the PDF version those standards permit

---
 src/document.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 6a17417..d6177ce 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -477,7 +477,19 @@ DocumentProperties::DocumentProperties() {
 
 PdfVersion DocumentProperties::version() const {
     if(auto *pdfa = std::get_if<CapyPDF_PDFA_Type>(&subtype)) {
-        if(*pdfa >= CAPY_PDFA_4f) {
+        switch(*pdfa) {
+        case CAPY_PDFA_1a:
+        case CAPY_PDFA_1b:
+            return PdfVersion::v14;
+        case CAPY_PDFA_2a:
+        case CAPY_PDFA_2b:
+        case CAPY_PDFA_2u:
+        case CAPY_PDFA_3a:
+        case CAPY_PDFA_3b:
+        case CAPY_PDFA_3u:
+            return PdfVersion::v17;
+        case CAPY_PDFA_4f:
+        case CAPY_PDFA_4e:
             return PdfVersion::v20;
         }
     }
-- 
2.43.0


From be4784ab96e505ba337360b96ff19176a680ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 099/134] fix: identify PDF/X-1:2001 documents as that standard
 requires

---
 src/document.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index d6177ce..39ca9f9 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1444,7 +1444,13 @@ rvoe<NoReturnValue> PdfDocument::generate_info_object() {
         std::string parname("(");
         parname += pdfx_names.at(*xptr);
         parname += ")\n";
-        fmt.add_token_pair("/GTS_PDFXVersion", parname);
+        if(*xptr == CAPY_PDFX_1_2001 || *xptr == CAPY_PDFX_1A_2001) {
+            // Both levels of ISO 15930-1:2001 have the same version.
+            fmt.add_token_pair("/GTS_PDFXVersion", "(PDF/X-1:2001)");
+            fmt.add_token_pair("/GTS_PDFXConformance", parname);
+        } else {
+            fmt.add_token_pair("/GTS_PDFXVersion", parname);
+        }
         fmt.add_token_pair("/Trapped", "/False");
     }
     fmt.end_dict();
-- 
2.43.0


From 63ff73577e20e0bf2e899641f6f003654064cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 100/134] fix: write both the revision and the conformance
 level of PDF/A-4e and PDF/A-4f

---
 src/document.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 39ca9f9..7083e0f 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1328,17 +1328,16 @@ int32_t PdfDocument::add_document_metadata_object() {
         xfmt.add_content(pdfa_part.at(*aptr));
         xfmt.close_tag();
 
-        if(*aptr == CAPY_PDFA_4f) {
+        if(*aptr >= CAPY_PDFA_4f) {
             xfmt.start_tag("pdfaid:rev");
             xfmt.finish_tag();
             xfmt.add_content("2020");
             xfmt.close_tag();
-        } else {
-            xfmt.start_tag("pdfaid:conformance");
-            xfmt.finish_tag();
-            xfmt.add_content(pdfa_conformance.at(*aptr));
-            xfmt.close_tag();
         }
+        xfmt.start_tag("pdfaid:conformance");
+        xfmt.finish_tag();
+        xfmt.add_content(pdfa_conformance.at(*aptr));
+        xfmt.close_tag();
         xfmt.close_tag();
 
         xfmt.start_tag("rdf:Description");
-- 
2.43.0


From 9e2127534c021e987d7be6459eaf68f7afb1a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 101/134] fix: XMP metadata contain everything that is in the
 info dictionary

---
 src/document.cpp | 51 ++++++++++++++++++++++++++++++++++++++++++++----
 src/document.hpp |  1 +
 src/utils.cpp    | 11 +++++++++++
 src/utils.hpp    |  1 +
 4 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 7083e0f..bb08b3e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1304,6 +1304,8 @@ int32_t PdfDocument::add_document_metadata_object() {
         if(!aptr) {
             std::abort();
         }
+        // Must be the same as in the info dictionary.
+        const auto xmp_date = pdf_date_to_xmp(creation_date);
         XMLFormatter xfmt;
         xfmt.add_text_unchecked(R"(<?xpacket begin=")"
                                 "\xef\xbb\xbf"
@@ -1350,10 +1352,51 @@ int32_t PdfDocument::add_document_metadata_object() {
         xfmt.close_tag();
         xfmt.close_tag();
 
+        if(!docprops.title.empty() || !docprops.author.empty()) {
+            xfmt.start_tag("rdf:Description");
+            xfmt.add_tag_attribute("rdf:about", "");
+            xfmt.add_tag_attribute("xmlns:dc", "http://purl.org/dc/elements/1.1/");
+            xfmt.finish_tag();
+            if(!docprops.title.empty()) {
+                xfmt.start_tag("dc:title");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:Alt");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:li");
+                xfmt.add_tag_attribute("xml:lang", "x-default");
+                xfmt.finish_tag();
+                xfmt.add_content(docprops.title);
+                xfmt.close_tag();
+                xfmt.close_tag();
+                xfmt.close_tag();
+            }
+            if(!docprops.author.empty()) {
+                xfmt.start_tag("dc:creator");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:Seq");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:li");
+                xfmt.finish_tag();
+                xfmt.add_content(docprops.author);
+                xfmt.close_tag();
+                xfmt.close_tag();
+                xfmt.close_tag();
+            }
+            xfmt.close_tag();
+        }
+
         xfmt.start_tag("rdf:Description");
-        xfmt.add_tag_attribute("about", "");
+        xfmt.add_tag_attribute("rdf:about", "");
         xfmt.add_tag_attribute("xmlns:xmp", "http://ns.adobe.com/xap/1.0/");
         xfmt.finish_tag();
+        xfmt.start_tag("xmp:CreateDate");
+        xfmt.finish_tag();
+        xfmt.add_content(xmp_date);
+        xfmt.close_tag();
+        xfmt.start_tag("xmp:ModifyDate");
+        xfmt.finish_tag();
+        xfmt.add_content(xmp_date);
+        xfmt.close_tag();
         if(!docprops.creator.empty()) {
             xfmt.start_tag("xmp:CreatorTool");
             xfmt.finish_tag();
@@ -1423,9 +1466,9 @@ rvoe<CapyPDF_IccColorSpaceId> PdfDocument::load_icc_profile(std::span<std::byte>
 
 rvoe<NoReturnValue> PdfDocument::generate_info_object() {
     ObjectFormatter fmt;
-    const auto current_date = current_date_string();
+    creation_date = current_date_string();
     fmt.begin_dict();
-    fmt.add_token_pair("/ModDate", current_date);
+    fmt.add_token_pair("/ModDate", creation_date);
     if(!docprops.use_rdf_metadata()) {
         if(!docprops.title.empty()) {
             fmt.add_token_pair("/Title ", utf8_to_pdfutf16be(docprops.title));
@@ -1437,7 +1480,7 @@ rvoe<NoReturnValue> PdfDocument::generate_info_object() {
             fmt.add_token_pair("/Creator ", utf8_to_pdfutf16be(docprops.creator));
         }
         fmt.add_token_pair("/Producer", "(CapyPDF " CAPYPDF_VERSION_STR ")");
-        fmt.add_token_pair("/CreationDate", current_date);
+        fmt.add_token_pair("/CreationDate", creation_date);
     }
     if(auto xptr = std::get_if<CapyPDF_PDFX_Type>(&docprops.subtype)) {
         std::string parname("(");
diff --git a/src/document.hpp b/src/document.hpp
index c453448..29c099e 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -657,6 +657,7 @@ private:
     std::optional<int32_t> structure_root_object;
     std::optional<int32_t> structure_parent_tree_object;
     std::optional<int32_t> document_md_object;
+    std::string creation_date;
     int32_t pages_object;
     bool write_attempted = false;
 };
diff --git a/src/utils.cpp b/src/utils.cpp
index c7e07d7..5213866 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -285,6 +285,17 @@ std::string current_date_string() {
     return std::string(buf);
 }
 
+// From the format created by current_date_string to the one used in XMP.
+std::string pdf_date_to_xmp(std::string_view pdf_date) {
+    return std::format("{}-{}-{}T{}:{}:{}Z",
+                       pdf_date.substr(3, 4),
+                       pdf_date.substr(7, 2),
+                       pdf_date.substr(9, 2),
+                       pdf_date.substr(11, 2),
+                       pdf_date.substr(13, 2),
+                       pdf_date.substr(15, 2));
+}
+
 std::string pdfstring_quote(std::string_view raw_string) {
     std::string result;
     result.reserve(raw_string.size() * 2 + 2);
diff --git a/src/utils.hpp b/src/utils.hpp
index c5521c4..a3123c6 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -37,6 +37,7 @@ std::string utf8_to_pdfutf16be(const u8string &input, bool add_adornments = true
 bool is_valid_utf8(std::string_view input);
 
 std::string current_date_string();
+std::string pdf_date_to_xmp(std::string_view pdf_date);
 
 std::string pdfstring_quote(std::string_view raw_string);
 
-- 
2.43.0


From f10c4c7578d91fd43647eac30f16cacf958d5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 102/134] fix: preserve carriage returns in XML text

---
 src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 5213866..f474a9f 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -495,6 +495,10 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
         case '&':
             result += "&amp;";
             break;
+        case '\r':
+            // Would be read back as a newline.
+            result += "&#13;";
+            break;
         default:
             result += c;
             break;
-- 
2.43.0


From e178944a2efc8401fb52dca4fd8524f2fb98c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 103/134] fix: reject texts that can not be stored in the XMP
 metadata

---
 src/document.cpp |  8 ++++++++
 src/utils.cpp    | 10 ++++++++++
 src/utils.hpp    |  1 +
 3 files changed, 19 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index bb08b3e..c7545ab 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -604,6 +604,14 @@ rvoe<NoReturnValue> PdfDocument::init() {
         }
         create_output_intent();
     }
+    if(docprops.metadata_xml.empty() &&
+       std::holds_alternative<CapyPDF_PDFA_Type>(docprops.subtype)) {
+        for(const auto *s : {&docprops.title, &docprops.author, &docprops.creator}) {
+            if(!is_valid_in_xml(*s)) {
+                RETERR(BadUtf8);
+            }
+        }
+    }
     if(!docprops.metadata_xml.empty() ||
        std::holds_alternative<CapyPDF_PDFA_Type>(docprops.subtype)) {
         document_md_object = add_document_metadata_object();
diff --git a/src/utils.cpp b/src/utils.cpp
index f474a9f..7bcec72 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -479,6 +479,16 @@ void serialize_trans(ObjectFormatter &fmt, const Transition &t) {
     fmt.end_dict();
 }
 
+// Some characters can not be expressed in XML in any way.
+bool is_valid_in_xml(const u8string &content) {
+    for(const auto c : content) {
+        if((c < 0x20 && c != '\t' && c != '\n' && c != '\r') || c == 0xFFFE || c == 0xFFFF) {
+            return false;
+        }
+    }
+    return true;
+}
+
 void quote_xml_element_data_into(const u8string &content, std::string &result) {
     quote_xml_element_data_unchecked_into(content.sv(), result);
 }
diff --git a/src/utils.hpp b/src/utils.hpp
index a3123c6..9377959 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -57,6 +57,7 @@ std::string create_trailer_id();
 class ObjectFormatter;
 void serialize_trans(ObjectFormatter &fmt, const Transition &t);
 
+bool is_valid_in_xml(const u8string &content);
 void quote_xml_element_data_into(const u8string &content, std::string &result);
 void quote_xml_element_data_unchecked_into(const std::string_view &content, std::string &result);
 
-- 
2.43.0


From 144b36798191d09c963483d2f6d472cec100ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 104/134] fix: write empty 3D models as streams

---
 src/document.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index c7545ab..f1f6755 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -950,6 +950,12 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
     default:
         std::abort();
     }
+    if(stream.model_data.empty()) {
+        // A full object without any stream data is written as a plain dictionary.
+        const auto empty_num = add_object(DeflatePDFObject{std::move(fmt), {}, false});
+        threed_streams.push_back(empty_num);
+        return CapyPDF_3DStreamId{empty_num};
+    }
     fmt.add_token_pair("/Length", stream.model_data.size());
     // 3D model formats are already compressed, do not waste
     // cycles by compressing them twice.
-- 
2.43.0


From bf1f0d0b970cd1b81e1d07831fa18e062f8a4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 105/134] fix: text width does not contain kerning that is not
 drawn

---
 src/generator.cpp | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/generator.cpp b/src/generator.cpp
index 32334a1..e2d6020 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -175,28 +175,11 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
     if(!face) {
         RETERR(BuiltinFontNotSupported);
     }
-    uint32_t previous_codepoint = -1;
-    const bool has_kerning = FT_HAS_KERNING(face);
+    // Text is always drawn without kerning, so it must not be measured either.
     for(const auto codepoint : txt) {
-        if(has_kerning && previous_codepoint != (uint32_t)-1) {
-            FT_Vector kerning;
-            const auto index_left = FT_Get_Char_Index(face, previous_codepoint);
-            const auto index_right = FT_Get_Char_Index(face, codepoint);
-            auto ec = FT_Get_Kerning(face, index_left, index_right, FT_KERNING_DEFAULT, &kerning);
-            if(ec != 0) {
-                print_freetype_error(ec);
-                RETERR(FreeTypeError);
-            }
-            if(kerning.x != 0) {
-                // None of the fonts I tested had kerning that Freetype recognized,
-                // so don't know if this actually works.
-                w += int(kerning.x) / face->units_per_EM;
-            }
-        }
         auto bob = glyph_advance(fid, pointsize, codepoint);
         assert(bob);
         w += *bob;
-        previous_codepoint = codepoint;
     }
     return w;
 }
-- 
2.43.0


From 8e952bb2d75b9267bf77c6d2634635e294ea9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 106/134] fix: text width is exact for all font sizes

---
 src/document.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index f1f6755..59ab70d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2361,12 +2361,11 @@ rvoe<CapyPDF_SoftMaskId> PdfDocument::add_soft_mask(const SoftMask &sm) {
 std::optional<double>
 PdfDocument::glyph_advance(CapyPDF_FontId fid, double pointsize, uint32_t codepoint) const {
     FT_Face face = fonts.at(fid.id).fontdata.face.get();
-    FT_Set_Char_Size(face, 0, (FT_F26Dot6)(pointsize * 64), 300, 300);
-    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP) != 0) {
+    // Scaling would round the advance to the pixel grid and does not work for all sizes.
+    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_SCALE) != 0) {
         return {};
     }
-    const auto font_unit_advance = face->glyph->metrics.horiAdvance;
-    return (font_unit_advance / 64.0) / 300.0 * 72.0;
+    return double(face->glyph->metrics.horiAdvance) / face->units_per_EM * pointsize;
 }
 
 rvoe<CapyPDF_FontId>
-- 
2.43.0


From f91f7cdb789553e0f9d235ef7104598d9e060383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 107/134] fix: text width validates its font and glyphs

---
 src/generator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generator.cpp b/src/generator.cpp
index e2d6020..1fe4ded 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -167,6 +167,7 @@ PdfDrawContext *PdfGen::new_color_pattern(const PdfRectangle &rect) {
 
 rvoe<double>
 PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsize) const {
+    CHECK_INDEXNESS(fid.id, pdoc.font_objects);
     if(txt.empty()) {
         return 0;
     }
@@ -178,7 +179,9 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
     // Text is always drawn without kerning, so it must not be measured either.
     for(const auto codepoint : txt) {
         auto bob = glyph_advance(fid, pointsize, codepoint);
-        assert(bob);
+        if(!bob) {
+            RETERR(FreeTypeError);
+        }
         w += *bob;
     }
     return w;
-- 
2.43.0


From c46f27613c5f8b39355eb3dcee783d668c156c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 108/134] fix: malformed TrueType tables are rejected

---
 src/ft_subsetter.cpp | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index bb6236a..215e9c7 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -433,9 +433,9 @@ rvoe<TTHead> load_head(const std::vector<TTDirEntry> &dir, std::span<const std::
     }
     ERC(head, extract<TTHead>(buf, e->offset));
     head.swap_endian();
-#ifndef CAPYFUZZING
-    assert(head.magic == 0x5f0f3cf5);
-#endif
+    if(head.magic != 0x5f0f3cf5) {
+        RETERR(MalformedFontFile);
+    }
     return head;
 }
 
@@ -451,14 +451,14 @@ rvoe<std::vector<int32_t>> load_loca(const std::vector<TTDirEntry> &dir,
     std::vector<int32_t> offsets;
     offsets.reserve(num_glyphs);
     if(index_to_loc_format == 0) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             uint16_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(uint16_t)));
             byte_swap_inplace(offset);
             offsets.push_back(offset * 2);
         }
     } else if(index_to_loc_format == 1) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             int32_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(int32_t)));
             byte_swap_inplace(offset);
@@ -502,7 +502,7 @@ rvoe<TTHmtx> load_hmtx(const std::vector<TTDirEntry> &dir,
     if(!e) {
         RETERR(MalformedFontFile);
     }
-    if(num_hmetrics > num_glyphs) {
+    if(num_hmetrics == 0 || num_hmetrics > num_glyphs) {
         RETERR(MalformedFontFile);
     }
     TTHmtx hmtx;
@@ -537,8 +537,8 @@ rvoe<std::vector<std::span<std::byte>>> load_GLYF_glyphs(uint32_t offset,
         RETERR(MalformedFontFile);
     }
     for(uint16_t i = 0; i < num_glyphs; ++i) {
-        const auto data_off = loca.at(i);
-        const auto data_size = loca.at(i + 1) - loca.at(i);
+        const int64_t data_off = loca.at(i);
+        const int64_t data_size = loca.at(i + 1) - data_off;
         if(data_off < 0 || data_size < 0 || size_t(data_off + data_size) > glyf_start.size()) {
             RETERR(IndexOutOfBounds);
         }
@@ -548,12 +548,15 @@ rvoe<std::vector<std::span<std::byte>>> load_GLYF_glyphs(uint32_t offset,
 }
 
 rvoe<CFFont> load_CFF_glyphs(uint32_t offset, std::span<std::byte> buf, uint16_t num_glyphs) {
+    if(offset > buf.size_bytes()) {
+        RETERR(MalformedFontFile);
+    }
     auto cff_span = buf.subspan(offset);
-    auto cff = parse_cff_data(cff_span);
-    if(cff.has_value()) {
-        assert(cff->char_strings.size() == num_glyphs);
+    ERC(cff, parse_cff_data(cff_span));
+    if(cff.char_strings.size() != num_glyphs) {
+        RETERR(MalformedFontFile);
     }
-    return cff;
+    return std::move(cff);
 }
 
 rvoe<std::vector<std::byte>> load_raw_table(const std::vector<TTDirEntry> &dir,
@@ -911,6 +914,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     TrueTypeFontFile tf;
     tf.original_data = std::move(backing);
     ERC(original_data, span_of_source(tf.original_data));
+    if(header_offset > original_data.size()) {
+        RETERR(IndexOutOfBounds);
+    }
     auto header_span = original_data.subspan(header_offset);
     if(header_span.size() < sizeof(TTOffsetTable)) {
         RETERR(MalformedFontFile);
@@ -921,7 +927,7 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     for(int i = 0; i < off.num_tables; ++i) {
         ERC(e, extract<TTDirEntry>(header_span, sizeof(off) + i * sizeof(TTDirEntry)));
         e.swap_endian();
-        if(e.offset + e.length > original_data.size()) {
+        if((uint64_t)e.offset + e.length > original_data.size()) {
             RETERR(IndexOutOfBounds);
         }
 #ifndef CAPYFUZZING
@@ -956,6 +962,10 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
         ERC(cffg, load_CFF_glyphs(cff->offset, original_data, tf.maxp.num_glyphs()))
         tf.cff = std::move(cffg);
     }
+    if(!glyf && !cff) {
+        fprintf(stderr, "Only fonts with TrueType or CFF outlines are supported.\n");
+        RETERR(UnsupportedFormat);
+    }
     ERC(cvt, load_raw_table(directory, original_data, "cvt "));
     tf.cvt = cvt;
     ERC(fpgm, load_raw_table(directory, original_data, "fpgm"));
@@ -990,13 +1000,13 @@ rvoe<TrueTypeFontFile> parse_ttc_file(DataSource backing, const FontProperties &
     ERC(original_data, span_of_source(backing));
     ERC(header, extract<TTCHeader>(original_data, 0));
     header.swap_endian();
-    std::vector<uint32_t> offsets;
-    offsets.reserve(header.num_fonts);
-    for(uint32_t i = 0; i < header.num_fonts; ++i) {
-        ERC(off, extract<uint32_t>(original_data, sizeof(TTCHeader) + i * sizeof(uint32_t)));
-        offsets.push_back(std::byteswap(off));
+    if(props.subfont >= header.num_fonts) {
+        RETERR(InvalidSubfont);
     }
-    return parse_truetype_file(std::move(backing), offsets.at(props.subfont));
+    ERC(off,
+        extract_and_swap<uint32_t>(original_data,
+                                   sizeof(TTCHeader) + props.subfont * sizeof(uint32_t)));
+    return parse_truetype_file(std::move(backing), off);
 }
 
 rvoe<FontData> parse_font_file(DataSource backing, const FontProperties &props) {
-- 
2.43.0


From e99f93c1e8ee4d75ecbd3e072ff6a5a5a5277a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 109/134] fix: malformed composite glyphs are rejected

---
 src/fontsubsetter.cpp | 72 +++++++++++++++++++++++--------------------
 src/fontsubsetter.hpp |  1 +
 src/ft_subsetter.cpp  | 26 ++++++++++------
 3 files changed, 56 insertions(+), 43 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 5d0d4a3..b263fd4 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -21,26 +21,27 @@ FontSubsetData create_startstate() {
     return FontSubsetData{std::move(start_state), std::move(start_mapping)};
 }
 
-rvoe<NoReturnValue> add_subglyphs(std::unordered_set<uint32_t> &new_subglyphs,
-                                  uint32_t glyph_id,
-                                  const TrueTypeFontFile &ttfile) {
-    const auto &cur_glyph = ttfile.glyphs.at(glyph_id);
-    ERC(iscomp, is_composite_glyph(cur_glyph));
-    if(!iscomp) {
-        RETOK;
-    }
-    ERC(subglyphs, composite_subglyphs(cur_glyph));
-    for(const auto &g : subglyphs) {
-        if(new_subglyphs.insert(g).second) {
-            ERCV(add_subglyphs(new_subglyphs, g, ttfile));
-        }
-    }
-    RETOK;
-}
-
 rvoe<std::vector<uint32_t>> get_all_subglyphs(uint32_t glyph_id, const TrueTypeFontFile &ttfile) {
     std::unordered_set<uint32_t> new_subglyphs;
-    ERCV(add_subglyphs(new_subglyphs, glyph_id, ttfile));
+    std::vector<uint32_t> unhandled{glyph_id};
+    while(!unhandled.empty()) {
+        const auto cur_id = unhandled.back();
+        unhandled.pop_back();
+        if(cur_id >= ttfile.glyphs.size()) {
+            RETERR(MalformedFontFile);
+        }
+        const auto &cur_glyph = ttfile.glyphs[cur_id];
+        ERC(iscomp, is_composite_glyph(cur_glyph));
+        if(!iscomp) {
+            continue;
+        }
+        ERC(subglyphs, composite_subglyphs(cur_glyph));
+        for(const auto &g : subglyphs) {
+            if(new_subglyphs.insert(g).second) {
+                unhandled.push_back(g);
+            }
+        }
+    }
     std::vector<uint32_t> glyphs(new_subglyphs.cbegin(), new_subglyphs.cend());
     return glyphs;
 }
@@ -51,7 +52,12 @@ rvoe<FontSubsetter>
 FontSubsetter::construct(const char *&fontfile, FT_Face face, const FontProperties &props) {
     ERC(font, load_and_parse_font_file(fontfile, props));
     if(auto *ttffile = std::get_if<TrueTypeFontFile>(&font)) {
-        return FontSubsetter(std::move(*ttffile), face, create_startstate(), props);
+        FontSubsetter fss(std::move(*ttffile), face, create_startstate(), props);
+        if(!fss.ttfile.in_cff_format()) {
+            // Glyph zero is in every subset.
+            ERCV(fss.add_subglyphs(0));
+        }
+        return fss;
     } else {
         fprintf(stderr, "Only basic Truetype fonts supported currently.\n");
         RETERR(UnsupportedFormat);
@@ -149,21 +155,21 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
                 (int)ttfile.glyphs.size());
         RETERR(MissingGlyph);
     }
-    ERC(iscomp, is_composite_glyph(ttfile.glyphs.at(glyph_index)));
-    if(iscomp) {
-        ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
-        if(subglyphs.size() + subset.glyphs.size() >= max_glyphs) {
-            fprintf(stderr, "Composite glyph overflow not yet implemented.");
-            std::abort();
-        }
-        for(const auto &new_glyph : subglyphs) {
-            if(subset.font_index_mapping.find(new_glyph) != subset.font_index_mapping.end()) {
-                continue;
-            }
-            // Composite glyph parts do not necessarily correspond to any Unicode codepoint.
-            subset.glyphs.push_back(CompositeGlyph{new_glyph});
-            subset.font_index_mapping[new_glyph] = (uint32_t)subset.glyphs.size() - 1;
+    return add_subglyphs(glyph_index);
+}
+
+rvoe<NoReturnValue> FontSubsetter::add_subglyphs(uint32_t glyph_index) {
+    ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
+    if(subglyphs.size() + subset.glyphs.size() >= max_glyphs) {
+        RETERR(TooManyGlyphsUsed);
+    }
+    for(const auto &new_glyph : subglyphs) {
+        if(subset.font_index_mapping.find(new_glyph) != subset.font_index_mapping.end()) {
+            continue;
         }
+        // Composite glyph parts do not necessarily correspond to any Unicode codepoint.
+        subset.glyphs.push_back(CompositeGlyph{new_glyph});
+        subset.font_index_mapping[new_glyph] = (uint32_t)subset.glyphs.size() - 1;
     }
     RETOK;
 }
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 178316f..ccae9ec 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -57,6 +57,7 @@ public:
 
 private:
     rvoe<NoReturnValue> handle_subglyphs(uint32_t glyph_index);
+    rvoe<NoReturnValue> add_subglyphs(uint32_t glyph_index);
 
     TrueTypeFontFile ttfile;
     FT_Face face;
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 215e9c7..2c3b76c 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -625,7 +625,9 @@ get_glyph_data(const TrueTypeFontFile &source, FT_Face face, int32_t glyph_id) {
         swap_and_append_bytes(data, int16_t(bbox.xMax));
         swap_and_append_bytes(data, int16_t(bbox.yMax));
         if(outline.n_contours > 0) {
-            assert(outline.contours[outline.n_contours - 1] == outline.n_points - 1);
+            if(outline.contours[outline.n_contours - 1] != outline.n_points - 1) {
+                RETERR(MalformedFontFile);
+            }
             for(uint16_t i = 0; i < outline.n_contours; ++i) {
                 swap_and_append_bytes(data, (uint16_t)outline.contours[i]);
             }
@@ -669,7 +671,9 @@ subset_glyphs(const TrueTypeFontFile &source,
     assert(std::get<RegularGlyph>(glyphs[0]).unicode_codepoint == 0);
     for(const auto &g : glyphs) {
         uint32_t gid = font_id_for_glyph(g);
-        assert(gid < source.glyphs.size());
+        if(gid >= source.glyphs.size()) {
+            RETERR(MalformedFontFile);
+        }
         ERC(gdata, get_glyph_data(source, face, gid));
         subset.push_back(gdata);
         if(!subset.back().empty()) {
@@ -714,8 +718,7 @@ subset_hmtx(const TrueTypeFontFile &source, FT_Face face, const std::vector<TTGl
                     TTLongHorMetric{uint16_t(source.hmtx.longhor.back().advance_width),
                                     int16_t(source.hmtx.left_side_bearings[sidebear_index])});
             } else {
-                fprintf(stderr, "Malformed font file?\n");
-                std::abort();
+                RETERR(MalformedFontFile);
             }
         }
     }
@@ -1111,8 +1114,10 @@ rvoe<bool> is_composite_glyph(const std::vector<std::byte> &buf) {
 
 rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf) {
     std::vector<uint32_t> subglyphs;
-    assert(num_contours(buf).value() < 0);
-    auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
+    if(buf.size() < sizeof(TTGlyphHeader)) {
+        RETERR(MalformedFontFile);
+    }
+    auto composite_data = buf.subspan(sizeof(TTGlyphHeader));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
     const uint16_t ARGS_ARE_WORDS = 0x01;
@@ -1139,8 +1144,10 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
 rvoe<NoReturnValue>
 reassign_composite_glyph_numbers(std::span<std::byte> buf,
                                  const std::unordered_map<uint32_t, uint32_t> &mapping) {
-    const int64_t header_size = 5 * sizeof(int16_t);
-
+    const int64_t header_size = sizeof(TTGlyphHeader);
+    if(buf.size() < sizeof(TTGlyphHeader)) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
@@ -1162,8 +1169,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         }
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
-            fprintf(stderr, "FAILfailFAIL\n");
-            std::abort();
+            RETERR(MalformedFontFile);
         }
         glyph_index = it->second;
         byte_swap_inplace(glyph_index);
-- 
2.43.0


From b2a7cfc4cea02fbdae917186afcdec51bd98fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 110/134] fix: fonts without a scale are rejected

---
 src/document.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 59ab70d..0a046c7 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2390,11 +2390,14 @@ PdfDocument::load_font(FT_Library ft, const char *fname, FontProperties props) {
             RETERR(VariationsNotSupported);
         }
     }
+    if(face->units_per_EM == 0) {
+        RETERR(MalformedFontFile);
+    }
     ERC(fontdata, load_and_parse_font_file(fname, props));
     assert(std::holds_alternative<TrueTypeFontFile>(fontdata));
     ttf.fontdata = std::move(std::get<TrueTypeFontFile>(fontdata));
 
-    if(!(strcmp(font_format, "TrueType") || strcmp(font_format, "CFF"))) {
+    if(strcmp(font_format, "TrueType") != 0 && strcmp(font_format, "CFF") != 0) {
         fprintf(stderr,
                 "Only TrueType fonts are supported. %s "
                 "is a %s font.",
-- 
2.43.0


From 70c63c38e67d41bf7419178c86222c2698300e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 111/134] fix: malformed CFF data is rejected

---
 src/cffsubsetter.cpp | 89 +++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 29 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index e29a4a7..9d7b019 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -65,7 +65,7 @@ safe_subspan(const std::span<std::byte> &span, size_t offset, size_t size) {
 }
 
 rvoe<size_t> extract_index_offset(std::span<std::byte> dataspan, size_t offset, uint8_t offSize) {
-    if(dataspan.size_bytes() <= offset + offSize) {
+    if(dataspan.size_bytes() < offset + offSize) {
         RETERR(IndexOutOfBounds);
     }
     if(offSize == 1) {
@@ -126,7 +126,7 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     --offset;
     index.entries.reserve(count);
 
-    for(uint16_t i = 0; i < count; ++i) {
+    for(uint32_t i = 0; i < count; ++i) {
         const auto entrysize = offsets[i + 1] - offsets[i];
         if(offset + offsets[i] > dataspan.size() ||
            offset + offsets[i] + entrysize > dataspan.size()) {
@@ -144,17 +144,15 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     size_t offset = 0;
     std::vector<int32_t> operands;
     size_t operands_start = 0;
-    // span.at() is not available yet. Change back to span once it is.
-    auto dataspan = span2sv(dataspan_orig);
-    while(offset < dataspan.size()) {
+    while(offset < dataspan_orig.size()) {
         const auto operands_end = offset;
         // Read operand
-        const int32_t b0 = (uint8_t)dataspan.at(offset++);
+        const int32_t b0 = (uint8_t)dataspan_orig[offset++];
         if(b0 <= 21) {
             // Is an operator.
             int32_t unpacked_operator = b0;
             if(b0 == 0xc) {
-                const int32_t b1 = (uint8_t)dataspan.at(offset++);
+                ERC(b1, extract<uint8_t>(dataspan_orig, offset++));
                 unpacked_operator = b0 << 8 | b1;
             }
             std::vector<std::byte> raw_operands(dataspan_orig.begin() + operands_start,
@@ -169,26 +167,25 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
             if(b0 >= 32 && b0 <= 246) {
                 unpacked_operand = b0 - 139;
             } else if(b0 >= 247 && b0 <= 250) {
-                const int32_t b1 = (uint8_t)dataspan.at(offset++);
+                ERC(b1, extract<uint8_t>(dataspan_orig, offset++));
                 unpacked_operand = (b0 - 247) * 256 + b1 + 108;
             } else if(b0 >= 251 && b0 <= 254) {
-                const int32_t b1 = (uint8_t)dataspan.at(offset++);
+                ERC(b1, extract<uint8_t>(dataspan_orig, offset++));
                 unpacked_operand = -(b0 - 251) * 256 - b1 - 108;
             } else if(b0 == 28) {
-                const int32_t b1 = (uint8_t)dataspan.at(offset++);
-                const int32_t b2 = (uint8_t)dataspan.at(offset++);
-                unpacked_operand = (int16_t)(b1 << 8 | b2);
+                ERC(value, extract_and_swap<int16_t>(dataspan_orig, offset));
+                offset += sizeof(int16_t);
+                unpacked_operand = value;
             } else if(b0 == 29) {
-                const int32_t b1 = (uint8_t)dataspan.at(offset++);
-                const int32_t b2 = (uint8_t)dataspan.at(offset++);
-                const int32_t b3 = (uint8_t)dataspan.at(offset++);
-                const int32_t b4 = (uint8_t)dataspan.at(offset++);
-                unpacked_operand = b1 << 24 | b2 << 16 | b3 << 8 | b4;
+                ERC(value, extract_and_swap<int32_t>(dataspan_orig, offset));
+                offset += sizeof(int32_t);
+                unpacked_operand = value;
             } else if(b0 == 30) {
                 // Floating point.
                 uint8_t b1;
                 do {
-                    b1 = (uint8_t)dataspan.at(offset++);
+                    ERC(next, extract<uint8_t>(dataspan_orig, offset++));
+                    b1 = next;
                 } while((b1 & 0xf) != 0xf);
                 unpacked_operand = -1; // The value is only available in raw form.
             } else {
@@ -216,9 +213,16 @@ const CFFDictItem *find_command(const CFFont &f, DictOperator op) {
     return find_command(f.top_dict, op);
 }
 
+rvoe<size_t> get_offset(const CFFDictItem &item) {
+    if(item.operand.empty() || item.operand.front() < 0) {
+        RETERR(MalformedFontFile);
+    }
+    return (size_t)item.operand.front();
+}
+
 rvoe<std::vector<CFFCharsetRange2>> unpack_charsets(const CFFont &f,
                                                     std::span<std::byte> dataspan) {
-    if(dataspan.empty()) {
+    if(dataspan.empty() || f.char_strings.entries.empty()) {
         RETERR(MalformedFontFile);
     }
     std::vector<CFFCharsetRange2> charset;
@@ -226,7 +230,6 @@ rvoe<std::vector<CFFCharsetRange2>> unpack_charsets(const CFFont &f,
     const auto format = (uint8_t)dataspan[offset++];
     if(format == 0) {
         const auto num_glyphs = (int32_t)f.char_strings.size() - 1;
-        assert(num_glyphs >= 0);
         std::vector<uint16_t> glyphlist;
         for(int32_t i = 0; i < num_glyphs; ++i) {
             ERC(value, extract<uint16_t>(dataspan, offset + i * sizeof(uint16_t)));
@@ -270,6 +273,9 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
             ERC(range, extract<CFFSelectRange3>(dataspan, offset));
             offset += sizeof(range);
             range.swap_endian();
+            if(!ranges.empty() && ranges.back().first >= range.first) {
+                RETERR(MalformedFontFile);
+            }
             ranges.push_back(range);
         }
         ERC(sentinel, extract_and_swap<uint16_t>(dataspan, offset));
@@ -313,6 +319,9 @@ void print_info(const CFFont &cff) {
 
 std::vector<uint32_t> append_index_to(std::vector<std::byte> &output, const CFFIndex &index) {
     swap_and_append_bytes<uint16_t>(output, index.size());
+    if(index.entries.empty()) {
+        return {};
+    }
     output.push_back(std::byte{4});
     std::vector<uint32_t> offsets;
     uint32_t offset = 1;
@@ -329,9 +338,9 @@ std::vector<uint32_t> append_index_to(std::vector<std::byte> &output, const CFFI
 }
 
 rvoe<CFFPrivateDict>
-load_private_dict(std::span<std::byte> dataspan, size_t dict_offset, size_t dict_size) {
+load_private_dict(std::span<std::byte> dataspan, int64_t dict_offset, int64_t dict_size) {
     CFFPrivateDict pdict;
-    if(dict_offset > dataspan.size_bytes() || dict_offset + dict_size > dataspan.size_bytes()) {
+    if(dict_offset < 0 || dict_size < 0) {
         RETERR(MalformedFontFile);
     }
     ERC(dictspan, safe_subspan(dataspan, dict_offset, dict_size));
@@ -341,7 +350,10 @@ load_private_dict(std::span<std::byte> dataspan, size_t dict_offset, size_t dict
             if(e.operand.empty()) {
                 RETERR(MalformedFontFile);
             }
-            const auto &subr_offset = e.operand.front();
+            const int64_t subr_offset = e.operand.front();
+            if(dict_offset + subr_offset < 0) {
+                RETERR(MalformedFontFile);
+            }
             size_t from_the_top = dict_offset + subr_offset;
             ERC(subr_index, load_index(dataspan, from_the_top));
             pdict.subr = std::move(subr_index);
@@ -476,12 +488,13 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
     if(cse->operand.size() != 1) {
         RETERR(UnsupportedFormat);
     }
-    offset = cse->operand.front();
+    ERC(charstrings_offset, get_offset(*cse));
+    offset = charstrings_offset;
     ERC(cstring, load_index(dataspan, offset));
     f.char_strings = std::move(cstring);
 
     auto *ence = find_command(f, DictOperator::Encoding);
-    if(ence) {
+    if(ence && !ence->operand.empty()) {
         f.predefined_encoding = ence->operand.front();
     }
     auto *cste = find_command(f, DictOperator::Charset);
@@ -491,10 +504,11 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
     if(cste->operand.size() != 1) {
         RETERR(MalformedFontFile);
     }
-    if((size_t)cste->operand[0] > dataspan.size_bytes()) {
+    ERC(charset_offset, get_offset(*cste));
+    if(charset_offset > dataspan.size_bytes()) {
         RETERR(MalformedFontFile);
     }
-    ERC(charsets, unpack_charsets(f, dataspan.subspan(cste->operand[0])));
+    ERC(charsets, unpack_charsets(f, dataspan.subspan(charset_offset)));
     f.charsets = std::move(charsets);
 
     auto *priv = find_command(f, DictOperator::Private);
@@ -516,14 +530,25 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
         f.is_cid = false;
     }
     if(!f.is_cid) {
+        // Two more are added below.
+        if(f.string.size() + 2 > 65000 - 391) {
+            RETERR(MalformedFontFile);
+        }
         append_ros_strings(f);
+    } else if(!find_command(f, DictOperator::ROS)) {
+        RETERR(MalformedFontFile);
     }
     if(f.is_cid) {
         if(!fda || fda->operand.empty()) {
             RETERR(UnsupportedFormat);
         }
-        offset = fda->operand[0];
+        ERC(fdarray_offset, get_offset(*fda));
+        offset = fdarray_offset;
         ERC(fdastr, load_index(dataspan, offset))
+        // Glyphs refer to these with one byte.
+        if(fdastr.size() > 256) {
+            RETERR(MalformedFontFile);
+        }
         for(const auto dstr : fdastr.entries) {
             ERC(fdentry, load_fdarray_entry(dataspan, dstr));
             f.fdarray.emplace_back(std::move(fdentry));
@@ -531,12 +556,18 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
         if(!fds || fds->operand.empty()) {
             RETERR(UnsupportedFormat);
         }
-        offset = fds->operand[0];
+        ERC(fdselect_offset, get_offset(*fds));
+        offset = fdselect_offset;
         if(offset > dataspan.size_bytes()) {
             RETERR(MalformedFontFile);
         }
         ERC(fdsstr, unpack_fdselect(dataspan.subspan(offset), f.char_strings.size()));
         f.fdselect = std::move(fdsstr);
+        for(const auto &range : f.fdselect) {
+            if(range.fd >= f.fdarray.size()) {
+                RETERR(MalformedFontFile);
+            }
+        }
     }
     return f;
 }
-- 
2.43.0


From e34b2fc70049517f4101a6895e9301dde7e292c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 112/134] fix: C++ set_output_intent can be used with strings

---
 include/capypdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index f132d6b..e563a9b 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -272,7 +272,7 @@ public:
         CAPY_CPP_CHECK(capy_document_properties_set_output_intent(*this, identifier, strsize));
     }
     template<ByteSequence T> void set_output_intent(const T &buf) {
-        set_output_intent(buf.data, buf.size());
+        set_output_intent(buf.data(), buf.size());
     }
 
     void set_pdfx(CapyPDF_PDFX_Type xtype) {
-- 
2.43.0


From 66a2088884981a95ce2c96bf9faf4d38fae27093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 113/134] fix: C++ add_separation reports errors

---
 include/capypdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index e563a9b..907bb8e 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -1123,7 +1123,7 @@ public:
                                         CapyPDF_Device_Colorspace cs,
                                         CapyPDF_FunctionId fid) {
         CapyPDF_SeparationId id;
-        capy_generator_add_separation(*this, name, name_size, cs, fid, &id);
+        CAPY_CPP_CHECK(capy_generator_add_separation(*this, name, name_size, cs, fid, &id));
         return id;
     }
 
-- 
2.43.0


From 54207e2444b415acc36fadc709a950bf0b8fefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 114/134] fix: C++ header includes what it uses

---
 include/capypdf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index 907bb8e..5660b2d 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -11,7 +11,10 @@
 #include <optional>
 #include <stdexcept>
 #include <cmath>
+#include <cstdint>
 #include <cstdio>
+#include <cstdlib>
+#include <type_traits>
 
 #if defined(__cpp_exceptions)
 #define CAPY_ERROR_HAPPENED(error_string) throw PdfException(error_string)
-- 
2.43.0


From c03d487b4bcdb692059e48db09c97918c8ae36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 115/134] fix: Python set_page_mode works

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index faf7094..e6c7013 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -831,10 +831,10 @@ class DocumentProperties:
             raise CapyPDFException('Argument must be a PageLayout enum.')
         check_error(libfile.capy_document_properties_set_page_layout(self, layout.value))
 
-    def set_page_mode(self, model):
-        if not isinstance(layout, PageMode):
+    def set_page_mode(self, mode):
+        if not isinstance(mode, PageMode):
             raise CapyPDFException('Argument must be a PageMode enum.')
-        check_error(libfile.capy_document_properties_set_page_mode(self, model.value))
+        check_error(libfile.capy_document_properties_set_page_mode(self, mode.value))
 
     def set_metadata_xml(self, xmldata):
         xmlbytes = xmldata.encode('UTF-8')
-- 
2.43.0


From ae1938dc1b58ec6f23b7d9c1b8a2551b2874c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 116/134] fix: Python ImagePdfProperties.set_interpolate works

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index e6c7013..558d069 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2001,7 +2001,7 @@ class ImagePdfProperties:
     def set_interpolate(self, ival):
         if not isinstance(ival, ImageInterpolation):
             raise CapyPDFException('Argument must be image interpolation enum.')
-        check_error(libfile.capy_image_lpdf_properties_set_interpolate(self, ival.value))
+        check_error(libfile.capy_image_pdf_properties_set_interpolate(self, ival.value))
 
 
 class Destination:
-- 
2.43.0


From e83202c8475a6f63c997b614949b13109bdb80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 117/134] fix: Python transition settings work

---
 python/capypdf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 558d069..32ef2be 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -75,12 +75,12 @@ class TransitionType(Enum):
     Uncover = 10
     Fade = 11
 
-class TransitionDimension:
-    H = 0,
+class TransitionDimension(Enum):
+    H = 0
     V = 1
 
-class TransitionMotion:
-    I = 0,
+class TransitionMotion(Enum):
+    I = 0
     O = 1
 
 class PageBox(Enum):
@@ -1575,10 +1575,10 @@ class Transition:
         check_error(libfile.capy_transition_set_D(self, d))
 
     def set_Dn(self, dm):
-        check_error(libfile.capy_transition_set_Dm(self, Dm.value))
+        check_error(libfile.capy_transition_set_Dm(self, dm.value))
 
     def set_M(self, m):
-        check_error(libfile.capy_transition_set_M(self, M.value))
+        check_error(libfile.capy_transition_set_M(self, m.value))
 
     def set_Di(self, Di):
         check_error(libfile.capy_transition_set_Di(self, Di))
@@ -1587,7 +1587,7 @@ class Transition:
         check_error(libfile.capy_transition_set_SS(self, ss))
 
     def set_B(self, B):
-        check_error(libfile.capy_transition_set_S(self, int(B)))
+        check_error(libfile.capy_transition_set_B(self, int(B)))
 
     def __del__(self):
         check_error(libfile.capy_transition_destroy(self))
-- 
2.43.0


From c0731980ef3d459cdf52d8a494e9327110e92d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 118/134] fix: Python enumerators have integer values

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 32ef2be..29ec26e 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -22,7 +22,7 @@ class LineAnnotationEndStyle(Enum):
     Circle = 1
     Diamond = 2
     OpenArrow = 3
-    ClosedArrow = 4,
+    ClosedArrow = 4
     NoEnding = 5 # Because "None" is a Python keyword
     Butt = 6
     ROpenAreow = 7
@@ -178,8 +178,8 @@ class StructureType(Enum):
     Document = 0
     DocumentFragment = 1
 
-    Part = 2,
-    Sect = 3,
+    Part = 2
+    Sect = 3
     Div = 4
     Aside = 5
     Nonstruct = 6
-- 
2.43.0


From a1ce0091692b80bda104e6ff493c8f2f9ff268ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 119/134] fix: Python EmbeddedFile.set_contents works

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 29ec26e..67e77cf 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2086,7 +2086,7 @@ class EmbeddedFile:
     def set_contents(self, contents):
         if not isinstance(contents, bytes):
             raise CapyPDFException('Contents must be raw bytes.')
-        check_error(libfile.capy_embedded_file_set_contents(ctypes.pointer(o), contents, len(contents)))
+        check_error(libfile.capy_embedded_file_set_contents(self, contents, len(contents)))
 
     def set_subtype(self, subtype):
         sbytes = subtype.encode('UTF-8')
-- 
2.43.0


From 8550a18fa93e09d18eca2eaf6bff65c519899beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 120/134] fix: Python FormField.set_parent works

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 67e77cf..c582327 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2161,7 +2161,7 @@ class FormField:
     def set_parent(self, parent_field):
         if not isinstance(parent_field, FormFieldId):
             raise CapyPDFException('Argument must be a FormFieldId.')
-        check_error(libfile.capy_form_field_set_parent(self, parent_field.value))
+        check_error(libfile.capy_form_field_set_parent(self, parent_field))
 
     def set_Ff(self, Ff):
         if not isinstance(Ff, FormFieldFlags):
-- 
2.43.0


From 57e5b7f6463b66515296b5c01d87a987a57a7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 121/134] fix: Python Halftone.set_default takes no argument

---
 python/capypdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index c582327..150ea40 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2126,8 +2126,8 @@ class Halftone:
         check_error(libfile.capy_halftone_new(ctypes.pointer(o)))
         self._as_parameter_ = o
 
-    def set_default(self, subfont):
-        check_error(libfile.capy_halftone_set_default(self, subfont))
+    def set_default(self):
+        check_error(libfile.capy_halftone_set_default(self))
 
     def set_type1(self, frequency, angle, spotfunction):
         if not isinstance(spotfunction, HalftoneSpotFunction):
-- 
2.43.0


From 5dbf49c3dd3a6ef19908f413a24ba64e4a3c8523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 122/134] fix: Python Collection.set_D works

---
 python/capypdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 150ea40..6385261 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2194,11 +2194,11 @@ class Collection:
         check_error(libfile.capy_collection_destroy(self))
 
     def set_D(self, text):
-        if isinstance(V, bytes):
-            vbytes = V
+        if isinstance(text, bytes):
+            tbytes = text
         else:
-            vbytes = V.encode('UTF-8')
-        check_error(libfile.capy_collection_set_D(self, vbytes, len(vbytes)))
+            tbytes = text.encode('UTF-8')
+        check_error(libfile.capy_collection_set_D(self, tbytes, len(tbytes)))
 
     def set_view(self, view):
         if not isinstance(view, CollectionView):
-- 
2.43.0


From ad503bfa31a0120eda665db19f80d3c91e8989b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 123/134] fix: Python names may be any text

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 6385261..0333b12 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1368,7 +1368,7 @@ class Generator:
         if not isinstance(builtin_type, StructureType):
             raise CapyPDFException('Builtin type must be a StructureType.')
         roid = RoleId()
-        name_bytes = name.encode('ASCII')
+        name_bytes = name.encode('UTF-8')
         check_error(libfile.capy_generator_add_rolemap_entry(self,
                                                              name_bytes,
                                                              len(name_bytes),
@@ -1708,7 +1708,7 @@ class GraphicsState:
 class OptionalContentGroup:
     def __init__(self, name):
         self._as_parameter_ = None
-        in_bytes = name.encode('ASCII')
+        in_bytes = name.encode('UTF-8')
         opt = ctypes.c_void_p()
         check_error(libfile.capy_optional_content_group_new(ctypes.pointer(opt), in_bytes))
         self._as_parameter_ = opt
@@ -2113,7 +2113,7 @@ class FontProperties:
         check_error(libfile.capy_font_properties_set_named_instance(self, instance_index))
 
     def set_variation(self, axis, value):
-        axisbytes = axis.encode('ascii')
+        axisbytes = axis.encode('UTF-8')
         check_error(libfile.capy_font_properties_set_variation(self, axisbytes, len(axisbytes), value))
 
     def __del__(self):
-- 
2.43.0


From 7acec30d1402fd0be7066b224b9bb161937f418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 124/134] fix: C++ Type6Shading accepts all edge flags

---
 include/capypdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index 5660b2d..b46e3c3 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -645,7 +645,7 @@ public:
     }
     void
     extend(uint32_t flag, double *coords, uint32_t num_coords, Color *colors, uint32_t num_colors) {
-        if(flag != 1 and flag != 2) {
+        if(flag < 1 or flag > 3) {
             CAPY_ERROR_HAPPENED("Bad flag value");
         }
         if(num_coords != 16) {
-- 
2.43.0


From 51e40f8270f4ab24be4fa6447b64095f01f664fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 125/134] fix: Python text objects can be created in all
 contexts

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 0333b12..cc2e27a 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1448,7 +1448,7 @@ class TextSequence:
 
 class Text:
     def __init__(self, dc):
-        if not isinstance(dc, DrawContext):
+        if not isinstance(dc, DrawContextBase):
             raise CapyPDFException('Argument must be a DrawingContext (preferably use its .text_new() method instead).')
         self._as_parameter_ = None
         opt = ctypes.c_void_p()
-- 
2.43.0


From 13ceb4af37537e6208cd9f12704b97f49875ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 126/134] fix: a form field object can be added more than once

---
 src/document.cpp | 2 +-
 src/document.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 0a046c7..2266d73 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2209,7 +2209,7 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
     return CapyPDF_OutlineId{cur_id};
 }
 
-rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField field) {
     if(field.parent) {
         CHECK_INDEXNESS(field.parent->id, form_fields);
     }
diff --git a/src/document.hpp b/src/document.hpp
index 29c099e..31cd89f 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -528,7 +528,7 @@ public:
     rvoe<CapyPDF_OutlineId> add_outline(const Outline &o);
 
     // Forms
-    rvoe<CapyPDF_FormFieldId> add_form_field(FormField &field);
+    rvoe<CapyPDF_FormFieldId> add_form_field(FormField field);
 
     // Raw files
     rvoe<CapyPDF_EmbeddedFileId> embed_file(EmbeddedFile &ef);
-- 
2.43.0


From b29378a5ce0ca7fcbdc3938eca70b92edc7b0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 127/134] fix: an embedded file object can be used under
 several names

---
 src/document.cpp | 2 +-
 src/document.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 2266d73..756a681 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2219,7 +2219,7 @@ rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField field) {
     return CapyPDF_FormFieldId{field_id};
 }
 
-rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
+rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile ef) {
     for(const auto &file : embedded_files) {
         if(file.ef.pdfname == ef.pdfname) {
             RETERR(DuplicateName);
diff --git a/src/document.hpp b/src/document.hpp
index 31cd89f..f5e0f08 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -531,7 +531,7 @@ public:
     rvoe<CapyPDF_FormFieldId> add_form_field(FormField field);
 
     // Raw files
-    rvoe<CapyPDF_EmbeddedFileId> embed_file(EmbeddedFile &ef);
+    rvoe<CapyPDF_EmbeddedFileId> embed_file(EmbeddedFile ef);
 
     // Annotations.
     rvoe<CapyPDF_AnnotationId> add_annotation(const Annotation &a);
-- 
2.43.0


From cb1ecc8e5aead16eba225a3a6687c83194b68fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 128/134] fix: number formats, measures and viewports can be
 used more than once

---
 src/capi.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index ada6c38..d390161 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1462,7 +1462,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_append_viewport(CapyPDF_DrawContext *ctx,
     API_BOUNDARY_START;
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     auto *vp = static_cast<Viewport *>(vport);
-    auto rc = dc->append_viewport(std::move(*vp));
+    auto rc = dc->append_viewport(*vp);
     return conv_err(rc);
     API_BOUNDARY_END;
 }
@@ -3395,7 +3395,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_viewport_set_measure(CapyPDF_Viewport *vp,
     API_BOUNDARY_START;
     auto *vport = static_cast<Viewport *>(vp);
     auto *m = static_cast<RectilinearMeasure *>(measure);
-    vport->measure = std::move(*m);
+    vport->measure = *m;
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3419,7 +3419,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_X(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->X.push_back(std::move(*nf));
+    meas->X.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3429,7 +3429,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_Y(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->Y.push_back(std::move(*nf));
+    meas->Y.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3439,7 +3439,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_D(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->D.push_back(std::move(*nf));
+    meas->D.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3449,7 +3449,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_A(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->A.push_back(std::move(*nf));
+    meas->A.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From 639c3dbde8b4ca49061b0eb5e6afc0398080ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 129/134] fix: collection objects can be used more than once

---
 src/capi.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index d390161..802a0aa 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -931,7 +931,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_set_collection(CapyPDF_Generator *gen,
     auto *g = static_cast<PdfGen *>(gen);
     auto *c = static_cast<Collection *>(coll);
 
-    return conv_err(g->set_collection(std::move(*c)));
+    return conv_err(g->set_collection(*c));
 
     API_BOUNDARY_END;
 }
@@ -3510,7 +3510,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
     API_BOUNDARY_START;
     auto *c = static_cast<Collection *>(coll);
     auto *s = static_cast<CollectionSchema *>(schema);
-    c->schema = std::move(*s);
+    c->schema = *s;
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3556,7 +3556,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_schema_add_entry(CapyPDF_CollectionSch
     if(n.empty() || n.front() == '/') {
         return conv_err(ErrorCode::SlashStart);
     }
-    s->entries[n] = std::move(*f);
+    s->entries[n] = *f;
     *f = CollectionField{};
     RETNOERR;
     API_BOUNDARY_END;
-- 
2.43.0


From 9a3ae646fe3c30fbf0ac985cc128dae05afcb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 130/134] fix: a 3D stream can be added more than once

---
 src/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 802a0aa..5cf2ea5 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -762,7 +762,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_3d_stream(CapyPDF_Generator *gen,
     API_BOUNDARY_START;
     auto *g = static_cast<PdfGen *>(gen);
     auto *three = static_cast<ThreeDStream *>(stream);
-    auto rc = g->add_3d_stream(std::move(*three));
+    auto rc = g->add_3d_stream(*three);
     if(rc) {
         *out_ptr = rc.value();
     }
-- 
2.43.0


From 012aeea91100b5e8da29b369af355df0c702a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 131/134] fix: a collection field object can be used more than
 once

---
 src/capi.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 5cf2ea5..11f8f23 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -3557,7 +3557,6 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_schema_add_entry(CapyPDF_CollectionSch
         return conv_err(ErrorCode::SlashStart);
     }
     s->entries[n] = *f;
-    *f = CollectionField{};
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From c3eb0638fa5e1e0c696f514b643f40bbad652f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 132/134] fix: a failed write removes its temporary file

---
 src/pdfwriter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 113e476..d23915a 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -238,6 +238,19 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
     fmt.end_array();
 }
 
+// Removes the temporary file unless it has been moved to its final place.
+struct TempFileRemover {
+    const std::filesystem::path &fname;
+    bool active = true;
+
+    ~TempFileRemover() {
+        if(active) {
+            std::error_code ec;
+            std::filesystem::remove(fname, ec);
+        }
+    }
+};
+
 } // namespace
 
 PdfWriter::PdfWriter(PdfDocument &doc_) : doc(doc_) {
@@ -259,6 +272,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
         perror(nullptr);
         RETERR(CouldNotOpenFile);
     }
+    TempFileRemover remover{tempfname};
     std::unique_ptr<FILE, int (*)(FILE *)> fcloser(out_file, fclose);
 
     ERCV(write_to_file(out_file));
@@ -291,6 +305,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
         fprintf(stderr, "%s\n", ec.category().message(ec.value()).c_str());
         RETERR(FileWriteError);
     }
+    remover.active = false;
     RETOK;
 }
 
-- 
2.43.0


From 27a2e2a252c0c9d60a60a5ad4e2aecbdc8f0c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 133/134] fix: variation data of a font is always released

---
 src/document.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 756a681..9cd24a7 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -359,6 +359,10 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
         print_freetype_error(error);
         RETERR(VariationsNotSupported);
     }
+    auto mmvar_deleter = [library = face->glyph->library](FT_MM_Var *v) {
+        FT_Done_MM_Var(library, v);
+    };
+    std::unique_ptr<FT_MM_Var, decltype(mmvar_deleter)> mmvar_closer(mmvar, mmvar_deleter);
     const auto num_axis = mmvar->num_axis;
 
     FT_UInt named_instance;
@@ -382,7 +386,6 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
     error = FT_Get_Var_Design_Coordinates(face, num_axis, var_coords.data());
     if(error != 0) {
         print_freetype_error(error);
-        FT_Done_MM_Var(face->glyph->library, mmvar);
         RETERR(FreeTypeError);
     }
 
@@ -400,16 +403,9 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
             }
         }
         if(!matched) {
-            FT_Done_MM_Var(face->glyph->library, mmvar);
             RETERR(VariationNotFound);
         }
     }
-    error = FT_Done_MM_Var(face->glyph->library, mmvar);
-    if(error != 0) {
-        print_freetype_error(error);
-        RETERR(FreeTypeError);
-    }
-
     if(!var_coords.empty()) {
         error = FT_Set_Var_Design_Coordinates(face, num_axis, var_coords.data());
         if(error != 0) {
-- 
2.43.0


From 1918665ce4856338a3e5f057e6535e71205f49b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 134/134] fix: resources are released when memory runs out

---
 src/colorconverter.cpp | 4 ++--
 src/imagefileops.cpp   | 2 +-
 src/mmapper.cpp        | 7 ++++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index bb5c76c..86f4c97 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -269,6 +269,8 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
         RETERR(OutputProfileMissing);
     }
 
+    converted.pixels =
+        std::vector<std::byte>(num_pixels * num_bytes_for(output_format), std::byte{0});
     auto transform = cmsCreateTransform(input_profile,
                                         input_pixelformat,
                                         output_profile,
@@ -278,8 +280,6 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
     if(!transform) {
         RETERR(ProfileProblem);
     }
-    converted.pixels =
-        std::vector<std::byte>(num_pixels * num_bytes_for(output_format), std::byte{0});
     cmsDoTransform(transform, ri.pixels.data(), converted.pixels.data(), num_pixels);
     cmsDeleteTransform(transform);
     converted.md.cs = (CapyPDF_Image_Colorspace)output_format;
diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 695c369..bc14b05 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -542,9 +542,9 @@ rvoe<jpg_image> load_jpg_metadata(FILE *f, const char *buf, int64_t bufsize) {
     JOCTET *icc_buf = nullptr;
     unsigned int icc_len;
     if(jpeg_read_icc_profile(&cinfo, &icc_buf, &icc_len)) {
+        std::unique_ptr<JOCTET, decltype(&free)> icc_closer(icc_buf, free);
         std::byte *icc_ptr = (std::byte *)(icc_buf);
         im.icc_profile.assign(icc_ptr, icc_ptr + icc_len);
-        free(icc_buf);
     }
     if(im.depth != 8) {
         RETERR(UnsupportedFormat);
diff --git a/src/mmapper.cpp b/src/mmapper.cpp
index 5ab2c5a..722d7ce 100644
--- a/src/mmapper.cpp
+++ b/src/mmapper.cpp
@@ -126,7 +126,12 @@ rvoe<MMapper> mmap_file(const char *fname) {
     if(buf == MAP_FAILED) {
         RETERR(MMapFail);
     }
-    return MMapper(new MMapperPrivate((const char *)buf, bufsize));
+    auto *priv = new(std::nothrow) MMapperPrivate((const char *)buf, bufsize);
+    if(!priv) {
+        munmap(buf, bufsize);
+        RETERR(MMapFail);
+    }
+    return MMapper(priv);
 }
 
 #endif
-- 
2.43.0

