From cbb178f70bebef97d1075cefe192c6fbfb07a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 01/44] fix: reject overlong, surrogate and out of range UTF-8
 sequences

---
 src/utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1c55548..ced0b66 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -58,6 +58,14 @@ bool is_valid_uf8_character(std::string_view input, size_t cur, const UtfDecodeS
         unpacked |= subsequent & subsequent_data_mask;
     }
 
+    // Overlong encodings, surrogates and values above the last code point are not valid.
+    const uint32_t smallest_codepoint[] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_codepoint[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if((unpacked >= 0xD800 && unpacked <= 0xDFFF) || unpacked > 0x10FFFF) {
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 68e944401061ee8bee12bfcc9f066ce853996806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 02/44] fix: clear form object and structure usage when a draw
 context is reset

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1559156..6ee92bf 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -127,7 +127,9 @@ void PdfDrawContext::clear() {
     used_gstates.clear();
     used_shadings.clear();
     used_patterns.clear();
+    used_form_xobjects.clear();
     used_annotations.clear();
+    used_structures.clear();
     used_ocgs.clear();
     used_trgroups.clear();
     sub_navigations.clear();
-- 
2.43.0


From e300d787fa05329a5e7e17724cafa6aa511c391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:31 +0000
Subject: [PATCH 03/44] fix: escape all delimiters and carriage returns in PDF
 names and strings

---
 src/utils.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index ced0b66..8a1fe34 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -88,6 +88,10 @@ bool needs_quoting(const unsigned char c) {
     if(c == '#' || c == '(' || c == ')' || c == ' ' || c == '/') {
         return true;
     }
+    // The remaining PDF delimiter characters.
+    if(c == '<' || c == '>' || c == '[' || c == ']' || c == '{' || c == '}' || c == '%') {
+        return true;
+    }
     return false;
 }
 
@@ -284,6 +288,10 @@ std::string pdfstring_quote(std::string_view raw_string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            // An unescaped carriage return would be read as a newline.
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -310,6 +318,10 @@ std::string u8str2u8textstring(std::string_view u8string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            // An unescaped carriage return would be read as a newline.
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -334,9 +346,12 @@ std::string u8str2filespec(const u8string &str) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            result += "\\r";
+            continue;
         case '/':
             result += escaped_slash;
-            break;
+            continue;
         default:
             break;
         }
-- 
2.43.0


From ef2be35e46b318999f663dff742b9d8b62d2ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:31 +0000
Subject: [PATCH 04/44] fix: escape ampersands and quotes in XML text and
 attributes

---
 src/utils.cpp        | 6 +++++-
 src/xmlformatter.cpp | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 8a1fe34..c83adbd 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -475,7 +475,11 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
             result += "&gt;";
             break;
         case '&':
-            result += "&quot;";
+            result += "&amp;";
+            break;
+        case '\r':
+            // A plain carriage return would be normalized to a newline.
+            result += "&#13;";
             break;
         default:
             result += c;
diff --git a/src/xmlformatter.cpp b/src/xmlformatter.cpp
index ca29af8..386afee 100644
--- a/src/xmlformatter.cpp
+++ b/src/xmlformatter.cpp
@@ -67,7 +67,11 @@ void XMLFormatter::add_tag_attribute(const char *name, std::string_view value) {
     output += "=\"";
     for(const auto c : value) {
         if(c == '"') {
-            output += "\\\"";
+            output += "&quot;";
+        } else if(c == '<') {
+            output += "&lt;";
+        } else if(c == '&') {
+            output += "&amp;";
         } else {
             output += c;
         }
@@ -89,6 +93,7 @@ void XMLFormatter::finish_standalone_tag() {
         std::abort();
     }
     output += "/>";
+    tags.pop();
     state = XMLState::Basic;
 }
 
-- 
2.43.0


From d78515ab23b277a5c967b474345c582473a8491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:32 +0000
Subject: [PATCH 05/44] fix: quote ASCII strings and separate boolean tokens in
 objects

---
 src/objectformatter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6443a75..379df57 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -98,6 +98,7 @@ void ObjectFormatter::add_token(uint64_t number) {
 void ObjectFormatter::add_token(bool value) {
     check_indent();
     buf += value ? "true" : "false";
+    added_item();
 }
 
 void ObjectFormatter::add_token_with_slash(const char *name) {
@@ -147,7 +148,7 @@ void ObjectFormatter::write_raw_box(const PdfBox &box, bool write_brackets) {
     if(write_brackets) {
         begin_array();
     }
-    add_token(box.w);
+    add_token(box.x);
     add_token(box.y);
     add_token(box.w);
     add_token(box.h);
@@ -163,16 +164,12 @@ void ObjectFormatter::check_indent() {
 }
 
 void ObjectFormatter::add_pdfstring(const asciistring &str) {
-    // FIXME: add quoting for special characters.
-    check_indent();
-    std::format_to(app, "({})", str.c_str());
-    added_item();
+    add_token(pdfstring_quote(str.sv()));
 }
 
 void ObjectFormatter::add_bytestring(const std::string_view str) {
     auto quoted = pdfstring_quote(str);
     add_token(quoted);
-    added_item();
 }
 
 void ObjectFormatter::add_utf8_string(const u8string &ustr) {
-- 
2.43.0


From 7d3ab0cd6213793224c18f4a56e9f10c3bd44f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 06/44] fix: write valid names and references in catalog,
 graphics state and structure objects

---
 src/document.cpp | 31 +++++++++++++++++--------------
 src/utils.cpp    | 18 ------------------
 src/utils.hpp    |  1 -
 3 files changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index d236ff2..8efe65c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -27,12 +27,12 @@ const std::array<const char *, 3> colorspace_names{
     "/DeviceCMYK",
 };
 
-const std::array<const char, 5> page_label_types{
-    'D', // Decimal
-    'R', // Roman Upper
-    'r', // Roman Lower
-    'A', // Letter Upper
-    'a', // Letter Lower
+const std::array<const char *, 5> page_label_types{
+    "/D", // Decimal
+    "/R", // Roman Upper
+    "/r", // Roman Lower
+    "/A", // Letter Upper
+    "/a", // Letter Lower
 };
 
 const std::array<const char *, 21> spot_function_names{
@@ -1120,7 +1120,7 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             fmt.begin_dict();
             const auto &schema = c.schema.value();
             for(const auto &[key, value] : schema.entries) {
-                fmt.add_token_with_slash(key.c_str());
+                fmt.add_token(bytes2pdfstringliteral(key.sv()));
                 fmt.begin_dict();
                 fmt.add_token("/Subtype");
                 fmt.add_token(collection_view_subtype_names.at(value.subtype));
@@ -1154,7 +1154,7 @@ void PdfDocument::create_output_intent() {
     const char *gts =
         std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) ? "/GTS_PDFX" : "/GTS_PDFA1";
     fmt.begin_dict();
-    fmt.add_token_pair("/Type", "OutputIntent");
+    fmt.add_token_pair("/Type", "/OutputIntent");
     fmt.add_token_pair("/S", gts);
     fmt.add_token("/OutputConditionIdentifier");
     fmt.add_token(utf8_to_pdfutf16be(docprops.intent_condition_identifier));
@@ -1269,13 +1269,15 @@ void PdfDocument::create_structure_root_dict() {
     fmt.begin_array();
     fmt.add_object_ref(structure_items[rootobj->id].obj_id);
     fmt.end_array();
-    fmt.add_token_pair("/ParentTree", structure_parent_tree_object.value());
+    fmt.add_token("/ParentTree");
+    fmt.add_object_ref(structure_parent_tree_object.value());
     fmt.add_token_pair("/ParentTreeNextKey", structure_parent_tree_items.size());
     if(!rolemap.empty()) {
         fmt.add_token("/RoleMap");
         fmt.begin_dict();
         for(const auto &i : rolemap) {
-            fmt.add_token_pair(bytes2pdfstringliteral(i.name), structure_type_names.at(i.builtin));
+            fmt.add_token(bytes2pdfstringliteral(i.name));
+            fmt.add_token_with_slash(structure_type_names.at(i.builtin));
         }
         fmt.end_dict();
     }
@@ -1683,13 +1685,14 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ML", *state.ML);
     }
     if(state.RI) {
-        fmt.add_token_pair("/RenderingIntent", rendering_intent_names.at(*state.RI));
+        fmt.add_token("/RI");
+        fmt.add_token_with_slash(rendering_intent_names.at(*state.RI));
     }
     if(state.OP) {
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
     }
     if(state.op) {
-        fmt.add_token_pair("/op2", *state.op ? "true" : "false");
+        fmt.add_token_pair("/op", *state.op ? "true" : "false");
     }
     if(state.OPM) {
         fmt.add_token_pair("/OPM", *state.OPM);
@@ -1732,7 +1735,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ca", state.ca->v());
     }
     if(state.AIS) {
-        fmt.add_token_pair("/AIS {}", *state.AIS ? "true" : "false");
+        fmt.add_token_pair("/AIS", *state.AIS ? "true" : "false");
     }
     if(state.TK) {
         fmt.add_token_pair("/TK", *state.TK ? "true" : "false");
@@ -2085,7 +2088,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/EmbeddedFile");
         if(!ef.subtype.empty()) {
-            auto quoted = pdfname_quote(ef.subtype.sv());
+            auto quoted = bytes2pdfstringliteral(ef.subtype.sv());
             fmt.add_token_pair("/Subtype", quoted);
         }
         fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::move(ef.contents))});
diff --git a/src/utils.cpp b/src/utils.cpp
index c83adbd..f295d44 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -361,24 +361,6 @@ std::string u8str2filespec(const u8string &str) {
     return result;
 }
 
-std::string pdfname_quote(std::string_view raw_string) {
-    std::string result;
-    result.reserve(raw_string.size() + 10);
-    for(const char c : raw_string) {
-        switch(c) {
-        case '/':
-            result += "#2F";
-            break;
-        case '#':
-            result += "#23";
-            break;
-        default:
-            result += c;
-        }
-    }
-    return result;
-}
-
 bool is_ascii(std::string_view text) {
     for(const auto c : text) {
         auto ci = int32_t((unsigned char)c);
diff --git a/src/utils.hpp b/src/utils.hpp
index c5521c4..2fc2b45 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -45,7 +45,6 @@ std::string u8str2u8textstring(std::string_view u8string);
 std::string u8str2u8textstring(const u8string &str);
 std::string u8str2filespec(const u8string &str);
 
-std::string pdfname_quote(std::string_view raw_string);
 
 bool is_ascii(std::string_view text);
 
-- 
2.43.0


From 2e04617ca7b9626a4001a5515d836212afb134fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 07/44] fix: escape names in form fields and fonts, keep CMap
 blocks and entries valid

---
 src/objectformatter.cpp |  5 ++++-
 src/pdfcommon.cpp       |  2 +-
 src/pdfwriter.cpp       | 36 +++++++++++++++++++++++++++---------
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 379df57..9f8588f 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -87,7 +87,10 @@ void ObjectFormatter::add_token(double number) {
     added_item();
 }
 
-void ObjectFormatter::add_token(const PdfName &name) { add_token(name.sv()); }
+void ObjectFormatter::add_token(const PdfName &name) {
+    assert(!name.empty());
+    add_token(bytes2pdfstringliteral(name.sv().substr(1)));
+}
 
 void ObjectFormatter::add_token(uint64_t number) {
     check_indent();
diff --git a/src/pdfcommon.cpp b/src/pdfcommon.cpp
index f4d3360..313bb97 100644
--- a/src/pdfcommon.cpp
+++ b/src/pdfcommon.cpp
@@ -122,7 +122,7 @@ rvoe<asciistring> asciistring::from_view(std::string_view sv) {
 }
 
 rvoe<PdfName> PdfName::from_view(std::string_view sv) {
-    if(sv.size() < 2) {
+    if(sv.empty() || sv == "/") {
         RETERR(InvalidBufsize);
     }
     if(sv.find('\0') != std::string_view::npos) {
diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a384b57..8273650 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -69,14 +69,14 @@ std::string subsetfontname2pdfname(std::string_view original, const int32_t subs
     }
     out += "+";
     out += fontname2pdfname(original);
-    return out;
+    return bytes2pdfstringliteral(out, false);
 }
 
 std::string create_cidfont_subset_cmap(const std::vector<TTGlyphs> &glyphs) {
     // When you have to have a PDF that humans can read but AI bros
     // can't easily steal.
     const bool scrape_protection = getenv("CAPY_SCRAPE_PROTECT");
-    std::string buf = std::format(R"(/CIDInit /ProcSet findresource begin
+    std::string buf(R"(/CIDInit /ProcSet findresource begin
 12 dict begin
 begincmap
 /CIDSystemInfo
@@ -89,12 +89,19 @@ begincmap
 1 begincodespacerange
 <0000> <ffff>
 endcodespacerange
-{} beginbfchar
-)",
-                                  glyphs.size() - 1);
+)");
+    // A single block may have at most 100 entries.
+    const size_t max_block_size = 100;
     // Glyph zero is not mapped.
     auto appender = std::back_inserter(buf);
     for(size_t i = 1; i < glyphs.size(); ++i) {
+        if(i % max_block_size == 1) {
+            if(i > 1) {
+                buf += "endbfchar\n";
+            }
+            std::format_to(
+                appender, "{} beginbfchar\n", std::min(glyphs.size() - i, max_block_size));
+        }
         const auto &g = glyphs[i];
         if(std::holds_alternative<LigatureGlyph>(g)) {
             const auto &lg = std::get<LigatureGlyph>(g);
@@ -109,11 +116,22 @@ endcodespacerange
                     unicode_codepoint = std::get<RegularGlyph>(g).unicode_codepoint;
                 }
             }
-            std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            if(unicode_codepoint > 0xFFFF) {
+                const uint32_t offset = unicode_codepoint - 0x10000;
+                std::format_to(appender,
+                               "<{:04X}> <{:04X}{:04X}>\n",
+                               i,
+                               0xD800 + (offset >> 10),
+                               0xDC00 + (offset & 0x3FF));
+            } else {
+                std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            }
         }
     }
-    buf += R"(endbfchar
-endcmap
+    if(glyphs.size() > 1) {
+        buf += "endbfchar\n";
+    }
+    buf += R"(endcmap
 CMapName currentdict /CMap defineresource pop
 end
 end
@@ -1094,7 +1112,7 @@ rvoe<NoReturnValue> PdfWriter::write_annotation(int obj_num, const DelayedAnnota
                             fmt.add_token("/P");
                             {
                                 fmt.begin_dict();
-                                fmt.add_token_pair("/TF", "(TEMPALWAYS");
+                                fmt.add_token_pair("/TF", "(TEMPALWAYS)");
                                 fmt.end_dict();
                             }
                             fmt.end_dict();
-- 
2.43.0


From 62cb713029e19e4bde7d586b62722269c7910632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 08/44] fix: reject bad ids early and keep draw contexts
 consistent when a call fails

---
 src/commandstreamformatter.cpp |  19 ++++-
 src/commandstreamformatter.hpp |  11 +++
 src/document.cpp               |  76 +++++++++++++-------
 src/document.hpp               |   9 ++-
 src/drawcontext.cpp            | 122 ++++++++++++++++++++-------------
 src/drawcontext.hpp            |   2 +
 src/errorhandling.hpp          |   5 ++
 7 files changed, 168 insertions(+), 76 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 86462b1..6017e67 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -2,6 +2,7 @@
 // Copyright 2025 Jussi Pakkanen
 
 #include <commandstreamformatter.hpp>
+#include <utils.hpp>
 #include <format>
 #include <cassert>
 
@@ -62,13 +63,16 @@ void CommandStreamFormatter::append_dict_entry(std::string_view key, int32_t val
 
 void CommandStreamFormatter::append_dict_entry_string(const char *key, const char *value) {
     if(key[0] == '/') {
-        std::format_to(appender, "{}{} ({})\n", lead, key, value);
-    } else {
-        std::format_to(appender, "{}/{} ({})\n", lead, key, value);
+        ++key;
     }
+    std::format_to(
+        appender, "{}{} {}\n", lead, bytes2pdfstringliteral(key), pdfstring_quote(value));
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
+    if(has_state(DrawStateType::Text)) {
+        RETERR(DrawStateEndMismatch); // FIXME
+    }
     append("BT");
     ERCV(indent(DrawStateType::Text));
     RETOK;
@@ -93,6 +97,9 @@ rvoe<NoReturnValue> CommandStreamFormatter::Q() {
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BMC() {
+    if(has_state(DrawStateType::MarkedContent)) {
+        RETERR(NestedBMC);
+    }
     append("BMC");
     ERCV(indent(DrawStateType::MarkedContent));
     RETOK;
@@ -147,6 +154,12 @@ rvoe<std::string> CommandStreamFormatter::steal() {
     return std::move(buf);
 }
 
+void CommandStreamFormatter::rollback(const Mark &m) {
+    lead.resize(m.lead_size);
+    stack.resize(m.stack_size);
+    buf.resize(m.buf_size);
+}
+
 size_t CommandStreamFormatter::marked_content_depth() const {
     size_t depth = 0;
     for(const auto &e : stack) {
diff --git a/src/commandstreamformatter.hpp b/src/commandstreamformatter.hpp
index c1879a0..98c409b 100644
--- a/src/commandstreamformatter.hpp
+++ b/src/commandstreamformatter.hpp
@@ -22,6 +22,14 @@ enum class DrawStateType : uint8_t {
 class CommandStreamFormatter {
 
 public:
+    // A position to which the stream can be rolled back if
+    // writing a multipart command fails halfway through.
+    struct Mark {
+        size_t lead_size;
+        size_t stack_size;
+        size_t buf_size;
+    };
+
     CommandStreamFormatter();
     explicit CommandStreamFormatter(std::string_view start_indent);
 
@@ -62,6 +70,9 @@ public:
 
     size_t marked_content_depth() const;
 
+    Mark mark() const { return Mark{lead.size(), stack.size(), buf.size()}; }
+    void rollback(const Mark &m);
+
     bool has_unclosed_state() const { return !stack.empty(); }
 
 private:
diff --git a/src/document.cpp b/src/document.cpp
index 8efe65c..dae1ba5 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -150,7 +150,10 @@ const std::array<const char *, 3> blackpt_names{
     "/DEFAULT",
 };
 
-const std::array<const char *, 6> collection_view_subtype_names{
+const std::array<const char *, 9> collection_view_subtype_names{
+    "/S",
+    "/D",
+    "/N",
     "/F",
     "/Desc",
     "/ModDate",
@@ -208,8 +211,7 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
             ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
             ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
         } else {
-            fprintf(stderr, "Color space not supported yet.");
-            std::abort();
+            RETERR(UnsupportedFormat);
         }
     }
     return rvoe<std::string>{std::move(s)};
@@ -219,8 +221,7 @@ rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
     std::string s;
     for(const auto &eh : shade.elements) {
         if(!std::holds_alternative<FullCoonsPatch>(eh)) {
-            fprintf(stderr, "Continuation patches not yet supported.\n");
-            std::abort();
+            RETERR(UnsupportedFormat);
         }
         const auto &e = std::get<FullCoonsPatch>(eh);
         char flag = 0; //(char)e.flag;
@@ -263,8 +264,7 @@ rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
                 ERCV(append_floatvalue<uint16_t>(s, c.y.v()));
                 ERCV(append_floatvalue<uint16_t>(s, c.k.v()));
             } else {
-                fprintf(stderr, "Color space not yet supported.\n");
-                std::abort();
+                RETERR(UnsupportedFormat);
             }
         }
     }
@@ -283,7 +283,7 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
-void color2numbers(ObjectFormatter &fmt, const Color &c) {
+rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
         fmt.add_token(rgb->g.v());
@@ -296,9 +296,9 @@ void color2numbers(ObjectFormatter &fmt, const Color &c) {
         fmt.add_token(cmyk->y.v());
         fmt.add_token(cmyk->k.v());
     } else {
-        fprintf(stderr, "Colorspace not supported yet.\n");
-        std::abort();
+        RETERR(UnsupportedFormat);
     }
+    RETOK;
 }
 
 template<typename T1, typename T2> static void append_value_or_null(T1 &fmt, const T2 &val) {
@@ -810,8 +810,9 @@ rvoe<CapyPDF_LabColorSpaceId> PdfDocument::add_lab_colorspace(const LabColorSpac
     }
     fmt.end_array();
 
-    add_object(FullPDFObject{fmt.steal(), {}});
-    return CapyPDF_LabColorSpaceId{(int32_t)document_objects.size() - 1};
+    const auto object_number = add_object(FullPDFObject{fmt.steal(), {}});
+    lab_objects.insert(object_number);
+    return CapyPDF_LabColorSpaceId{object_number};
 }
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::load_icc_file(const char *fname) {
@@ -933,7 +934,7 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
         fmt.add_token_pair("/Subtype", "/PRC");
         break;
     default:
-        std::abort();
+        RETERR(BadEnum);
     }
     fmt.add_token_pair("/Length", stream.model_data.size());
     // 3D model formats are already compressed, do not waste
@@ -941,6 +942,7 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
     fmt.end_dict();
     const auto obj_num =
         add_object(FullPDFObject{fmt.steal(), RawData(std::move(stream.model_data))});
+    threed_objects.insert(obj_num);
     return CapyPDF_3DStreamId{obj_num};
 }
 
@@ -1183,7 +1185,7 @@ rvoe<int32_t> PdfDocument::create_outlines() {
                 RETERR(InvalidPageNumber);
             }
             const auto page_object_number = pages.at(physical_page).page_obj_num;
-            serialize_destination(fmt, dest, page_object_number);
+            ERCV(serialize_destination(fmt, dest, page_object_number));
         }
         if(siblings.size() > 1) {
             auto loc = std::find(siblings.begin(), siblings.end(), cur_id);
@@ -1434,7 +1436,7 @@ rvoe<NoReturnValue> PdfDocument::generate_info_object() {
     RETOK;
 }
 
-CapyPDF_FontId PdfDocument::get_builtin_font_id(CapyPDF_Builtin_Fonts font) {
+int32_t PdfDocument::get_builtin_font_object(CapyPDF_Builtin_Fonts font) {
     auto it = builtin_fonts.find(font);
     if(it != builtin_fonts.end()) {
         return it->second;
@@ -1445,11 +1447,9 @@ CapyPDF_FontId PdfDocument::get_builtin_font_id(CapyPDF_Builtin_Fonts font) {
     fmt.add_token_pair("/Subtype", "/Type1");
     fmt.add_token_pair("/BaseFont", font_names[font]);
     fmt.end_dict();
-    font_objects.push_back(
-        FontPDFObjects{-1, -1, add_object(FullPDFObject{fmt.steal(), {}}), {}, size_t(-1)});
-    auto fontid = CapyPDF_FontId{(int32_t)font_objects.size() - 1};
-    builtin_fonts[font] = fontid;
-    return fontid;
+    const auto font_object = add_object(FullPDFObject{fmt.steal(), {}});
+    builtin_fonts[font] = font_object;
+    return font_object;
 }
 
 uint32_t PdfDocument::glyph_for_codepoint(FT_Face face, uint32_t ucs4) {
@@ -1745,6 +1745,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
     }
     fmt.end_dict();
     add_object(FullPDFObject{fmt.steal(), {}});
+    graphics_state_objects.insert(id);
     return CapyPDF_GraphicsStateId{id};
 }
 
@@ -1767,11 +1768,11 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
 
     fmt.add_token("/C0");
     fmt.begin_array();
-    color2numbers(fmt, func.C0);
+    ERCV(color2numbers(fmt, func.C0));
     fmt.end_array();
     fmt.add_token("/C1");
     fmt.begin_array();
-    color2numbers(fmt, func.C1);
+    ERCV(color2numbers(fmt, func.C1));
     fmt.end_array();
     fmt.end_dict();
 
@@ -1950,7 +1951,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType4 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
@@ -1986,7 +1986,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType6 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
@@ -2037,7 +2036,9 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_shading_pattern(const ShadingPattern &s
         fmt.end_array();
     }
     fmt.end_dict();
-    return CapyPDF_PatternId{add_object(FullPDFObject{fmt.steal(), {}})};
+    const auto objid = add_object(FullPDFObject{fmt.steal(), {}});
+    pattern_objects.insert(objid);
+    return CapyPDF_PatternId{objid};
 }
 
 rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
@@ -2054,6 +2055,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
+    pattern_objects.insert(objid);
     return CapyPDF_PatternId{objid};
 }
 
@@ -2061,6 +2063,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
     if(o.title.empty()) {
         RETERR(EmptyTitle);
     }
+    if(o.parent) {
+        CHECK_INDEXNESS_V(o.parent->id, outlines.items);
+    }
     const auto cur_id = (int32_t)outlines.items.size();
     const auto par_id = o.parent.value_or(CapyPDF_OutlineId{-1}).id;
     outlines.parent[cur_id] = par_id;
@@ -2070,6 +2075,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
 }
 
 rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+    if(field.parent) {
+        CHECK_INDEXNESS_V(field.parent->id, form_fields);
+    }
     auto field_id = (int32_t)form_fields.size();
     auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
     form_fields.push_back((int32_t)obj_id);
@@ -2115,6 +2123,23 @@ rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     if(!a.rect) {
         RETERR(AnnotationMissingRect);
     }
+    if(auto faa = std::get_if<FileAttachmentAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(faa->fileid.id, embedded_files);
+    } else if(auto sa = std::get_if<ScreenAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(sa->mediafile.id, embedded_files);
+    } else if(auto wa = std::get_if<WidgetAnnotation>(&a.sub)) {
+        if(wa->parent) {
+            CHECK_INDEXNESS_V(wa->parent->id, form_fields);
+        }
+        if(wa->buttoninfo) {
+            CHECK_INDEXNESS_V(wa->buttoninfo->on_state.id, form_xobjects);
+            CHECK_INDEXNESS_V(wa->buttoninfo->off_state.id, form_xobjects);
+        }
+    } else if(auto pma = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(pma->appearance.id, form_xobjects);
+    } else if(auto threed = std::get_if<ThreeDAnnotation>(&a.sub)) {
+        CHECK_OBJECT_NUMBER(threed->stream.id, threed_objects);
+    }
     auto annot_id = (int32_t)annotations.size();
     auto obj_id = add_object(DelayedAnnotation{{annot_id}, a});
     annotations.push_back((int32_t)obj_id);
@@ -2139,6 +2164,7 @@ rvoe<CapyPDF_StructureItemId>
 PdfDocument::add_structure_item(const CapyPDF_RoleId role,
                                 std::optional<CapyPDF_StructureItemId> parent,
                                 std::optional<StructItemExtraData> extra) {
+    CHECK_INDEXNESS_V(role.id, rolemap);
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
diff --git a/src/document.hpp b/src/document.hpp
index f0ea9db..5e71c64 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -487,7 +487,7 @@ public:
                                        const std::optional<uint32_t> glyph_id);
     rvoe<SubsetGlyph> get_subset_glyph(CapyPDF_FontId fid, const u8string &text, uint32_t glyph_id);
     uint32_t glyph_for_codepoint(FT_Face face, uint32_t ucs4);
-    CapyPDF_FontId get_builtin_font_id(CapyPDF_Builtin_Fonts font);
+    int32_t get_builtin_font_object(CapyPDF_Builtin_Fonts font);
 
     // Images
     rvoe<CapyPDF_ImageId> load_image(const char *fname, CapyPDF_Image_Interpolation interpolate);
@@ -614,7 +614,7 @@ private:
     std::vector<PageOffsets> pages; // Refers to object num.
     std::vector<PageLabel> page_labels;
     std::vector<ImageInfo> image_info;
-    std::unordered_map<CapyPDF_Builtin_Fonts, CapyPDF_FontId> builtin_fonts;
+    std::unordered_map<CapyPDF_Builtin_Fonts, int32_t> builtin_fonts; // Object numbers.
     std::vector<FontPDFObjects> font_objects;
     std::vector<int32_t> separation_objects;
     std::vector<FontThingy> fonts;
@@ -632,6 +632,11 @@ private:
     std::vector<FunctionInfo> functions;
     std::vector<ShadingInfo> shadings;
     std::vector<RolemapEnty> rolemap;
+    // Object numbers that are valid as ids of the corresponding type.
+    std::unordered_set<int32_t> graphics_state_objects;
+    std::unordered_set<int32_t> lab_objects;
+    std::unordered_set<int32_t> pattern_objects;
+    std::unordered_set<int32_t> threed_objects;
 
     std::optional<Collection> collection;
 
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 6ee92bf..7ccec71 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -283,17 +283,23 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
                                             std::optional<CapyPDF_StructureItemId> sid,
                                             const BDCTags *attributes) {
     if(!sid && !attributes) {
-        fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
-        std::abort();
+        // Must specify sid or attributes. Otherwise use BMC.
+        RETERR(ArgIsNull);
+    }
+    if(cmds.marked_content_depth() > 0) {
+        RETERR(NestedBMC);
+    }
+    std::optional<int32_t> mcid;
+    if(sid) {
+        ERC(MCID_id, add_bcd_structure(sid.value()));
+        mcid = MCID_id;
     }
     cmds.append_indent();
-    cmds.append_raw("/");
-    cmds.append_raw(name.sv());
+    cmds.append_raw(bytes2pdfstringliteral(name.sv()));
     cmds.append_raw(" <<\n");
     ERCV(cmds.indent(DrawStateType::Dictionary));
-    if(sid) {
-        ERC(MCID_id, add_bcd_structure(sid.value()));
-        cmds.append_dict_entry("/MCID", MCID_id);
+    if(mcid) {
+        cmds.append_dict_entry("/MCID", *mcid);
     }
     if(attributes) {
         for(const auto &[key, value] : *attributes) {
@@ -314,8 +320,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
         ERC(astr, asciistring::from_cstr(structure_type_names.at(*builtin)));
         return cmd_BDC(astr, sid, attributes);
     } else if(auto role = std::get_if<CapyPDF_RoleId>(&itemtype)) {
-        auto quoted = bytes2pdfstringliteral(doc->rolemap.at(role->id).name, false);
-        ERC(astr, asciistring::from_cstr(quoted.c_str()));
+        ERC(astr, asciistring::from_view(doc->rolemap.at(role->id).name));
         return cmd_BDC(astr, sid, attributes);
     } else {
         std::abort();
@@ -335,7 +340,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/{} BMC\n", tag);
+    auto cmd = std::format("{} BMC\n", bytes2pdfstringliteral(tag));
     cmds.append(cmd);
     RETOK;
 }
@@ -380,7 +385,7 @@ PdfDrawContext::cmd_d(const double *dash_array, size_t dash_array_length, double
     for(size_t i = 0; i < dash_array_length; ++i) {
         std::format_to(app, "{:f} ", dash_array[i]);
     }
-    std::format_to(app, "] {} d\n", phase);
+    std::format_to(app, "] {:f} d\n", phase);
     cmds.append(cmd);
     RETOK;
 }
@@ -427,7 +432,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_G(LimitDouble gray) { return serialize_G
 rvoe<NoReturnValue> PdfDrawContext::cmd_g(LimitDouble gray) { return serialize_g(gray); }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_gs(CapyPDF_GraphicsStateId gid) {
-    CHECK_INDEXNESS(gid.id, doc->document_objects);
+    CHECK_OBJECT_NUMBER(gid.id, doc->graphics_state_objects);
     used_gstates.insert(gid.id);
     auto cmd = std::format("/GS{} gs\n", gid.id);
     cmds.append(cmd);
@@ -540,7 +545,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_scn(double value) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_sh(CapyPDF_ShadingId shid) {
-    CHECK_INDEXNESS(shid.id, doc->document_objects);
+    CHECK_INDEXNESS(shid.id, doc->shadings);
     used_shadings.insert(shid.id);
     auto cmd = std::format("/SH{} sh\n", shid.id);
     cmds.append(cmd);
@@ -724,6 +729,7 @@ rvoe<NoReturnValue> PdfDrawContext::convert_to_output_cs_and_set_color(const Dev
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(CapyPDF_PatternId id, bool stroke) {
+    CHECK_OBJECT_NUMBER(id.id, doc->pattern_objects);
     if(stroke) {
         ERCV(cmd_CS("/Pattern"));
     } else {
@@ -751,7 +757,7 @@ rvoe<NoReturnValue> PdfDrawContext::set_color(const SeparationColor &color, bool
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(const LabColor &c, bool stroke) {
-    CHECK_INDEXNESS(c.id.id, doc->document_objects);
+    CHECK_OBJECT_NUMBER(c.id.id, doc->lab_objects);
     used_colorspaces.insert(c.id.id);
     std::string csname = std::format("/CSpace{}", c.id.id);
     if(stroke) {
@@ -796,23 +802,30 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
                                                            CommandStreamFormatter &serialisation,
                                                            CapyPDF_FontId &current_font) {
     CHECK_INDEXNESS(current_font.id, doc->font_objects);
-    bool is_first = true;
+    bool array_open = false;
+    auto open_array = [&serialisation, &array_open]() {
+        if(!array_open) {
+            serialisation.append_indent();
+            serialisation.append_raw("[ ");
+            array_open = true;
+        }
+    };
+    auto close_array = [&serialisation, &array_open]() {
+        if(array_open) {
+            serialisation.append_raw("] TJ\n");
+            array_open = false;
+        }
+    };
     auto glyph_appender_lambda =
-        [this, &serialisation, &is_first](const SubsetGlyph &current_subset_glyph) {
+        [this, &serialisation, &open_array](const SubsetGlyph &current_subset_glyph) {
             used_external_fonts.insert(current_subset_glyph.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
             serialisation.append_raw(glyphid);
         };
     for(const auto &e : charseq) {
         if(auto kval = std::get_if<KerningValue>(&e)) {
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             auto v = std::format("{} ", kval->v);
             serialisation.append_raw(v);
         } else if(auto uglyph = std::get_if<UnicodeCharacter>(&e)) {
@@ -825,10 +838,7 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             }
             ERC(subset, doc->get_subset_glyph(current_font, *u8str->begin(), {}));
             used_external_fonts.insert(subset.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             serialisation.append_raw("<");
             for(const auto codepoint : *u8str) {
                 ERC(current_subset_glyph, doc->get_subset_glyph(current_font, codepoint, {}));
@@ -838,13 +848,12 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             serialisation.append_raw("> ");
         } else if(auto actualtext = std::get_if<ActualTextStart>(&e)) {
             auto u16 = utf8_to_pdfutf16be(actualtext->text);
-            serialisation.append_raw("] TJ\n");
+            close_array();
             auto cmd = std::format("/Span << /ActualText {} >> BDC", u16);
             serialisation.append(cmd);
-            serialisation.append_raw("[");
         } else if(std::holds_alternative<ActualTextEnd>(e)) {
-            serialisation.append_raw("] TJ\n");
-            serialisation.append("EMC [");
+            close_array();
+            serialisation.append("EMC");
         } else if(auto glyphitem = std::get_if<GlyphItem>(&e)) {
             ERC(current_subset_glyph,
                 doc->get_subset_glyph(
@@ -859,9 +868,8 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             fprintf(stderr, "Not implemented yet.\n");
             std::abort();
         }
-        is_first = false;
     }
-    serialisation.append_raw("] TJ\n");
+    close_array();
     RETOK;
 }
 
@@ -871,6 +879,15 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
     }
     ERCV(validate_text_contents(textobj));
 
+    const auto mark = cmds.mark();
+    auto rc = serialize_text(textobj);
+    if(!rc) {
+        cmds.rollback(mark);
+    }
+    return rc;
+}
+
+rvoe<NoReturnValue> PdfDrawContext::serialize_text(const PdfText &textobj) {
     CapyPDF_FontId current_font{-1};
     double current_pointsize{-1};
 
@@ -896,6 +913,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const Tf_arg &tf) -> rvoe<NoReturnValue> {
+            CHECK_INDEXNESS(tf.font.id, doc->font_objects);
             current_font = tf.font;
             current_pointsize = tf.pointsize;
             auto cmd = std::format(
@@ -1010,13 +1028,13 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 cmd += " SCN";
                 cmds.append(cmd);
             } else if(auto id = std::get_if<CapyPDF_PatternId>(&sarg.c)) {
+                CHECK_OBJECT_NUMBER(id->id, doc->pattern_objects);
                 used_patterns.insert(id->id);
                 cmds.append("/Pattern CS\n");
                 auto cmd = std::format("/Pattern-{} SCN\n", id->id);
                 cmds.append(cmd);
             } else {
-                printf("Given text stroke colorspace not supported yet.\n");
-                std::abort();
+                ERCV(set_color(sarg.c, true));
             }
             RETOK;
         },
@@ -1042,13 +1060,13 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 std::format_to(std::back_inserter(cmd), "{}\n", "scn");
                 cmds.append(cmd);
             } else if(auto id = std::get_if<CapyPDF_PatternId>(&nsarg.c)) {
+                CHECK_OBJECT_NUMBER(id->id, doc->pattern_objects);
                 used_patterns.insert(id->id);
                 cmds.append("/Pattern cs\n");
                 auto cmd = std::format("/Pattern-{} scn\n", id->id);
                 cmds.append(cmd);
             } else {
-                printf("Given text nonstroke colorspace not supported yet.\n");
-                std::abort();
+                ERCV(set_color(nsarg.c, false));
             }
             RETOK;
         },
@@ -1084,12 +1102,12 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             for(auto val : dash.array) {
                 std::format_to(std::back_inserter(cmd), "{:f} ", val);
             }
-            std::format_to(std::back_inserter(cmd), " ] {} d\n", dash.phase);
+            std::format_to(std::back_inserter(cmd), " ] {:f} d\n", dash.phase);
             cmds.append(cmd);
             RETOK;
         },
         [&](const gs_arg &gs) -> rvoe<NoReturnValue> {
-            CHECK_INDEXNESS(gs.gid.id, doc->document_objects);
+            CHECK_OBJECT_NUMBER(gs.gid.id, doc->graphics_state_objects);
             used_gstates.insert(gs.gid.id);
             auto cmd = std::format("/GS{} gs\n", gs.gid.id);
             cmds.append(cmd);
@@ -1144,11 +1162,22 @@ rvoe<NoReturnValue> PdfDrawContext::render_glyphs(const std::vector<PdfGlyph> &g
                                                   CapyPDF_FontId fid,
                                                   double pointsize) {
     CHECK_INDEXNESS(fid.id, doc->font_objects);
-    double prev_x = 0;
-    double prev_y = 0;
     if(glyphs.empty()) {
         RETOK;
     }
+    const auto mark = cmds.mark();
+    auto rc = serialize_glyphs(glyphs, fid, pointsize);
+    if(!rc) {
+        cmds.rollback(mark);
+    }
+    return rc;
+}
+
+rvoe<NoReturnValue> PdfDrawContext::serialize_glyphs(const std::vector<PdfGlyph> &glyphs,
+                                                     CapyPDF_FontId fid,
+                                                     double pointsize) {
+    double prev_x = 0;
+    double prev_y = 0;
     auto &font_data = doc->get(fid);
     // FIXME, do per character.
     // const auto &bob =
@@ -1167,7 +1196,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_glyphs(const std::vector<PdfGlyph> &g
         prev_y = g.y;
         cmd.clear();
         std::format_to(
-            std::back_inserter(cmd), "<{:04x}>", (unsigned char)current_subset_glyph.glyph_id);
+            std::back_inserter(cmd), "<{:04x}>", current_subset_glyph.glyph_id);
         cmds.append_command(cmd, "Tj");
     }
     ERCV(cmds.dedent(DrawStateType::Text));
@@ -1183,13 +1212,14 @@ rvoe<NoReturnValue> PdfDrawContext::render_pdfdoc_text_builtin(const char *pdfdo
     if(!std::holds_alternative<std::monostate>(doc->docprops.subtype)) {
         RETERR(BadOperationForIntent);
     }
-    auto font_object = doc->font_object_number(doc->get_builtin_font_id(font_id));
+    CHECK_ENUM(font_id, CAPY_FONT_COURIER_BOLDOBLIQUE);
+    auto font_object = doc->get_builtin_font_object(font_id);
     used_builtin_fonts.insert(font_object);
     cmds.append("BT");
     ERCV(cmds.indent(DrawStateType::Text));
     std::string cmd;
     auto app = std::back_inserter(cmd);
-    std::format_to(app, "/Font{} {} Tf", font_object, pointsize);
+    std::format_to(app, "/Font{} {:f} Tf", font_object, pointsize);
     cmds.append(cmd);
     cmd.clear();
     cmds.append_command(x, y, "Td");
@@ -1226,7 +1256,7 @@ PdfDrawContext::add_simple_navigation(std::span<const CapyPDF_OptionalContentGro
         RETERR(InvalidDrawContextType);
     }
     if(!sub_navigations.empty()) {
-        std::abort();
+        RETERR(AnnotationReuse);
     }
     for(const auto &sn : navs) {
         if(used_ocgs.find(sn) == used_ocgs.end()) {
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 247ed4e..7e9148e 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -210,6 +210,8 @@ public:
     rvoe<NoReturnValue> set_group_matrix(const PdfMatrix &mat);
 
 private:
+    rvoe<NoReturnValue> serialize_text(const PdfText &textobj);
+    rvoe<NoReturnValue> serialize_glyphs(const std::vector<PdfGlyph> &glyphs, CapyPDF_FontId fid, double pointsize);
     rvoe<NoReturnValue> serialize_charsequence(const TextEvents &charseq,
                                                CommandStreamFormatter &serialisation,
                                                CapyPDF_FontId &current_font);
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index 0dfd646..7a1cbc2 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -190,6 +190,11 @@ struct NoReturnValue {};
         RETERR(BadId);                                                                             \
     }
 
+#define CHECK_OBJECT_NUMBER(onum, object_set)                                                      \
+    if(object_set.find(onum) == object_set.end()) {                                                \
+        RETERR(BadId);                                                                             \
+    }
+
 #define CHECK_ENUM(v, max_enum_val)                                                                \
     if((int)v < 0 || ((int)v > (int)max_enum_val)) {                                               \
         RETERR(BadEnum);                                                                           \
-- 
2.43.0


From 2810e849ea25d75a62d7d959c2ccb222789300b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 09/44] fix: write the glyph ids of the subset cmap instead of
 the vector's pointers

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 506df11..0c49f16 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -835,7 +835,9 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     append_bytes(buf, cmap_head);
     append_bytes(buf, enc);
     append_bytes(buf, glyphencoding);
-    append_bytes(buf, glyphids);
+    for(const auto gid : glyphids) {
+        append_bytes(buf, gid);
+    }
 
     return buf;
 }
-- 
2.43.0


From 3bb3b1d9a7943daaa5b523654255df1b2ce7ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 10/44] fix: reject an invalid optional content group before
 opening marked content

---
 src/drawcontext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 7ccec71..429b88d 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -328,8 +328,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid) {
-    used_ocgs.insert(ocgid);
+    CHECK_INDEXNESS(ocgid.id, doc->ocg_items);
     ERCV(cmds.indent(DrawStateType::MarkedContent));
+    used_ocgs.insert(ocgid);
     auto cmd = std::format("/OC /oc{} BDC\n", doc->ocg_object_number(ocgid));
     cmds.append(cmd);
     RETOK;
-- 
2.43.0


From 0fa6b34d6f7b8083e3a59245d3a45df7acc561c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 11/44] fix: reject an invalid structure item in text before it
 leaves the text object open

---
 src/drawcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 429b88d..650bb47 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1300,6 +1300,7 @@ rvoe<NoReturnValue> PdfDrawContext::set_group_matrix(const PdfMatrix &mat) {
 }
 
 rvoe<int32_t> PdfDrawContext::add_bcd_structure(CapyPDF_StructureItemId sid) {
+    CHECK_INDEXNESS(sid.id, doc->structure_items);
     for(const auto &id : used_structures) {
         if(id == sid) {
             RETERR(StructureReuse);
-- 
2.43.0


From 7e9b2008090dfdbb8f52dd9b533d98299ea204a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 12/44] fix: reject structure types that have no name

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index dae1ba5..fea9658 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -913,6 +913,7 @@ rvoe<CapyPDF_RoleId> PdfDocument::add_rolemap_entry(std::string name,
     if(name.empty() || name.front() == '/') {
         RETERR(SlashStart);
     }
+    CHECK_ENUM(builtin_type, CAPY_STRUCTURE_TYPE_NUM_ITEMS - 1);
     for(const auto &i : rolemap) {
         if(i.name == name) {
             RETERR(RoleAlreadyDefined);
@@ -2150,6 +2151,7 @@ rvoe<CapyPDF_StructureItemId>
 PdfDocument::add_structure_item(const CapyPDF_Structure_Type stype,
                                 std::optional<CapyPDF_StructureItemId> parent,
                                 std::optional<StructItemExtraData> extra) {
+    CHECK_ENUM(stype, CAPY_STRUCTURE_TYPE_NUM_ITEMS - 1);
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
-- 
2.43.0


From c01ece3f1236c3c7e84445c420d1af9cea6bc283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 13/44] fix: reject a second page label for the same start page

The page label number tree must not hold the same key twice.
---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index fea9658..74361e2 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -637,7 +637,7 @@ PdfDocument::add_page_labeling(uint32_t start_page,
                                std::optional<CapyPDF_Page_Label_Number_Style> style,
                                std::optional<u8string> prefix,
                                std::optional<uint32_t> start_num) {
-    if(!page_labels.empty() && page_labels.back().start_page > start_page) {
+    if(!page_labels.empty() && page_labels.back().start_page >= start_page) {
         RETERR(NonSequentialPageNumber);
     }
     page_labels.emplace_back(start_page, style, std::move(prefix), start_num);
-- 
2.43.0


From 4ab3692e38993a87538f2209745e8991c720e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 14/44] fix: reject invalid annotation ids when annotating a
 draw context

---
 src/drawcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 650bb47..b0c4c1c 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,7 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
-- 
2.43.0


From af21711910d0ff9b14ba7debf314ce96533849d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 15/44] fix: never use the output file itself as the temporary
 file

---
 src/pdfwriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 8273650..3a4f360 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -247,7 +247,8 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
     }
     doc.write_attempted = true;
     std::filesystem::path tempfname(ofilename);
-    tempfname.replace_extension(".pdf~");
+    // Append instead of replacing the extension so that this is never the target file.
+    tempfname += "~";
     FILE *out_file = fopen(tempfname.string().c_str(), "wb");
     if(!out_file) {
         perror(nullptr);
-- 
2.43.0


From 84c93f53b2241e37bf83beb1911bde93a3ab5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 16/44] fix: report errors from CFF font creation

---
 src/cffsubsetter.cpp | 2 +-
 src/ft_subsetter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5344fb9..1a73d5c 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -600,7 +600,7 @@ rvoe<NoReturnValue> CFFWriter::create() {
     output.assign((std::byte *)header, (std::byte *)header + 4);
     append_index(source.name);
 
-    create_topdict();
+    ERCV(create_topdict());
     append_index(source.string);
     append_index(source.global_subr);
     fixups.charsets.value = output.size();
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 0c49f16..11e7c0e 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1003,7 +1003,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
         }
     }
     CFFWriter w(source_data, converted);
-    w.create();
+    ERCV(w.create());
     return w.steal();
 }
 
-- 
2.43.0


From d3903588a15536e813ea900b686b9a59c31f953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 17/44] fix: reject negative array sizes in the C API

---
 src/capi.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index cea91c4..48ff136 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -17,6 +17,11 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_ARRAY_SIZE(s)                                                                        \
+    if(s < 0) {                                                                                    \
+        return conv_err(ErrorCode::InvalidBufsize);                                                \
+    }
+
 using namespace capypdf::internal;
 
 // These structs are not in the interop header because they are
@@ -1068,6 +1073,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_d(CapyPDF_DrawContext *ctx,
                                         int32_t array_size,
                                         double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(array_size);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1414,6 +1420,7 @@ capy_dc_add_simple_navigation(CapyPDF_DrawContext *ctx,
                               int32_t array_size,
                               const CapyPDF_Transition *tr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(array_size);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     std::optional<Transition> transition;
     if(tr) {
@@ -1661,6 +1668,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_d(CapyPDF_Text *text,
                                           int32_t array_size,
                                           double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(array_size);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1816,6 +1824,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_icc(CapyPDF_Color *color,
                                              double *values,
                                              int32_t num_values) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(num_values);
     ICCColor icc;
     icc.id = icc_id;
     icc.values.assign(values, values + num_values);
@@ -2300,6 +2309,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_function_new(double *domain,
                                                   double n,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(domain_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType2{std::vector<double>(domain, domain + domain_size), c1->c, c2->c, n}});
     RETNOERR;
@@ -2323,6 +2333,10 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_function_new(double *domain,
                                                   int32_t encode_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(domain_size);
+    CHECK_ARRAY_SIZE(functions_size);
+    CHECK_ARRAY_SIZE(bounds_size);
+    CHECK_ARRAY_SIZE(encode_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType3{std::vector<double>(domain, domain + domain_size),
                       std::vector<CapyPDF_FunctionId>(functions, functions + functions_size),
@@ -2340,6 +2354,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_function_new(double *domain,
                                                   int32_t code_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(domain_size);
+    CHECK_ARRAY_SIZE(range_size);
     auto rc = validate_cstring(code, code_size);
     if(!rc) {
         return conv_err(rc.error());
-- 
2.43.0


From 1ae42b7bba8ea58a53e25dee72e9552f0e88fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 18/44] fix: keep the null checks of the C API when optimizing

---
 include/capypdf.h.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/capypdf.h.in b/include/capypdf.h.in
index 750ea04..b940b73 100644
--- a/include/capypdf.h.in
+++ b/include/capypdf.h.in
@@ -12,7 +12,12 @@
 
 #mesondefine CAPYPDF_STATIC
 
-#if defined _MSC_VER
+#if defined BUILDING_CAPYPDF
+// The attribute is a promise made by callers. When compiling the library
+// it must not be used to optimize away the null checks in the implementation.
+#define CAPYPDF_NONNULL_ARGS
+#define CAPYPDF_NONNULL_ARGS_AT(...)
+#elif defined _MSC_VER
 // Patches welcome
 #define CAPYPDF_NONNULL_ARGS
 #define CAPYPDF_NONNULL_ARGS_AT(...)
-- 
2.43.0


From 73f2993b2f3751a37906f47c4214d083c243dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 19/44] fix: report an error for image files that can not be
 opened

---
 src/imagefileops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 100f125..de652d9 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -618,6 +618,9 @@ rvoe<RasterImage> load_image_file(const char *fname) {
     char buf[bufsize];
     buf[0] = 0;
     FILE *f = fopen(fname, "rb");
+    if(!f) {
+        RETERR(CouldNotOpenFile);
+    }
     auto rc = fread(buf, 1, bufsize, f);
     fclose(f);
     if(rc != bufsize) {
-- 
2.43.0


From 5a8014606eb50cfc9b4afa565825424a9012e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 20/44] fix: report an error when an offset does not fit in the
 cross reference table

---
 src/pdfwriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 3a4f360..dcf2a22 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -456,6 +456,9 @@ PdfWriter::write_cross_reference_table(const std::vector<ObjectOffset> &final_of
             first = false;
         } else {
             assert(!i.store_compressed);
+            if(i.offset > 9999999999) {
+                RETERR(XRefOffsetTooBig);
+            }
             std::format_to(app, "{:010} 00000 n \n", i.offset);
         }
     }
-- 
2.43.0


From 14895e11c6762ee03de85ee7fd232bb14a55c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 21/44] fix: reject form objects and transparency groups of
 another document

---
 src/document.cpp  | 3 +++
 src/generator.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 74361e2..5dd282c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2190,6 +2190,9 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
 }
 
 rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != this) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_TRANSPARENCY_GROUP) {
         RETERR(InvalidDrawContextType);
     }
diff --git a/src/generator.cpp b/src/generator.cpp
index a436bee..32334a1 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -117,6 +117,9 @@ rvoe<NoReturnValue> PdfGen::add_page_labeling(uint32_t start_page,
 }
 
 rvoe<CapyPDF_FormXObjectId> PdfGen::add_form_xobject(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != &pdoc) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_FORM_XOBJECT) {
         RETERR(InvalidDrawContextType);
     }
-- 
2.43.0


From 3aa28f548bc8ca8b18858f02f229f81ada70427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 22/44] fix: report an error for an empty ICC profile

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 5dd282c..5f60f04 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1395,7 +1395,7 @@ rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte>
         return existing.value();
     }
     if(contents.empty()) {
-        return CapyPDF_IccColorSpaceId{-1};
+        RETERR(InvalidICCProfile);
     }
     ObjectFormatter fmt;
     fmt.begin_dict();
-- 
2.43.0


From 42438fc8038562d9f5d37e694aab0f30b243325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 23/44] fix: reject an invalid font id when measuring an empty
 text

---
 src/generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator.cpp b/src/generator.cpp
index 32334a1..504e732 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -167,6 +167,7 @@ PdfDrawContext *PdfGen::new_color_pattern(const PdfRectangle &rect) {
 
 rvoe<double>
 PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsize) const {
+    CHECK_INDEXNESS(fid.id, pdoc.font_objects);
     if(txt.empty()) {
         return 0;
     }
-- 
2.43.0


From 9c32ba96bc21541147d7d1b1fa62b6d41e9aa818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 24/44] fix: reject invalid ids in text before anything is
 serialized

---
 src/drawcontext.cpp | 33 +++++++++++++++++++++++++++++++++
 src/drawcontext.hpp |  2 ++
 2 files changed, 35 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index b0c4c1c..4d90ae5 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -879,6 +879,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
     if(textobj.creator() != this) {
         RETERR(WrongDrawContext);
     }
+    ERCV(validate_text_ids(textobj));
     ERCV(validate_text_contents(textobj));
 
     const auto mark = cmds.mark();
@@ -1124,6 +1125,38 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_text(const PdfText &textobj) {
     RETOK;
 }
 
+rvoe<NoReturnValue> PdfDrawContext::validate_color_id(const Color &c) {
+    if(auto icc = std::get_if<ICCColor>(&c)) {
+        CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
+    } else if(auto lab = std::get_if<LabColor>(&c)) {
+        CHECK_OBJECT_NUMBER(lab->id.id, doc->lab_objects);
+    } else if(auto sep = std::get_if<SeparationColor>(&c)) {
+        CHECK_INDEXNESS(sep->id.id, doc->separation_objects);
+    } else if(auto pat = std::get_if<CapyPDF_PatternId>(&c)) {
+        CHECK_OBJECT_NUMBER(pat->id, doc->pattern_objects);
+    }
+    RETOK;
+}
+
+// Rejecting bad ids before anything is serialized means that a failing call does
+// not leave behind glyphs, resources or structure items that are not used.
+rvoe<NoReturnValue> PdfDrawContext::validate_text_ids(const PdfText &text) {
+    for(const auto &e : text.get_events()) {
+        if(auto tf = std::get_if<Tf_arg>(&e)) {
+            CHECK_INDEXNESS(tf->font.id, doc->font_objects);
+        } else if(auto sitem = std::get_if<StructureItem>(&e)) {
+            CHECK_INDEXNESS(sitem->sid.id, doc->structure_items);
+        } else if(auto sarg = std::get_if<Stroke_arg>(&e)) {
+            ERCV(validate_color_id(sarg->c));
+        } else if(auto nsarg = std::get_if<Nonstroke_arg>(&e)) {
+            ERCV(validate_color_id(nsarg->c));
+        } else if(auto gs = std::get_if<gs_arg>(&e)) {
+            CHECK_OBJECT_NUMBER(gs->gid.id, doc->graphics_state_objects);
+        }
+    }
+    RETOK;
+}
+
 rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text) {
     std::optional<CapyPDF_FontId> font;
     for(const auto &e : text.get_events()) {
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 7e9148e..2debd4d 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -219,6 +219,8 @@ private:
     rvoe<int32_t> add_bcd_structure(CapyPDF_StructureItemId sid);
 
     rvoe<NoReturnValue> validate_text_contents(const PdfText &text);
+    rvoe<NoReturnValue> validate_text_ids(const PdfText &text);
+    rvoe<NoReturnValue> validate_color_id(const Color &c);
 
     PdfDocument *doc;
     PdfColorConverter *cm;
-- 
2.43.0


From 201c2898c6c17a8fb33f211b568d053b246492ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 25/44] fix: write optional content group names as text strings

The name is a PDF text string. It was written as raw bytes, so every
non-ASCII UTF-8 name was read back as mojibake.
---
 src/capi.cpp      | 7 +++++--
 src/document.cpp  | 3 ++-
 src/pdfcommon.hpp | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 48ff136..06ee458 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1947,9 +1947,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_destroy(CapyPDF_Transition *transition
 CAPYPDF_PUBLIC CapyPDF_EC capy_optional_content_group_new(CapyPDF_OptionalContentGroup **out_ptr,
                                                           const char *name) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
-    // FIXME check for ASCIIness (or even more strict?)
+    auto u8name = validate_utf8(name, -1);
+    if(!u8name) {
+        return conv_err(u8name);
+    }
     auto *ocg = new OptionalContentGroup();
-    ocg->name = name;
+    ocg->name = std::move(u8name.value());
     *out_ptr = ocg;
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/document.cpp b/src/document.cpp
index 5f60f04..009d8ba 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2182,7 +2182,8 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/OCG");
-    fmt.add_token_pair("/Name", pdfstring_quote(g.name));
+    fmt.add_token("/Name");
+    fmt.add_utf8_string(g.name);
     fmt.end_dict();
     auto id = add_object(FullPDFObject{fmt.steal(), {}});
     ocg_items.push_back(id);
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index 0e0473e..b8100b5 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -565,7 +565,7 @@ struct Transition : public _capyPDF_Transition {
 };
 
 struct OptionalContentGroup : public _capyPDF_OptionalContentGroup {
-    std::string name;
+    u8string name;
     // std::string intent;
     //  Usage usage;
 };
-- 
2.43.0


From 5912e3f8a66ad595d5f97f3f8d9c5bb1bda46a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 26/44] fix: write embedded file names as file specification
 strings

The /F entry of an embedded file used the raw bytes of the UTF-8 name,
so non-ASCII names were mangled and slashes acted as path separators.
File attachment annotations already used u8str2filespec.
---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 009d8ba..93844b1 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2107,7 +2107,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         ObjectFormatter fmt;
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Filespec");
-        fmt.add_token_pair("/F", pdfstring_quote(ef.pdfname.sv()));
+        fmt.add_token_pair("/F", u8str2filespec(ef.pdfname));
         fmt.add_token("/EF");
         fmt.begin_dict();
         fmt.add_token("/F");
-- 
2.43.0


From 1b6f2dc4671a34efeb55dc8adb6600ec5864eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 27/44] fix: do not read past the given length of a string

validate_cstring ignored the size it was given and searched for a
terminating null character, which need not exist. A text followed by
other data in the same buffer was rejected.
---
 src/capi.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 06ee458..83735a6 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -64,14 +64,18 @@ template<typename T> [[nodiscard]] CapyPDF_EC conv_err(const rvoe<T> &rc) {
 }
 
 rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
+    if(!buf) {
+        RETERR(ArgIsNull);
+    }
     if(strsize < -1) {
         RETERR(InvalidBufsize);
     }
-    std::string converted = buf;
-    if(strsize != -1) {
-        if(converted.size() != (size_t)strsize) {
-            RETERR(EmbeddedNullInString);
-        }
+    if(strsize == -1) {
+        return std::string(buf);
+    }
+    std::string converted(buf, strsize);
+    if(converted.find('\0') != std::string::npos) {
+        RETERR(EmbeddedNullInString);
     }
     return converted;
 }
-- 
2.43.0


From 27ad20389f50aa78b7beeaa6bd9439a5e09e7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 28/44] fix: show glyphs that have no Unicode value

A glyph given by its id with the code point zero was replaced by the
missing glyph in the subset font. Only the first entry is the missing
glyph, so store its real index instead of using the code point as a mark.
---
 src/fontsubsetter.cpp |  2 +-
 src/ft_subsetter.cpp  | 13 ++-----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 183aecc..49da522 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -16,7 +16,7 @@ namespace capypdf::internal {
 namespace {
 
 FontSubsetData create_startstate() {
-    std::vector<TTGlyphs> start_state{RegularGlyph{0, (uint32_t)-1}};
+    std::vector<TTGlyphs> start_state{RegularGlyph{0, 0}};
     std::unordered_map<uint32_t, uint32_t> start_mapping{};
     return FontSubsetData{std::move(start_state), std::move(start_mapping)};
 }
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 11e7c0e..f88ad8d 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -987,11 +987,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
     uint32_t counter = 0;
     for(const auto &g : glyphs) {
         if(const auto *rg = std::get_if<RegularGlyph>(&g)) {
-            if(rg->unicode_codepoint == 0) {
-                converted.emplace_back(0, 0);
-            } else {
-                converted.emplace_back(rg->unicode_codepoint, rg->glyph_index);
-            }
+            converted.emplace_back(rg->unicode_codepoint, rg->glyph_index);
         } else if(const auto *lg = std::get_if<LigatureGlyph>(&g)) {
             // The glyph represented something bigger than one codepoint,
             // such as "ffi". Just write a random value in the private
@@ -1105,12 +1101,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
 
 uint32_t font_id_for_glyph(const TTGlyphs &g) {
     if(std::holds_alternative<RegularGlyph>(g)) {
-        auto &rg = std::get<RegularGlyph>(g);
-        if(rg.unicode_codepoint == 0) {
-            return 0;
-        } else {
-            return rg.glyph_index;
-        }
+        return std::get<RegularGlyph>(g).glyph_index;
     } else if(std::holds_alternative<CompositeGlyph>(g)) {
         return std::get<CompositeGlyph>(g).glyph_index;
     } else if(std::holds_alternative<LigatureGlyph>(g)) {
-- 
2.43.0


From be29b1bfea89e2738fb8683247b29c7e0c53f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 29/44] fix: do not show a different glyph that was used for
 the same text

When an alternate glyph had been used for a character, plain text showed
the alternate for that character from then on, and a second ligature
glyph for the same text showed the first one.
---
 src/fontsubsetter.cpp | 21 ++++++++++++++-------
 src/fontsubsetter.hpp |  2 +-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 49da522..444a054 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -111,7 +111,7 @@ rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(const u8string &text,
         }
         return *existing_gid;
     }
-    auto trial = find_glyph(text);
+    auto trial = find_glyph(text, glyph_id);
     if(trial) {
         return trial.value();
     }
@@ -197,10 +197,15 @@ std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) c
 }
 
 std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint) const {
+    // The same codepoint might have been used with some other glyph.
+    const uint32_t glyph_index = FT_Get_Char_Index(face, codepoint);
     auto loc = std::find_if(
-        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint](const TTGlyphs &ttg) {
+        subset.glyphs.cbegin(),
+        subset.glyphs.cend(),
+        [&codepoint, &glyph_index](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
-                return std::get<RegularGlyph>(ttg).unicode_codepoint == codepoint;
+                const auto &rg = std::get<RegularGlyph>(ttg);
+                return rg.unicode_codepoint == codepoint && rg.glyph_index == glyph_index;
             }
             return false;
         });
@@ -210,11 +215,13 @@ std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t
     return {};
 }
 
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text) const {
-    auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&text](const TTGlyphs &ttg) {
+std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text,
+                                                        uint32_t glyph_id) const {
+    auto loc = std::find_if(
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&text, &glyph_id](const TTGlyphs &ttg) {
             if(std::holds_alternative<LigatureGlyph>(ttg)) {
-                return std::get<LigatureGlyph>(ttg).text == text;
+                const auto &lg = std::get<LigatureGlyph>(ttg);
+                return lg.text == text && lg.glyph_index == glyph_id;
             }
             return false;
         });
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 10c5c03..da3c27e 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -60,7 +60,7 @@ private:
     FontProperties props;
     std::optional<FontSubsetInfo> find_existing_glyph(uint32_t gid) const;
     std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint) const;
-    std::optional<FontSubsetInfo> find_glyph(const u8string &text) const;
+    std::optional<FontSubsetInfo> find_glyph(const u8string &text, uint32_t glyph_id) const;
 
     FontSubsetData subset;
 };
-- 
2.43.0


From 61810745168c3acdababa483c43ffa9a0e8015f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 30/44] fix: report an error when composite glyphs do not fit
 in the subset

The process was terminated instead.
---
 src/fontsubsetter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 444a054..2ba9582 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -154,8 +154,7 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
         if(subglyphs.size() + subset.glyphs.size() >= max_glyphs) {
-            fprintf(stderr, "Composite glyph overflow not yet implemented.");
-            std::abort();
+            RETERR(TooManyGlyphsUsed);
         }
         for(const auto &new_glyph : subglyphs) {
             if(subset.font_index_mapping.find(new_glyph) != subset.font_index_mapping.end()) {
-- 
2.43.0


From 439216f91586d6803b9bbdaed2cfc88a695698ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 31/44] fix: check the position of the font header before it is
 read

---
 src/ft_subsetter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index f88ad8d..893e2da 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -854,6 +854,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     TrueTypeFontFile tf;
     tf.original_data = std::move(backing);
     ERC(original_data, span_of_source(tf.original_data));
+    if(header_offset > original_data.size()) {
+        RETERR(IndexOutOfBounds);
+    }
     auto header_span = original_data.subspan(header_offset);
     if(header_span.size() < sizeof(TTOffsetTable)) {
         RETERR(MalformedFontFile);
@@ -934,12 +937,14 @@ rvoe<TrueTypeFontFile> parse_ttc_file(DataSource backing, const FontProperties &
     ERC(header, extract<TTCHeader>(original_data, 0));
     header.swap_endian();
     std::vector<uint32_t> offsets;
-    offsets.reserve(header.num_fonts);
     for(uint32_t i = 0; i < header.num_fonts; ++i) {
         ERC(off, extract<uint32_t>(original_data, sizeof(TTCHeader) + i * sizeof(uint32_t)));
         offsets.push_back(std::byteswap(off));
     }
-    return parse_truetype_file(std::move(backing), offsets.at(props.subfont));
+    if(props.subfont >= offsets.size()) {
+        RETERR(IndexOutOfBounds);
+    }
+    return parse_truetype_file(std::move(backing), offsets[props.subfont]);
 }
 
 rvoe<FontData> parse_font_file(DataSource backing, const FontProperties &props) {
-- 
2.43.0


From 4de625f4cabeec075c1d4889d8eba91b3053adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 32/44] fix: do not let table extents of fonts wrap around

---
 src/ft_subsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 893e2da..61e6d82 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -867,7 +867,7 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     for(int i = 0; i < off.num_tables; ++i) {
         ERC(e, extract<TTDirEntry>(header_span, sizeof(off) + i * sizeof(TTDirEntry)));
         e.swap_endian();
-        if(e.offset + e.length > original_data.size()) {
+        if(uint64_t(e.offset) + e.length > original_data.size()) {
             RETERR(IndexOutOfBounds);
         }
 #ifndef CAPYFUZZING
-- 
2.43.0


From 08c03a1143b47093b93ffaeb966953be487f7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 33/44] fix: report a wrong magic number in fonts as an error

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 61e6d82..d421970 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -425,7 +425,9 @@ rvoe<TTHead> load_head(const std::vector<TTDirEntry> &dir, std::span<const std::
     ERC(head, extract<TTHead>(buf, e->offset));
     head.swap_endian();
 #ifndef CAPYFUZZING
-    assert(head.magic == 0x5f0f3cf5);
+    if(head.magic != 0x5f0f3cf5) {
+        RETERR(MalformedFontFile);
+    }
 #endif
     return head;
 }
-- 
2.43.0


From 17f56401f7209c6eb1a1496d03abcc2ee56250e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 34/44] fix: stop reading the loca table of fonts with 65535
 glyphs

---
 src/ft_subsetter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index d421970..ca8a755 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -444,14 +444,14 @@ rvoe<std::vector<int32_t>> load_loca(const std::vector<TTDirEntry> &dir,
     std::vector<int32_t> offsets;
     offsets.reserve(num_glyphs);
     if(index_to_loc_format == 0) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             uint16_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(uint16_t)));
             byte_swap_inplace(offset);
             offsets.push_back(offset * 2);
         }
     } else if(index_to_loc_format == 1) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             int32_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(int32_t)));
             byte_swap_inplace(offset);
-- 
2.43.0


From 45b86347d8293a38dc5a25329392abe523278842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 35/44] fix: reject fonts without horizontal metrics

---
 src/ft_subsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index ca8a755..f9a9acf 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -495,7 +495,7 @@ rvoe<TTHmtx> load_hmtx(const std::vector<TTDirEntry> &dir,
     if(!e) {
         RETERR(MalformedFontFile);
     }
-    if(num_hmetrics > num_glyphs) {
+    if(num_hmetrics == 0 || num_hmetrics > num_glyphs) {
         RETERR(MalformedFontFile);
     }
     TTHmtx hmtx;
-- 
2.43.0


From 7335df8c5a4cde9a28d3934aa05bdbd8693156b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 36/44] fix: check the position and the glyph count of CFF
 tables

---
 src/ft_subsetter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index f9a9acf..a2e9743 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -541,10 +541,13 @@ rvoe<std::vector<std::span<std::byte>>> load_GLYF_glyphs(uint32_t offset,
 }
 
 rvoe<CFFont> load_CFF_glyphs(uint32_t offset, std::span<std::byte> buf, uint16_t num_glyphs) {
+    if(offset > buf.size()) {
+        RETERR(IndexOutOfBounds);
+    }
     auto cff_span = buf.subspan(offset);
     auto cff = parse_cff_data(cff_span);
-    if(cff.has_value()) {
-        assert(cff->char_strings.size() == num_glyphs);
+    if(cff.has_value() && cff->char_strings.size() != num_glyphs) {
+        RETERR(MalformedFontFile);
     }
     return cff;
 }
-- 
2.43.0


From cc7b5a118fac2f91dd62b69dd21f1f5c31151bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 37/44] fix: report glyphs that are not in the font when
 subsetting

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index a2e9743..cdbaed6 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -662,7 +662,9 @@ subset_glyphs(const TrueTypeFontFile &source,
     assert(std::get<RegularGlyph>(glyphs[0]).unicode_codepoint == 0);
     for(const auto &g : glyphs) {
         uint32_t gid = font_id_for_glyph(g);
-        assert(gid < source.glyphs.size());
+        if(gid >= source.glyphs.size()) {
+            RETERR(IndexOutOfBounds);
+        }
         ERC(gdata, get_glyph_data(source, face, gid));
         subset.push_back(gdata);
         if(!subset.back().empty()) {
-- 
2.43.0


From 044e48d9d739b0683c2402298c812674e3115d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 38/44] fix: check the size of composite glyphs before their
 parts are read

---
 src/ft_subsetter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index cdbaed6..6d64318 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1052,6 +1052,9 @@ rvoe<bool> is_composite_glyph(const std::vector<std::byte> &buf) {
 rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf) {
     std::vector<uint32_t> subglyphs;
     assert(num_contours(buf).value() < 0);
+    if(buf.size() < 5 * sizeof(int16_t)) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
@@ -1080,6 +1083,9 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
                                  const std::unordered_map<uint32_t, uint32_t> &mapping) {
     const int64_t header_size = 5 * sizeof(int16_t);
 
+    if(buf.size() < size_t(header_size)) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
@@ -1101,8 +1107,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         }
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
-            fprintf(stderr, "FAILfailFAIL\n");
-            std::abort();
+            RETERR(MalformedFontFile);
         }
         glyph_index = it->second;
         byte_swap_inplace(glyph_index);
-- 
2.43.0


From 705d46daffe7a4b4d267449bce8e8f6079a31222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 39/44] fix: check that operators of CFF dictionaries have
 their operands

---
 src/cffsubsetter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 1a73d5c..1b1e8ef 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -146,6 +146,9 @@ build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CF
         // This seems to always be last.
         const auto &subrs = priv.entries.entries.back();
         if(subrs.opr == DictOperator::Subrs) {
+            if(subrs.operand.empty()) {
+                RETERR(MalformedFontFile);
+            }
             size_t local_subrs_offset = priv_dict_offset + subrs.operand.front();
             ERC(rsdata, load_index(dataspan, local_subrs_offset));
             priv.subr = std::move(rsdata);
@@ -484,6 +487,9 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
 
     auto *ence = find_command(f, DictOperator::Encoding);
     if(ence) {
+        if(ence->operand.empty()) {
+            RETERR(MalformedFontFile);
+        }
         f.predefined_encoding = ence->operand.front();
     }
     auto *cste = find_command(f, DictOperator::Charset);
@@ -501,12 +507,13 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
 
     auto *priv = find_command(f, DictOperator::Private);
     if(priv) {
-        if(priv->operand.empty()) {
+        if(priv->operand.size() != 2) {
             RETERR(MalformedFontFile);
         }
         auto dict_offset = priv->operand[1];
         auto dict_size = priv->operand[0];
-        ERC(raw_pdict, unpack_dictionary(dataspan.subspan(dict_offset, dict_size)));
+        ERC(dictspan, safe_subspan(dataspan, dict_offset, dict_size));
+        ERC(raw_pdict, unpack_dictionary(dictspan));
         ERC(processed_pdict, build_pdict_from_dict(dataspan, dict_offset, raw_pdict));
         f.pdict = std::move(processed_pdict);
     }
-- 
2.43.0


From 7679d595a2f77fa4697b3d133b756a5f5e00e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 40/44] fix: report CFF fonts without glyphs as malformed

---
 src/cffsubsetter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 1b1e8ef..aa6a460 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -484,6 +484,9 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
     offset = cse->operand.front();
     ERC(cstring, load_index(dataspan, offset));
     f.char_strings = std::move(cstring);
+    if(f.char_strings.entries.empty()) {
+        RETERR(MalformedFontFile);
+    }
 
     auto *ence = find_command(f, DictOperator::Encoding);
     if(ence) {
-- 
2.43.0


From 01cf93f8daa83c91a30ace567a4f435650b73234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 41/44] fix: read the glyph to font dictionary mapping of CFF
 fonts within bounds

---
 src/cffsubsetter.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index aa6a460..6b6030b 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -264,12 +264,13 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
                                                    uint32_t num_glyphs) {
     std::vector<CFFSelectRange3> ranges;
     size_t offset = 0;
-    const uint8_t format = (uint8_t)dataspan[offset++];
+    ERC(format, extract<uint8_t>(dataspan, offset));
+    ++offset;
     if(format == 0) {
-        std::vector<std::byte> selector_array{dataspan.begin() + offset,
-                                              dataspan.begin() + offset + num_glyphs};
-        // FIXME. OR maybe not. This seems to be used in generated
-        // subset fonts only.
+        for(uint32_t i = 0; i < num_glyphs; ++i) {
+            ERC(fd, extract<uint8_t>(dataspan, offset + i));
+            ranges.push_back(CFFSelectRange3{uint16_t(i), fd});
+        }
         return ranges;
     } else if(format == 3) {
         ERC(nRg, extract_and_swap<uint16_t>(dataspan, offset));
@@ -549,6 +550,9 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
             RETERR(MalformedFontFile);
         }
         ERC(fdsstr, unpack_fdselect(dataspan.subspan(offset), f.char_strings.size()));
+        if(fdsstr.empty() || fdsstr.front().first != 0) {
+            RETERR(MalformedFontFile);
+        }
         f.fdselect = std::move(fdsstr);
     }
     return f;
-- 
2.43.0


From bd1368c3e62db81a27bb3f4c57df911e68b1c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 42/44] fix: do not recurse into the parts of composite glyphs

---
 src/fontsubsetter.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 2ba9582..4a88d1d 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -24,15 +24,20 @@ FontSubsetData create_startstate() {
 rvoe<NoReturnValue> add_subglyphs(std::unordered_set<uint32_t> &new_subglyphs,
                                   uint32_t glyph_id,
                                   const TrueTypeFontFile &ttfile) {
-    const auto &cur_glyph = ttfile.glyphs.at(glyph_id);
-    ERC(iscomp, is_composite_glyph(cur_glyph));
-    if(!iscomp) {
-        RETOK;
-    }
-    ERC(subglyphs, composite_subglyphs(cur_glyph));
-    for(const auto &g : subglyphs) {
-        if(new_subglyphs.insert(g).second) {
-            ERCV(add_subglyphs(new_subglyphs, g, ttfile));
+    // Parts can be nested arbitrarily deep in malformed fonts so do not recurse.
+    std::vector<uint32_t> pending{glyph_id};
+    while(!pending.empty()) {
+        const auto &cur_glyph = ttfile.glyphs.at(pending.back());
+        pending.pop_back();
+        ERC(iscomp, is_composite_glyph(cur_glyph));
+        if(!iscomp) {
+            continue;
+        }
+        ERC(subglyphs, composite_subglyphs(cur_glyph));
+        for(const auto &g : subglyphs) {
+            if(new_subglyphs.insert(g).second) {
+                pending.push_back(g);
+            }
         }
     }
     RETOK;
-- 
2.43.0


From dcceb90d474a3620045bf76ef4350983aa9ec8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 43/44] fix: do not let the end of a substring wrap around

---
 src/bitfiddling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfiddling.cpp b/src/bitfiddling.cpp
index 443f459..bba419f 100644
--- a/src/bitfiddling.cpp
+++ b/src/bitfiddling.cpp
@@ -15,7 +15,7 @@ rvoe<std::span<const std::byte>> get_substring(const char *buf,
     if(offset > bufsize) {
         RETERR(IndexOutOfBounds);
     }
-    if(offset + substr_size > bufsize) {
+    if(substr_size > bufsize - offset) {
         RETERR(IndexOutOfBounds);
     }
     if(substr_size == 0) {
-- 
2.43.0


From dd10a146aadc869b49d9f9a76d030d9dc2cb26de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 44/44] fix: skip the scale of the parts of composite glyphs

---
 src/ft_subsetter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 6d64318..a1a2028 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -849,6 +849,21 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     return buf;
 }
 
+// The number of bytes that the transformation of a component takes.
+int64_t composite_scale_size(uint16_t component_flag) {
+    const uint16_t HAVE_A_SCALE = 0x08;
+    const uint16_t HAVE_XY_SCALE = 0x40;
+    const uint16_t HAVE_TWO_BY_TWO = 0x80;
+    if(component_flag & HAVE_A_SCALE) {
+        return sizeof(int16_t);
+    } else if(component_flag & HAVE_XY_SCALE) {
+        return 2 * sizeof(int16_t);
+    } else if(component_flag & HAVE_TWO_BY_TWO) {
+        return 4 * sizeof(int16_t);
+    }
+    return 0;
+}
+
 rvoe<int16_t> num_contours(std::span<const std::byte> buf) {
     ERC(num_contours, extract<int16_t>(buf, 0));
     byte_swap_inplace(num_contours);
@@ -1073,6 +1088,7 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
         } else {
             composite_offset += 2 * sizeof(int8_t);
         }
+        composite_offset += composite_scale_size(component_flag);
         subglyphs.push_back(glyph_index);
     } while(component_flag & MORE_COMPONENTS);
     return subglyphs;
@@ -1105,6 +1121,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         } else {
             composite_offset += 2 * sizeof(int8_t);
         }
+        composite_offset += composite_scale_size(component_flag);
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
             RETERR(MalformedFontFile);
-- 
2.43.0

