#include "model.hpp"
#include <utils.hpp>
#include <pdfcommon.hpp>
#include <objectformatter.hpp>
#include <xmlformatter.hpp>
using namespace capypdf::internal;
// every quoting function against an independent decoder; then documents whose texts are read back from the written file
static std::string xmltext(const std::string &s, bool &ok, bool attr = false) {
    std::string r; ok = true;
    for(size_t i = 0; i < s.size(); ++i) {
        if(s[i] == '<' || s[i] == '\r') { ok = false; return r; }
        if(!attr && s[i] == ']' && s.compare(i, 3, "]]>") == 0) { ok = false; return r; }
        if(s[i] != '&') { r += s[i]; continue; }
        size_t e = s.find(';', i); if(e == std::string::npos) { ok = false; return r; }
        std::string n = s.substr(i + 1, e - i - 1);
        if(n == "lt") r += '<'; else if(n == "gt") r += '>'; else if(n == "amp") r += '&'; else if(n == "quot") r += '"'; else if(n == "apos") r += '\'';
        else if(n.size() > 1 && n[0] == '#') { int v = n[1] == 'x' ? strtol(n.c_str() + 2, nullptr, 16) : atoi(n.c_str() + 1); if(v <= 0 || v > 127) { ok = false; return r; } r += (char)v; }
        else { ok = false; return r; }
        i = e;
    }
    return r;
}
static bool token(const std::string &t, PObj::K k, std::string &out) {
    PLex L(t, 0, t.size()); PObj o = L.obj(); L.skip();
    if(o.k != k || L.p != t.size()) return false;
    out = o.s; return true;
}
static const std::string BOM = "\xef\xbb\xbf";
static std::string unslash(const std::string &s, bool &bare) {
    std::string r; bare = false;
    for(size_t i = 0; i < s.size(); ++i) { if(s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '/') { r += '/'; ++i; } else { if(s[i] == '/') bare = true; r += s[i]; } }
    return r;
}
static void one(const std::string &s) {
    ++g_evals;
    std::string o; auto show = [&](const std::string &t) { return " for bytes " + hexs(s) + ": " + t; };
    std::string q = pdfstring_quote(s);
    if(!token(q, PObj::Str, o) || o != s) fail("pdfstring_quote", "the literal string does not decode to the text" + show(q));
    q = bytes2pdfstringliteral(s);
    if(!s.empty() && (!token(q, PObj::Name, o) || o != s) && s.find('\0') == std::string::npos) fail("name", "the name does not decode to the text" + show(q));
    for(unsigned char c : q.substr(1)) if(c < 0x21 || c > 0x7e) { fail("namechar", "irregular character in a name" + show(q)); break; }
    if(bytes2pdfstringliteral(s, false) != q.substr(1)) fail("nameslash", "the name without slash differs" + show(q));
    ObjectFormatter f; f.add_bytestring(s); q = f.steal();
    if(!token(q, PObj::Str, o) || o != s) fail("bytestring", "the string does not decode to the text" + show(q));
    auto u = u8string::from_view(s);
    if(!u) return;
    for(auto t : {u8str2u8textstring(*u), u8str2u8textstring(u->sv())})
        if(!token(t, PObj::Str, o) || o != BOM + s) fail("u8text", "the text string does not decode to the text" + show(t));
    q = u8str2filespec(*u); bool bare, ok;
    if(!token(q, PObj::Str, o) || o.compare(0, 3, BOM) || unslash(o.substr(3), bare) != s || bare) fail("filespec", "the file specification does not denote the name" + show(q));
    q = utf8_to_pdfutf16be(*u);
    if(!token(q, PObj::Str, o) || o != u16be(s)) fail("utf16", "the text string does not decode to the text" + show(q));
    ObjectFormatter g; g.add_utf8_string(*u); q = g.steal();
    if(!token(q, PObj::Str, o) || o != u16be(s)) fail("utf8_string", "the text string does not decode to the text" + show(q));
    std::string x = "<a>"; quote_xml_element_data_into(*u, x);
    if(x.compare(0, 3, "<a>") || xmltext(x.substr(3), ok) != s || !ok) fail("xml", "the character data does not read as the text" + show(x));
    x = ""; quote_xml_element_data_unchecked_into(s, x);
    if(xmltext(x, ok) != s || !ok) fail("xml", "the character data does not read as the text" + show(x));
    if(s.find_first_of("\n\r\t") == std::string::npos) {
        XMLFormatter m; m.add_text_unchecked("?"); m.start_tag("a"); m.add_tag_attribute("b", s); m.finish_standalone_tag(); q = m.steal();
        size_t b = q.find('"'), e = q.find('"', b + 1);
        if(q.substr(e) != "\"/>" || xmltext(q.substr(b + 1, e - b - 1), ok, true) != s || !ok) fail("attr", "the attribute value does not read as the text" + show(q));
    }
}
static std::string utf8(uint32_t c) {
    std::string r;
    if(c < 0x80) r += (char)c;
    else if(c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
// text string -> UTF-8 (PDFDocEncoding: ASCII part only, the rest is marked)
static std::string textstring(const std::string &s) {
    if(s.compare(0, 3, BOM) == 0) return s.substr(3);
    std::string r;
    if(s.compare(0, 2, "\xfe\xff") == 0) {
        auto unit = [&](size_t i) { return (uint32_t)((unsigned char)s[i] << 8 | (unsigned char)s[i + 1]); };
        for(size_t i = 2; i + 1 < s.size(); i += 2) { uint32_t c = unit(i); if(c >= 0xD800 && c < 0xDC00 && i + 3 < s.size()) { c = 0x10000 + ((c - 0xD800) << 10) + (unit(i + 2) - 0xDC00); i += 2; } r += utf8(c); }
        return r;
    }
    for(unsigned char c : s) if(c >= 0x80 || (c < 0x20 && c != 9 && c != 10 && c != 13)) r += "<?>"; else r += (char)c;
    return r;
}
struct Seen { std::set<std::string> str, text, name, file; };
static void collect(const PObj &o, Seen &S) {
    if(o.k == PObj::Str) { S.str.insert(o.s); std::string t = textstring(o.s); S.text.insert(t); bool bare; std::string f = unslash(t, bare); if(!bare) S.file.insert(f); }
    if(o.k == PObj::Name) S.name.insert(o.s);
    for(auto &x : o.a) collect(x, S);
    for(auto &x : o.d) { S.name.insert(x.first); collect(x.second, S); }
}
struct Want { char kind; std::string what, text; };
static void document(World &w, bool pdfa) {
    std::vector<Want> want; int id = 0; std::string path = w.dir + "/t.pdf";
    auto tag = [&] { return "q" + std::to_string(++id) + "z"; };
    auto tail = [&] { return w.r(6) ? std::string() : std::string(w.r(400), 'l') + "e"; };
    auto U = [&](char k, const char *what) {
        std::string s;
        do s = w.str(8) + tag() + w.str(8) + tail(); while(pdfa && std::any_of(s.begin(), s.end(), [](unsigned char c) { return c < 32 && c != 9 && c != 10 && c != 13; }));
        want.push_back({k, what, s}); return s;
    };
    auto ascii = [&] { std::string s = w.ascii(8); for(auto &c : s) if(!c) c = '~'; return s; };
    auto A = [&](char k, const char *what) { std::string s = ascii(); if(k == 'N' && !s.empty() && s[0] == '/') s = "x"; s += tag() + ascii() + tail(); want.push_back({k, what, s}); return s; };
    // a text is given with its length or with a terminating NUL
    std::string keep; int len = -1;
    auto P = [&](std::string s) { len = w.r(2) ? -1 : (int)s.size(); if(len >= 0) s += w.r(2) ? "junk" : ""; keep = s; return keep.c_str(); };
    int bad = 0; const char *call = ""; EC why = 0;
    auto ok = [&](EC rc, const char *c) { ++g_evals; if(rc) { ++bad; if(bad == 1) { call = c; why = rc; } } };
#define T(f, obj, s, ...) do { const char *p_ = P(s); ok(f(obj, p_, len __VA_ARGS__), #f); } while(0)
    CapyPDF_DocumentProperties *dp; capy_document_properties_new(&dp);
    CapyPDF_Generator *gen = nullptr;
    if(!pdfa) T(capy_document_properties_set_title, dp, U('T', "document title"));
    if(!pdfa) T(capy_document_properties_set_author, dp, U('T', "document author"));
    T(capy_document_properties_set_creator, dp, U(pdfa ? 'X' : 'T', "document creator"));
    if(pdfa) {
        capy_document_properties_set_pdfa(dp, CAPY_PDFA_4f);
        T(capy_document_properties_set_output_intent, dp, U('T', "output intent"));
        std::string f = w.dir + "/t.icc"; FILE *o = fopen(f.c_str(), "wb"); fwrite(icc_profile(3).data(), 1, icc_profile(3).size(), o); fclose(o);
        capy_document_properties_set_device_profile(dp, CAPY_DEVICE_CS_RGB, f.c_str());
    } else T(capy_document_properties_set_language, dp, A('B', "document language"));
    capy_document_properties_set_colorspace(dp, CAPY_DEVICE_CS_RGB);
    capy_document_properties_set_tagged(dp, 1);
    ok(capy_generator_new(path.c_str(), dp, &gen), "generator_new");
    capy_document_properties_destroy(dp);
    if(!gen) { fail("new", "the document cannot be created"); return; }
    CapyPDF_DrawContext *dc = nullptr; capy_page_draw_context_new(gen, &dc);
    CapyPDF_FontId font; bool hasfont = !font_files().empty() && capy_generator_load_font(gen, font_files()[0].c_str(), nullptr, &font) == 0;
    { std::string s = U('T', "page label prefix"); const char *p = P(s); ok(capy_generator_add_page_labeling(gen, 0, nullptr, p, len, nullptr), "add_page_labeling"); }
    for(int k = 0; k < 2; ++k) { CapyPDF_Outline *o; capy_outline_new(&o); T(capy_outline_set_title, o, U('T', "outline title")); CapyPDF_OutlineId i; ok(capy_generator_add_outline(gen, o, &i), "add_outline"); capy_outline_destroy(o); }
    if(!pdfa) {
        double d01[] = {0, 1}, r4[] = {0, 1, 0, 1, 0, 1, 0, 1}; CapyPDF_Function *f4; CapyPDF_FunctionId fid; const char *code = "{dup 0 mul exch dup 0 mul exch dup 0 mul exch}";
        if(capy_type4_function_new(d01, 2, r4, 8, code, -1, &f4) == 0) { if(capy_generator_add_function(gen, f4, &fid) == 0) { std::string s = A('N', "separation name"); const char *p = P(s); CapyPDF_SeparationId sid; ok(capy_generator_add_separation(gen, p, len, CAPY_DEVICE_CS_CMYK, fid, &sid), "add_separation"); } capy_function_destroy(f4); }
        for(int k = 0; k < 2; ++k) {
            CapyPDF_EmbeddedFile *e; capy_embedded_file_new(&e); capy_embedded_file_set_contents(e, "abc", 3);
            T(capy_embedded_file_set_subtype, e, A('N', "embedded file type"));
            std::string nm = U('F', "embedded file name"); want.push_back({'B', "embedded file key", nm});
            T(capy_embedded_file_set_pdf_name, e, nm);
            CapyPDF_EmbeddedFileId i; ok(capy_generator_embed_file(gen, e, &i), "embed_file"); capy_embedded_file_destroy(e);
        }
        CapyPDF_OptionalContentGroup *og; CapyPDF_OptionalContentGroupId oid; ok(capy_optional_content_group_new(&og, U('T', "optional content group name").c_str()), "ocg_new"); ok(capy_generator_add_optional_content_group(gen, og, &oid), "add_ocg"); capy_optional_content_group_destroy(og);
        auto annot = [&](CapyPDF_Annotation *a) { capy_annotation_set_rectangle(a, 1, 1, 9, 9); CapyPDF_AnnotationId i; ok(capy_generator_add_annotation(gen, a, &i), "add_annotation"); ok(capy_dc_annotate(dc, i), "annotate"); capy_annotation_destroy(a); };
        CapyPDF_Annotation *a; { std::string s = U('T', "annotation text"); const char *p = P(s); ok(capy_text_annotation_new(p, len, &a), "text_annotation"); annot(a); }
        { std::string s = U('T', "line annotation text"); const char *p = P(s); ok(capy_line_annotation_new(p, len, 1, 2, 3, 4, &a), "line_annotation"); annot(a); }
        { capy_link_annotation_new(&a); T(capy_annotation_set_uri, a, A('B', "URI")); annot(a); }
        for(auto ty : {CAPY_FORM_FIELD_TYPE_TX, CAPY_FORM_FIELD_TYPE_CH}) { CapyPDF_FormField *f; capy_form_field_new(ty, &f); { std::string s; do { s = w.str(8); } while(s.find('.') != std::string::npos); s += tag(); want.push_back({'T', "field name", s}); T(capy_form_field_set_T, f, s); }
            if(ty == CAPY_FORM_FIELD_TYPE_TX) T(capy_form_field_set_V, f, U('T', "field value")); else T(capy_form_field_add_Opt_entry, f, U('T', "field choice"));
            CapyPDF_FormFieldId i; ok(capy_generator_add_form_field(gen, f, &i), "add_form_field"); capy_form_field_destroy(f); }
        CapyPDF_Collection *q; capy_collection_new(&q); { std::string s = ascii() + tag(); want.push_back({'B', "collection document", s}); T(capy_collection_set_D, q, s); }
        CapyPDF_CollectionSchema *sc; capy_collection_schema_new(&sc);
        for(int k = 0; k < 2; ++k) { CapyPDF_CollectionField *f = nullptr; { std::string s = U('T', "collection field"); const char *p = P(s); ok(capy_collection_field_new(CAPY_COLLECTION_SUB_S, p, len, &f), "collection_field"); } { std::string s = A('N', "collection key"); const char *p = P(s); ok(capy_collection_schema_add_entry(sc, p, len, f), "schema_add_entry"); } capy_collection_field_destroy(f); }
        ok(capy_collection_set_schema(q, sc), "set_schema"); capy_collection_schema_destroy(sc); ok(capy_generator_set_collection(gen, q), "set_collection"); capy_collection_destroy(q);
        CapyPDF_Viewport *v; capy_viewport_new(0, 0, 5, 5, &v); CapyPDF_Measure *m; capy_measure_new(&m);
        for(int k = 0; k < 4; ++k) { CapyPDF_NumberFormat *f; std::string s = U('T', "unit label"); const char *p = P(s); ok(capy_number_format_new(p, len, 1.5, &f), "number_format"); (k == 0 ? capy_measure_append_X : k == 1 ? capy_measure_append_Y : k == 2 ? capy_measure_append_D : capy_measure_append_A)(m, f); capy_number_format_destroy(f); }
        capy_viewport_set_measure(v, m); capy_measure_destroy(m); ok(capy_dc_append_viewport(dc, v), "append_viewport"); capy_viewport_destroy(v);
        std::string t; do t = A('N', "marked content tag"); while(0); ok(capy_dc_cmd_BMC(dc, t.c_str()), "BMC"); capy_dc_cmd_EMC(dc);
        CapyPDF_BDCTags *bt; capy_bdc_tags_new(&bt); { std::string k = A('N', "property key"), vv = A('B', "property value"); int kl = w.r(2) ? -1 : (int)k.size(), vl = w.r(2) ? -1 : (int)vv.size(); if(kl >= 0 && w.r(2)) k += "junk"; if(vl >= 0 && w.r(2)) vv += "junk"; ok(capy_bdc_tags_add_tag(bt, k.c_str(), kl, vv.c_str(), vl), "add_tag"); }
        { std::string s = A('N', "property list tag"); const char *p = P(s); ok(capy_dc_cmd_BDC_testing(dc, p, len, bt), "BDC"); } capy_dc_cmd_EMC(dc); capy_bdc_tags_destroy(bt);
    }
    CapyPDF_RoleId role; { std::string s = A('N', "role name"); const char *p = P(s); ok(capy_generator_add_rolemap_entry(gen, p, len, CAPY_STRUCTURE_TYPE_P, &role), "add_rolemap_entry"); }
    CapyPDF_StructItemExtraData *ex; capy_struct_item_extra_data_new(&ex);
    T(capy_struct_item_extra_data_set_t, ex, U('T', "structure title")); T(capy_struct_item_extra_data_set_lang, ex, A('B', "structure language"));
    T(capy_struct_item_extra_data_set_alt, ex, U('T', "structure alt")); T(capy_struct_item_extra_data_set_actual_text, ex, U('T', "structure actual text"));
    CapyPDF_StructureItemId root, kid; ok(capy_generator_add_structure_item(gen, CAPY_STRUCTURE_TYPE_DOCUMENT, nullptr, nullptr, &root), "add_structure_item");
    ok(capy_generator_add_custom_structure_item(gen, role, &root, ex, &kid), "add_custom_structure_item"); capy_struct_item_extra_data_destroy(ex);
    ok(capy_dc_cmd_BDC_builtin(dc, kid, nullptr), "BDC_builtin"); capy_dc_cmd_EMC(dc);
    if(hasfont) {
        CapyPDF_Text *tx; capy_dc_text_new(dc, &tx); capy_text_cmd_Tf(tx, font, 12); CapyPDF_TextSequence *ts; capy_text_sequence_new(&ts);
        T(capy_text_sequence_append_actualtext_start, ts, U('T', "actual text")); capy_text_sequence_append_codepoint(ts, 'A'); capy_text_sequence_append_actualtext_end(ts);
        ok(capy_text_cmd_TJ(tx, ts), "TJ"); ok(capy_dc_render_text_obj(dc, tx), "render_text_obj"); capy_text_sequence_destroy(ts); capy_text_destroy(tx);
    }
    capy_dc_cmd_n(dc);
    ok(capy_generator_add_page(gen, dc), "add_page");
    EC rc = capy_generator_write(gen);
    capy_dc_destroy(dc); capy_generator_destroy(gen);
    if(bad) { fail(std::string("rejected:") + call, std::string("legal text was rejected by ") + call + ": " + capy_error_message(why)); unlink(path.c_str()); unlink((w.dir + "/t.icc").c_str()); return; }
    if(rc) { fail("write", std::string("the document cannot be written: ") + capy_error_message(rc)); unlink((w.dir + "/t.icc").c_str()); return; }
    PFile f; f.load(slurp(path)); Seen S; std::string xmp;
    for(auto &[n, o] : f.obj) {
        collect(o, S);
        auto *st = o.k == PObj::Dict ? o.get("Subtype") : nullptr, *ty = o.k == PObj::Dict ? o.get("Type") : nullptr;
        if(st && st->is("XML")) xmp += f.data(n);
        if(ty && ty->is("Page")) if(auto *c = o.get("Contents"); c && c->k == PObj::Ref) { std::string d = f.data(c->ref); PLex L(d, 0, d.size()); L.content = true; for(;;) { PObj x = L.obj(); if(x.k == PObj::End || x.k == PObj::Err) break; collect(x, S); } }
    }
    for(auto &x : want) {
        bool have = false, xo = true;
        switch(x.kind) { case 'T': have = S.text.count(x.text); break; case 'B': have = S.str.count(x.text); break; case 'N': have = S.name.count(x.text); break; case 'F': have = S.file.count(x.text); break;
            case 'X': { size_t b = xmp.find("CreatorTool>"), e = xmp.find("</xmp:CreatorTool>"); have = b != std::string::npos && e != std::string::npos && xmltext(xmp.substr(b + 12, e - b - 12), xo) == x.text && xo; break; } }
        if(!have) fail("readback:" + x.what, x.what + " " + hexs(x.text) + " does not occur in the written file");
    }
    unlink(path.c_str()); unlink((w.dir + "/t.icc").c_str());
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick"; uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    std::mt19937_64 rng(seed);
    at("quoting functions");
    const unsigned char cls[] = {0, 1, 8, 9, 10, 12, 13, 32, 33, '"', '#', '%', '&', '(', ')', '/', '0', '9', ';', '<', '>', '?', 'A', '[', '\\', ']', 'n', 'r', '{', '}', '~', 0x7f, 0x80, 0xc3, 0xa4, 0xff};
    const int N = sizeof cls;
    one("");
    for(int a = 0; a < 256; ++a) { one(std::string(1, (char)a)); for(int b = 0; b < N; ++b) { one(std::string(1, (char)a) + (char)cls[b]); one(std::string(1, (char)cls[b]) + (char)a); } }
    for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) for(int c = 0; c < N; ++c) one(std::string{(char)cls[a], (char)cls[b], (char)cls[c]});
    World g; g.rng.seed(seed);
    for(int k = 0; k < (tier == "quick" ? 20000 : 1000000); ++k) {
        std::string s;
        if(k & 1) { int n = rng() % 40; for(int i = 0; i < n; ++i) s += (char)(rng() % 3 ? cls[rng() % N] : rng()); }
        else s = g.str(40);
        if(k % 997 == 0) { std::string t; for(int i = 0; i < 300; ++i) t += s; s = t; }
        one(s);
    }
    for(uint32_t c = 1; c < 0x110000; c += tier == "quick" ? 0x61 : 1) if(c < 0xD800 || c >= 0xE000) { one(utf8(c)); one("(" + utf8(c) + "\\"); }
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    int worlds = tier == "quick" ? 120 : 4000;
    for(int i = 0; i < worlds; ++i) isolated("document " + std::to_string(seed * 100000 + i), [&] {
        World w; w.rng.seed(seed * 100000 + i); char t[] = "/tmp/capyver-w-XXXXXX"; w.dir = mkdtemp(t);
        document(w, i % 6 == 5);
        rmdir(w.dir.c_str());
    });
    return done("quoting functions and texts read back from documents");
}
