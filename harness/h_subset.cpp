#include "model.hpp"
#include <ft2build.h>
#include FT_FREETYPE_H
// random shown text; every code of the written page is followed through width, text mapping and the embedded font back to the glyph that was asked for
struct Outline { long adv = -1; std::vector<long> p; bool operator==(const Outline &o) const { return adv == o.adv && p == o.p; } };
static bool glyph(FT_Face f, unsigned gid, Outline &o) {
    if(FT_Load_Glyph(f, gid, FT_LOAD_NO_SCALE | FT_LOAD_NO_HINTING | FT_LOAD_LINEAR_DESIGN)) return false;
    o.adv = f->glyph->metrics.horiAdvance; o.p.clear();
    auto &l = f->glyph->outline;
    for(int i = 0; i < l.n_points; ++i) { o.p.push_back(l.points[i].x); o.p.push_back(l.points[i].y); o.p.push_back(l.tags[i] & 3); }
    for(int i = 0; i < l.n_contours; ++i) o.p.push_back(1000000 + l.contours[i]);
    return true;
}
static std::string enc(uint32_t c) {
    std::string r;
    if(c < 0x80) r += (char)c; else if(c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
static std::string hex16(const std::string &u8) { std::string b = u16be(u8).substr(2), r; char x[3]; for(unsigned char c : b) { snprintf(x, 3, "%02X", c); r += x; } return r; }
struct FontRec { CapyPDF_FontId id; std::string path; FT_Face face; std::vector<uint32_t> chars; };
struct Shown { int font; uint32_t gid; std::string text; bool plain; };
static FT_Library lib;
static std::map<std::string, std::string> g_fonts;
static std::map<std::string, std::vector<uint32_t>> g_chars;
struct Emb { FT_Face face = nullptr; std::vector<double> w; std::map<unsigned, std::string> uni; std::string bytes; };
// composite glyphs with a scaled part that is not the last one
static std::vector<unsigned> scaled_parts(const std::string &b) {
    auto u = [&](size_t o, int n) { uint32_t v = 0; for(int i = 0; i < n; ++i) v = v << 8 | (o + i < b.size() ? (unsigned char)b[o + i] : 0); return v; };
    std::map<std::string, uint32_t> t; for(unsigned i = 0; i < u(4, 2); ++i) t[b.substr(12 + 16 * i, 4)] = u(20 + 16 * i, 4);
    std::vector<unsigned> r; if(!t.count("glyf") || !t.count("loca")) return r;
    bool lf = u(t["head"] + 50, 2); unsigned n = u(t["maxp"] + 4, 2);
    auto loc = [&](unsigned g) { return lf ? u(t["loca"] + 4 * g, 4) : 2 * u(t["loca"] + 2 * g, 2); };
    for(unsigned g = 0; g < n; ++g) {
        size_t p = t["glyf"] + loc(g); if(loc(g + 1) < loc(g) + 14 || u(p, 2) < 0x8000) continue;
        bool odd = false; unsigned f; p += 10;
        do { f = u(p, 2); bool sc = f & 0xC8; p += 4 + (f & 1 ? 4 : 2) + (f & 8 ? 2 : f & 0x40 ? 4 : f & 0x80 ? 8 : 0); if(sc && f & 0x20) odd = true; } while(f & 0x20 && p < b.size());
        if(odd) r.push_back(g);
    }
    return r;
}
static std::map<std::string, std::vector<unsigned>> g_odd;
static void document(World &w, int fid0, bool big) {
    std::string path = w.dir + "/s.pdf";
    CapyPDF_DocumentProperties *dp; capy_document_properties_new(&dp);
    CapyPDF_Generator *gen = nullptr;
    if(capy_generator_new(path.c_str(), dp, &gen)) { fail("new", "the document cannot be created"); return; }
    capy_document_properties_destroy(dp);
    auto files = font_files(); std::vector<FontRec> fonts;
    for(int k = 0; k < (big ? 1 : 1 + (int)w.r(2)); ++k) {
        FontRec f; f.path = files[(fid0 + k) % files.size()];
        if(capy_generator_load_font(gen, f.path.c_str(), nullptr, &f.id)) { fail("load", "font " + f.path + " cannot be loaded"); continue; }
        auto &b = g_fonts[f.path];
        FT_New_Memory_Face(lib, (const FT_Byte *)b.data(), b.size(), 0, &f.face); f.chars = g_chars[f.path]; fonts.push_back(f);
    }
    // a small alphabet makes characters and glyphs collide
    std::vector<std::vector<uint32_t>> abc(fonts.size());
    for(size_t k = 0; k < fonts.size(); ++k) { int n = big ? 400 : 3 + w.r(12); for(int i = 0; i < n; ++i) abc[k].push_back(w.r(3) || big ? fonts[k].chars[w.r(fonts[k].chars.size())] : 'A' + w.r(26)); }
    std::vector<std::vector<Shown>> want;
    int pages = 1 + w.r(3);
    CapyPDF_DrawContext *dc = nullptr; capy_page_draw_context_new(gen, &dc);
    for(int pg = 0; pg < pages; ++pg) {
        std::vector<Shown> all;
        for(int t = 0, nt = 1 + w.r(4); t < nt; ++t) {
            int k = w.r(fonts.size()); std::vector<Shown> sh;
            auto ch = [&] { return abc[k][w.r(abc[k].size())]; };
            auto anyglyph = [&](int k) -> uint32_t { auto &o = g_odd[fonts[k].path]; if(!o.empty() && w.r(8) == 0) return o[w.r(o.size())]; return w.r(2) ? FT_Get_Char_Index(fonts[k].face, ch()) : 1 + w.r(std::min(60L, fonts[k].face->num_glyphs - 1)); };
            auto put = [&](uint32_t c) { sh.push_back({k, FT_Get_Char_Index(fonts[k].face, c), enc(c), true}); };
            auto str = [&](int n) { std::string s; for(int i = 0; i < n; ++i) { uint32_t c = ch(); s += enc(c); put(c); } return s; };
            EC rc; int kind = w.r(4);
            if(kind == 0) { std::string s = str(1 + w.r(big ? 300 : 6)); rc = capy_dc_render_text(dc, s.c_str(), w.r(2) ? -1 : (int)s.size(), fonts[k].id, 10, 1, 1); }
            else {
                CapyPDF_Text *tx; capy_dc_text_new(dc, &tx);
                for(int seg = 1 + w.r(3); seg > 0; --seg) {       // the font may change within a text object
                k = w.r(fonts.size()); capy_text_cmd_Tf(tx, fonts[k].id, 12); kind = 1 + w.r(3);
                if(kind == 1) { std::string s = str(1 + w.r(6)); capy_text_cmd_Tj(tx, s.c_str(), -1); }
                else {
                    CapyPDF_TextSequence *q; capy_text_sequence_new(&q);
                    for(int i = 0, n = 1 + w.r(8); i < n; ++i) switch(w.r(5)) {
                        case 0: { uint32_t c = ch(); put(c); capy_text_sequence_append_codepoint(q, c); break; }
                        case 1: { std::string s = str(1 + w.r(4)); capy_text_sequence_append_string(q, s.c_str(), -1); break; }
                        case 2: { uint32_t c = ch(), g = anyglyph(k); if(w.r(8) == 0) c = 0; sh.push_back({k, g, c ? enc(c) : std::string(1, 0), false}); capy_text_sequence_append_raw_glyph(q, g, c); break; }
                        case 3: { uint32_t g = anyglyph(k); std::string s; for(int j = 0, m = 1 + w.r(2); j < m; ++j) s += enc(w.r(2) ? 'a' + w.r(2) : ch()); sh.push_back({k, g, s, false}); capy_text_sequence_append_ligature_glyph(q, g, s.c_str(), -1); break; }
                        default: capy_text_sequence_append_kerning(q, 5);
                    }
                    capy_text_cmd_TJ(tx, q); capy_text_sequence_destroy(q);
                }
                }
                rc = capy_dc_render_text_obj(dc, tx); capy_text_destroy(tx);
            }
            ++g_evals;
            if(rc) fail("rejected", std::string("text of existing glyphs was rejected: ") + capy_error_message(rc)); else all.insert(all.end(), sh.begin(), sh.end());
        }
        capy_dc_cmd_n(dc);
        if(capy_generator_add_page(gen, dc)) { fail("page", "the page cannot be added"); return; }
        want.push_back(all);
    }
    EC rc = capy_generator_write(gen); capy_dc_destroy(dc); capy_generator_destroy(gen);
    if(rc) { fail("write", std::string("the document cannot be written: ") + capy_error_message(rc)); return; }
    PFile F; F.load(slurp(path)); unlink(path.c_str());
    std::map<int, Emb> emb; std::map<std::pair<int, unsigned>, Shown> owner; std::map<std::pair<int, std::string>, unsigned> code_of;
    std::map<std::pair<int, uint32_t>, std::set<std::string>> texts;
    for(auto &v : want) for(auto &x : v) texts[{x.font, x.gid}].insert(hex16(x.text));
    auto *kids = F.at(F.at(catalog(F), "Pages"), "Kids");
    if(!kids || kids->a.size() != want.size()) { fail("pages", "the pages cannot be read back"); return; }
    std::map<int, int> which;       // font object -> font of the model
    for(size_t pg = 0; pg < want.size(); ++pg) {
        auto *P = F.R(&kids->a[pg]); auto *c = P->get("Contents");
        std::string d = F.data(c->ref); PLex L(d, 0, d.size()); L.content = true;
        std::vector<std::pair<int, unsigned>> got; int font = -1; PObj last;
        for(;;) {
            PObj o = L.obj(); if(o.k == PObj::End || o.k == PObj::Err) break;
            auto take = [&](const PObj &x) { if(x.k == PObj::Str) for(size_t i = 0; i + 1 < x.s.size(); i += 2) got.push_back({font, (unsigned char)x.s[i] << 8 | (unsigned char)x.s[i + 1]}); if(x.k == PObj::Str && x.s.size() % 2) fail("odd", "a shown string has an odd number of bytes"); };
            if(o.k == PObj::Op && (o.s == "Tj" || o.s == "TJ")) { take(last); for(auto &x : last.a) take(x); }
            if(o.k == PObj::Name) { auto *fd = F.at(F.at(P, "Resources"), "Font"); if(fd) if(auto *r = fd->get(o.s)) font = r->ref; }
            if(o.k != PObj::Num) last = o;
        }
        if(got.size() != want[pg].size()) { fail("count", "a page shows " + std::to_string(got.size()) + " codes instead of " + std::to_string(want[pg].size())); return; }
        for(size_t i = 0; i < got.size(); ++i) {
            ++g_evals;
            auto [fo, code] = got[i]; auto &x = want[pg][i]; auto &src = fonts[x.font];
            std::string me = " (" + std::string(x.plain ? "character " : "glyph ") + std::to_string(x.gid) + " text " + hexs(x.text) + " shown as code " + std::to_string(code) + " of " + src.path.substr(src.path.rfind('/') + 1) + ")";
            if(which.count(fo) && which[fo] != x.font) { fail("font", "a character is shown with another font" + me); return; }
            which[fo] = x.font;
            if(!emb.count(fo)) {
                Emb e; auto *T0 = &F.obj[fo]; auto *de = F.at(T0, "DescendantFonts"); auto *cid = de && !de->a.empty() ? F.R(&de->a[0]) : nullptr;
                auto *W = F.at(cid, "W"); auto *fd = F.at(cid, "FontDescriptor"); auto *ff = fd ? fd->get("FontFile3") : nullptr; if(fd && !ff) ff = fd->get("FontFile2"); auto *tu = T0->get("ToUnicode");
                if(!W || W->a.size() != 2 || !ff || !tu) { fail("fontdict", "the font dictionary is incomplete"); return; }
                for(auto &n : W->a[1].a) e.w.push_back(n.n);
                e.bytes = F.data(ff->ref);
                emb[fo] = e; Emb &E = emb[fo];
                if(FT_New_Memory_Face(lib, (const FT_Byte *)E.bytes.data(), E.bytes.size(), 0, &E.face)) { fail("embedded", "the embedded font cannot be read"); return; }
                std::string m = F.data(tu->ref); size_t p = 0; int left = 0; unsigned a;
                while(p < m.size()) { size_t q = m.find('\n', p); std::string ln = m.substr(p, q - p); p = q == std::string::npos ? m.size() : q + 1; int n; char u[4096];
                    if(sscanf(ln.c_str(), "%d beginbfchar", &n) == 1 && ln.find("beginbfchar") != std::string::npos) { left = n; if(n > 100) fail("cmap", "a block of the text map has more than 100 entries"); }
                    else if(ln == "endbfchar") { if(left) fail("cmap", "a block of the text map has fewer entries than announced"); }
                    else if(left > 0 && sscanf(ln.c_str(), "<%x> <%4095[0-9A-Fa-f]>", &a, u) == 2) { if(E.uni.count(a)) fail("cmap", "two texts for one code"); E.uni[a] = u; --left; } }
                Outline n0, s0; if(glyph(E.face, 0, n0) && glyph(src.face, 0, s0) && !(n0.p == s0.p)) fail("notdef", "code 0 is not the missing glyph");
            }
            Emb &E = emb[fo];
            if(code == 0) { fail("zero", "a character is shown with the missing glyph" + me); continue; }
            if(code >= E.w.size()) { fail("range", "the code is not part of the font" + me); continue; }
            Outline a, b; glyph(src.face, x.gid, a);
            if(!glyph(E.face, code, b)) { fail("noglyph", "the glyph of the code cannot be loaded" + me); continue; }
            // advance widths of CFF subsets are in the font program relative to its own matrix
            if(!(a.p == b.p)) fail("glyph", "the code shows another glyph" + me);
            double adv = (int32_t)((double)a.adv * 1000 / src.face->units_per_EM);
            if(E.w[code] != adv) fail("width", "the width of the code is that of another glyph" + me);
            std::string u = E.uni.count(code) ? E.uni[code] : "-";
            if(x.plain ? u != hex16(x.text) : !texts[{x.font, x.gid}].count(u)) fail("text", "the code maps to another text: " + u + me);
            auto ow = owner.find({fo, code});
            if(ow == owner.end()) owner[{fo, code}] = x; else if(ow->second.gid != x.gid) fail("shared", "one code for two glyphs" + me); else if(ow->second.plain && x.plain && ow->second.text != x.text) fail("shared", "one code for two characters" + me);
            if(x.plain) { auto key = std::make_pair(fo, x.text); if(code_of.count(key) && code_of[key] != code) fail("stable", "two codes for one character" + me); code_of[key] = code; }
        }
    }
    for(auto &e : emb) if(e.second.face) { if((size_t)e.second.face->num_glyphs != e.second.w.size()) fail("size", "the font and its widths have different sizes"); FT_Done_Face(e.second.face); }
    for(auto &f : fonts) FT_Done_Face(f.face);
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick"; uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    FT_Init_FreeType(&lib);
    auto files = font_files();
    if(files.empty()) return done("no font files");
    for(auto &f : files) { g_fonts[f] = slurp(f); g_odd[f] = scaled_parts(g_fonts[f]); FT_Face face; if(FT_New_Memory_Face(lib, (const FT_Byte *)g_fonts[f].data(), g_fonts[f].size(), 0, &face)) continue; FT_UInt g; for(FT_ULong c = FT_Get_First_Char(face, &g); g; c = FT_Get_Next_Char(face, c, &g)) if(c >= 32 && (c < 0xD800 || c >= 0xE000)) g_chars[f].push_back(c); FT_Done_Face(face); }
    int worlds = tier == "quick" ? 400 : 8000;
    for(int i = 0; i < worlds; ++i) isolated("document " + std::to_string(seed * 100000 + i), [&] {
        World w; w.rng.seed(seed * 100000 + i); char t[] = "/tmp/capyver-w-XXXXXX"; w.dir = mkdtemp(t);
        document(w, i, i % 40 == 7);
        unlink((w.dir + "/s.pdf").c_str()); rmdir(w.dir.c_str());
    });
    return done("documents with shown text followed back to the glyphs");
}
