// helpers of the model based harnesses: expected text forms
#pragma once
#include "ops.hpp"
#include "pdfcheck.hpp"
static std::string u16be(const std::string &s) {
    std::string o = "\xfe\xff";
    for(size_t i = 0; i < s.size();) {
        unsigned c = (unsigned char)s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        unsigned v = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0xF : c & 7;
        for(int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 0x3F);
        i += n;
        auto put16 = [&](unsigned x) { o += (char)(x >> 8); o += (char)(x & 255); };
        if(v < 0x10000) put16(v); else { v -= 0x10000; put16(0xD800 + (v >> 10)); put16(0xDC00 + (v & 0x3FF)); }
    }
    return o;
}
static const PObj *catalog(PFile &f) { auto *r = f.trailer.get("Root"); return f.R(r); }
static bool onepage(World &w) {
    CapyPDF_DrawContext *c; if(capy_page_draw_context_new(w.gen, &c)) return false;
    capy_dc_cmd_n(c);
    bool ok = capy_generator_add_page(w.gen, c) == 0;
    capy_dc_destroy(c);
    return ok;
}
