#include "h.hpp"
#include <utils.hpp>
#include <pdfcommon.hpp>
using namespace capypdf::internal;
// independent decoder: table 3-7 of the Unicode standard
static int u8len(const std::string &s, size_t i, uint32_t &cp) {
    auto b = [&](size_t k) -> int { return i + k < s.size() ? (unsigned char)s[i + k] : -1; };
    auto c = [&](size_t k) { return b(k) >= 0x80 && b(k) <= 0xBF; };
    int x = b(0);
    if(x < 0x80) { cp = x; return 1; }
    if(x >= 0xC2 && x <= 0xDF && c(1)) { cp = (x & 31) << 6 | (b(1) & 63); return 2; }
    if(x >= 0xE0 && x <= 0xEF && c(1) && c(2)) {
        cp = (x & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63);
        return cp < 0x800 || (cp >= 0xD800 && cp < 0xE000) ? 0 : 3;
    }
    if(x >= 0xF0 && x <= 0xF7 && c(1) && c(2) && c(3)) {
        cp = (x & 7) << 18 | (b(1) & 63) << 12 | (b(2) & 63) << 6 | (b(3) & 63);
        return cp < 0x10000 || cp > 0x10FFFF ? 0 : 4;
    }
    return 0;
}
static void one(const std::string &s) {
    ++g_evals;
    std::vector<uint32_t> cps;
    bool ok = true;
    for(size_t i = 0; i < s.size();) {
        uint32_t cp;
        int l = u8len(s, i, cp);
        if(!l) { ok = false; break; }
        cps.push_back(cp);
        i += l;
    }
    // exact-size heap copy: reading past the end is visible to the sanitizer build
    std::vector<char> exact(s.begin(), s.end());
    std::string_view sv(exact.data(), exact.size());
    if(is_valid_utf8(sv) != ok) {
        fail("validate", "is_valid_utf8 is " + std::to_string(!ok) + " for bytes " + hexs(s));
        return;
    }
    bool nul = s.find('\0') != std::string::npos;
    auto u = u8string::from_view(sv);
    if(bool(u) != (ok && !nul)) { fail("from_view", "from_view accepts=" + std::to_string(bool(u)) + " bytes " + hexs(s)); return; }
    if(!nul) {
        auto u2 = u8string::from_cstr(s.c_str());
        if(bool(u2) != ok || (u2 && u2->sv() != s)) fail("from_cstr", "from_cstr wrong for bytes " + hexs(s));
    }
    if(!u) return;
    if(u->sv() != s) fail("stored", "stored text differs for bytes " + hexs(s));
    std::vector<uint32_t> got;
    for(const auto c : *u) { got.push_back(c); if(got.size() > s.size() + 4) break; }
    if(got != cps) fail("iterate", "code points differ for bytes " + hexs(s));
    got.clear();
    for(auto it = u->begin(); it != u->end() && got.size() < s.size() + 4;) { auto old = it++; got.push_back(*old); if(*old != got.back()) fail("iterate", "unstable"); }
    if(got != cps) fail("iterate_post", "code points differ with post increment for bytes " + hexs(s));
    std::string want;
    char buf[16];
    for(auto c : cps) {
        if(c < 0x10000) { snprintf(buf, 16, "%04X", c); }
        else { snprintf(buf, 16, "%04X%04X", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)); }
        want += buf;
    }
    auto up = [](std::string x) { for(auto &c : x) c = toupper(c); return x; };
    if(up(utf8_to_pdfutf16be(*u)) != "<FEFF" + want + ">") fail("utf16", "UTF-16BE of " + hexs(s) + " is " + utf8_to_pdfutf16be(*u));
    if(up(utf8_to_pdfutf16be(*u, false)) != want) fail("utf16plain", "UTF-16BE of " + hexs(s) + " is " + utf8_to_pdfutf16be(*u, false));
}
static std::string enc(uint32_t c) {
    std::string r;
    if(c < 0x80) r += (char)c;
    else if(c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
int main(int argc, char **argv) {
    std::mt19937 rng(argc > 2 ? atoi(argv[2]) : 1);
    at("utf8 enumeration");
    const unsigned char cls[] = {0x01, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFF, 0x00};
    const int N = sizeof(cls);
    one("");
    for(int a = 0; a < 256; ++a) {
        one(std::string(1, (char)a));
        for(int b = 0; b < 256; ++b) one(std::string{(char)a, (char)b});
    }
    for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) for(int c = 0; c < N; ++c) {
        one(std::string{(char)cls[a], (char)cls[b], (char)cls[c]});
        for(int d = 0; d < N; ++d) one(std::string{(char)cls[a], (char)cls[b], (char)cls[c], (char)cls[d]});
    }
    // every code point, alone and after another one
    for(uint32_t c = 1; c < 0x110000; c += (c < 0x3000 ? 1 : 17)) { one(enc(c)); one("a" + enc(c) + "b"); }
    for(uint32_t c : {0xD7FFu, 0xE000u, 0xFFFFu, 0x10000u, 0x10FFFFu, 0xFFFDu}) { one(enc(c)); one(enc(c) + enc(c)); }
    for(uint32_t c : {0x110000u, 0x13FFFFu, 0x1FFFFFu}) one(enc(c));
    // the same short patterns at the end of longer texts (vectorised or blocked validators)
    const char *pat[] = {"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xED\xA0\x80", "\xC0\x80", "\xF4\x90\x80\x80", "\x80", "\xFF"};
    for(int len = 0; len < 70; ++len) for(auto p : pat) {
        one(std::string(len, 'x') + p);
        one(std::string(len, 'x') + p + std::string(len % 9, 'y'));
        std::string m;
        for(int i = 0; i < len; ++i) m += "\xC3\xA9";
        one(m + p);
    }
    for(int k = 0; k < 60000; ++k) {
        std::string s;
        int n = rng() % 40;
        for(int i = 0; i < n; ++i) {
            if(rng() % 40 == 0) s += (char)cls[rng() % (N - 1)];
            else { uint32_t c = rng() % 4 ? rng() % 0x3000 + 1 : rng() % 0x10FFFF + 1; if(c >= 0xD800 && c < 0xE000) c = 'x'; s += enc(c); }
        }
        one(s);
    }
    sample("e282ac");
    return done("all 1- and 2-byte strings, 3/4-byte strings over boundary bytes, code points, long texts; oracle: Unicode table 3-7");
}
