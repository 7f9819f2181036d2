#include "world.hpp"
#include <fontsubsetter.hpp>
#include <ft2build.h>
#include FT_FREETYPE_H
// fonts with one or more bytes changed or cut off are parsed and subset under AddressSanitizer: success or an error, nothing else
using namespace capypdf::internal;
namespace capypdf::internal { rvoe<FontData> parse_font_file(DataSource backing, const FontProperties &props); }
typedef std::string S;
static S be(uint64_t v, int n) { S r; for(int i = n - 1; i >= 0; --i) r += (char)(v >> (8 * i)); return r; }
static S b2(int v) { return be(v & 0xFFFF, 2); }
static S b4(uint32_t v) { return be(v, 4); }
static S sfnt(const S &magic, const std::vector<std::pair<S, S>> &tabs, size_t base = 0, bool reverse = false) {
    S dir = magic + b2(tabs.size()) + S(6, 0), body; size_t at = 12 + 16 * tabs.size();
    std::vector<size_t> pos(tabs.size());
    for(size_t j = 0; j < tabs.size(); ++j) { size_t i = reverse ? tabs.size() - 1 - j : j; pos[i] = base + at + body.size(); body += tabs[i].second; if(j + 1 < tabs.size()) while(body.size() % 4) body += '\0'; }
    for(size_t i = 0; i < tabs.size(); ++i) dir += tabs[i].first + b4(0) + b4(pos[i]) + b4(tabs[i].second.size());
    return dir + body;
}
static S simple(int n) { S r = b2(1) + b2(0) + b2(0) + b2(100) + b2(100) + b2(2) + b2(0); for(int i = 0; i < 3; ++i) r += (char)0x37; for(int i = 0; i < 3; ++i) r += (char)(n + i); for(int i = 0; i < 3; ++i) r += (char)i; while(r.size() % 4) r += '\0'; return r; }
static S comp(std::vector<std::pair<int, int>> parts) { S r = b2(-1) + b2(0) + b2(0) + b2(9) + b2(9); for(size_t i = 0; i < parts.size(); ++i) { int f = parts[i].second | (i + 1 < parts.size() ? 0x20 : 0); r += b2(f) + b2(parts[i].first); r += S(f & 1 ? 4 : 2, 1); if(f & 8) r += S(2, 1); else if(f & 0x40) r += S(4, 1); else if(f & 0x80) r += S(8, 1); } while(r.size() % 4) r += '\0'; return r; }
static S head(int lf) { return b4(0x10000) + b4(0x10000) + b4(0) + b4(0x5F0F3CF5) + b2(0) + b2(1000) + S(16, 0) + b2(0) + b2(0) + b2(100) + b2(100) + b2(0) + b2(8) + b2(2) + b2(lf) + b2(0); }
static S hhea(int n) { return b4(0x10000) + b2(800) + b2(-200) + b2(0) + b2(600) + S(22, 0) + b2(n); }
static std::vector<std::pair<S, S>> ttables(int n, bool longloca, int hm, bool maxp05) {
    std::vector<S> g{simple(0), simple(3), comp({{1, 1}, {0, 8}}), comp({{2, 0x40}, {1, 0x80}}), S(), simple(9)};
    while((int)g.size() < n) g.push_back(S());
    g.resize(n);
    S glyf, loca; auto off = [&] { loca += longloca ? b4(glyf.size()) : b2(glyf.size() / 2); };
    for(auto &x : g) { off(); glyf += x; } off();
    S hm_; for(int i = 0; i < n; ++i) hm_ += i < hm ? b2(500 + i) + b2(i) : b2(i);
    S cmap = b2(0) + b2(1) + b2(1) + b2(0) + b4(12) + b2(0) + b2(262) + b2(0) + S(256, 1);
    return {{"cmap", cmap}, {"cvt ", b2(1) + b2(2)}, {"fpgm", S(3, 1)}, {"glyf", glyf}, {"head", head(longloca)}, {"hhea", hhea(hm)}, {"hmtx", hm_}, {"loca", loca},
            {"maxp", maxp05 ? b4(0x5000) + b2(n) : b4(0x10000) + b2(n) + S(26, 1)}, {"prep", S(5, 2)}};
}
static S ttc(const S &a, std::vector<std::pair<S, S>> tabs) { (void)a; S r = "ttcf" + b4(0x10000) + b4(2); S f0 = sfnt(b4(0x10000), tabs, 20); S f1 = sfnt(b4(0x10000), tabs, 20 + f0.size()); return r + b4(20) + b4(20 + f0.size()) + f0 + f1; }
static S index(std::vector<S> v, int osz = 1) { S r = b2(v.size()); if(v.empty()) return r; r += (char)osz; size_t o = 1; r += be(o, osz); for(auto &x : v) { o += x.size(); r += be(o, osz); } for(auto &x : v) r += x; return r; }
static S num(int v) { return (char)29 + b4(v); }
static S cff(bool cid, int fmt, int osz) {
    std::vector<S> cs{S("\x0e", 1), S("\x8b\x8b\x15\x0e", 4), S("\xef\x0e", 2), S("\x8b\x8b\x15\x8c\x8c\x05\x0e", 7), S("\x0e", 1)};
    S priv = num(500) + (char)20 + num(510) + (char)21 + S("\x8b", 1) + (char)18; size_t privnosubr = priv.size(); priv += num(privnosubr + 6) + (char)19;
    S subrs = index({S("\x0b", 1), S("\x8b\x0b", 2)}, osz);
    S charset = fmt == 0 ? S(1, 0) + b2(1) + b2(2) + b2(3) + b2(4) : fmt == 1 ? S(1, 1) + b2(1) + (char)1 + b2(7) + (char)1 : S(1, 2) + b2(1) + b2(3);
    S fds = fmt == 0 ? S(1, 0) + S("\0\0\1\1\0", 5) : S(1, 3) + b2(2) + b2(0) + (char)0 + b2(3) + (char)1 + b2(5);
    S strs = index({S("Adobe"), S("Identity"), S("A notice"), S("Full")}, osz), gs = index({S("\x0b", 1)}, osz), name = index(std::vector<S>{S("Font")}, 1);
    int pos[8] = {0};
    auto top = [&] { S t;
        if(cid) t += num(391) + num(392) + num(0) + S("\x0c\x1e", 2);
        t += num(393) + (char)1 + num(394) + (char)2 + num(394) + (char)3 + num(394) + (char)4 + num(0) + num(0) + num(100) + num(100) + (char)5;
        if(cid) t += num(0) + S("\x0c\x1f", 2) + num(5) + S("\x0c\x22", 2) + num(pos[3]) + S("\x0c\x24", 2) + num(pos[4]) + S("\x0c\x25", 2);
        t += num(pos[0]) + (char)15 + num(pos[1]) + (char)17;
        if(!cid) t += num(0) + (char)16 + num(priv.size()) + num(pos[2]) + (char)18;
        t += S("\x1e\xe2\xa2\x5f", 4) + (char)7; t.pop_back(); t += S("\x0c\x03", 2);   // a real number as underline position
        return index({t}, 2); };
    auto fda = [&] { S d = num(394) + S("\x0c\x26", 2) + num(priv.size()) + num(pos[2]) + (char)18; return index({d, d}, osz); };
    S r;
    for(int k = 0; k < 2; ++k) {
        r = S("\1\0\4", 3) + (char)osz + name + top() + strs + gs;
        pos[0] = r.size(); r += charset; pos[1] = r.size(); r += index(cs, osz); pos[2] = r.size(); r += priv + subrs;
        if(cid) { pos[3] = r.size(); r += fda(); pos[4] = r.size(); r += fds; }
    }
    return r;
}
static S otf(const S &c) { auto t = ttables(5, true, 5, true); std::vector<std::pair<S, S>> o{{"CFF ", c}}; for(auto &x : t) if(x.first != "glyf" && x.first != "loca" && x.first != "cvt " && x.first != "fpgm" && x.first != "prep") o.push_back(x); return sfnt("OTTO", o); }
static std::vector<std::byte> bytes(const S &s) { std::vector<std::byte> v; v.reserve(s.size()); for(unsigned char c : s) v.push_back((std::byte)c); v.shrink_to_fit(); return v; }
static long g_ok, g_gen; static FT_FaceRec g_face;
static bool within(std::span<const std::byte> x, const std::byte *p, size_t n) { return x.empty() || (x.data() >= p && x.data() + x.size() <= p + n); }
static unsigned touch(std::span<const std::byte> x) { unsigned s = 0; for(auto c : x) s += (unsigned)c; return s; }
static void checkcff(const CFFont &f, const std::byte *p, size_t n, const S &what) {
    auto idx = [&](const CFFIndex &i, const char *nm, size_t skip = 0) { for(size_t k = 0; k + skip < i.entries.size(); ++k) { if(!within(i.entries[k], p, n)) { fail("outside", S("an entry of ") + nm + " lies outside the data: " + what); return; } touch(i.entries[k]); } };
    idx(f.name, "the names"); idx(f.string, "the strings", f.is_cid ? 0 : 2); idx(f.global_subr, "the global subroutines"); idx(f.char_strings, "the glyphs");
    if(f.pdict.subr) idx(*f.pdict.subr, "the local subroutines");
    for(auto &d : f.fdarray) if(d.priv && d.priv->subr) idx(*d.priv->subr, "the subroutines of a font dictionary");
    if(f.char_strings.size() == 0) fail("noglyphs", "a font without glyphs was accepted: " + what);
    for(unsigned g = 0; g < f.char_strings.size() && g < 10; ++g) f.get_fontdict_id(g);
}
template<class F> static void guard(F f) { try { f(); } catch(const std::exception &) {} }      // the C interface reports exceptions as errors
static void one(const S &data, const S &what, int subfont = 0) {
    ++g_evals; guard([&] {
        auto v = bytes(data); const std::byte *p = v.data(); size_t n = v.size();
        FontProperties props; props.subfont = subfont;
        auto r = parse_font_file(DataSource{std::span<std::byte>(v)}, props);
        if(!r) return;
        auto &fd = r.value();
        auto *t = std::get_if<TrueTypeFontFile>(&fd);
        if(!t) return;
        ++g_ok;
        for(auto &g : t->glyphs) { if(!within(g, p, n)) fail("outside", "the data of a glyph lies outside the font: " + what); touch(g); }
        if(!t->cff) { size_t k = t->maxp.num_glyphs(); if(t->hmtx.longhor.size() + t->hmtx.left_side_bearings.size() != k || t->hmtx.longhor.empty() || (!t->glyphs.empty() && t->glyphs.size() != k)) fail("counts", "the number of glyphs and metrics differ: " + what); }
        if(t->cff) checkcff(*t->cff, p, n, what);
        auto v2 = bytes(data);
        auto r2 = parse_font_file(DataSource{std::span<std::byte>(v2)}, props);
        if(!r2) { fail("again", "a font was accepted only once: " + what); return; }
        unsigned num = t->cff ? t->cff->char_strings.size() : t->glyphs.size();
        auto start = [] { return FontSubsetData{{RegularGlyph{0, 0}}, {}}; };
        FontSubsetter sub(std::move(std::get<TrueTypeFontFile>(r2.value())), &g_face, start(), props);
        auto gen = [&] { guard([&] { auto out = sub.generate_subset(*t); if(out) { ++g_gen; touch(out.value()); } }); };
        unsigned gids[] = {1, 3, 2, 4, 5, num - 1, num / 2};
        for(auto g : gids) if(g < num) guard([&] { (void)sub.get_glyph_subset((uint32_t)(0x40 + g), std::optional<uint32_t>(g)); });
        gen();
        for(unsigned g : {num, num + 1, 65535u, 0xFFFFFFFFu}) {
            auto r3 = parse_font_file(DataSource{std::span<std::byte>(v2)}, props);
            FontSubsetter s2(std::move(std::get<TrueTypeFontFile>(r3.value())), &g_face, start(), props);
            guard([&] { (void)s2.get_glyph_subset(0x41u, std::optional<uint32_t>(g)); }); guard([&] { auto out = s2.generate_subset(*t); if(out) touch(out.value()); });
            guard([&] { std::vector<TTGlyphs> gs{RegularGlyph{0, 0}, RegularGlyph{0x41, g}}; auto out = generate_font(*t, props, &g_face, gs, {}); if(out) touch(out.value()); });
            if(num > 1000) break;
        }
    });
}
static void onecff(const S &data, const S &what) {
    ++g_evals; guard([&] {
        auto v = bytes(data); const std::byte *p = v.data(); size_t n = v.size();
        auto r = parse_cff_data(DataSource{std::move(v)}); if(!r) return;
        ++g_ok; checkcff(r.value(), p, n, what);
        for(unsigned k = 0; k < 3; ++k) guard([&] { std::vector<SubsetGlyphs> s{{0, 0}, {0x41, 1}}; if(k == 1) s.push_back({0x42, (uint16_t)(r.value().char_strings.size() - 1)}); if(k == 2) s.push_back({0x43, 65535}); CFFWriter w(r.value(), s); auto c = w.create(); if(c) { ++g_gen; touch(w.steal()); } });
    });
}
struct Base { S name, data; bool iscff; int sub; size_t lo, hi; int step; };
static void run(const Base &b, const S &d, const S &w) { printf("AT %s\t%s\n", b.name.c_str(), w.c_str()); fflush(stdout); if(b.iscff) onecff(d, b.name + " " + w); else one(d, b.name + " " + w, b.sub); fflush(stdout); }
static void put(S &d, size_t i, uint64_t v, int n) { S x = be(v, n); for(int k = 0; k < n && i + k < d.size(); ++k) d[i + k] = x[k]; }
static void mutate(const Base &b, size_t i) {
    size_t n = b.data.size(); const auto *u = (const unsigned char *)b.data.data();
    auto go = [&](int w, uint64_t v) { if(i + w > n) return; S d = b.data; put(d, i, v, w); if(d != b.data) run(b, d, "byte " + std::to_string(i) + " width " + std::to_string(w) + " value " + std::to_string(v & (w == 4 ? 0xFFFFFFFF : w == 2 ? 0xFFFF : 0xFF))); };
    int o1 = u[i], o2 = i + 1 < n ? o1 << 8 | u[i + 1] : 0; uint32_t o4 = i + 3 < n ? (uint32_t)o2 << 16 | u[i + 2] << 8 | u[i + 3] : 0;
    for(int v : {0, 1, 2, 5, 0x7F, 0x80, 0xFF, o1 + 1, o1 - 1}) go(1, v);
    for(int v : {0x7FFF, 0x8000, 0xFFFF, o2 + 1, o2 - 1, o2 ^ 0x20, o2 ^ 1, (int)n, (int)n - 1, (int)n / 2}) go(2, v);
    for(uint32_t v : {0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFF0u, (uint32_t)n, (uint32_t)n - 1, (uint32_t)n + 1, (uint32_t)n - 2, (uint32_t)n - 4, (uint32_t)n - 53, o4 + 2, o4 + 4, o4 - 4, 0u - o4}) go(4, v);
}
static void buffers(std::mt19937_64 &g) {
    // composite glyph data of any length, exactly in its buffer
    ++g_evals; std::unordered_map<uint32_t, uint32_t> m; for(int i = 0; i < 6; ++i) m[i] = 5 - i;
    S d = comp({{(int)(g() % 6), (int)(g() & 0xC9)}, {(int)(g() % 6), (int)(g() & 0xC9)}, {1, 1}}); d.resize(g() % (d.size() + 1)); if(g() % 2 && d.size() > 10) d[g() % d.size()] = (char)g();
    printf("AT composite glyph\t%s\n", hexs(d).c_str()); fflush(stdout);
    auto v = bytes(d); guard([&] { auto c = is_composite_glyph(v); if(c && c.value()) { auto p = composite_subglyphs(v); if(p && p.value().size() * 6 > v.size()) fail("parts", "more parts than the glyph has room for: " + hexs(d)); (void)reassign_composite_glyph_numbers(v, m); } });
    fflush(stdout);
}
static int g_shard = 0, g_shards = 1; static long g_job;
template<class F> static void job(const S &where, F f, int secs = 40) { if(g_job++ % g_shards == g_shard) isolated(where, f, secs); }
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick"; uint64_t seed = argc > 2 ? atoll(argv[2]) : 1; bool quick = tier == "quick";
    if(argc > 4) { g_shard = atoi(argv[3]); g_shards = atoi(argv[4]); }
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    auto T = ttables(6, false, 4, false), TL = ttables(6, true, 6, true);
    std::vector<Base> bs;
    auto add = [&](const char *nm, const S &d, bool c, int sub = 0, size_t hi = 0, int step = 1) { bs.push_back({nm, d, c, sub, 0, hi ? std::min(hi, d.size()) : d.size(), step}); };
    add("TrueType font", sfnt(b4(0x10000), T), false);
    add("TrueType font with a long loca table", sfnt(b4(0x10000), TL, 0, true), false);
    add("font collection", ttc("", T), false, 1);
    add("CFF data", cff(false, 1, 1), true);
    add("CFF data with CIDs", cff(true, 3, 2), true);
    add("CFF data with offsets of three bytes", cff(false, 2, 3), true);
    add("CFF data with CIDs of format 0", cff(true, 0, 4), true);
    add("OpenType font", otf(cff(false, 2, 2)), false);
    add("OpenType font with CIDs", otf(cff(true, 3, 1)), false);
    S real = slurp(g_root + "/testdata/fonts/P052-Roman.otf");
    if(!real.empty()) add("P052-Roman.otf", real, false, 0, 12 + 16 * 12, 4);
    for(auto &b : bs) {      // the bases themselves are sound
        g_ok = g_gen = 0; job(b.name + " unchanged", [&] { run(b, b.data, "unchanged"); if(!g_ok || !g_gen) fail("sound", "a sound font was rejected: " + b.name); });
    }
    job("font with 65535 glyphs", [&] { for(int hm : {1, 65535}) { Base b{"font with 65535 glyphs", sfnt(b4(0x10000), ttables(65535, true, hm, false)), false, 0, 0, 0, 1}; run(b, b.data, "unchanged"); if(!g_ok) fail("sound", "a sound font with 65535 glyphs was rejected"); } }, 60);
    for(auto &b : bs) {
        if(b.data.size() < 5000) { size_t n = b.data.size(); for(size_t c = 0; c < n; c += 100) job(b.name + " cut off", [&] { for(size_t k = c; k < std::min(n, c + 100); ++k) run(b, b.data.substr(0, k), "first " + std::to_string(k) + " bytes"); }, 60); }
        const size_t B = 24 * b.step;
        for(size_t c = b.lo; c < b.hi; c += B) job(b.name + " changed", [&] { for(size_t i = c; i < std::min(b.hi, c + B); i += b.step) mutate(b, i); }, 60);
    }
    int rounds = quick ? 60 : 3000;
    for(int k = 0; k < rounds; ++k) job("round " + std::to_string(seed * 100000 + k), [&] {
        std::mt19937_64 g(seed * 100000 + k);
        for(int t = 0; t < 60; ++t) {
            auto &b = bs[g() % bs.size()]; S d = b.data; S w = "random";
            for(int j = 2 + g() % 3; j > 0; --j) { size_t i = g() % std::min(b.hi, d.size()); int n = 1 << g() % 3; uint64_t v = g() % 3 ? (g() % 2 ? d.size() - g() % 8 : g() % 16) : g(); put(d, i, v, n); w += " " + std::to_string(i) + "/" + std::to_string(n) + "=" + std::to_string((uint32_t)v); }
            if(g() % 4 == 0) { d.resize(g() % d.size()); w += " cut at " + std::to_string(d.size()); }
            run(b, d, w);
        }
        for(int t = 0; t < 60; ++t) buffers(g);
    }, 60);
    return done("fonts with changed bytes parsed and subset under AddressSanitizer");
}
