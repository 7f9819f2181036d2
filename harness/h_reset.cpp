#include "ops.hpp"
// the same random application twice: once reusing its draw contexts, once with a new context after every successful
// page or form addition; both files (and all return codes) must be the same
static std::string go(uint64_t seed, int i, bool fresh, std::string &log, EC &rc) {
    World w;
    w.rng.seed(seed);
    w.weird = i % 2;
    w.plainfonts = i % 3 == 0;
    if(i % 4 == 3) { w.badval = 0.1; w.badp = 0.05; }
    auto renew = [](CtxRec &x, World &w) {
        CapyPDF_DrawContext *c;
        if(mk_ctx(w.gen, x.kind, x.l, x.b, x.r, x.t, &c)) return;
        w.open_[c] = w.open_[x.c]; w.open_.erase(x.c);
        capy_dc_destroy(x.c);
        x.c = c;
    };
    w.before = [](World &w, const char *n) { at(n); };
    w.done = [&](World &w, CapyPDF_DrawContext *c) { if(fresh) for(auto &x : w.ctx) if(x.c == c) renew(x, w); };
    run_world(w, 20 + w.r(150));
    std::string r;
    rc = 1;
    if(!w.dead) {
        rc = complete(w);
        log = w.tail(100000);
        if(rc == 0) r = slurp(w.out);
    }
    w.finish();
    // the file identifier is random
    for(size_t p = 0; (p = r.find("/ID", p)) != std::string::npos; ++p) { size_t e = r.find(']', p); if(e != std::string::npos && e - p < 200) r.erase(p, e - p); }
    return r;
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick";
    uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    setenv("SOURCE_DATE_EPOCH", "1700000000", 1);
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    int worlds = tier == "quick" ? 250 : 4000;
    for(int i = 0; i < worlds; ++i) isolated("world " + std::to_string(seed * 100000 + i), [&] {
        std::string l1, l2; EC r1, r2;
        std::string a = go(seed * 100000 + i, i, false, l1, r1), b = go(seed * 100000 + i, i, true, l2, r2);
        if(l1 != l2) { size_t p = 0; while(p < l1.size() && l1[p] == l2[p]) ++p; size_t q = l1.rfind(';', p ? p - 1 : 0); q = q == std::string::npos ? 0 : q + 1; std::string op = l1.substr(q, l1.find_first_of("!?;", q) - q); fail("reused context differs: " + op, "return codes of a call differ between a reused and a new context: " + l1.substr(p > 300 ? p - 300 : 0, 340)); }
        else if(r1 != r2) fail("reused context differs: write", "writing differs after " + l1);
        else if(a != b) { if(getenv("KEEP")) { for(int k = 0; k < 2; ++k) { FILE *o = fopen((std::string(getenv("KEEP")) + (k ? ".b" : ".a")).c_str(), "wb"); auto &z = k ? b : a; fwrite(z.data(), 1, z.size(), o); fclose(o); } } size_t p = 0; while(p < a.size() && p < b.size() && a[p] == b[p]) ++p; std::string x = a.substr(p > 60 ? p - 60 : 0, 120); fail("reused context differs: output", "files differ: with reuse \"" + x + "\", with new contexts \"" + b.substr(p > 60 ? p - 60 : 0, 120) + "\""); }
    });
    return done("random applications run with reused and with new contexts, outputs compared byte for byte");
}
