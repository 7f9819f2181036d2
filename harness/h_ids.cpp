#include "ops.hpp"
// random applications that also use invalid identifiers: a call that was given one reports an error, and the document
// is byte for byte the one that is written when those calls are left out
struct Step { size_t op; std::mt19937_64 rng; EC rc; bool bad; };
static std::string stable(std::string r) {
    for(size_t p = 0; (p = r.find("/ID", p)) != std::string::npos; ++p) { size_t e = r.find(']', p); if(e != std::string::npos && e - p < 200) r.erase(p, e - p); }   // random
    return r;
}
static std::string go(uint64_t seed, int i, std::vector<Step> &steps, bool replayed, std::string &log) {
    World w;
    w.rng.seed(seed);
    w.weird = i % 2;
    w.plainfonts = i % 3 == 0;
    w.badp = i % 4 ? 0.12 : 0.3;
    w.before = [](World &w, const char *n) { at(n); };
    w.start();
    if(w.dead) { w.finish(); return ""; }
    new_ctx(w, w.gen, CAPY_DC_PAGE);
    auto &ops = all_ops();
    if(!replayed) {
        int n = 20 + w.r(i % 6 == 0 ? 400 : 120);
        for(int k = 0; k < n && !w.dead; ++k) {
            Step s;
            const Op &o = pick_op(w, nullptr);
            s.op = &o - ops.data();
            s.rng = w.rng;
            s.rc = w.run(o);
            s.bad = w.usedbad;
            steps.push_back(s);
            ++g_evals;
            if(s.bad && s.rc == 0) fail(std::string("accepted ") + o.name, std::string("a call that was given an invalid identifier succeeded: ") + w.tail());
        }
    } else for(auto &s : steps) {
        if(s.bad && s.rc != 0) continue;
        w.rng = s.rng;
        EC rc = w.run(ops[s.op]);
        if(rc != s.rc) { fail(std::string("effect on ") + ops[s.op].name, std::string("a call has another outcome after calls with invalid identifiers were rejected: ") + std::to_string(s.rc) + " instead of " + std::to_string(rc) + ", " + w.tail()); break; }
    }
    w.rng.seed(seed);
    std::string r;
    log = w.tail();
    at("write");
    EC rc = complete(w);
    r = rc ? "error " + std::to_string(rc) : stable(slurp(w.out));
    w.finish();
    return r;
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick";
    uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    setenv("SOURCE_DATE_EPOCH", "1700000000", 1);
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    int worlds = tier == "quick" ? 300 : 5000;
    for(int i = 0; i < worlds; ++i) { if(getenv("WORLD") && atoi(getenv("WORLD")) != int(seed * 100000 + i)) continue; isolated("world " + std::to_string(seed * 100000 + i), [&] {
        std::vector<Step> steps;
        std::string l1, l2;
        std::string a = go(seed * 100000 + i, i, steps, false, l1), b = go(seed * 100000 + i, i, steps, true, l2);
        if(a != b) {
            if(getenv("KEEP")) for(int k = 0; k < 2; ++k) { FILE *o = fopen((std::string(getenv("KEEP")) + (k ? ".b" : ".a")).c_str(), "wb"); auto &z = k ? b : a; fwrite(z.data(), 1, z.size(), o); fclose(o); }
            size_t p = 0; while(p < a.size() && p < b.size() && a[p] == b[p]) ++p;
            fail("partial effect", "the written document differs: with rejected calls \"" + a.substr(p > 60 ? p - 60 : 0, 120) + "\", without \"" + b.substr(p > 60 ? p - 60 : 0, 120) + "\" after " + l1);
        }
    }); }
    // contexts belong to the document they were created for
    for(int kind = 0; kind < 4; ++kind) isolated("foreign context", [&] {
        World w;
        w.rng.seed(seed + kind);
        w.foreign = true;
        static const CapyPDF_Draw_Context_Type ks[] = {CAPY_DC_PAGE, CAPY_DC_FORM_XOBJECT, CAPY_DC_TRANSPARENCY_GROUP, CAPY_DC_COLOR_TILING};
        w.start();
        if(w.dead || !w.gen2) { w.finish(); return; }
        CapyPDF_DrawContext *c;
        at("foreign context");
        if(mk_ctx(w.gen2, ks[kind], 0, 0, 10, 10, &c) == 0) {
            EC rc;
            if(kind == 0) rc = capy_generator_add_page(w.gen, c);
            else if(kind == 1) { CapyPDF_FormXObjectId id; rc = capy_generator_add_form_xobject(w.gen, c, &id); }
            else if(kind == 2) { CapyPDF_TransparencyGroupId id; rc = capy_generator_add_transparency_group(w.gen, c, &id); }
            else { CapyPDF_PatternId id; rc = capy_generator_add_tiling_pattern(w.gen, c, &id); }
            ++g_evals;
            if(rc == 0) fail("foreign context " + std::to_string(kind), "a draw context of another document was accepted");
            capy_dc_destroy(c);
        }
        w.finish();
    });
    return done("random applications with invalid identifiers, outputs compared with the same application without those calls");
}
