#include "ops.hpp"
#include "pdfcheck.hpp"
// random documents, checked by an independent strict reader; argument 3: the property whose findings are reported
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick";
    uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    std::string prop = argc > 3 ? argv[3] : "";
    int worlds = argc > 4 ? atoi(argv[4]) : tier == "quick" ? 250 : 6000;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    for(int i = 0; i < worlds; ++i) { if(getenv("WORLD") && atoi(getenv("WORLD")) != int(seed * 100000 + i)) continue; isolated("world " + std::to_string(seed * 100000 + i), [&] {
        World w;
        w.rng.seed(seed * 100000 + i);
        w.weird = i % 3 != 0;
        w.plainfonts = i % 4 == 0;
        w.oldstyle = i % 12 == 11;
        if(i % 5 == 4) { w.badval = 0.1; }
        if(i % 5 == 3) { w.badp = 0.15; }
        g_report = [&](const char *p, const std::string &k, const std::string &what) { if(prop.empty() || prop == p) fail((prop.empty() ? std::string(p) + ":" : "") + k, what); };
        w.before = [](World &w, const char *n) { at(n); };
        run_world(w, 5 + w.r(i % 7 == 0 ? 400 : 90));
        if(getenv("TRACE")) for(auto &x : w.ctx) { fprintf(stderr, "ctx kind %d open ", x.kind); for(char k : w.open_[x.c]) fputc(k, stderr); fprintf(stderr, "\n"); }
        at("complete");
        if(w.dead) { w.finish(); return; }
        EC rc = complete(w);
        at("after");
        if(getenv("SHOWLOG")) fprintf(stderr, "%s\n", w.tail(1000).c_str());
        if(rc == 0) {
            PFile f;
            std::string b = slurp(w.out);
            if(getenv("KEEP")) { FILE *o = fopen(getenv("KEEP"), "wb"); fwrite(b.data(), 1, b.size(), o); fclose(o); }
            f.load(b);
            f.contents();
            for(auto &x : f.errs) if(prop.empty() || prop == x.first) { std::string k = x.second; for(auto &c : k) if(isdigit((unsigned char)c)) c = '0'; fail((prop.empty() ? x.first + ":" : "") + k.substr(0, 70), x.second + " after " + w.tail()); }
        } else if(prop.empty() && !w.everbad && std::string(capy_error_message(rc)).find("Page reference")) fail("write:" + std::string(capy_error_message(rc)), w.tail());
        w.finish();
    }); }
    // many objects of both kinds: numbers and positions beyond 16 bits
    if(prop == "A05") for(int old = 0; old < 2; ++old) isolated(old ? "large document with a table" : "large document", [&] {
        World w;
        w.rng.seed(seed);
        w.oldstyle = old;
        w.start();
        if(w.dead) { w.finish(); return; }
        for(int i = 0; i < (old ? 20000 : 66000); ++i) {
            CapyPDF_OptionalContentGroup *g;
            CapyPDF_OptionalContentGroupId id;
            std::string n = "g" + std::to_string(i);
            capy_optional_content_group_new(&g, n.c_str());
            if(i % 16) capy_generator_add_optional_content_group(w.gen, g, &id);
            else { CapyPDF_EmbeddedFile *f; CapyPDF_EmbeddedFileId fi; capy_embedded_file_new(&f); capy_embedded_file_set_contents(f, n.data(), n.size()); capy_embedded_file_set_pdf_name(f, n.c_str(), -1); capy_generator_embed_file(w.gen, f, &fi); capy_embedded_file_destroy(f); }
            capy_optional_content_group_destroy(g);
        }
        new_ctx(w, w.gen, CAPY_DC_PAGE);
        if(complete(w) == 0) {
            PFile f;
            f.load(slurp(w.out));
            ++g_evals;
            for(auto &x : f.errs) if(x.first == prop) { std::string k = x.second; for(auto &c : k) if(isdigit((unsigned char)c)) c = '0'; fail(k.substr(0, 70), x.second); }
        }
        w.finish();
    }, 120);
    return done("random documents written and re-read by an independent strict reader");
}
