#include "model.hpp"
// random page label calls against a model; the tree in the written file is read back
struct L { uint32_t start; int style; bool hasp; std::string prefix; int64_t num; };
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick"; uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    int worlds = tier == "quick" ? 150 : 5000;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    for(int i = 0; i < worlds; ++i) isolated("world " + std::to_string(seed * 100000 + i), [&] {
        World w; w.rng.seed(seed * 100000 + i); w.weird = i % 2; w.start();
        if(w.dead) { w.finish(); return; }
        std::vector<L> model;
        int n = w.r(i % 5 == 0 ? 40 : 8);
        for(int k = 0; k < n; ++k) {
            uint32_t last = model.empty() ? 0 : model.back().start;
            uint32_t st = w.r(3) == 0 ? (uint32_t)w.r(12) : w.r(20) == 0 ? 0xFFFFFFFFu - (uint32_t)w.r(3) : last + (uint32_t)w.r(3);
            if(w.r(25) == 0) st = 0x7FFFFFFFu + (uint32_t)w.r(3);
            L l{st, w.r(3) ? (int)w.r(5) : -1, (bool)w.r(2), w.r(4) ? w.str() : "", w.r(2) ? (int64_t)(w.r(6) ? w.r(20) : 0xFFFFFFF0u + w.r(16)) : -1};
            int32_t len = -1; bool badp = false;
            std::string given = l.prefix;
            if(l.hasp) switch(w.r(8)) {
                case 0: len = -2 - (int)w.r(3); badp = true; break;
                case 1: given += "\xc3"; badp = true; break;
                case 2: len = (int32_t)given.size(); given += "zz"; break;
                case 3: len = (int32_t)given.size(); break;
            }
            auto sty = (CapyPDF_Page_Label_Number_Style)l.style; uint32_t sn = (uint32_t)l.num;
            at("add_page_labeling"); ++g_evals;
            EC rc = capy_generator_add_page_labeling(w.gen, l.start, l.style >= 0 ? &sty : nullptr, l.hasp ? given.c_str() : nullptr, len, l.num >= 0 ? &sn : nullptr);
            bool want = !badp && (model.empty() || model.back().start < l.start);
            if((rc == 0) != want) { fail(want ? "rejected" : "accepted", "label " + std::to_string(k) + " with start page " + std::to_string(l.start) + (want ? " was rejected" : badp ? " and a bad prefix was accepted" : " was accepted after one at " + std::to_string(model.back().start))); w.finish(); return; }
            if(rc == 0) model.push_back(l);
        }
        if(!onepage(w) || capy_generator_write(w.gen)) { w.finish(); return; }
        PFile f; f.load(slurp(w.out));
        auto *pl = f.at(catalog(f), "PageLabels");
        auto *nums = f.at(pl, "Nums");
        if(model.empty() != (pl == nullptr)) fail("tree", "page label tree without labels or labels without tree");
        else if(pl) {
            if(!nums || nums->k != PObj::Arr || nums->a.size() != 2 * model.size()) fail("count", "the tree holds " + std::to_string(nums ? nums->a.size() / 2 : 0) + " labels, recorded were " + std::to_string(model.size()));
            else for(size_t k = 0; k < model.size(); ++k) {
                auto &m = model[k]; auto &key = nums->a[2 * k]; auto *d = f.R(&nums->a[2 * k + 1]);
                std::string who = "label " + std::to_string(k) + ": ";
                if(key.k != PObj::Num || key.n != m.start) fail("start", who + "start page written as " + std::to_string(key.n) + " instead of " + std::to_string(m.start));
                if(!d || d->k != PObj::Dict) { fail("entry", who + "no dictionary"); continue; }
                static const char *S[] = {"D", "R", "r", "A", "a"};
                auto *s = d->get("S"), *p = d->get("P"), *t = d->get("St");
                if((s != nullptr) != (m.style >= 0) || (s && !s->is(S[m.style]))) fail("style", who + "style differs");
                if((p != nullptr) != m.hasp || (p && p->s != u16be(m.prefix))) fail("prefix", who + "prefix differs");
                if((t != nullptr) != (m.num >= 0) || (t && t->n != (double)m.num)) fail("number", who + "start number differs");
            }
        }
        w.finish();
    });
    return done("random page label sequences");
}
