#include "model.hpp"
// random outlines; the written tree is walked link by link and compared with the recorded one
struct It { int parent; std::string title; };
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick"; uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    int worlds = tier == "quick" ? 150 : 5000;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    for(int i = 0; i < worlds; ++i) isolated("world " + std::to_string(seed * 100000 + i), [&] {
        World w; w.rng.seed(seed * 100000 + i); w.weird = i % 2; w.start();
        if(w.dead) { w.finish(); return; }
        if(!onepage(w)) { w.finish(); return; }
        std::vector<It> m;
        int n = 1 + w.r(i % 5 == 0 ? i % 10 == 0 ? 700 : 120 : 9), style = i % 20 == 0 ? 4 : w.r(4); if(i == 3) { n = 38000; style = 4; w.weird = 0; }
        for(int k = 0; k < n; ++k) {
            CapyPDF_Outline *o; capy_outline_new(&o);
            It it{-1, w.r(30) ? w.str() + "#" + std::to_string(k) : ""};
            capy_outline_set_title(o, it.title.c_str(), -1);
            bool bad = it.title.empty();
            if(n < 30 && w.r(3) == 0) { auto *d = mk_dest(w); capy_outline_set_destination(o, d); capy_destination_destroy(d); }
            if(w.r(3) == 0) capy_outline_set_C(o, w.u(), w.u(), w.u());
            if(w.r(3) == 0) capy_outline_set_F(o, w.r(4));
            bool under = style == 0 ? false : style == 1 ? !m.empty() && w.r(5) : style == 4 ? !m.empty() : w.r(3);
            if(under) {
                CapyPDF_OutlineId p{(int32_t)(m.empty() ? 0 : style == 4 ? 0 : style == 1 ? m.size() - 1 : w.r(m.size()))};
                if(w.r(20) == 0) p.id = w.r(2) ? (int32_t)m.size() + (int)w.r(3) : -1 - (int)w.r(3);
                it.parent = p.id; capy_outline_set_parent(o, p);
                if(p.id < 0 || p.id >= (int)m.size()) bad = true;
            }
            CapyPDF_OutlineId id{-77}; ++g_evals; at("add_outline");
            EC rc = capy_generator_add_outline(w.gen, o, &id);
            capy_outline_destroy(o);
            if((rc == 0) == bad) { fail("accept", bad ? "an item with an invalid parent or without title was accepted" : std::string("a legal item was rejected: ") + capy_error_message(rc)); w.finish(); return; }
            if(rc == 0) { if(id.id != (int)m.size()) fail("id", "identifier " + std::to_string(id.id) + " for item " + std::to_string(m.size())); m.push_back(it); }
        }
        if(m.empty() || capy_generator_write(w.gen)) { w.finish(); return; }
        PFile f; f.load(slurp(w.out));
        auto *cat = catalog(f); auto *r = cat ? cat->get("Outlines") : nullptr; auto *root = f.R(r);
        if(!r || r->k != PObj::Ref || !root) { fail("root", "no outline root"); w.finish(); return; }
        std::vector<std::vector<int>> kids(m.size() + 1);
        for(size_t k = 0; k < m.size(); ++k) kids[m[k].parent + 1].push_back(k);
        std::map<int, int> num; // object number of each item, found on the way
        std::function<void(const PObj *, int, int)> walk = [&](const PObj *o, int self, int id) {
            auto &ks = kids[id + 1];
            std::string who = id < 0 ? "the root" : "item " + std::to_string(id);
            auto *F = o->get("First"), *L = o->get("Last"), *C = o->get("Count");
            if(ks.empty()) { if(F || L || C) fail("leaf", who + " has child links without children"); return; }
            if(!F || !L || !C) { fail("links", who + " lacks First, Last or Count"); return; }
            if(fabs(C->n) != ks.size() || (id < 0 && C->n < 0)) fail("count", who + ": count " + std::to_string(C->n) + " for " + std::to_string(ks.size()) + " children");
            const PObj *cur = F; int prev = -1; size_t j = 0;
            for(; cur; ++j) {
                if(j >= ks.size()) { fail("chain", who + ": the chain of children is too long"); return; }
                auto *c = f.R(cur);
                if(cur->k != PObj::Ref || !c || c->k != PObj::Dict) { fail("chain", who + ": broken link"); return; }
                auto *t = c->get("Title"); auto *P = c->get("Parent"), *V = c->get("Prev"), *N = c->get("Next");
                if(!t || t->s != u16be(m[ks[j]].title)) fail("order", who + ": child " + std::to_string(j) + " is not the item recorded there");
                if(!P || P->ref != self) fail("parent", who + ": child " + std::to_string(j) + " has another parent");
                if((V != nullptr) != (prev >= 0) || (V && V->ref != prev)) fail("prev", who + ": previous link of child " + std::to_string(j) + " is wrong");
                if(!N && cur->ref != L->ref) fail("last", who + ": Last is not the end of the chain");
                if(!num.emplace(cur->ref, ks[j]).second) { fail("shared", "an item is linked twice"); return; }
                walk(c, cur->ref, ks[j]);
                prev = cur->ref; cur = N;
            }
            if(j != ks.size()) fail("chain", who + ": " + std::to_string(j) + " of " + std::to_string(ks.size()) + " children are linked");
        };
        walk(root, r->ref, -1);
        w.finish();
    });
    return done("random outlines");
}
