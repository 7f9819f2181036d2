#include "model.hpp"
// random use of annotations and structure items by several contexts; the written registries are read back
struct Ctx { CapyPDF_DrawContext *c; std::vector<int> ann, str; bool open = false; };
static std::vector<int> mcids(const std::string &s) {
    std::vector<int> r;
    for(size_t p = 0; (p = s.find("/MCID", p)) != std::string::npos; p += 5) r.push_back(atoi(s.c_str() + p + 5));
    return r;
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick"; uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    int worlds = tier == "quick" ? 200 : 6000;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    for(int i = 0; i < worlds; ++i) isolated("world " + std::to_string(seed * 100000 + i), [&] {
        World w; w.rng.seed(seed * 100000 + i); w.weird = 0; w.start();
        if(w.dead) { w.finish(); return; }
        int na = w.r(i % 9 == 0 ? 400 : 8), ns = w.r(i % 7 == 0 ? 400 : 8), cn = 1 + w.r(6), steps = w.r(i % 9 == 0 || i % 7 == 0 ? 700 : 60);
        bool lateitems = w.r(2);
        std::vector<int> sparent;
        int a = 0, s = 0;
        auto annot = [&] {
            CapyPDF_Annotation *o; capy_text_annotation_new(("A#" + std::to_string(a)).c_str(), -1, &o); capy_annotation_set_rectangle(o, 0, 0, 10, 10);
            CapyPDF_AnnotationId id{-5}; EC rc = capy_generator_add_annotation(w.gen, o, &id); capy_annotation_destroy(o);
            if(rc || id.id != a) { fail("annotation id", "annotation " + std::to_string(a) + " got id " + std::to_string(id.id)); return; } ++a;
        };
        auto item = [&] {
            CapyPDF_StructItemExtraData *e; capy_struct_item_extra_data_new(&e); capy_struct_item_extra_data_set_t(e, ("S#" + std::to_string(s)).c_str(), -1);
            CapyPDF_StructureItemId id{-5}, par{0};
            EC rc = capy_generator_add_structure_item(w.gen, s ? CAPY_STRUCTURE_TYPE_P : CAPY_STRUCTURE_TYPE_DOCUMENT, s ? &par : nullptr, e, &id); capy_struct_item_extra_data_destroy(e);
            if(rc || id.id != s) { fail("item id", "structure item " + std::to_string(s) + " got id " + std::to_string(id.id)); return; } ++s;
        };
        item(); item();
        for(int k = 0; k < na; ++k) if(!lateitems) annot();
        for(int k = 0; k < ns; ++k) if(!lateitems) item();
        std::vector<Ctx> ctx(cn);
        for(auto &c : ctx) capy_page_draw_context_new(w.gen, &c.c);
        std::vector<Ctx> pages;
        std::set<int> usedA, usedS;
        auto add = [&](Ctx &c) {
            if(c.open) { capy_dc_cmd_EMC(c.c); c.open = false; }
            capy_dc_cmd_n(c.c);
            bool bad = false;
            for(int x : c.ann) if(usedA.count(x)) bad = true;
            for(int x : c.str) if(usedS.count(x)) bad = true;
            at("add_page"); ++g_evals;
            EC rc = capy_generator_add_page(w.gen, c.c);
            if((rc != 0) != bad) { fail("page", bad ? "a page using an item of an earlier page was accepted" : std::string("a page without conflict was rejected: ") + capy_error_message(rc)); return false; }
            if(rc == 0) {
                for(int x : c.ann) usedA.insert(x);
                for(int x : c.str) usedS.insert(x);
                pages.push_back(c);
                if(w.r(2)) { capy_dc_destroy(c.c); capy_page_draw_context_new(w.gen, &c.c); }
            } else { capy_dc_destroy(c.c); capy_page_draw_context_new(w.gen, &c.c); }
            c.ann.clear(); c.str.clear();
            return true;
        };
        bool ok = true;
        for(int k = 0; k < steps && ok; ++k) {
            auto &c = ctx[w.r(cn)];
            int op = w.r(12);
            if(lateitems && w.r(3) == 0) { if(w.r(2)) annot(); else item(); }
            if(op < 4) {
                int id = w.r(8) ? (a ? (int)w.r(a) : 0) : w.r(2) ? a + (int)w.r(3) : -1 - (int)w.r(2);
                bool want = id >= 0 && id < a && std::find(c.ann.begin(), c.ann.end(), id) == c.ann.end();
                at("annotate"); ++g_evals;
                EC rc = capy_dc_annotate(c.c, CapyPDF_AnnotationId{id});
                if((rc == 0) != want) { fail("annotate", want ? "an unused annotation was rejected" : "an annotation was accepted twice, or one that does not exist"); ok = false; }
                if(rc == 0) c.ann.push_back(id);
            } else if(op < 10) {
                int id = w.r(8) ? 1 + (int)w.r(s - 1) : w.r(2) ? s + (int)w.r(3) : -1 - (int)w.r(2);
                bool want = id >= 0 && id < s && std::find(c.str.begin(), c.str.end(), id) == c.str.end();
                if(c.open && w.r(3)) { capy_dc_cmd_EMC(c.c); c.open = false; }
                EC rc; at("BDC"); ++g_evals;
                if(w.r(3)) {
                    if(c.open) want = false;
                    rc = capy_dc_cmd_BDC_builtin(c.c, CapyPDF_StructureItemId{id}, nullptr);
                    if(rc == 0) c.open = true;
                } else {
                    if(c.open) { capy_dc_cmd_EMC(c.c); c.open = false; }
                    CapyPDF_Text *t; capy_dc_text_new(c.c, &t);
                    rc = capy_text_cmd_BDC_builtin(t, CapyPDF_StructureItemId{id});
                    if(rc == 0) { capy_text_cmd_EMC(t); rc = capy_dc_render_text_obj(c.c, t); }
                    capy_text_destroy(t);
                }
                if((rc == 0) != want) { fail("structure", want ? std::string("an unused structure item was rejected: ") + capy_error_message(rc) : "a structure item was accepted twice, or one that does not exist"); ok = false; }
                if(rc == 0) c.str.push_back(id);
            } else if(op == 10) ok = add(c);
        }
        for(auto &c : ctx) if(ok && w.r(3)) ok = add(c);
        if(ok && pages.empty()) { Ctx c; capy_page_draw_context_new(w.gen, &c.c); ok = add(c); capy_dc_destroy(c.c); }
        for(auto &c : ctx) capy_dc_destroy(c.c);
        if(!ok) { w.finish(); return; }
        EC rc = capy_generator_write(w.gen);
        if(rc) { fail("write", std::string("writing failed: ") + capy_error_message(rc)); w.finish(); return; }
        PFile f; f.load(slurp(w.out));
        auto *cat = catalog(f);
        auto *kids = f.at(f.at(cat, "Pages"), "Kids");
        if(!kids || kids->a.size() != pages.size()) { fail("pages", "pages are missing"); w.finish(); return; }
        auto *st = f.at(cat, "StructTreeRoot"); auto *pt = f.at(st, "ParentTree"); auto *nums = f.at(pt, "Nums");
        std::map<int, const PObj *> tree;
        if(nums) for(size_t k = 0; k + 1 < nums->a.size(); k += 2) if(!tree.emplace((int)nums->a[k].n, f.R(&nums->a[k + 1])).second) fail("tree", "parent tree key twice");
        size_t withs = 0;
        std::map<int, std::pair<int, int>> where; // structure item -> page object, content id
        std::map<int, int> apage;
        for(size_t k = 0; k < pages.size(); ++k) {
            auto &m = pages[k]; int pno = kids->a[k].ref; auto *p = f.R(&kids->a[k]);
            std::string who = "page " + std::to_string(k) + ": ";
            std::set<int> got;
            auto *an = f.at(p, "Annots");
            if(an) for(auto &x : an->a) { auto *o = f.R(&x); auto *c = f.at(o, "Contents"); int id = -1;
                for(int y : m.ann) if(c && c->s == u16be("A#" + std::to_string(y))) id = y;
                if(id < 0 || !got.insert(id).second) fail("annots", who + "lists an annotation it does not use");
                auto *P = o ? o->get("P") : nullptr; if(!P || P->ref != pno) fail("annot page", who + "an annotation names another page"); }
            if(got.size() != m.ann.size()) fail("annots", who + std::to_string(got.size()) + " of " + std::to_string(m.ann.size()) + " annotations are listed");
            for(int y : m.ann) apage[y] = pno;
            auto *sp = f.at(p, "StructParents");
            if((sp != nullptr) == m.str.empty()) { fail("structparents", who + "parent tree entry missing or superfluous"); continue; }
            auto *ct = p ? p->get("Contents") : nullptr;
            auto mc = mcids(ct ? f.data(ct->ref) : "");
            if(mc.size() != m.str.size()) fail("mcid", who + "content ids missing");
            for(size_t j = 0; j < mc.size(); ++j) if(mc[j] != (int)j) fail("mcid", who + "content id " + std::to_string(mc[j]) + " in place " + std::to_string(j));
            if(!sp) continue;
            ++withs;
            auto *e = tree.count((int)sp->n) ? tree[(int)sp->n] : nullptr;
            if(!e || e->a.size() != m.str.size()) { fail("tree", who + "parent tree entry is missing or has the wrong length"); continue; }
            for(size_t j = 0; j < m.str.size(); ++j) {
                auto *o = f.R(&e->a[j]); auto *T = f.at(o, "T"), *K = f.at(o, "K"); auto *Pg = o ? o->get("Pg") : nullptr;
                if(!T || T->s != u16be("S#" + std::to_string(m.str[j]))) fail("tree item", who + "parent tree names another structure item for content " + std::to_string(j));
                else if(!Pg || Pg->ref != pno || !K || K->k != PObj::Num || K->n != j) fail("item", who + "structure item of content " + std::to_string(j) + " names another page or content");
            }
        }
        if(tree.size() != withs) fail("tree", "superfluous parent tree entries");
        for(auto &o : f.obj) { auto *c = o.second.get("Contents"); auto *su = o.second.get("Subtype"); if(!su || !su->is("Text") || !c) continue; auto *P = o.second.get("P"); bool used = false;
            for(auto &x : apage) if(c->s == u16be("A#" + std::to_string(x.first))) used = true;
            if(!used && P) fail("annot page", "an unused annotation names a page"); }
        w.finish();
    });
    return done("random use of annotations and structure items");
}
