#include "world.hpp"
#include "pdfcheck.hpp"
// every colour operation of the C interface with extreme and ordinary components; operands read back from the written page
static std::mt19937_64 g_r;
static double val() {
    static const double s[] = {0, 1, 0.5, -1, 2, 1e-7, -1e-7, 1.0000001, 0.999999, 1.0 / 3, -1e300, 1e300, 5e-324, 0.25, -0.0, 255, 100};
    return g_r() % 2 ? s[g_r() % 17] : (double)(g_r() >> 11) * 0x1p-53;
}
static double cl(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
struct Want { std::string op; std::vector<double> v; bool loose; };
static std::string show(const std::vector<double> &v) { std::string r; char b[40]; for(double d : v) { snprintf(b, 40, " %.17g", d); r += b; } return r; }
static void one(int cs) {
    World w;
    char t[] = "/tmp/capyver-w-XXXXXX";
    w.dir = mkdtemp(t);
    w.out = w.dir + "/o.pdf";
    CapyPDF_DocumentProperties *dp; capy_document_properties_new(&dp);
    capy_document_properties_set_colorspace(dp, (CapyPDF_Device_Colorspace)cs);
    static const char *cp = "/usr/share/color/icc/ghostscript/default_cmyk.icc";
    if(access(cp, R_OK) == 0) capy_document_properties_set_device_profile(dp, CAPY_DEVICE_CS_CMYK, cp); else if(cs == 2) { capy_document_properties_destroy(dp); rmdir(t); return; }
    CapyPDF_Generator *g = nullptr;
    if(capy_generator_new(w.out.c_str(), dp, &g)) { fail("generator", "no generator"); return; }
    CapyPDF_IccColorSpaceId icc[2]; CapyPDF_LabColorSpaceId lab; CapyPDF_SeparationId sep; CapyPDF_FunctionId fid;
    bool hi0 = !capy_generator_add_icc_profile(g, icc_profile(3).data(), icc_profile(3).size(), 3, &icc[0]), hi1 = !capy_generator_add_icc_profile(g, icc_profile(1).data(), icc_profile(1).size(), 1, &icc[1]);
    bool hl = !capy_generator_add_lab_colorspace(g, 0.95, 1, 1.08, -100, 100, -100, 100, &lab);
    double dom[] = {0, 1}; CapyPDF_Color *c0, *c1; capy_color_new(&c0); capy_color_new(&c1);
    for(auto q : {c0, c1}) if(cs == 0) capy_color_set_rgb(q, q == c1, 0.5, 0.25); else if(cs == 1) capy_color_set_gray(q, q == c1); else capy_color_set_cmyk(q, q == c1, 0.5, 0.25, 0.1);
    int nc = cs == 0 ? 3 : cs == 1 ? 1 : 4;
    CapyPDF_Function *f; bool hs = !capy_type2_function_new(dom, 2, c0, c1, 1.0, &f) && !capy_generator_add_function(g, f, &fid) && !capy_generator_add_separation(g, "Spot", -1, (CapyPDF_Device_Colorspace)cs, fid, &sep);
    CapyPDF_FontId font; bool hf = false;
    for(auto &fn : font_files()) if(!hf && !capy_generator_load_font(g, fn.c_str(), nullptr, &font)) hf = true;
    CapyPDF_DrawContext *c; capy_page_draw_context_new(g, &c);
    std::vector<Want> want; std::vector<std::pair<int, std::vector<double>>> gs;
    for(int i = 0; i < 30; ++i) {
        double a = val(), b = val(), d = val(), e = val();
        ++g_evals;
        auto raw = [&](const char *op, EC rc, std::vector<double> v) { if(rc) fail(std::string("rejected:") + op, std::string("capy_dc_cmd_") + op + " fails for finite components" + show(v)); else { for(auto &x : v) x = cl(x); want.push_back({op, v, false}); } };
        auto col = [&](int m) {
            CapyPDF_Color *q; capy_color_new(&q);
            std::vector<double> v; std::string op; bool up = g_r() % 2, loose = false, cla = true, may = false;
            switch(m) {
            case 0: v = {a, b, d}; capy_color_set_rgb(q, a, b, d); op = up ? "RG" : "rg"; break;
            case 1: v = {a}; capy_color_set_gray(q, a); op = up ? "G" : "g"; break;
            case 2: v = {a, b, d, e}; capy_color_set_cmyk(q, a, b, d, e); op = up ? "K" : "k"; break;
            case 3: { bool x = g_r() % 2; if(!(x ? hi0 : hi1)) { capy_color_destroy(q); return; } v = x ? std::vector<double>{a, b, d} : std::vector<double>{a}; capy_color_set_icc(q, icc[x ? 0 : 1], v.data(), v.size()); op = up ? "SCN" : "scn"; cla = false; break; }
            case 4: if(!hs) { capy_color_destroy(q); return; } v = {a}; op = up ? "SCN" : "scn"; if(capy_color_set_separation(q, sep, a)) { may = true; if(a >= 0 && a <= 1) fail("separation", "separation component in range rejected"); } break;
            case 5: if(!hl) { capy_color_destroy(q); return; } v = {a * 100, b * 100, d * 100}; capy_color_set_lab(q, lab, v[0], v[1], v[2]); op = up ? "SCN" : "scn"; cla = false; break;
            }
            if(loose) op = cs == 0 ? (up ? "RG" : "rg") : cs == 1 ? (up ? "G" : "g") : (up ? "K" : "k");
            for(double &x : v) if(fabs(x) > 1e15 && !cla) { capy_color_destroy(q); return; }
            if(cla) for(auto &x : v) x = cl(x);
            if(loose && v.size() != (size_t)nc) v.resize(nc);
            if(may) { capy_color_destroy(q); return; }
            bool text = hf && g_r() % 4 == 0;
            if(text) {
                CapyPDF_Text *tx; EC rc = capy_dc_text_new(c, &tx);
                rc = rc ? rc : up ? capy_text_set_stroke(tx, q) : capy_text_set_nonstroke(tx, q);
                CapyPDF_TextSequence *sq; capy_text_sequence_new(&sq); capy_text_sequence_append_codepoint(sq, 65);
                rc = rc ? rc : capy_text_cmd_Tf(tx, font, 10); rc = rc ? rc : capy_text_cmd_TJ(tx, sq);
                capy_text_sequence_destroy(sq);
                rc = rc ? rc : capy_dc_render_text_obj(c, tx);
                capy_text_destroy(tx);
                // colours of text objects are not converted
                if(m == 0) op = up ? "RG" : "rg"; if(m == 1) op = up ? "G" : "g"; if(m == 2) op = up ? "K" : "k";
                if(m < 3 && loose) { v = m == 0 ? std::vector<double>{cl(a), cl(b), cl(d)} : std::vector<double>{cl(a), cl(b), cl(d), cl(e)}; }
                if(!rc) want.push_back({op, v, false}); else fail("text:" + std::to_string(m), std::string("a legal text colour is rejected: ") + capy_error_message(rc));
            } else {
                EC rc = up ? capy_dc_set_stroke(c, q) : capy_dc_set_nonstroke(c, q);
                if(rc && loose) ; else if(rc) fail("set:" + std::to_string(m), std::string("a legal colour is rejected: ") + capy_error_message(rc)); else want.push_back({op, v, loose});
            }
            capy_color_destroy(q);
        };
        switch(g_r() % 14) {
        case 0: raw("RG", capy_dc_cmd_RG(c, a, b, d), {a, b, d}); break;
        case 1: raw("rg", capy_dc_cmd_rg(c, a, b, d), {a, b, d}); break;
        case 2: raw("G", capy_dc_cmd_G(c, a), {a}); break;
        case 3: raw("g", capy_dc_cmd_g(c, a), {a}); break;
        case 4: raw("K", capy_dc_cmd_K(c, a, b, d, e), {a, b, d, e}); break;
        case 5: raw("k", capy_dc_cmd_k(c, a, b, d, e), {a, b, d, e}); break;
        case 6: { CapyPDF_GraphicsState *s; capy_graphics_state_new(&s); CapyPDF_GraphicsStateId id; capy_graphics_state_set_CA(s, a); capy_graphics_state_set_ca(s, b); if(!capy_generator_add_graphics_state(g, s, &id)) { if(capy_dc_cmd_gs(c, id)) fail("gs", "a new graphics state is rejected"); else want.push_back({"gs", {cl(a), cl(b)}, false}); } capy_graphics_state_destroy(s); break; }
        default: col((int)(g_r() % 6)); break;
        }
    }
    // meshes in all three models and an interpolation function
    struct Mesh { int cs; std::vector<double> cols; int type; };
    std::vector<Mesh> meshes;
    std::vector<CapyPDF_Color *> used;
    auto mkcol = [&](int m, std::vector<double> &o) {
        CapyPDF_Color *q; capy_color_new(&q); used.push_back(q);
        double a = val(), b = val(), d = val(), e = val();
        if(m == 0) { capy_color_set_rgb(q, a, b, d); for(double x : {a, b, d}) o.push_back(cl(x)); }
        else if(m == 1) { capy_color_set_gray(q, a); o.push_back(cl(a)); }
        else { capy_color_set_cmyk(q, a, b, d, e); for(double x : {a, b, d, e}) o.push_back(cl(x)); }
        return q;
    };
    for(int m = 0; m < 3; ++m) for(int ty : {4, 6}) {
        CapyPDF_Shading *sh; std::vector<double> o; double co[24]; for(int i = 0; i < 24; ++i) co[i] = (double)(g_r() % 100);
        const CapyPDF_Color *cc[4] = {mkcol(m, o), mkcol(m, o), mkcol(m, o), nullptr};
        CapyPDF_ShadingId sid; EC rc;
        if(ty == 4) { rc = capy_type4_shading_new((CapyPDF_Device_Colorspace)m, 0, 0, 100, 100, &sh); rc = rc ? rc : capy_type4_shading_add_triangle(sh, co, cc); }
        else { cc[3] = mkcol(m, o); rc = capy_type6_shading_new((CapyPDF_Device_Colorspace)m, 0, 0, 100, 100, &sh); rc = rc ? rc : capy_type6_shading_add_patch(sh, co, cc); }
        rc = rc ? rc : capy_generator_add_shading(g, sh, &sid);
        capy_shading_destroy(sh);
        if(rc) fail("mesh", std::string("a legal mesh is rejected: ") + capy_error_message(rc)); else meshes.push_back({m, o, ty});
    }
    for(auto q : used) capy_color_destroy(q);
    std::vector<double> f0, f1; used.clear(); bool hfun = false;
    { CapyPDF_Function *fn; CapyPDF_FunctionId fi; auto *q0 = mkcol(cs, f0), *q1 = mkcol(cs, f1); double d2[] = {0, 1}; hfun = !capy_type2_function_new(d2, 2, q0, q1, 1.5, &fn) && !capy_generator_add_function(g, fn, &fi); for(auto q : used) capy_color_destroy(q); if(!hfun) fail("function", "a legal interpolation function is rejected"); }
    capy_dc_cmd_n(c);
    if(EC rc = capy_generator_add_page(g, c)) { fail("page", capy_error_message(rc)); w.finish(); return; }
    if(EC rc = capy_generator_write(g)) { fail("write", capy_error_message(rc)); w.finish(); return; }
    PFile pf; pf.load(slurp(w.out));
    auto pg = pf.pages();
    if(pg.size() != 1) { fail("pages", "page lost"); w.finish(); return; }
    size_t mi = 0; bool sawf = false;
    for(auto &[num, o] : pf.obj) {
        auto *ft = o.get("FunctionType"); auto *N = o.get("N");
        if(ft && N && fabs(N->n - 1.5) < 1e-9) { sawf = true; for(int k = 0; k < 2; ++k) { auto *v = o.get(k ? "C1" : "C0"); auto &x = k ? f1 : f0; bool ok = v && v->a.size() == x.size(); for(size_t i = 0; ok && i < x.size(); ++i) ok = fabs(v->a[i].n - x[i]) < 1e-6; if(!ok) { std::vector<double> got; if(v) for(auto &z : v->a) got.push_back(z.n); fail("gradient", "end colour of an interpolation: expected" + show(x) + " but the file has" + show(got)); } } }
        auto *sty = o.get("ShadingType");
        if(!sty) continue;
        if(mi >= meshes.size()) { fail("mesh", "more meshes than calls"); break; }
        auto &x = meshes[mi++]; std::string d = pf.data(num);
        size_t n = x.cs == 0 ? 3 : x.cs == 1 ? 1 : 4, verts = x.cols.size() / n; std::vector<double> got;
        for(size_t v = 0; v < verts; ++v) for(size_t k = 0; k < n; ++k) { size_t off = x.type == 4 ? v * (9 + 2 * n) + 9 + 2 * k : 1 + 96 + v * 2 * n + 2 * k; got.push_back(off + 1 < d.size() ? ((unsigned char)d[off] * 256 + (unsigned char)d[off + 1]) / 65535.0 : -1); }
        for(size_t k = 0; k < got.size(); ++k) if(fabs(got[k] - x.cols[k]) > 1.6e-5) { fail("mesh " + std::to_string(x.type), "mesh colours: expected" + show(x.cols) + " but the file has" + show(got)); break; }
    }
    if(mi < meshes.size()) fail("mesh", "a mesh is missing");
    if(hfun && !sawf) fail("gradient", "interpolation function missing");
    const PObj *page = &pf.obj[pg[0]];
    std::string s = pf.data(page->get("Contents")->ref);
    if(getenv("KEEP")) fprintf(stderr, "%s\n", s.c_str());
    PLex L(s, 0, s.size()); L.content = true;
    std::vector<PObj> st; size_t n = 0;
    for(;;) {
        PObj o = L.obj();
        if(o.k == PObj::Err || o.k == PObj::End) break;
        if(o.k != PObj::Op) { st.push_back(o); continue; }
        static const std::set<std::string> ops = {"RG", "rg", "G", "g", "K", "k", "SCN", "scn", "SC", "sc", "gs"};
        if(ops.count(o.s)) {
            if(n >= want.size()) { fail("extra", "more colour operators than calls: " + o.s); break; }
            auto &x = want[n++];
            std::vector<double> got;
            if(o.s == "gs") {
                auto *r = pf.at(page, "Resources"); auto *es = r ? pf.at(r, "ExtGState") : nullptr; auto *d = es && st.size() == 1 ? pf.at(es, st[0].s.c_str()) : nullptr;
                if(!d) { fail("gs", "graphics state lost"); break; }
                for(auto k : {"CA", "ca"}) { auto *v = pf.at(d, k); got.push_back(v ? v->n : -99); }
            } else for(auto &z : st) got.push_back(z.n);
            if(o.s != x.op) { fail("operator " + x.op, "operator " + o.s + " written where " + x.op + " was requested"); break; }
            bool ok = got.size() == x.v.size();
            for(size_t i = 0; ok && i < got.size(); ++i) {
                if(x.loose) ok = got[i] >= 0 && got[i] <= 1;
                else ok = fabs(got[i] - x.v[i]) <= 5.1e-7 * std::max(1.0, fabs(x.v[i]) * 1e-9);
            }
            if(!ok) fail("components " + x.op, "operator " + x.op + ": expected" + show(x.v) + " but the file has" + show(got));
        }
        st.clear();
    }
    if(n < want.size()) fail("missing", "colour operator " + want[n].op + " is missing from the page");
    capy_dc_destroy(c); capy_generator_destroy(g); capy_document_properties_destroy(dp);
    g_evals += n;
    std::string cmd = "rm -rf '" + w.dir + "'";
    if(w.dir.compare(0, 15, "/tmp/capyver-w-") == 0 && system(cmd.c_str())) {}
    w.dir.clear();
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick";
    uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    icc_profile(3); icc_profile(1); font_files();
    int n = tier == "quick" ? 300 : 6000;
    for(int i = 0; i < n; ++i) isolated("colours " + std::to_string(i), [&] { g_r.seed(seed * 1000003 + i); one(i % 3); });
    return done("colour operations with extreme and ordinary components, operands read back from the written page");
}
