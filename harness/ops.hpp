// the operations of the random application
#pragma once
#include "world.hpp"
static std::function<void(const char *, const std::string &, const std::string &)> g_report;
#define DC(k) auto *c = w.dc(k); if(!c) return NA
#define NEED(P) if(w.P.v.empty() && w.badp == 0) return NA
template<class I> static EC put(Pool<I> &P, EC rc, I id) { if(rc == 0) P.v.push_back(id); return rc; }
static void note(World &w, CapyPDF_DrawContext *c, EC rc, char k) { if(rc == 0) w.open_[c].push_back(k); }
static EC dropk(World &w, CapyPDF_DrawContext *c, EC rc, char k) { auto &v = w.open_[c]; if(rc == 0 && !v.empty() && v.back() == k) v.pop_back(); return rc; }
static void closeall(World &w, CapyPDF_DrawContext *c) {
    auto &v = w.open_[c];
    while(!v.empty()) { if(v.back() == 'q') capy_dc_cmd_Q(c); else capy_dc_cmd_EMC(c); v.pop_back(); }
}
static CapyPDF_Function *mk_fn(World &w, int kind) {
    CapyPDF_Function *f = nullptr;
    if(kind == 2) {
        double dom[4] = {0, 1, 0, 1};
        CapyPDF_Color *a = w.color(w.r(3)), *b = w.color(w.r(3));
        EC rc = capy_type2_function_new(dom, w.p(w.badval) ? 3 : 2, a, b, w.d(), &f);
        capy_color_destroy(a); capy_color_destroy(b);
        if(rc) return nullptr;
    } else if(kind == 3) {
        if(w.fn.v.empty()) return nullptr;
        double dom[2] = {0, 1}, bnd[3] = {0.2, 0.5, 0.7}, enc[8] = {0, 1, 0, 1, 0, 1, 1, 0};
        int n = 1 + w.r(4);
        CapyPDF_FunctionId ids[4];
        for(int q = 0; q < n; ++q) ids[q] = w.pick(w.fn);
        if(capy_type3_function_new(dom, 2, ids, n, bnd, n - 1, enc, n * 2, &f)) return nullptr;
    } else {
        double dom[2] = {0, 1}, rg[6] = {0, 1, 0, 1, 0, 1};
        if(capy_type4_function_new(dom, 2, rg, 6, "{dup dup}", -1, &f)) return nullptr;
    }
    return f;
}
static void text_ops(World &w, CapyPDF_Text *t, int n) {
    bool bdc = false;
    if(!w.font.v.empty()) capy_text_cmd_Tf(t, w.pick(w.font), 1 + w.r(30));
    for(int i = 0; i < n; ++i) switch(w.r(18)) {
        case 0: { std::string s = w.str(8); if(!w.font.v.empty()) capy_text_cmd_Tj(t, s.c_str(), -1); break; }
        case 1: { auto *c = w.color(); capy_text_set_nonstroke(t, c); capy_color_destroy(c); break; }
        case 2: { auto *c = w.color(); capy_text_set_stroke(t, c); capy_color_destroy(c); break; }
        case 3: capy_text_cmd_Tc(t, w.d()); break;
        case 4: capy_text_cmd_Td(t, w.d(), w.d()); break;
        case 5: capy_text_cmd_TD(t, w.d(), w.d()); break;
        case 6: if(!w.font.v.empty()) capy_text_cmd_Tf(t, w.pick(w.font), 1 + w.r(20)); break;
        case 7: if(!w.font.v.empty()) { auto *s = mk_seq(w, w.font.v[0]); capy_text_cmd_TJ(t, s); capy_text_sequence_destroy(s); } break;
        case 8: capy_text_cmd_TL(t, w.d()); break;
        case 9: capy_text_cmd_Tm(t, w.d(), w.d(), w.d(), w.d(), w.d(), w.d()); break;
        case 10: capy_text_cmd_Tr(t, w.e<CapyPDF_Text_Mode>(8)); break;
        case 11: capy_text_cmd_Tstar(t); break;
        case 12: capy_text_cmd_w(t, w.d()); break;
        case 13: capy_text_cmd_M(t, 1 + w.r(10)); break;
        case 14: capy_text_cmd_j(t, w.e<CapyPDF_Line_Join>(3)); break;
        case 15: { auto v = w.ds(1 + w.r(4)); for(auto &x : v) x = std::abs(x); capy_text_cmd_d(t, v.data(), v.size(), w.d()); break; }
        case 16: if(!w.gs.v.empty() || w.badp > 0) capy_text_cmd_gs(t, w.pick(w.gs)); break;
        case 17:
            if(bdc) { capy_text_cmd_EMC(t); bdc = false; }
            else if(!w.sti.v.empty() || w.badp > 0) { capy_text_cmd_BDC_builtin(t, w.pick(w.sti)); bdc = true; }
            break;
    }
    if(bdc && !w.p(w.badval)) capy_text_cmd_EMC(t);
}
static EC finish_ctx(World &w, int kind) {
    DC(kind);
    if(w.closeall) closeall(w, c);
    EC rc;
    const auto open_before = w.open_[c];
    if(kind == CAPY_DC_PAGE) { rc = capy_generator_add_page(w.gen, c); if(!rc) w.npages++; }
    else if(kind == CAPY_DC_FORM_XOBJECT) { CapyPDF_FormXObjectId i; rc = put(w.fxo, capy_generator_add_form_xobject(w.gen, c, &i), i); }
    else if(kind == CAPY_DC_TRANSPARENCY_GROUP) { CapyPDF_TransparencyGroupId i; rc = put(w.trg, capy_generator_add_transparency_group(w.gen, c, &i), i); }
    else { CapyPDF_PatternId i; rc = put(w.pat, capy_generator_add_tiling_pattern(w.gen, c, &i), i); }
    if(g_report) {
        if(rc == 0 && !open_before.empty()) g_report("A02", "a context with open brackets was turned into content", std::string(open_before.begin(), open_before.end()) + " open, " + w.tail());
        if(rc != 0 && open_before.empty() && std::string(capy_error_message(rc)).find("state end") != std::string::npos)
            g_report("A02", "a context whose brackets are all closed is refused", std::string(capy_error_message(rc)) + ", " + w.tail());
    }
    if(kind != CAPY_DC_PAGE && kind != CAPY_DC_FORM_XOBJECT && rc == 0) {
        // these contexts are used up
        for(size_t i = 0; i < w.ctx.size(); ++i) if(w.ctx[i].c == c) { capy_dc_destroy(c); w.ctx.erase(w.ctx.begin() + i); break; }
        w.open_.erase(c);
    } else if(rc == 0) { w.open_[c].clear(); if(w.done) w.done(w, c); }
    return rc;
}
static EC mk_ctx(CapyPDF_Generator *g, int kind, double l, double b, double r, double t, CapyPDF_DrawContext **c) {
    if(kind == CAPY_DC_PAGE) return capy_page_draw_context_new(g, c);
    if(kind == CAPY_DC_FORM_XOBJECT) return capy_form_xobject_new(g, l, b, r, t, c);
    if(kind == CAPY_DC_TRANSPARENCY_GROUP) return capy_transparency_group_new(g, l, b, r, t, c);
    return capy_tiling_pattern_context_new(g, c, l, b, r, t);
}
static EC new_ctx(World &w, CapyPDF_Generator *g, int kind) {
    CapyPDF_DrawContext *c;
    double l = w.r(20), b = w.r(20), r = l + 5 + w.r(kind == CAPY_DC_COLOR_TILING ? 30 : 100), t = b + 5 + w.r(kind == CAPY_DC_COLOR_TILING ? 30 : 100);
    if(w.ctx.size() > 8) return NA;
    EC rc = mk_ctx(g, kind, l, b, r, t, &c);
    if(rc == 0) w.ctx.push_back({c, kind, g != w.gen, l, b, r, t});
    return rc;
}
static const std::vector<Op> &all_ops() {
    static std::vector<Op> o;
    if(!o.empty()) return o;
    auto A = [&](const char *n, int wt, std::function<EC(World &)> f) { o.push_back({n, wt, f}); };
    // ------------------------------------------------------------------ contexts
    A("page_draw_context_new", 6, [](World &w) { return new_ctx(w, w.gen, CAPY_DC_PAGE); });
    A("form_xobject_new", 4, [](World &w) { return new_ctx(w, w.gen, CAPY_DC_FORM_XOBJECT); });
    A("transparency_group_new", 4, [](World &w) { return new_ctx(w, w.gen, CAPY_DC_TRANSPARENCY_GROUP); });
    A("tiling_pattern_context_new", 4, [](World &w) { return new_ctx(w, w.gen, CAPY_DC_COLOR_TILING); });
    A("foreign_context_new", 2, [](World &w) -> EC { if(!w.gen2) return NA; return new_ctx(w, w.gen2, w.r(2) ? CAPY_DC_PAGE : CAPY_DC_FORM_XOBJECT); });
    A("generator_add_page", 8, [](World &w) { return finish_ctx(w, CAPY_DC_PAGE); });
    A("generator_add_form_xobject", 4, [](World &w) { return finish_ctx(w, CAPY_DC_FORM_XOBJECT); });
    A("generator_add_transparency_group", 4, [](World &w) { return finish_ctx(w, CAPY_DC_TRANSPARENCY_GROUP); });
    A("generator_add_tiling_pattern", 4, [](World &w) { return finish_ctx(w, CAPY_DC_COLOR_TILING); });
    A("foreign_add", 2, [](World &w) -> EC {
        for(auto &x : w.ctx) if(x.foreign) {
            w.usedbad = true;
            if(x.kind == CAPY_DC_PAGE) return capy_generator_add_page(w.gen, x.c);
            CapyPDF_FormXObjectId i; return capy_generator_add_form_xobject(w.gen, x.c, &i);
        }
        return NA; });
    A("wrong_kind_add", 1, [](World &w) -> EC {
        if(w.badval == 0 || w.ctx.empty()) return NA;
        auto &x = w.ctx[w.r(w.ctx.size())];
        CapyPDF_FormXObjectId f; CapyPDF_TransparencyGroupId t; CapyPDF_PatternId p;
        int k = w.r(4);
        if(x.foreign) return NA;
        if(k == 0 && x.kind != CAPY_DC_PAGE) { w.usedbadval = true; return capy_generator_add_page(w.gen, x.c); }
        if(k == 1 && x.kind != CAPY_DC_FORM_XOBJECT) { w.usedbadval = true; return capy_generator_add_form_xobject(w.gen, x.c, &f); }
        if(k == 2 && x.kind != CAPY_DC_TRANSPARENCY_GROUP) { w.usedbadval = true; return capy_generator_add_transparency_group(w.gen, x.c, &t); }
        if(k == 3 && x.kind != CAPY_DC_COLOR_TILING) { w.usedbadval = true; return capy_generator_add_tiling_pattern(w.gen, x.c, &p); }
        return NA; });
    // ------------------------------------------------------------------ simple drawing
#define D0(N) A("dc_" #N, 2, [](World &w) -> EC { DC(-1); return capy_dc_##N(c); })
    D0(cmd_b); D0(cmd_B); D0(cmd_bstar); D0(cmd_Bstar); D0(cmd_f); D0(cmd_fstar); D0(cmd_h); D0(cmd_n); D0(cmd_s); D0(cmd_S); D0(cmd_W); D0(cmd_Wstar);
#define DN(N, ...) A("dc_" #N, 2, [](World &w) -> EC { DC(-1); return capy_dc_##N(c, __VA_ARGS__); })
    DN(cmd_c, w.d(), w.d(), w.d(), w.d(), w.d(), w.d()); DN(cmd_cm, w.d(), w.d(), w.d(), w.d(), w.d(), w.d());
    DN(cmd_G, w.u()); DN(cmd_g, w.u()); DN(cmd_i, w.u()); DN(cmd_j, w.e<CapyPDF_Line_Join>(3)); DN(cmd_J, w.e<CapyPDF_Line_Cap>(3));
    DN(cmd_k, w.u(), w.u(), w.u(), w.u()); DN(cmd_K, w.u(), w.u(), w.u(), w.u()); DN(cmd_l, w.d(), w.d()); DN(cmd_m, w.d(), w.d()); DN(cmd_M, w.d());
    DN(cmd_re, w.d(), w.d(), w.d(), w.d()); DN(cmd_RG, w.u(), w.u(), w.u()); DN(cmd_rg, w.u(), w.u(), w.u()); DN(cmd_ri, w.e<CapyPDF_Rendering_Intent>(4));
    DN(cmd_v, w.d(), w.d(), w.d(), w.d()); DN(cmd_w, w.d()); DN(cmd_y, w.d(), w.d(), w.d(), w.d());
    A("dc_cmd_d", 4, [](World &w) -> EC { DC(-1); size_t k = w.r(6); auto v = w.ds(k + 1); return capy_dc_cmd_d(c, v.data(), k, w.d()); });
    A("dc_cmd_q", 8, [](World &w) -> EC { DC(-1); EC rc = capy_dc_cmd_q(c); note(w, c, rc, 'q'); return rc; });
    A("dc_cmd_Q", 8, [](World &w) -> EC { DC(-1); return dropk(w, c, capy_dc_cmd_Q(c), 'q'); });
    A("dc_cmd_BMC", 5, [](World &w) -> EC { DC(-1); std::string s = w.weird ? w.name() : "Tag"; EC rc = capy_dc_cmd_BMC(c, s.c_str()); note(w, c, rc, 'M'); return rc; });
    A("dc_cmd_EMC", 8, [](World &w) -> EC { DC(-1); return dropk(w, c, capy_dc_cmd_EMC(c), 'M'); });
    A("dc_cmd_BDC_builtin", 5, [](World &w) -> EC { DC(w.p(0.8) ? 0 : -1); NEED(sti);
        CapyPDF_BDCTags *t = nullptr;
        if(w.r(2)) { capy_bdc_tags_new(&t); int n = w.r(3); for(int i = 0; i < n; ++i) { std::string k = w.name() + "K" + std::to_string(i), v = w.ascii(); capy_bdc_tags_add_tag(t, k.c_str(), -1, v.c_str(), -1); } }
        EC rc = capy_dc_cmd_BDC_builtin(c, w.pick(w.sti), t);
        if(t) capy_bdc_tags_destroy(t);
        note(w, c, rc, 'M'); return rc; });
    A("dc_cmd_BDC_testing", 3, [](World &w) -> EC { DC(-1);
        CapyPDF_BDCTags *t = nullptr;
        if(w.r(2)) { capy_bdc_tags_new(&t); int n = w.r(3); for(int i = 0; i < n; ++i) { std::string k = w.name() + "K" + std::to_string(i), v = w.ascii(); capy_bdc_tags_add_tag(t, k.c_str(), -1, v.c_str(), -1); } }
        std::string n = w.name();
        EC rc = capy_dc_cmd_BDC_testing(c, n.c_str(), -1, t);
        if(t) capy_bdc_tags_destroy(t);
        note(w, c, rc, 'M'); return rc; });
    A("dc_cmd_BDC_ocg", 4, [](World &w) -> EC { DC(-1); NEED(ocg); EC rc = capy_dc_cmd_BDC_ocg(c, w.pick(w.ocg)); note(w, c, rc, 'M'); return rc; });
    A("dc_cmd_Do_trgroup", 3, [](World &w) -> EC { DC(-1); NEED(trg); return capy_dc_cmd_Do_trgroup(c, w.pick(w.trg)); });
    A("dc_cmd_Do_image", 3, [](World &w) -> EC { DC(-1); NEED(image); return capy_dc_cmd_Do_image(c, w.pick(w.image)); });
    A("dc_cmd_gs", 3, [](World &w) -> EC { DC(-1); NEED(gs); return capy_dc_cmd_gs(c, w.pick(w.gs)); });
    A("dc_cmd_sh", 3, [](World &w) -> EC { DC(-1); NEED(sh); return capy_dc_cmd_sh(c, w.pick(w.sh)); });
    A("dc_set_stroke", 5, [](World &w) -> EC { DC(-1); auto *k = w.color(); EC rc = capy_dc_set_stroke(c, k); capy_color_destroy(k); return rc; });
    A("dc_set_nonstroke", 5, [](World &w) -> EC { DC(-1); auto *k = w.color(); EC rc = capy_dc_set_nonstroke(c, k); capy_color_destroy(k); return rc; });
    A("dc_render_text", 6, [](World &w) -> EC { DC(-1); NEED(font); std::string s = w.str(10); return capy_dc_render_text(c, s.c_str(), -1, w.pick(w.font), 1 + w.r(20), w.d(), w.d()); });
    A("dc_render_text_obj", 9, [](World &w) -> EC { DC(-1); CapyPDF_Text *t; capy_dc_text_new(c, &t); text_ops(w, t, w.r(7)); EC rc = capy_dc_render_text_obj(c, t); capy_text_destroy(t); return rc; });
    A("dc_set_page_transition", 2, [](World &w) -> EC { DC(0); auto *t = mk_transition(w); EC rc = capy_dc_set_page_transition(c, t); capy_transition_destroy(t); return rc; });
    A("dc_add_simple_navigation", 2, [](World &w) -> EC { DC(0); NEED(ocg); CapyPDF_OptionalContentGroupId ids[4]; int n = 1 + w.r(3); for(int i = 0; i < n; ++i) ids[i] = w.pick(w.ocg);
        auto *t = w.r(2) ? mk_transition(w) : nullptr; EC rc = capy_dc_add_simple_navigation(c, ids, n, t); if(t) capy_transition_destroy(t); return rc; });
    A("dc_set_custom_page_properties", 2, [](World &w) -> EC { DC(w.p(0.9) ? 0 : -1); auto *t = mk_pageprops(w); EC rc = capy_dc_set_custom_page_properties(c, t); capy_page_properties_destroy(t); return rc; });
    A("dc_annotate", 6, [](World &w) -> EC { DC(w.p(0.9) ? 0 : -1); NEED(annot); return capy_dc_annotate(c, w.pick(w.annot)); });
    A("dc_set_transparency_group_properties", 2, [](World &w) -> EC { DC(w.r(2) ? CAPY_DC_TRANSPARENCY_GROUP : -1); CapyPDF_TransparencyGroupProperties *q; capy_transparency_group_properties_new(&q);
        if(w.r(2)) capy_transparency_group_properties_set_CS(q, w.e<CapyPDF_Device_Colorspace>(3));
        EC r1 = 0; if(w.r(2)) { w.usedbadval = false; int b = w.b(); r1 = capy_transparency_group_properties_set_I(q, b); }
        EC rc = capy_dc_set_transparency_group_properties(c, q); capy_transparency_group_properties_destroy(q); return r1 ? r1 : rc; });
    A("dc_set_group_matrix", 1, [](World &w) -> EC { DC(-1); return capy_dc_set_group_matrix(c, w.d(), w.d(), w.d(), w.d(), w.d(), w.d()); });
    A("dc_append_viewport", 2, [](World &w) -> EC { DC(0); CapyPDF_Viewport *v; capy_viewport_new(w.d(), w.d(), w.d(), w.d(), &v);
        if(w.r(2)) { CapyPDF_Measure *m; capy_measure_new(&m); for(int k = 0; k < 4; ++k) { CapyPDF_NumberFormat *f; std::string s = w.str(); capy_number_format_new(s.c_str(), -1, w.d(), &f);
            k == 0 ? capy_measure_append_X(m, f) : k == 1 ? capy_measure_append_Y(m, f) : k == 2 ? capy_measure_append_D(m, f) : capy_measure_append_A(m, f); capy_number_format_destroy(f); }
            capy_viewport_set_measure(v, m); capy_measure_destroy(m); }
        EC rc = capy_dc_append_viewport(c, v); capy_viewport_destroy(v); return rc; });
    // ------------------------------------------------------------------ resources
    A("generator_load_font", 3, [](World &w) -> EC { auto fs = font_files(); if(!w.plainfonts || fs.empty() || w.font.v.size() > 3) return NA; CapyPDF_FontId i; return put(w.font, capy_generator_load_font(w.gen, fs[w.r(fs.size())].c_str(), nullptr, &i), i); });
    A("generator_add_graphics_state", 4, [](World &w) -> EC { CapyPDF_GraphicsState *g; capy_graphics_state_new(&g); EC bad = 0; bool ub = false;
        if(w.r(3) == 0) capy_graphics_state_set_CA(g, w.u());
        if(w.r(3) == 0) capy_graphics_state_set_ca(g, w.u());
        if(w.r(3) == 0) capy_graphics_state_set_BM(g, w.e<CapyPDF_Blend_Mode>(16));
#define GB(N) if(w.r(4) == 0) { w.usedbadval = false; int b = w.b(); EC rc = capy_graphics_state_set_##N(g, b); if(w.usedbadval) { ub = true; if(rc) bad = rc; } }
        GB(op) GB(OP) GB(AIS) GB(TK)
        if(w.r(4) == 0) capy_graphics_state_set_OPM(g, w.r(2));
        w.usedbadval = false;
        if(w.r(4) == 0 && (!w.smask.v.empty() || w.badp > 0)) capy_graphics_state_set_SMask(g, w.pick(w.smask));
        if(w.r(4) == 0) capy_graphics_state_set_FL(g, w.d());
        if(w.r(4) == 0) capy_graphics_state_set_SM(g, w.d());
        if(w.r(4) == 0) { CapyPDF_Halftone *h; capy_halftone_new(&h); if(w.r(2)) capy_halftone_set_type1(h, w.d(), w.d(), w.e<CapyPDF_Halftone_Spot_Function>(21)); else capy_halftone_set_default(h); capy_graphics_state_set_HT(g, h); capy_halftone_destroy(h); }
        if(w.r(4) == 0) capy_graphics_state_set_blackpoint_compensation(g, w.e<CapyPDF_Black_Point_Compensation>(3));
        CapyPDF_GraphicsStateId i; EC rc = put(w.gs, capy_generator_add_graphics_state(w.gen, g, &i), i); capy_graphics_state_destroy(g);
        if(ub && !bad) { w.usedbadval = true; } return rc; });
    A("generator_add_soft_mask", 2, [](World &w) -> EC { NEED(trg); CapyPDF_SoftMask *s; capy_soft_mask_new(w.e<CapyPDF_Soft_Mask_Subtype>(2), w.pick(w.trg), &s); CapyPDF_SoftMaskId i; EC rc = put(w.smask, capy_generator_add_soft_mask(w.gen, s, &i), i); capy_soft_mask_destroy(s); return rc; });
    A("generator_add_function", 4, [](World &w) -> EC { int k = 2 + w.r(3); auto *f = mk_fn(w, k); if(!f) return NA; CapyPDF_FunctionId i; EC rc = put(w.fn, capy_generator_add_function(w.gen, f, &i), i); capy_function_destroy(f); return rc; });
    A("generator_add_shading", 4, [](World &w) -> EC { CapyPDF_Shading *s = nullptr; int k = w.r(4); auto cs = w.e<CapyPDF_Device_Colorspace>(3); EC rc;
        int ck = cs == CAPY_DEVICE_CS_RGB ? 0 : cs == CAPY_DEVICE_CS_GRAY ? 1 : 2;
        if(k < 2) { NEED(fn); double co[6] = {1, 2, 3, 4, 5, 6};
            rc = k == 0 ? capy_type2_shading_new(cs, w.d(), w.d(), w.d(), w.d(), w.pick(w.fn), &s) : capy_type3_shading_new(cs, co, w.pick(w.fn), &s);
            if(rc) return rc;
            if(w.r(2)) capy_shading_set_extend(s, w.r(2), w.r(2));
            if(w.r(2)) capy_shading_set_domain(s, w.d(), w.d());
        } else if(k == 2) { capy_type4_shading_new(cs, 0, 0, 100, 100, &s); double co[6] = {0, 0, 50, 100, 100, 0}; CapyPDF_Color *cl[3] = {w.color(ck), w.color(ck), w.color(ck)};
            rc = capy_type4_shading_add_triangle(s, co, (const CapyPDF_Color **)cl); double c2[2] = {99, 99}; if(!rc && w.r(2)) capy_type4_shading_extend(s, 1 + w.r(2), c2, cl[0]);
            for(auto *x : cl) capy_color_destroy(x);
        } else { capy_type6_shading_new(cs, 0, 0, 100, 100, &s); double co[24]; for(int i = 0; i < 24; ++i) co[i] = w.r(100); CapyPDF_Color *cl[4] = {w.color(ck), w.color(ck), w.color(ck), w.color(ck)};
            rc = capy_type6_shading_add_patch(s, co, (const CapyPDF_Color **)cl); if(!rc && w.r(2)) capy_type6_shading_extend(s, 1 + w.r(3), co, (const CapyPDF_Color **)cl);
            for(auto *x : cl) capy_color_destroy(x); }
        CapyPDF_ShadingId i; rc = put(w.sh, capy_generator_add_shading(w.gen, s, &i), i); capy_shading_destroy(s); return rc; });
    A("generator_add_shading_pattern", 2, [](World &w) -> EC { NEED(sh); CapyPDF_ShadingPattern *s; EC rc = capy_shading_pattern_new(w.pick(w.sh), &s); if(rc) return rc; if(w.r(2)) capy_shading_pattern_set_matrix(s, w.d(), w.d(), w.d(), w.d(), w.d(), w.d());
        CapyPDF_PatternId i; rc = put(w.pat, capy_generator_add_shading_pattern(w.gen, s, &i), i); capy_shading_pattern_destroy(s); return rc; });
    A("generator_add_separation", 2, [](World &w) -> EC { CapyPDF_FunctionId f; if(w.fn.v.empty() || w.p(0.3)) { if(w.badp == 0) { double dom[2] = {0, 1}; CapyPDF_Color *a = w.color(0), *b = w.color(0); CapyPDF_Function *q; capy_type2_function_new(dom, 2, a, b, 1.0, &q); capy_color_destroy(a); capy_color_destroy(b);
            if(put(w.fn, capy_generator_add_function(w.gen, q, &f), f)) { capy_function_destroy(q); return NA; } capy_function_destroy(q); } else f = w.pick(w.fn); } else f = w.pick(w.fn);
        std::string n = w.weird ? w.name() + "Sep" : "Sep"; CapyPDF_SeparationId i; return put(w.sep, capy_generator_add_separation(w.gen, n.c_str(), -1, CAPY_DEVICE_CS_RGB, f, &i), i); });
    A("generator_add_lab_colorspace", 2, [](World &w) -> EC { CapyPDF_LabColorSpaceId i; return put(w.lab, capy_generator_add_lab_colorspace(w.gen, 0.95, 1, 1.08, -128, 127, -128, 127, &i), i); });
    A("generator_add_icc_profile", 2, [](World &w) -> EC { int ch = w.r(2) ? 3 : 1; auto &s = icc_profile(ch); int n = ch; if(w.p(w.badval)) { n = 4; w.usedbadval = true; } CapyPDF_IccColorSpaceId i; EC rc = put(w.icc, capy_generator_add_icc_profile(w.gen, s.data(), s.size(), n, &i), i); if(rc == 0) w.iccch[i.id] = ch; return rc; });
    A("generator_add_optional_content_group", 3, [](World &w) -> EC { std::string s = w.str() + "o"; CapyPDF_OptionalContentGroup *g; EC rc = capy_optional_content_group_new(&g, s.c_str()); if(rc) return rc; CapyPDF_OptionalContentGroupId i; rc = put(w.ocg, capy_generator_add_optional_content_group(w.gen, g, &i), i); capy_optional_content_group_destroy(g); return rc; });
    A("generator_add_image", 4, [](World &w) -> EC {
        CapyPDF_RasterImageBuilder *b; capy_raster_image_builder_new(&b); int W = 1 + w.r(9), H = 1 + w.r(5);
        auto cs = w.e<CapyPDF_Image_Colorspace>(3); int comp = cs == CAPY_IMAGE_CS_RGB ? 3 : cs == CAPY_IMAGE_CS_GRAY ? 1 : 4;
        bool mask = w.r(5) == 0; if(mask) { comp = 1; cs = CAPY_IMAGE_CS_GRAY; }
        capy_raster_image_builder_set_size(b, W, H); capy_raster_image_builder_set_colorspace(b, cs); capy_raster_image_builder_set_pixel_depth(b, mask ? 1 : 8);
        std::string px(mask ? (W + 7) / 8 * H : W * H * comp, 0); for(auto &x : px) x = w.rng(); capy_raster_image_builder_set_pixel_data(b, px.data(), px.size());
        if(!mask && w.r(3) == 0) { capy_raster_image_builder_set_alpha_depth(b, 8); std::string al(W * H, 'x'); capy_raster_image_builder_set_alpha_data(b, al.data(), al.size()); }
        CapyPDF_RasterImage *im; EC rc = capy_raster_image_builder_build(b, &im); capy_raster_image_builder_destroy(b); if(rc) return rc;
        CapyPDF_ImagePdfProperties *pr; capy_image_pdf_properties_new(&pr); if(mask) capy_image_pdf_properties_set_mask(pr, 1); capy_image_pdf_properties_set_interpolate(pr, w.e<CapyPDF_Image_Interpolation>(3));
        CapyPDF_ImageId i; rc = put(w.image, capy_generator_add_image(w.gen, im, pr, &i), i); capy_image_pdf_properties_destroy(pr); capy_raster_image_destroy(im); return rc; });
    A("generator_load_image", 2, [](World &w) -> EC { static const char *fs[] = {"1bit_noalpha.png", "simple.jpg", "gray_alpha.png", "rgb_tiff.tif", "simple.jpg"}; std::string f = g_root + "/testdata/images/" + fs[w.r(5)]; if(access(f.c_str(), R_OK) || w.image.v.size() > 4) return NA;
        if(f.ends_with("jpg") && w.r(2)) { std::string b = slurp(f); int n = w.r(4); for(int i = 0; i < n; ++i) b += "\0\0\n\rx"[w.r(5)]; f = w.dir + "/t.jpg"; FILE *o = fopen(f.c_str(), "wb"); fwrite(b.data(), 1, b.size(), o); fclose(o); }
        CapyPDF_RasterImage *im; EC rc = capy_generator_load_image(w.gen, f.c_str(), &im); if(rc) return rc; CapyPDF_ImagePdfProperties *pr; capy_image_pdf_properties_new(&pr); CapyPDF_ImageId i; rc = put(w.image, capy_generator_add_image(w.gen, im, pr, &i), i); capy_image_pdf_properties_destroy(pr); capy_raster_image_destroy(im); return rc; });
    A("generator_embed_file", 2, [](World &w) -> EC { CapyPDF_EmbeddedFile *f; capy_embedded_file_new(&f); std::string s = w.str(40), n = w.str() + "f.txt"; capy_embedded_file_set_contents(f, s.data(), s.size()); capy_embedded_file_set_pdf_name(f, n.c_str(), -1); if(w.r(2)) capy_embedded_file_set_subtype(f, "text/plain", -1);
        CapyPDF_EmbeddedFileId i; EC rc = put(w.efile, capy_generator_embed_file(w.gen, f, &i), i); capy_embedded_file_destroy(f); return rc; });
    A("generator_add_3d_stream", 1, [](World &w) -> EC { std::string fn = g_root + "/testdata/3d/toruses.u3d"; if(access(fn.c_str(), R_OK) || w.s3d.v.size() > 0) return NA; CapyPDF_3DStream *s; EC rc = capy_3d_stream_new(fn.c_str(), CAPY_3D_UDF, &s); if(rc) return rc; CapyPDF_3DStreamId i; rc = put(w.s3d, capy_generator_add_3d_stream(w.gen, s, &i), i); capy_3d_stream_destroy(s); return rc; });
    // ------------------------------------------------------------------ document structure
    A("generator_add_annotation", 6, [](World &w) -> EC { CapyPDF_Annotation *a; EC rc; int k = w.r(7); std::string s = w.str();
        if(k == 0) rc = capy_text_annotation_new(s.c_str(), -1, &a);
        else if(k == 1) rc = capy_link_annotation_new(&a);
        else if(k == 2) rc = capy_line_annotation_new(s.c_str(), -1, w.d(), w.d(), w.d(), w.d(), &a);
        else if(k == 3) { NEED(efile); rc = capy_file_attachment_annotation_new(w.pick(w.efile), &a); }
        else if(k == 4) { NEED(field); rc = capy_widget_annotation_new(&a); if(!rc) capy_annotation_set_parent_field(a, w.pick(w.field)); }
        else if(k == 5) { NEED(fxo); rc = capy_printers_mark_annotation_new(w.pick(w.fxo), &a); }
        else { NEED(s3d); rc = capy_3d_annotation_new(&a); if(!rc) capy_annotation_set_3d_stream(a, w.pick(w.s3d)); }
        if(rc) return rc;
        if(w.badp == 0 || w.r(5)) capy_annotation_set_rectangle(a, w.d(), w.d(), w.d(), w.d());
        if(w.r(2)) capy_annotation_set_flags(a, (CapyPDF_Annotation_Flags)w.r(1024));
        if(k == 1 && w.r(2)) { std::string u = w.ascii(); capy_annotation_set_uri(a, u.c_str(), -1); } else if(k == 1) { auto *d = mk_dest(w); capy_annotation_set_destination(a, d); capy_destination_destroy(d); }
        if(k == 2) { if(w.r(2)) capy_annotation_set_line_leader(a, w.d(), w.d()); if(w.r(2)) capy_annotation_set_line_endings(a, w.e<CapyPDF_Line_Annotation_End_Style>(10), w.e<CapyPDF_Line_Annotation_End_Style>(10)); }
        if(k == 4 && w.r(2) && (!w.fxo.v.empty() || w.badp > 0)) { std::string nm = w.ascii(5) + "On"; capy_annotation_set_widget_button_appearance(a, w.pick(w.fxo), w.pick(w.fxo), nm.c_str(), -1); }
        CapyPDF_AnnotationId i; rc = put(w.annot, capy_generator_add_annotation(w.gen, a, &i), i); capy_annotation_destroy(a); return rc; });
    A("generator_add_form_field", 3, [](World &w) -> EC { CapyPDF_FormField *f; auto ty = w.e<CapyPDF_Form_Field_Type>(3); capy_form_field_new(ty, &f); std::string s = w.str() + "F";
        if(w.r(2) && (!w.field.v.empty() || w.badp > 0)) capy_form_field_set_parent(f, w.pick(w.field));
        if(w.r(2)) capy_form_field_set_T(f, s.c_str(), -1); if(w.r(2)) capy_form_field_set_Ff(f, w.r(1 << 26)); if(w.r(2)) { std::string v = w.str(); capy_form_field_set_V(f, v.c_str(), -1); }
        if(ty == CAPY_FORM_FIELD_TYPE_CH) { int n = w.r(4); for(int i = 0; i < n; ++i) { std::string v = w.str(); capy_form_field_add_Opt_entry(f, v.c_str(), -1); } }
        CapyPDF_FormFieldId i; EC rc = put(w.field, capy_generator_add_form_field(w.gen, f, &i), i); capy_form_field_destroy(f); return rc; });
    A("generator_add_rolemap_entry", 1, [](World &w) -> EC { std::string s = (w.weird ? w.ascii(5) : "") + "Ro" + std::to_string(w.role.v.size()); CapyPDF_RoleId i; return put(w.role, capy_generator_add_rolemap_entry(w.gen, s.c_str(), -1, w.e<CapyPDF_Structure_Type>(30), &i), i); });
    auto extra = [](World &w) -> CapyPDF_StructItemExtraData * { if(w.r(2)) return nullptr; CapyPDF_StructItemExtraData *e; capy_struct_item_extra_data_new(&e); std::string s = w.str();
        if(w.r(2)) capy_struct_item_extra_data_set_t(e, s.c_str(), -1); if(w.r(2)) capy_struct_item_extra_data_set_lang(e, "fi-FI", -1); if(w.r(2)) capy_struct_item_extra_data_set_alt(e, s.c_str(), -1); if(w.r(2)) capy_struct_item_extra_data_set_actual_text(e, s.c_str(), -1); return e; };
    A("generator_add_structure_item", 5, [extra](World &w) -> EC { auto *e = extra(w); CapyPDF_StructureItemId i, par; bool hp = !w.sti.v.empty() || w.p(w.badp); if(hp) par = w.pick(w.sti);
        EC rc = put(w.sti, capy_generator_add_structure_item(w.gen, w.e<CapyPDF_Structure_Type>(40), hp ? &par : nullptr, e, &i), i); if(e) capy_struct_item_extra_data_destroy(e); return rc; });
    A("generator_add_custom_structure_item", 2, [extra](World &w) -> EC { NEED(role); auto *e = extra(w); CapyPDF_StructureItemId i, par; bool hp = !w.sti.v.empty(); if(hp) par = w.pick(w.sti);
        EC rc = put(w.sti, capy_generator_add_custom_structure_item(w.gen, w.pick(w.role), hp ? &par : nullptr, e, &i), i); if(e) capy_struct_item_extra_data_destroy(e); return rc; });
    A("generator_add_outline", 5, [](World &w) -> EC { CapyPDF_Outline *u; capy_outline_new(&u); std::string s = w.str(); s += "#" + std::to_string(w.outl.v.size()); capy_outline_set_title(u, s.c_str(), -1); int par = -1;
        if(w.npages && w.r(2)) { auto *d = mk_dest(w); capy_outline_set_destination(u, d); capy_destination_destroy(d); }
        if(w.r(3) == 0) capy_outline_set_C(u, w.u(), w.u(), w.u()); if(w.r(3) == 0) capy_outline_set_F(u, w.r(4));
        if((!w.outl.v.empty() || w.p(w.badp)) && w.r(3)) { auto q = w.pick(w.outl); par = q.id; capy_outline_set_parent(u, q); }
        CapyPDF_OutlineId i; EC rc = put(w.outl, capy_generator_add_outline(w.gen, u, &i), i); capy_outline_destroy(u); if(rc == 0) { w.outparent.push_back(par); w.titles.push_back(s); } return rc; });
    A("generator_add_page_labeling", 2, [](World &w) -> EC { uint32_t st = w.r(6); CapyPDF_Page_Label_Number_Style ns = w.e<CapyPDF_Page_Label_Number_Style>(5); std::string s = w.str(); uint32_t n = 1 + w.r(9);
        return capy_generator_add_page_labeling(w.gen, st, w.r(2) ? &ns : nullptr, w.r(2) ? s.c_str() : nullptr, -1, w.r(2) ? &n : nullptr); });
    A("generator_set_collection", 1, [](World &w) -> EC { CapyPDF_Collection *q; capy_collection_new(&q); if(w.r(2)) capy_collection_set_view(q, w.e<CapyPDF_Collection_View>(4)); std::string s = w.ascii(); if(w.r(2)) capy_collection_set_D(q, s.c_str(), -1);
        if(w.r(2)) { CapyPDF_CollectionSchema *sc; capy_collection_schema_new(&sc); int n = w.r(3); for(int i = 0; i < n; ++i) { CapyPDF_CollectionField *f; std::string nm = w.str() + "c"; capy_collection_field_new(w.e<CapyPDF_Collection_Subtype>(9), nm.c_str(), -1, &f); if(w.r(2)) capy_collection_field_set_O(f, w.r(5)); if(w.r(2)) capy_collection_field_set_V(f, w.r(2)); if(w.r(2)) capy_collection_field_set_E(f, w.r(2));
            std::string k = (w.weird ? w.ascii(4) : "") + "E" + std::to_string(i); capy_collection_schema_add_entry(sc, k.c_str(), -1, f); capy_collection_field_destroy(f); } capy_collection_set_schema(q, sc); capy_collection_schema_destroy(sc); }
        EC rc = capy_generator_set_collection(w.gen, q); capy_collection_destroy(q); return rc; });
    A("generator_text_width", 1, [](World &w) -> EC { NEED(font); std::string s = w.str(6); double r; return capy_generator_text_width(w.gen, s.c_str(), -1, w.pick(w.font), 10, &r); });
    return o;
}
static int total_weight() { static int t = 0; if(!t) for(auto &o : all_ops()) t += o.weight; return t; }
static const Op &pick_op(World &w, const std::set<std::string> *only = nullptr) {
    for(;;) {
        int x = w.r(total_weight());
        for(auto &o : all_ops()) { x -= o.weight; if(x < 0) { if(!only || only->count(o.name)) return o; break; } }
    }
}
static void run_world(World &w, int n, const std::set<std::string> *only = nullptr) {
    w.start();
    if(w.dead) return;
    new_ctx(w, w.gen, CAPY_DC_PAGE);
    for(int i = 0; i < n && !w.dead; ++i) { w.run(pick_op(w, only)); ++g_evals; }
}
// closes everything, adds at least one page and writes the document; -> error code
static EC complete(World &w) {
    for(auto &x : w.ctx) if(!x.foreign) closeall(w, x.c);
    if(!w.npages) { if(!w.dc(0)) { CapyPDF_DrawContext *c; capy_page_draw_context_new(w.gen, &c); w.ctx.push_back({c, CAPY_DC_PAGE, false}); }
        EC rc = finish_ctx(w, CAPY_DC_PAGE); if(rc) return rc; }
    return capy_generator_write(w.gen);
}
