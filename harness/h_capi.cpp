// The C interface as a whole: every exported function is called with ordinary arguments, with every bad argument of the
// reviewed table, and with a failing memory allocation at each point inside the call.  Checked: no crash, no escaping
// exception (the functions are noexcept), an error or exception gives a nonzero code, outputs are stored exactly when the code is zero.
#include "ops.hpp"
#include "model.hpp"
#include <new>
#include <malloc.h>
static long g_arm = -1;          // allocations until one fails
static bool g_hit = false;
void *operator new(size_t n) {
    if(g_arm >= 0 && g_arm-- == 0) { g_hit = true; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
typedef std::vector<int> L;
static bool has(const L &l, int i) { for(int x : l) if(x == i) return true; return false; }
struct Call {
    const char *name; L out, null_, bool_, len;
    std::function<void(World &)> drive;
};
struct Args {
    World &w; const Call &c; int pos = 0, bad = -1; int badv = 0; bool ptrbefore = false, charbefore = false;
    std::vector<std::shared_ptr<std::vector<unsigned char>>> bufs;
    struct O { unsigned char *p; size_t n; };
    std::vector<O> outs;
    std::vector<std::pair<const void *, std::string>> objs;     // the objects behind the handles, byte for byte
    std::string desc;
    unsigned char *buf(size_t n, int fill) { bufs.push_back(std::make_shared<std::vector<unsigned char>>(n, fill)); return bufs.back()->data(); }
};
static std::vector<std::string> g_files;
static const char *some_string(Args &a) {
    World &w = a.w;
    std::string s;
    switch(w.r(6)) {
    case 0: s = w.str(); break;
    case 1: s = "Na"; break;
    case 2: s = g_files[w.r(g_files.size())]; break;
    case 3: s = "\xff\xfe" "a"; break;
    case 4: s = ""; break;
    default: s = w.ascii(); if(s.empty()) s = "x";
    }
    auto *b = (char *)a.buf(4096, 0);
    memcpy(b, s.data(), std::min(s.size(), (size_t)4000));
    return b;
}
// objects behind handles
template<class T> struct Mk;
#define MK(T, ...) template<> struct Mk<T> { static T *make(World &w) { T *t = nullptr; __VA_ARGS__; return t; } }
MK(CapyPDF_Generator, t = w.gen);
MK(CapyPDF_DocumentProperties, capy_document_properties_new(&t); capy_document_properties_set_tagged(t, w.r(2)));
MK(CapyPDF_PageProperties, t = mk_pageprops(w));
MK(CapyPDF_DrawContext, switch(w.r(5)) { case 0: capy_form_xobject_new(w.gen, 0, 0, 10, 10, &t); break; case 1: capy_tiling_pattern_context_new(w.gen, &t, 0, 0, 10, 10); break; case 2: capy_transparency_group_new(w.gen, 0, 0, 10, 10, &t); break;
    default: capy_page_draw_context_new(w.gen, &t); });
MK(CapyPDF_Text, CapyPDF_DrawContext *d = Mk<CapyPDF_DrawContext>::make(w); capy_dc_text_new(d, &t));
MK(CapyPDF_TextSequence, t = mk_seq(w, w.font.v.empty() ? CapyPDF_FontId{0} : w.font.v[0]));
MK(CapyPDF_Color, t = w.color());
MK(CapyPDF_Transition, t = mk_transition(w));
MK(CapyPDF_OptionalContentGroup, capy_optional_content_group_new(&t, "layer"));
MK(CapyPDF_GraphicsState, capy_graphics_state_new(&t));
MK(CapyPDF_TransparencyGroupProperties, capy_transparency_group_properties_new(&t));
MK(CapyPDF_RasterImageBuilder, capy_raster_image_builder_new(&t); capy_raster_image_builder_set_size(t, 2, 2));
MK(CapyPDF_RasterImage, CapyPDF_RasterImageBuilder *b; capy_raster_image_builder_new(&b); capy_raster_image_builder_set_size(b, 2, 2); capy_raster_image_builder_set_colorspace(b, CAPY_IMAGE_CS_RGB);
    capy_raster_image_builder_set_pixel_data(b, "aaabbbcccddd", 12); capy_raster_image_builder_build(b, &t); capy_raster_image_builder_destroy(b));
MK(CapyPDF_Function, double dom[2] = {0, 1}; capy_type4_function_new(dom, 2, dom, 2, "{dup}", -1, &t));
MK(CapyPDF_Shading, capy_type2_shading_new(CAPY_DEVICE_CS_RGB, 0, 0, 1, 1, w.fn.v.empty() ? CapyPDF_FunctionId{0} : w.fn.v[0], &t));
MK(CapyPDF_Annotation, capy_link_annotation_new(&t); capy_annotation_set_rectangle(t, 0, 0, 5, 5));
MK(CapyPDF_StructItemExtraData, capy_struct_item_extra_data_new(&t));
MK(CapyPDF_ImagePdfProperties, capy_image_pdf_properties_new(&t));
MK(CapyPDF_Destination, t = mk_dest(w));
MK(CapyPDF_Outline, capy_outline_new(&t); capy_outline_set_title(t, "t", -1));
MK(CapyPDF_ShadingPattern, capy_shading_pattern_new(w.sh.v.empty() ? CapyPDF_ShadingId{0} : w.sh.v[0], &t));
MK(CapyPDF_SoftMask, capy_soft_mask_new(CAPY_SOFT_MASK_ALPHA, w.trg.v.empty() ? CapyPDF_TransparencyGroupId{0} : w.trg.v[0], &t));
MK(CapyPDF_EmbeddedFile, capy_embedded_file_new(&t); capy_embedded_file_set_pdf_name(t, "f.txt", -1); capy_embedded_file_set_contents(t, "data", 4));
MK(CapyPDF_BDCTags, capy_bdc_tags_new(&t));
MK(CapyPDF_FontProperties, capy_font_properties_new(&t));
MK(CapyPDF_Halftone, capy_halftone_new(&t));
MK(CapyPDF_3DStream, capy_3d_stream_new("/dev/null", (CapyPDF_3D_File_Format)0, &t));
MK(CapyPDF_FormField, capy_form_field_new(CAPY_FORM_FIELD_TYPE_TX, &t); capy_form_field_set_T(t, "T", -1));
MK(CapyPDF_Viewport, capy_viewport_new(0, 0, 1, 1, &t));
MK(CapyPDF_Measure, capy_measure_new(&t));
MK(CapyPDF_NumberFormat, capy_number_format_new("m", -1, 1, &t));
MK(CapyPDF_Collection, capy_collection_new(&t));
MK(CapyPDF_CollectionSchema, capy_collection_schema_new(&t));
MK(CapyPDF_CollectionField, capy_collection_field_new(CAPY_COLLECTION_SUB_S, "n", -1, &t));
template<class T> concept Handle = requires(World &w) { Mk<T>::make(w); };
#define ID(T, P) static T an_id(World &w, T *) { if(!w.P.v.empty() && w.r(4)) return w.P.v[w.r(w.P.v.size())]; T t; static const int x[] = {0, 1, -1, 99}; t.id = x[w.r(4)]; return t; }
ID(CapyPDF_FontId, font) ID(CapyPDF_ImageId, image) ID(CapyPDF_FormXObjectId, fxo) ID(CapyPDF_TransparencyGroupId, trg) ID(CapyPDF_PatternId, pat) ID(CapyPDF_GraphicsStateId, gs) ID(CapyPDF_ShadingId, sh)
ID(CapyPDF_FunctionId, fn) ID(CapyPDF_SeparationId, sep) ID(CapyPDF_LabColorSpaceId, lab) ID(CapyPDF_IccColorSpaceId, icc) ID(CapyPDF_OptionalContentGroupId, ocg) ID(CapyPDF_AnnotationId, annot)
ID(CapyPDF_FormFieldId, field) ID(CapyPDF_StructureItemId, sti) ID(CapyPDF_RoleId, role) ID(CapyPDF_OutlineId, outl) ID(CapyPDF_SoftMaskId, smask) ID(CapyPDF_EmbeddedFileId, efile) ID(CapyPDF_3DStreamId, s3d)
template<class T> T arg(Args &a) {
    World &w = a.w;
    int i = a.pos++;
    bool pb = a.ptrbefore, cb = a.charbefore;
    a.ptrbefore = a.charbefore = false;
    T v;
    if constexpr(std::is_pointer_v<T>) {
        using U = std::remove_pointer_t<T>;
        using C = std::remove_const_t<U>;
        if(i == a.bad) { a.ptrbefore = true; a.charbefore = std::is_same_v<C, char>; return nullptr; }
        if constexpr(!Handle<C>) if(has(a.c.out, i)) {
            unsigned char *p = a.buf(sizeof(C), 0xA5);
            a.outs.push_back({p, sizeof(C)});
            return (T)p;
        }
        a.ptrbefore = true;
        if constexpr(std::is_same_v<C, char>) { a.charbefore = true; return (T)some_string(a); }
        else if constexpr(std::is_pointer_v<C>) {
            using H = std::remove_const_t<std::remove_pointer_t<C>>;
            if constexpr(Handle<H>) {
            H **p = (H **)a.buf(16 * sizeof(H *), 0);
            for(int k = 0; k < 16; ++k) p[k] = Mk<H>::make(w);
            return (T)p;
            } else return nullptr;
        } else if constexpr(Handle<C>) {
            C *h = Mk<C>::make(w);
            if(h) a.objs.push_back({h, std::string((const char *)h, malloc_usable_size((void *)h))});
            return h;
        }
        else if constexpr(std::is_floating_point_v<C>) { double *p = (double *)a.buf(64 * sizeof(double), 0); for(int k = 0; k < 64; ++k) p[k] = w.u(); return (T)p; }
        else if constexpr(requires { C{}.id; }) { C *p = (C *)a.buf(16 * sizeof(C), 0); for(int k = 0; k < 16; ++k) p[k] = an_id(w, (C *)0); return (T)p; }
        else return (T)a.buf(64, 0);
    } else if constexpr(std::is_floating_point_v<T>) return w.d();
    else if constexpr(std::is_enum_v<T>) return (T)w.r(2);
    else if constexpr(std::is_integral_v<T>) {
        if(i == a.bad) return (T)a.badv;
        if(has(a.c.bool_, i)) return (T)w.r(2);
        if(sizeof(T) == 8) return (T)w.r(4000);
        if(cb) return (T)-1;
        if(pb) return (T)(1 + w.r(6));
        return (T)w.r(3);
    } else return an_id(w, (T *)0);
}
static std::string stored(Args &a) {   // which outputs differ from what was there before
    std::string s;
    for(auto &o : a.outs) { bool same = true; for(size_t k = 0; k < o.n; ++k) same &= o.p[k] == 0xA5; s += same ? '-' : '+'; }
    return s;
}
template<class... A> static void drive1(World &w, const Call &c, EC (*f)(A...), int bad, int badv, long arm, bool &hit) {
    Args a{w, c};
    a.bad = bad;
    a.badv = badv;
    std::string what = std::string(c.name) + (bad >= 0 ? " with argument " + std::to_string(bad) + " = " + std::to_string(badv) : "") + (arm >= 0 ? ", memory allocation " + std::to_string(arm + 1) + " fails" : "");
    at(std::string(c.name) + (bad >= 0 ? ":arg" + std::to_string(bad) : "") + (arm >= 0 ? ":bad_alloc" : "") + "\t" + what);
    // arguments first, so that only the call itself runs with the failing allocation
    std::tuple<A...> t{arg<A>(a)...};
    g_hit = false;
    g_arm = arm;
    EC rc = std::apply(f, t);
    g_arm = -1;
    hit = g_hit;
    ++g_evals;
    std::string st = stored(a);
    if(bad >= 0 && rc == 0) fail(std::string(c.name) + ":accepted:arg" + std::to_string(bad), what + " is accepted");
    if(arm >= 0 && g_hit && rc == 0) fail(std::string(c.name) + ":exception-lost", what + " but success is returned");
    if(bad >= 0 && rc) for(auto &o : a.objs) if(memcmp(o.first, o.second.data(), o.second.size()))
        fail(std::string(c.name) + ":changed:arg" + std::to_string(bad), what + " is rejected but the object was changed");
    if(rc && st.find('+') != std::string::npos) fail(std::string(c.name) + ":stored-on-error", what + " returns error " + std::to_string((int)rc) + " but an output was stored");
    if(!rc && st.find('-') != std::string::npos) fail(std::string(c.name) + ":not-stored", what + " returns success but no output was stored");
    if(rc && !(capy_error_message(rc) && capy_error_message(rc)[0])) fail(std::string(c.name) + ":message", what + " returns " + std::to_string((int)rc) + " without a message");
}
static int g_rounds = 12, g_faults = 25;
template<class... A> static void drive(World &w, const Call &c, EC (*f)(A...)) {
    bool hit;
    bool destroy = strstr(c.name, "_destroy");
    if(!strcmp(c.name, "capy_generator_destroy")) return;
    for(int i = 0; i < (destroy ? 2 : g_rounds); ++i) drive1(w, c, f, -1, 0, -1, hit);
    static const int bools[] = {-1, 2, 255, -2147483647, 256, 3}, lens[] = {-2, -3, -100, -2147483647 - 1, -65536};
    for(int k : c.null_) for(int i = 0; i < 2; ++i) drive1(w, c, f, k, 0, -1, hit);
    for(int k : c.bool_) for(int x : bools) drive1(w, c, f, k, x, -1, hit);
    for(int k : c.len) for(int x : lens) drive1(w, c, f, k, x, -1, hit);
    for(int round = 0; round < 3; ++round)
        for(int k = 0; k < g_faults; ++k) {
            drive1(w, c, f, -1, 0, k, hit);
            if(!hit) break;
        }
}
static std::vector<Call> calls() {
    std::vector<Call> v;
#define CALL(F, O, N, B, LE) v.push_back({#F, L O, L N, L B, L LE, {}}); { Call c = v.back(); v.back().drive = [c](World &w) { drive(w, c, &F); }; }
#include "capi_calls.hpp"
    return v;
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick";
    uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    std::string only = argc > 3 ? argv[3] : "";
    int worlds = tier == "quick" ? 2 : 25;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    g_files = {"/nonexistent/file", "/dev/null", "/etc/passwd"};
    for(auto &f : font_files()) g_files.push_back(f);
    icc_profile(3); icc_profile(1); all_ops();
    auto cs = calls();
    int k = 0;
    for(int i = 0; i < worlds; ++i)
        for(auto &c : cs) {
            ++k;
            if(!only.empty() && only != c.name) continue;
            isolated(c.name, [&] {
                World w;
                w.rng.seed(seed * 1000003 + k);
                w.before = [](World &w, const char *n) { at(std::string("set up: ") + n); };
                if(i == 0) { w.start(); } else run_world(w, 60);
                if(w.dead || !w.gen) return;
                c.drive(w);
                at("clean up");
                unlink(w.out.c_str());
                if(DIR *d = opendir(w.dir.c_str())) { while(auto *x = readdir(d)) if(x->d_name[0] != '.') unlink((w.dir + "/" + x->d_name).c_str()); closedir(d); }
                rmdir(w.dir.c_str());
            });
        }
    return done("calls of every exported function with ordinary and bad arguments and with failing memory allocations");
}
