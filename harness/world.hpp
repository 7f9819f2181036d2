// A random application: drives the C interface of the real library with arbitrary (legal or illegal) calls.
#pragma once
#include "h.hpp"
#include <capypdf.h>
#include <lcms2.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <algorithm>
#include <dirent.h>
typedef CapyPDF_EC EC;
static std::string g_root = "/repo";
static std::string slurp(const std::string &p) {
    std::string r;
    FILE *f = fopen(p.c_str(), "rb");
    if(!f) return r;
    char b[65536]; size_t n;
    while((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
static const std::string &icc_profile(int ch) {
    static std::map<int, std::string> m;
    auto it = m.find(ch);
    if(it != m.end()) return it->second;
    cmsHPROFILE p;
    if(ch == 3) p = cmsCreate_sRGBProfile();
    else {
        cmsToneCurve *c = cmsBuildGamma(nullptr, 2.2);
        p = cmsCreateGrayProfile(cmsD50_xyY(), c);
        cmsFreeToneCurve(c);
    }
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(p, nullptr, &n);
    std::string s(n, 0);
    cmsSaveProfileToMem(p, s.data(), &n);
    cmsCloseProfile(p);
    return m[ch] = s;
}
static std::vector<std::string> font_files() {
    std::vector<std::string> r;
    for(auto f : {"/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf", "/usr/share/fonts/opentype/urw-base35/P052-Roman.otf"})
        if(access(f, R_OK) == 0) r.push_back(f);
    for(auto f : {"/testdata/fonts/NotoSans-Regular.ttf", "/testdata/fonts/P052-Roman.otf"})
        if(access((g_root + f).c_str(), R_OK) == 0) r.push_back(g_root + f);
    return r;
}
template<class I> struct Pool { std::vector<I> v; };
struct World;
struct Op { const char *name; int weight; std::function<EC(World &)> f; };
struct CtxRec { CapyPDF_DrawContext *c; int kind; bool foreign; double l = 0, b = 0, r = 0, t = 0; };
static volatile int g_sink;
struct World {
    std::mt19937_64 rng;
    CapyPDF_Generator *gen = nullptr, *gen2 = nullptr;
    CapyPDF_DocumentProperties *dp = nullptr;
    std::string dir, out, outname = "out.pdf";
    // knobs
    double badp = 0;          // chance of an invalid identifier
    double badval = 0;        // chance of an illegal enum, boolean or length
    bool foreign = false;     // contexts of another document exist
    bool closeall = true;     // close brackets before a context is finished
    bool plainfonts = true;   // use real fonts
    bool weird = true;        // strings with delimiters and wide characters
    bool oldstyle = false;    // a file format version without object streams
    double hugep = 0.05;
    // state
    bool usedbad = false;     // the running call got an invalid identifier
    bool usedbadval = false;
    bool dead = false;
    std::vector<std::string> log;
    std::vector<CtxRec> ctx;
    int npages = 0;
    Pool<CapyPDF_FontId> font; Pool<CapyPDF_ImageId> image; Pool<CapyPDF_FormXObjectId> fxo; Pool<CapyPDF_TransparencyGroupId> trg;
    Pool<CapyPDF_PatternId> pat; Pool<CapyPDF_GraphicsStateId> gs; Pool<CapyPDF_ShadingId> sh; Pool<CapyPDF_FunctionId> fn;
    Pool<CapyPDF_SeparationId> sep; Pool<CapyPDF_LabColorSpaceId> lab; Pool<CapyPDF_IccColorSpaceId> icc; Pool<CapyPDF_OptionalContentGroupId> ocg;
    Pool<CapyPDF_AnnotationId> annot; Pool<CapyPDF_FormFieldId> field; Pool<CapyPDF_StructureItemId> sti; Pool<CapyPDF_RoleId> role;
    Pool<CapyPDF_OutlineId> outl; Pool<CapyPDF_SoftMaskId> smask; Pool<CapyPDF_EmbeddedFileId> efile; Pool<CapyPDF_3DStreamId> s3d;
    std::map<int, int> iccch;
    std::vector<int> outparent;
    std::vector<std::string> titles;
    std::function<void(World &, const char *, EC)> after;   // called after every operation
    std::function<void(World &, const char *)> before;
    std::function<void(World &, CapyPDF_DrawContext *)> done;   // a page or form was added from this context

    uint64_t r(uint64_t n) { return n ? rng() % n : 0; }
    bool p(double x) { return (rng() >> 11) * 0x1p-53 < x; }
    template<class I> I pick(Pool<I> &P) {
        I i;
        if(P.v.empty() || p(badp)) {
            static const int bad[] = {-1, -2, 1000000, 0x7fffffff, (int)0x80000000, 99, 12345};
            for(int k = 0; k < 40; ++k) {
                i.id = p(0.6) ? bad[r(7)] : (p(0.5) ? (int)r(40) : (int)rng());
                bool in = false;
                for(auto &x : P.v) if(x.id == i.id) in = true;
                if(std::is_same<I, CapyPDF_IccColorSpaceId>::value && i.id >= 0 && i.id < 40) in = true;   // the profiles of the output and of images exist too
                if(!in) { usedbad = true; return i; }
            }
        }
        if(P.v.empty()) { i.id = -1; usedbad = true; return i; }
        return P.v[r(P.v.size())];
    }
    double d() {
        static const double s[] = {0, 1, -1, 0.5, 10, 100, 0.25, 72, 1e-5, 123456.789, -0.0, 1e10, 3.14159, 1e-9, 1e7, -250.75, 0.001, 612, 1e16, 1e21};
        if(p(0.6)) return s[r(20)];
        if(p(0.8)) return (double)((int64_t)r(200000) - 100000) / 97.0;
        if(p(hugep)) return p(0.5) ? 1.7e308 : -2.2e-308;
        return (double)(int64_t)(rng() >> 34) - 5e8;
    }
    double u() { static const double s[] = {0, 1, 0.5, -1, 2, 1e-7, 0.333333333, -1e9, 1e300, 0.1}; return p(0.5) ? s[r(10)] : (rng() >> 11) * 0x1p-53; }
    int b() { if(p(badval)) { static const int x[] = {-1, 2, 255, -2147483647}; usedbadval = true; return x[r(4)]; } return r(2); }
    template<class T> T e(int n) { return (T)r(n); }
    std::string str(int maxlen = 12) {
        static const char *cs[] = {"a", "B", "7", " ", "(", ")", "\\", "<", ">", "[", "]", "{", "}", "/", "%", "#", "&", "\"", "'", "\n", "\r", "\t", "\xc3\xa4", "\xe2\x82\xac",
            "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\x7f", "\x01", "-", "]]>", "\\)", "((", "\\n", "~", "@", "\xc2\xa0", "\xef\xbf\xbd"};
        std::string s;
        int n = r(maxlen);
        for(int i = 0; i < n; ++i) s += weird ? cs[r(p(0.4) ? 3 : 37)] : cs[r(3)];
        return s;
    }
    std::string name() { std::string s = weird && p(0.3) ? str(6) : ""; static const char *w[] = {"Na", "mE", "x1", "Qrs", "T_y"}; return s + w[r(5)]; }
    std::string ascii(int n = 10) { std::string s; int k = r(n); static const char cs[] = "abcXYZ019 ()\\<>[]{}/%#&\"'.-_:;"; for(int i = 0; i < k; ++i) s += cs[r(weird ? 31 : 9)]; return s; }
    std::vector<double> ds(int n) { std::vector<double> v; for(int i = 0; i < n; ++i) v.push_back(d()); return v; }
    CapyPDF_Color *color(int kind = -1);
    CapyPDF_DrawContext *dc(int kind = -1) {
        std::vector<CapyPDF_DrawContext *> c;
        for(auto &x : ctx) if(!x.foreign && (kind < 0 || x.kind == kind)) c.push_back(x.c);
        if(c.empty()) return nullptr;
        return c[r(c.size())];
    }
    std::map<CapyPDF_DrawContext *, std::vector<char>> open_;
    void start();
    void finish();
    bool everbad = false;
    EC run(const Op &op) {
        usedbad = usedbadval = false;
        if(before) before(*this, op.name);
        EC rc = op.f(*this);
        everbad |= usedbad || usedbadval;
        log.push_back(std::string(op.name) + (rc ? "!" : "") + (usedbad ? "?" : ""));
        if(after) after(*this, op.name, rc);
        return rc;
    }
    std::string tail(size_t n = 25) { std::string s; for(size_t i = log.size() > n ? log.size() - n : 0; i < log.size(); ++i) s += log[i] + ";"; return s; }
};
#define NA 100000    // operation not applicable right now
inline CapyPDF_Color *World::color(int kind) {
    CapyPDF_Color *c;
    const bool ub = usedbad;
    capy_color_new(&c);
    if(kind < 0) kind = r(7);
    switch(kind) {
    case 0: capy_color_set_rgb(c, u(), u(), u()); break;
    case 1: capy_color_set_gray(c, u()); break;
    case 2: capy_color_set_cmyk(c, u(), u(), u(), u()); break;
    case 3: {
        if(icc.v.empty() && badp == 0) { capy_color_set_gray(c, u()); break; }
        auto i = pick(icc);
        int n = iccch.count(i.id) ? iccch[i.id] : 3;
        if(p(badval)) { n = r(6); if(iccch.count(i.id) && n != iccch[i.id]) usedbadval = true; }
        double v[8]; for(auto &x : v) x = u();
        if(capy_color_set_icc(c, i, v, n)) usedbad = ub;
        break;
    }
    case 4: if(sep.v.empty() && badp == 0) capy_color_set_gray(c, u()); else if(capy_color_set_separation(c, pick(sep), u())) usedbad = ub; break;
    case 5: if(pat.v.empty() && badp == 0) capy_color_set_gray(c, u()); else if(capy_color_set_pattern(c, pick(pat))) usedbad = ub; break;
    case 6: if(lab.v.empty() && badp == 0) capy_color_set_gray(c, u()); else { auto i = pick(lab); if(capy_color_set_lab(c, i, u() * 100, u() * 50, -u() * 50)) usedbad = ub; } break;
    }
    return c;
}
static CapyPDF_Transition *mk_transition(World &w) {
    CapyPDF_Transition *t; capy_transition_new(&t);
    if(w.r(2)) capy_transition_set_S(t, w.e<CapyPDF_Transition_Type>(12));
    if(w.r(2)) capy_transition_set_D(t, w.d());
    if(w.r(2)) capy_transition_set_Dm(t, w.e<CapyPDF_Transition_Dimension>(2));
    if(w.r(2)) capy_transition_set_M(t, w.e<CapyPDF_Transition_Motion>(2));
    if(w.r(2)) capy_transition_set_Di(t, w.r(360));
    if(w.r(2)) capy_transition_set_SS(t, w.d());
    if(w.r(2)) capy_transition_set_B(t, w.r(2));
    return t;
}
static CapyPDF_PageProperties *mk_pageprops(World &w) {
    CapyPDF_PageProperties *t; capy_page_properties_new(&t);
    for(int i = 0; i < 5; ++i) if(w.r(2)) { double a = w.r(50), b = w.r(50); capy_page_properties_set_pagebox(t, (CapyPDF_Page_Box)i, a, b, a + 1 + w.r(600), b + 1 + w.r(700)); }
    if(w.r(3) == 0) {
        CapyPDF_TransparencyGroupProperties *q; capy_transparency_group_properties_new(&q);
        if(w.r(2)) capy_transparency_group_properties_set_CS(q, w.e<CapyPDF_Device_Colorspace>(3));
        if(w.r(2)) capy_transparency_group_properties_set_I(q, w.r(2));
        if(w.r(2)) capy_transparency_group_properties_set_K(q, w.r(2));
        capy_page_properties_set_transparency_group_properties(t, q);
        capy_transparency_group_properties_destroy(q);
    }
    return t;
}
static CapyPDF_Destination *mk_dest(World &w) {
    CapyPDF_Destination *t; capy_destination_new(&t);
    int pg = w.npages && !w.p(w.badp) ? (int)w.r(w.npages) : (int)w.r(4);
    if(w.r(2)) capy_destination_set_page_fit(t, pg);
    else { double x = w.d(), y = w.d(), z = w.d(); capy_destination_set_page_xyz(t, pg, w.r(2) ? &x : nullptr, w.r(2) ? &y : nullptr, w.r(2) ? &z : nullptr); }
    return t;
}
static CapyPDF_TextSequence *mk_seq(World &w, CapyPDF_FontId f) {
    CapyPDF_TextSequence *t; capy_text_sequence_new(&t);
    int n = w.r(8);
    bool open = false;
    for(int i = 0; i < n; ++i) switch(w.r(7)) {
        case 0: capy_text_sequence_append_codepoint(t, "Abcdefghij"[w.r(10)]); break;
        case 1: { std::string s = w.str(8); capy_text_sequence_append_string(t, s.c_str(), -1); break; }
        case 2: capy_text_sequence_append_kerning(t, (int)w.r(400) - 200); break;
        case 3: if(!open || w.p(w.badval)) { if(open) w.usedbadval = true; std::string s = w.str(); capy_text_sequence_append_actualtext_start(t, s.c_str(), -1); open = true; } break;
        case 4: if(open || w.p(w.badval)) { if(!open) w.usedbadval = true; capy_text_sequence_append_actualtext_end(t); open = false; } break;
        case 5: { uint32_t g = 30 + w.r(60); capy_text_sequence_append_raw_glyph(t, g, 'A' + g); break; }
        case 6: { uint32_t g = 100 + w.r(20); std::string s = "f" + std::to_string(g); capy_text_sequence_append_ligature_glyph(t, g, s.c_str(), -1); break; }
    }
    if(open) { if(w.p(w.badval)) w.usedbadval = true; else capy_text_sequence_append_actualtext_end(t); }
    return t;
}
inline void World::start() {
    char t[] = "/tmp/capyver-w-XXXXXX";
    dir = mkdtemp(t);
    out = dir + "/" + outname;
    capy_document_properties_new(&dp);
    auto opt = [&](auto f) { if(r(3) == 0) { std::string s = str(); f(s); } };
    opt([&](std::string &s) { capy_document_properties_set_title(dp, s.c_str(), -1); });
    opt([&](std::string &s) { capy_document_properties_set_author(dp, s.c_str(), -1); });
    opt([&](std::string &s) { capy_document_properties_set_creator(dp, s.c_str(), -1); });
    if(r(4) == 0) capy_document_properties_set_language(dp, "en-US", -1);
    if(r(2)) capy_document_properties_set_page_layout(dp, e<CapyPDF_Page_Layout>(6));
    if(r(2)) capy_document_properties_set_page_mode(dp, e<CapyPDF_Page_Mode>(6));
    if(r(2)) capy_document_properties_set_tagged(dp, r(2));
    capy_document_properties_set_colorspace(dp, e<CapyPDF_Device_Colorspace>(2));
    if(r(3) == 0) { auto *q = mk_pageprops(*this); capy_page_properties_set_pagebox(q, CAPY_BOX_MEDIA, 0, 0, 300, 400); capy_document_properties_set_default_page_properties(dp, q); capy_page_properties_destroy(q); }
    if(r(6) == 0) { std::string s = "<rdf><pdf:Producer>CapyPDF " + std::to_string(r(100)) + "</pdf:Producer></rdf>"; if(r(3) == 0) s += "\xc3\xa4\xe2\x82\xac"; for(int k = r(3); k > 0; --k) s += " \n\r"[r(3)]; capy_document_properties_set_metadata_xml(dp, s.c_str(), -1); }
    if(oldstyle || r(5) == 0) {
        if(oldstyle) { capy_document_properties_set_pdfx(dp, r(2) ? CAPY_PDFX_3_2002 : CAPY_PDFX_1A_2003); capy_document_properties_set_tagged(dp, 1); }
        else capy_document_properties_set_pdfa(dp, e<CapyPDF_PDFA_Type>(10));
        std::string s = "sRGB " + str();
        capy_document_properties_set_output_intent(dp, s.c_str(), -1);
        std::string f = dir + "/p.icc";
        FILE *o = fopen(f.c_str(), "wb"); fwrite(icc_profile(3).data(), 1, icc_profile(3).size(), o); fclose(o);
        capy_document_properties_set_device_profile(dp, CAPY_DEVICE_CS_RGB, f.c_str());
        capy_document_properties_set_colorspace(dp, CAPY_DEVICE_CS_RGB);
    }
    EC rc = capy_generator_new(out.c_str(), dp, &gen);
    if(rc) { gen = nullptr; dead = true; return; }
    if(foreign) {
        CapyPDF_DocumentProperties *d2; capy_document_properties_new(&d2);
        capy_generator_new((dir + "/other.pdf").c_str(), d2, &gen2);
        capy_document_properties_destroy(d2);
    }
}
inline void World::finish() {
    for(auto &x : ctx) capy_dc_destroy(x.c);
    if(gen) capy_generator_destroy(gen);
    if(gen2) capy_generator_destroy(gen2);
    capy_document_properties_destroy(dp);
    if(DIR *d = opendir(dir.c_str())) { while(auto *x = readdir(d)) if(x->d_name[0] != '.' || (x->d_name[1] && x->d_name[1] != '.')) unlink((dir + "/" + x->d_name).c_str()); closedir(d); }
    rmdir(dir.c_str());
}
// runs f in a child process; a crash, abort or hang of the real code is a failure with the last operation as its key
template<class F> static void isolated(const std::string &where, F f, int secs = 60) {
    int pfd[2];
    if(pipe(pfd)) exit(2);
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        close(pfd[0]);
        g_evals = 0;
        g_failkeys.clear();
        alarm(secs);
        dup2(pfd[1], 1);
        int nul = open("/dev/null", 1);
        if(!getenv("CAPYVER_STDERR")) dup2(nul, 2);
        f();
        printf("E %ld\n", g_evals);
        fflush(stdout);
        _exit(0);
    }
    close(pfd[1]);
    std::string s; char b[4096]; ssize_t n;
    while((n = read(pfd[0], b, sizeof b)) > 0) s.append(b, n);
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::string last; bool fin = false; size_t i = 0;
    while(i < s.size()) {
        size_t j = s.find('\n', i);
        if(j == std::string::npos) j = s.size();
        std::string l = s.substr(i, j - i);
        i = j + 1;
        if(l.rfind("FAIL ", 0) == 0) { auto t = l.find('\t'); fail(l.substr(5, t - 5), l.substr(t + 1) + " [" + where + "]"); }
        else if(l.rfind("AT ", 0) == 0) last = l.substr(3);
        else if(l.rfind("E ", 0) == 0) { g_evals += atol(l.c_str() + 2); fin = true; }
    }
    if(!fin) {
        auto t = last.find('\t');
        std::string k = last.substr(0, t), d = t == std::string::npos ? "" : last.substr(t + 1);
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        fail((hang ? "hang:" : "crash:") + k, std::string(hang ? "the real code did not return from " : "the real code crashed or aborted (") + (hang ? "" : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) + ") in " : "exit " + std::to_string(WEXITSTATUS(st)) + ") in ") + k + " " + d + " [" + where + "]");
    }
}
