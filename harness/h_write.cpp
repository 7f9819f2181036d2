#include "ops.hpp"
#include "pdfcheck.hpp"
#include <dlfcn.h>
#include <sys/resource.h>
#include <cerrno>
#include <zlib.h>
#include <ft2build.h>
#include FT_FREETYPE_H
// A07: documents are written while the file operations of the C library are observed and made to fail one at a time.
// The wrappers below stand in front of the C library for the whole program; only calls made while g_on is set count.
static bool g_on = false;
static long g_n = 0, g_fail = -1;       // operations seen; the operation that fails
static int g_mode = 0;
static bool g_bad = false;
static std::string g_failop, g_trace;
static std::set<FILE *> g_files;        // output streams opened while writing
static std::map<int, FILE *> g_fds;
static bool hit(const char *op) {
    if(!g_on) return false;
    g_trace += op; g_trace += ' ';
    if(g_n++ != g_fail) return false;
    g_bad = true; g_failop = op; errno = ENOSPC;
    return true;
}
template<class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE *fopen(const char *n, const char *m) {
    static auto f = real<FILE *(*)(const char *, const char *)>("fopen");
    bool w = g_on && m[0] != 'r';
    if(w && hit("open")) return nullptr;
    FILE *r = f(n, m);
    if(w && r) { g_files.insert(r); g_fds[fileno(r)] = r; }
    return r;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    static auto g = real<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
    if(g_files.count(f) && hit("write")) return g_mode ? (n ? g(b, s, n - 1, f) : 0) : 0;
    return g(b, s, n, f);
}
int fputs(const char *s, FILE *f) {
    static auto g = real<int (*)(const char *, FILE *)>("fputs");
    if(g_files.count(f) && hit("write")) return EOF;
    return g(s, f);
}
int fputc(int c, FILE *f) {
    static auto g = real<int (*)(int, FILE *)>("fputc");
    if(g_files.count(f) && hit("write")) return EOF;
    return g(c, f);
}
int fflush(FILE *f) {
    static auto g = real<int (*)(FILE *)>("fflush");
    if(f && g_files.count(f) && hit("flush")) return EOF;
    return g(f);
}
int fsync(int fd) {
    static auto g = real<int (*)(int)>("fsync");
    if(g_fds.count(fd) && hit("sync")) return -1;
    return g(fd);
}
int fdatasync(int fd) {
    static auto g = real<int (*)(int)>("fdatasync");
    if(g_fds.count(fd) && hit("sync")) return -1;
    return g(fd);
}
int fclose(FILE *f) {
    static auto g = real<int (*)(FILE *)>("fclose");
    if(g_files.count(f)) {
        bool b = hit("close");
        g_fds.erase(fileno(f)); g_files.erase(f);
        int r = g(f);
        return b ? (errno = EIO, EOF) : r;
    }
    return g(f);
}
int rename(const char *a, const char *b) {
    static auto g = real<int (*)(const char *, const char *)>("rename");
    if(g_on && hit("rename")) return -1;
    return g(a, b);
}
// libraries used while writing
int deflateInit_(z_streamp s, int l, const char *v, int n) {
    static auto g = real<int (*)(z_streamp, int, const char *, int)>("deflateInit_");
    if(hit("lib:deflateInit")) return Z_MEM_ERROR;
    return g(s, l, v, n);
}
int deflate(z_streamp s, int f) {
    static auto g = real<int (*)(z_streamp, int)>("deflate");
    if(hit("lib:deflate")) return Z_BUF_ERROR;
    return g(s, f);
}
FT_Error FT_Load_Glyph(FT_Face f, FT_UInt i, FT_Int32 l) {
    static auto g = real<FT_Error (*)(FT_Face, FT_UInt, FT_Int32)>("FT_Load_Glyph");
    if(hit("lib:FT_Load_Glyph")) return FT_Err_Invalid_Glyph_Index;
    return g(f, i, l);
}
}
static const char *PREV = "the previous file, which nobody may touch\n";
struct Res { EC rc = 0; bool built = false; std::string trace, out; long n = 0; bool bad = false; std::string op; std::string left; };
static Res go(uint64_t seed, int i, const std::string &name, long failat, int mode, long limit) {
    World w;
    w.rng.seed(seed);
    w.weird = i % 2; w.plainfonts = i % 3 == 0; w.outname = name; w.oldstyle = i % 3 == 1;
    Res r;
    run_world(w, 3 + w.r(i % 5 == 0 ? 120 : 25));
    if(!w.dead) {
        for(auto &x : w.ctx) if(!x.foreign) closeall(w, x.c);
        bool ok = true;
        if(!w.npages) {
            if(!w.dc(0)) { CapyPDF_DrawContext *c; capy_page_draw_context_new(w.gen, &c); w.ctx.push_back({c, CAPY_DC_PAGE, false}); }
            ok = finish_ctx(w, CAPY_DC_PAGE) == 0;
        }
        if(ok) {
            r.built = true;
            FILE *o = fopen(w.out.c_str(), "wb"); fputs(PREV, o); fclose(o);
            g_n = 0; g_fail = failat; g_mode = mode; g_bad = false; g_trace.clear(); g_on = true;
            rlimit old; getrlimit(RLIMIT_FSIZE, &old);
            if(limit >= 0) { rlimit l = old; l.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &l); }
            r.rc = capy_generator_write(w.gen);
            if(limit >= 0) setrlimit(RLIMIT_FSIZE, &old);
            g_on = false;
            if(!g_files.empty()) r.left = "the output stream is still open";
            g_files.clear(); g_fds.clear();
            r.trace = g_trace; r.n = g_n; r.bad = g_bad; r.op = g_failop; r.out = slurp(w.out);
        }
    }
    w.finish();
    return r;
}
static std::string noid(std::string r) {
    for(size_t p = 0; (p = r.find("/ID", p)) != std::string::npos; ++p) { size_t e = r.find(']', p); if(e != std::string::npos && e - p < 200) r.erase(p, e - p); }
    return r;
}
int main(int argc, char **argv) {
    std::string tier = argc > 1 ? argv[1] : "quick";
    uint64_t seed = argc > 2 ? atoll(argv[2]) : 1;
    if(getenv("CAPY_REPO")) g_root = getenv("CAPY_REPO");
    setenv("SOURCE_DATE_EPOCH", "1700000000", 1);
    signal(SIGXFSZ, SIG_IGN);
    font_files(); icc_profile(3); icc_profile(1); all_ops();
    const char *names[] = {"out.pdf", "out", "out.pdf~", "out.txt", "a.b.c", "out~", "out.pdf.pdf~"};
    int worlds = tier == "quick" ? 60 : 900;
    for(int i = 0; i < worlds; ++i) isolated("world " + std::to_string(seed * 100000 + i), [&] {
        std::string name = names[i % 7];
        uint64_t sd = seed * 100000 + i;
        std::string kind = name == "out.pdf" ? "" : " (file name " + name + ")";
        at("writing to " + name);
        Res ok = go(sd, i, name, -1, 0, -1);
        ++g_evals;
        if(!ok.built) return;
        if(ok.rc != 0) {
            if(ok.out != PREV) fail("failed write touched the file", "an error is reported and the previous file was changed; operations: " + ok.trace + kind);
            return;
        }
        if(ok.out == PREV || ok.out.compare(0, 5, "%PDF-")) fail("success without file", "success is reported but the file is not in place; operations: " + ok.trace);
        size_t t = ok.out.rfind("%%EOF\n");
        if(t == std::string::npos || t + 6 != ok.out.size()) fail("incomplete file", "the file of a successful write does not end with its end marker");
        PFile f; f.load(ok.out);
        for(auto &x : f.errs) if(x.first == "A05") fail("incomplete file", "success is reported but the file cannot be read: " + x.second);
        // the order of a successful run: open, writes, then flush, sync, close, rename
        std::string tr;
        for(size_t a = 0, e; (e = ok.trace.find(' ', a)) != std::string::npos; a = e + 1) if(ok.trace.compare(a, 4, "lib:")) tr += ok.trace.substr(a, e - a + 1);
        std::string want = "flush sync close rename ";
        size_t q = tr.rfind("write ");
        if(tr.compare(0, 5, "open ") || q == std::string::npos || tr.substr(q + 6) != want) fail("order of operations", "a successful write must open, write, flush, sync, close and rename; it did: ... " + tr.substr(tr.size() > 200 ? tr.size() - 200 : 0));
        if(!ok.left.empty()) fail("stream left open", ok.left);
        // every kind of failure, at every place (a sample of them when there are many)
        std::vector<long> at_;
        for(long k = 0; k < ok.n; ++k) if(ok.n < 120 || k < 6 || k >= ok.n - 12 || k % (1 + ok.n / 60) == 0) at_.push_back(k);
        for(long k : at_) for(int mode = 0; mode < 2; ++mode) {
            at("a failing operation of the C library\t" + std::to_string(k) + " while writing " + name);
            Res b = go(sd, i, name, k, mode, -1);
            ++g_evals;
            if(!b.bad) continue;
            if(b.rc == 0) fail(b.op + " failure ignored", "operation " + std::to_string(k) + " (" + b.op + ") failed and success is reported; operations: ..." + b.trace.substr(b.trace.size() > 120 ? b.trace.size() - 120 : 0) + kind);
            else if(b.out != PREV) fail(b.op + " failure touched the previous file", "operation " + std::to_string(k) + " (" + b.op + ") failed, the previous file is gone or changed" + kind);
            if(mode && b.op != "write") break;
        }
        // a disk that is full after some number of bytes
        for(int k = 0; k < 4; ++k) {
            long lim = k == 0 ? 0 : (long)(ok.out.size() * (k - 0.5) / 3);
            if(k == 3) lim = ok.out.size() - 1;
            at("a full disk\t" + std::to_string(lim) + " bytes, while writing " + name);
            Res b = go(sd, i, name, -1, 0, lim);
            ++g_evals;
            if(b.rc == 0) fail("full disk ignored", "only " + std::to_string(lim) + " bytes could be written and success is reported" + kind);
            else if(b.out != PREV) fail("full disk touched the previous file", "the previous file is gone or changed after a failed write" + kind);
        }
    });
    return done("documents written while one file operation of the C library fails or the disk is full");
}
