// An independent strict reader for the files the library writes: it repairs nothing and reports every deviation.
#pragma once
#include "h.hpp"
#include <zlib.h>
#include <memory>
struct PObj { enum K { Null, Bool, Num, Str, Name, Arr, Dict, Ref, Op, End, Err } k = Null; double n = 0; bool isint = false; bool b = false; std::string s; std::vector<PObj> a; std::vector<std::pair<std::string, PObj>> d; int ref = 0;
    const PObj *get(const std::string &key) const { for(auto &x : d) if(x.first == key) return &x.second; return nullptr; }
    bool is(const char *nm) const { return k == Name && s == nm; }
};
static const char *KN[] = {"null", "bool", "number", "string", "name", "array", "dictionary", "reference", "operator", "end", "error"};
struct PLex {
    const std::string &t; size_t p, e; std::string err; bool content = false;
    PLex(const std::string &s, size_t b, size_t en) : t(s), p(b), e(en) {}
    static bool ws(unsigned char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
    static bool delim(unsigned char c) { return strchr("()<>[]{}/%", c) && c; }
    bool reg(size_t i) const { return i < e && !ws(t[i]) && !delim(t[i]); }
    void skip() { for(;;) { while(p < e && ws(t[p])) ++p; if(p < e && t[p] == '%') { while(p < e && t[p] != '\n' && t[p] != '\r') ++p; } else break; } }
    static std::string show(const std::string &x) { std::string r; char b[8]; for(unsigned char c : x) { if(c < 32 || c > 126) { snprintf(b, 8, "<%02x>", c); r += b; } else r += c; } return r; }
    PObj bad(const std::string &w) { if(err.empty()) err = w + " near \"" + show(t.substr(p > 30 ? p - 30 : 0, 60)) + "\""; PObj o; o.k = PObj::Err; return o; }
    PObj str() {
        PObj o; o.k = PObj::Str; int d = 1; ++p;
        while(p < e) {
            char c = t[p++];
            if(c == '\\') {
                if(p >= e) return bad("string ends in a backslash");
                char x = t[p++];
                switch(x) { case 'n': o.s += '\n'; break; case 'r': o.s += '\r'; break; case 't': o.s += '\t'; break; case 'b': o.s += '\b'; break; case 'f': o.s += '\f'; break;
                    case '\n': break; case '\r': if(p < e && t[p] == '\n') ++p; break;
                    default: if(x >= '0' && x <= '7') { int v = x - '0'; for(int i = 0; i < 2 && p < e && t[p] >= '0' && t[p] <= '7'; ++i) v = v * 8 + t[p++] - '0'; o.s += (char)v; } else o.s += x; }
            } else if(c == '(') { ++d; o.s += c; } else if(c == ')') { if(--d == 0) return o; o.s += c; }
            else if(c == '\r') { if(p < e && t[p] == '\n') ++p; o.s += '\n'; } else o.s += c;
        }
        return bad("unterminated string");
    }
    static int hx(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    PObj hex() {
        PObj o; o.k = PObj::Str; ++p; int h = -1;
        for(; p < e; ++p) { if(t[p] == '>') { ++p; if(h >= 0) o.s += (char)(h << 4); return o; } if(ws(t[p])) continue; int v = hx(t[p]); if(v < 0) return bad("bad hexadecimal string"); if(h < 0) h = v; else { o.s += (char)(h << 4 | v); h = -1; } }
        return bad("unterminated hexadecimal string");
    }
    PObj name() {
        PObj o; o.k = PObj::Name; ++p;
        while(reg(p)) { unsigned char c = t[p++]; if(c == '#') { if(p + 1 >= e || hx(t[p]) < 0 || hx(t[p + 1]) < 0) return bad("bad # escape in a name"); o.s += (char)(hx(t[p]) << 4 | hx(t[p + 1])); p += 2; } else { if(c < 33 || c > 126) return bad("unescaped byte in a name"); o.s += c; } }
        if(o.s.empty()) return bad("empty name");
        return o;
    }
    PObj obj() {
        skip();
        PObj o;
        if(p >= e) { o.k = PObj::End; return o; }
        char c = t[p];
        if(c == '(') return str();
        if(c == '/') return name();
        if(c == '<' && p + 1 < e && t[p + 1] == '<') {
            p += 2; o.k = PObj::Dict;
            for(;;) {
                skip();
                if(p + 1 < e && t[p] == '>' && t[p + 1] == '>') { p += 2; return o; }
                if(p >= e) return bad("unterminated dictionary");
                if(t[p] != '/') return bad("dictionary key is not a name");
                PObj k = name(); if(k.k == PObj::Err) return k;
                PObj v = obj(); if(v.k == PObj::Err) return v;
                if(v.k == PObj::End) return bad("dictionary value of /" + k.s + " is missing");
                if(v.k == PObj::Op) return bad("dictionary value of /" + k.s + " is not an object: " + v.s);
                if(o.get(k.s)) return bad("duplicate dictionary key /" + k.s);
                o.d.emplace_back(k.s, v);
            }
        }
        if(c == '<') return hex();
        if(c == '[') {
            ++p; o.k = PObj::Arr;
            for(;;) { skip(); if(p < e && t[p] == ']') { ++p; return o; } if(p >= e) return bad("unterminated array"); PObj v = obj(); if(v.k == PObj::Err) return v; if(v.k == PObj::End || v.k == PObj::Op) return bad("bad array element " + v.s); o.a.push_back(v); }
        }
        if(c == ')' || c == '>' || c == ']' || c == '}' || c == '{') return bad(std::string("stray delimiter ") + c);
        size_t q = p; while(reg(q)) ++q;
        std::string w = t.substr(p, q - p);
        bool num = true, dig = false, dot = false;
        for(size_t i = 0; i < w.size(); ++i) { if(isdigit((unsigned char)w[i])) dig = true; else if(w[i] == '.' && !dot) dot = true; else if((w[i] == '-' || w[i] == '+') && i == 0) ; else num = false; }
        if(num && dig) {
            p = q; o.k = PObj::Num; o.n = atof(w.c_str()); o.isint = !dot;
            if(!content && o.isint && o.n >= 0) { // reference?
                size_t sv = p; skip(); size_t g = p; while(p < e && isdigit((unsigned char)t[p])) ++p;
                if(p > g && p < e && ws(t[p])) { skip(); if(p < e && t[p] == 'R' && !reg(p + 1)) { ++p; PObj r; r.k = PObj::Ref; r.ref = (int)o.n; return r; } }
                p = sv;
            }
            return o;
        }
        p = q;
        if(w == "true" || w == "false") { o.k = PObj::Bool; o.b = w == "true"; return o; }
        if(w == "null") return o;
        if(!content) { if(isdigit((unsigned char)w[0]) || w[0] == '-' || w[0] == '.' || w == "inf" || w == "nan") return bad("malformed number " + w); if(w == "endobj" || w == "stream") { o.k = PObj::Op; o.s = w; return o; } return bad("unknown token " + w); }
        if(isdigit((unsigned char)w[0]) || w[0] == '-' || w[0] == '.' || w == "inf" || w == "nan") return bad("malformed number " + w);
        o.k = PObj::Op; o.s = w; return o;
    }
};
struct PFile {
    std::string t; std::map<int, PObj> obj; std::map<int, std::string> stream; std::map<int, long> off; std::map<int, std::pair<int, int>> packed; PObj trailer; int size = 0;
    std::vector<std::pair<std::string, std::string>> errs;   // kind, text
    void E(const char *k, const std::string &w) { errs.emplace_back(k, w); }
    const PObj *R(const PObj *o) const { int g = 0; while(o && o->k == PObj::Ref && g++ < 9) { auto i = obj.find(o->ref); o = i == obj.end() ? nullptr : &i->second; } return o; }
    const PObj *at(const PObj *o, const char *k) const { o = R(o); return o && o->k == PObj::Dict ? R(o->get(k)) : nullptr; }
    static bool inflate_(const std::string &s, std::string &o) {
        z_stream z; memset(&z, 0, sizeof z); if(inflateInit(&z) != Z_OK) return false;
        z.next_in = (Bytef *)s.data(); z.avail_in = s.size(); char b[65536]; int rc;
        do { z.next_out = (Bytef *)b; z.avail_out = sizeof b; rc = inflate(&z, Z_NO_FLUSH); o.append(b, sizeof b - z.avail_out); } while(rc == Z_OK);
        bool ok = rc == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok;
    }
    std::string data(int n) { auto o = obj.find(n); auto s = stream.find(n); if(o == obj.end() || s == stream.end()) return ""; auto *f = o->second.get("Filter"); if(f && f->is("FlateDecode")) { std::string r; if(!inflate_(s->second, r)) E("A05", "object " + std::to_string(n) + ": compressed data does not inflate to its end"); return r; } return s->second; }
    void readobj(int n, size_t o) {
        std::string h = std::to_string(n) + " 0 obj";
        if(t.compare(o, h.size(), h) != 0) { E("A05", "entry of object " + std::to_string(n) + " does not point at its definition"); return; }
        PLex L(t, o + h.size(), t.size());
        PObj v = L.obj();
        if(v.k == PObj::Err || v.k == PObj::Op || v.k == PObj::End) { E("A01", "object " + std::to_string(n) + ": " + (L.err.empty() ? "no object" : L.err)); return; }
        obj[n] = v;
        L.skip();
        if(t.compare(L.p, 6, "stream") == 0) {
            size_t q = L.p + 6; if(t[q] == '\r') ++q; if(t[q] != '\n') { E("A05", "object " + std::to_string(n) + ": no line end after stream"); return; } ++q;
            auto *len = v.get("Length");
            if(!len || len->k != PObj::Num || !len->isint) { E("A05", "object " + std::to_string(n) + ": stream without length"); return; }
            size_t l = (size_t)len->n;
            if(q + l > t.size()) { E("A05", "object " + std::to_string(n) + ": length goes beyond the file"); return; }
            stream[n] = t.substr(q, l);
            PLex M(t, q + l, t.size());
            size_t z = q + l; if(t[z] == '\r') ++z; if(t[z] == '\n') ++z;
            if(z == q + l || t.compare(z, 9, "endstream") != 0) { E("A05", "object " + std::to_string(n) + ": declared length differs from the data"); return; }
            L.p = z + 9; L.skip();
        }
        if(t.compare(L.p, 6, "endobj") != 0) E("A01", "object " + std::to_string(n) + ": junk before endobj: " + t.substr(L.p, 40));
    }
    void refs(int n, const PObj &o) {
        if(o.k == PObj::Ref) { if(o.ref <= 0 || !obj.count(o.ref)) E("A01", "object " + std::to_string(n) + " refers to object " + std::to_string(o.ref) + " which does not exist"); }
        for(auto &x : o.a) refs(n, x);
        for(auto &x : o.d) refs(n, x.second);
    }
    bool load(const std::string &bytes) {
        t = bytes;
        if(t.compare(0, 5, "%PDF-") != 0) { E("A05", "no header"); return false; }
        size_t s = t.rfind("startxref");
        if(s == std::string::npos) { E("A05", "no startxref"); return false; }
        size_t x = strtoul(t.c_str() + s + 9, nullptr, 10);
        const char *q = strstr(t.c_str() + s, "%%EOF"); if(!q) E("A05", "no end marker");
        if(x >= t.size()) { E("A05", "startxref points outside of the file"); return false; }
        std::map<int, int> cnt;
        if(t.compare(x, 4, "xref") == 0) {
            size_t p = x + 4; char *e; long first = strtol(t.c_str() + p, &e, 10), n = strtol(e, &e, 10); p = e - t.c_str(); while(t[p] == ' ' || t[p] == '\n' || t[p] == '\r') ++p;
            if(first != 0) E("A05", "first cross-reference section does not start at object 0");
            for(long i = 0; i < n; ++i) { std::string l = t.substr(p, 20); long of = atol(l.c_str()); if(l.size() < 20 || (l[17] != 'n' && l[17] != 'f') || l[19] != '\n' || !(l[18] == ' ' || l[18] == '\r')) { E("A05", "malformed cross-reference entry"); return false; } if(l[17] == 'n') { off[i] = of; } cnt[i]++; p += 20; }
            if(t.compare(p, 7, "trailer") != 0) { E("A05", "no trailer after the cross-reference entries"); return false; }
            PLex L(t, p + 7, t.size()); trailer = L.obj(); if(trailer.k != PObj::Dict) { E("A01", "trailer: " + L.err); return false; }
            auto *sz = trailer.get("Size"); if(!sz || sz->n != n) E("A05", "trailer size differs from the number of entries");
            size = n;
        } else {
            int n = strtol(t.c_str() + x, nullptr, 10);
            readobj(n, x);
            if(!obj.count(n)) return false;
            trailer = obj[n];
            auto *W = trailer.get("W"); auto *sz = trailer.get("Size"); auto *ix = trailer.get("Index");
            if(!W || W->a.size() != 3 || !sz) { E("A05", "malformed cross-reference stream dictionary"); return false; }
            size = (int)sz->n; int first = 0, num = size; if(ix && ix->a.size() == 2) { first = ix->a[0].n; num = ix->a[1].n; }
            std::string d = data(n); int w[3] = {(int)W->a[0].n, (int)W->a[1].n, (int)W->a[2].n}; int row = w[0] + w[1] + w[2];
            if((long)d.size() != (long)row * num) E("A05", "cross-reference stream has " + std::to_string(d.size()) + " bytes for " + std::to_string(num) + " entries");
            for(int i = 0; i < num && (size_t)(i + 1) * row <= d.size(); ++i) { auto f = [&](int b, int k) { uint64_t v = 0; for(int j = 0; j < k; ++j) v = v << 8 | (unsigned char)d[i * row + b + j]; return v; }; int ty = f(0, w[0]); cnt[first + i]++; if(ty == 1) off[first + i] = f(w[0], w[1]); else if(ty == 2) { packed[first + i] = {(int)f(w[0], w[1]), (int)f(w[0] + w[1], w[2])}; } else if(ty != 0) E("A05", "unexpected cross-reference entry type"); }
            if(!off.count(n) ) E("A05", "the cross-reference stream has no entry for itself"); else if(off[n] != (long)x) E("A05", "entry of the cross-reference stream differs from startxref");
        }
        for(int i = 0; i < size; ++i) if(cnt[i] != 1) E("A05", "object number " + std::to_string(i) + " has " + std::to_string(cnt[i]) + " cross-reference entries");
        std::set<long> seen;
        for(auto &[n, o] : off) { if(n >= size) E("A05", "entry beyond the declared size"); if(!seen.insert(o).second) E("A05", "two entries share an offset"); if(!obj.count(n)) readobj(n, o); }
        std::map<int, std::string> os;
        std::map<int, std::vector<std::pair<long, long>>> dir;
        for(auto &[n, pr] : packed) {
            if(!stream.count(pr.first) || !obj[pr.first].get("Type") || !obj[pr.first].get("Type")->is("ObjStm")) { E("A05", "object " + std::to_string(n) + " is listed in " + std::to_string(pr.first) + " which is no object stream"); continue; }
            if(!os.count(pr.first)) os[pr.first] = data(pr.first);
            auto &d = os[pr.first]; auto *N = obj[pr.first].get("N"), *F = obj[pr.first].get("First");
            if(!N || !F || pr.second >= N->n) { E("A05", "object " + std::to_string(n) + ": index beyond its object stream"); continue; }
            auto &dd = dir[pr.first];
            if(dd.empty()) { const char *q = d.c_str(); char *e; for(int i = 0; i < N->n; ++i) { long a = strtol(q, &e, 10), b = strtol(e, &e, 10); if(e == q) break; dd.push_back({a, b}); q = e; } }
            if((size_t)pr.second >= dd.size()) { E("A05", "object " + std::to_string(n) + ": the object stream lists fewer objects than it declares"); continue; }
            long num = dd[pr.second].first, o = dd[pr.second].second, nx = (size_t)pr.second + 1 < dd.size() ? dd[pr.second + 1].second : -1;
            if(num != n) { E("A05", "object stream lists object " + std::to_string(num) + " where the cross-reference says " + std::to_string(n)); continue; }
            size_t b = F->n + o, en = nx < 0 ? d.size() : (size_t)(F->n + nx);
            if(b > d.size() || en > d.size() || b > en) { E("A05", "offset beyond the object stream"); continue; }
            PLex L(d, b, en); PObj v = L.obj();
            if(v.k == PObj::Err || v.k == PObj::Op || v.k == PObj::End) { E("A01", "object " + std::to_string(n) + ": " + (L.err.empty() ? "no object" : L.err)); continue; }
            L.skip(); if(L.p != en) E("A05", "object " + std::to_string(n) + ": extra data before the next object of its stream: " + d.substr(L.p, 30));
            obj[n] = v;
        }
        for(auto &[n, o] : obj) refs(n, o);
        refs(0, trailer);
        if(!trailer.get("Root") || !at(&trailer, "Root")) E("A01", "no catalog");
        // every definition in the file has an entry
        for(auto &[n, st] : stream) data(n);
        return errs.empty();
    }
    // ------------------------------------------------------------------ content streams
    void content(const std::string &what, const std::string &s, const PObj *res, const char *tag = "A02") {
        static const std::map<std::string, const char *> ops = {
            {"b", ""}, {"B", ""}, {"b*", ""}, {"B*", ""}, {"f", ""}, {"F", ""}, {"f*", ""}, {"h", ""}, {"n", ""}, {"s", ""}, {"S", ""}, {"W", ""}, {"W*", ""}, {"q", ""}, {"Q", ""}, {"BT", ""}, {"ET", ""}, {"EMC", ""}, {"T*", ""},
            {"c", "nnnnnn"}, {"cm", "nnnnnn"}, {"d", "an"}, {"Do", "/"}, {"G", "n"}, {"g", "n"}, {"gs", "/"}, {"i", "n"}, {"j", "n"}, {"J", "n"}, {"k", "nnnn"}, {"K", "nnnn"}, {"l", "nn"}, {"m", "nn"}, {"M", "n"}, {"re", "nnnn"}, {"RG", "nnn"}, {"rg", "nnn"}, {"ri", "/"}, {"sh", "/"}, {"v", "nnnn"}, {"w", "n"}, {"y", "nnnn"},
            {"CS", "/"}, {"cs", "/"}, {"SCN", "*"}, {"scn", "*"}, {"SC", "N"}, {"sc", "N"}, {"BMC", "/"}, {"BDC", "/p"}, {"MP", "/"}, {"DP", "/p"}, {"Tc", "n"}, {"Td", "nn"}, {"TD", "nn"}, {"Tf", "/n"}, {"Tj", "s"}, {"TJ", "t"}, {"TL", "n"}, {"Tm", "nnnnnn"}, {"Tr", "n"}, {"Ts", "n"}, {"Tw", "n"}, {"Tz", "n"}, {"'", "s"}, {"\"", "nns"}, {"d0", "nn"}, {"d1", "nnnnnn"}};
        PLex L(s, 0, s.size()); L.content = true;
        std::vector<PObj> st; std::vector<char> open;
        auto rs = [&](const char *cat, const PObj &nm, const std::string &op) { if(!res) return; const PObj *r = R(res); auto *c = r ? at(r, cat) : nullptr; auto *v = c ? c->get(nm.s) : nullptr; if(!v || !R(v)) E("A16", what + ": resource /" + nm.s + " of operator " + op + " is not in /" + cat + " of the resources"); };
        for(;;) {
            PObj o = L.obj();
            if(o.k == PObj::Err) { E(tag, what + ": " + L.err); return; }
            if(o.k == PObj::End) break;
            if(o.k != PObj::Op) { st.push_back(o); continue; }
            auto it = ops.find(o.s);
            if(it == ops.end()) { E(tag, what + ": unknown operator " + o.s + " near \"" + s.substr(L.p > 60 ? L.p - 60 : 0, 80) + "\""); return; }
            std::string sig = it->second; bool ok = true;
            if(sig == "*") { ok = !st.empty(); for(size_t i = 0; i < st.size(); ++i) if(st[i].k != PObj::Num && !(i + 1 == st.size() && st[i].k == PObj::Name)) ok = false; }
            else if(sig == "N") { ok = !st.empty(); for(auto &x : st) if(x.k != PObj::Num) ok = false; }
            else if(st.size() != sig.size()) ok = false;
            else for(size_t i = 0; i < sig.size(); ++i) switch(sig[i]) {
                case 'n': ok &= st[i].k == PObj::Num; break; case '/': ok &= st[i].k == PObj::Name; break; case 's': ok &= st[i].k == PObj::Str; break; case 'p': ok &= st[i].k == PObj::Name || st[i].k == PObj::Dict; break;
                case 'a': ok &= st[i].k == PObj::Arr; if(ok) for(auto &x : st[i].a) ok &= x.k == PObj::Num; break; case 't': ok &= st[i].k == PObj::Arr; if(ok) for(auto &x : st[i].a) ok &= x.k == PObj::Num || x.k == PObj::Str; break; }
            if(!ok) { std::string l; for(auto &x : st) l += std::string(" ") + KN[x.k]; E(tag, what + ": operator " + o.s + " has wrong operands:" + l + " near \"" + s.substr(L.p > 80 ? L.p - 80 : 0, 90) + "\""); return; }
            auto close = [&](char c, const char *nm) { if(open.empty() || open.back() != c) { E(tag, what + ": " + nm + " does not close the innermost bracket"); return false; } open.pop_back(); return true; };
            if(o.s == "q") open.push_back('q'); else if(o.s == "BT") { for(char c : open) if(c == 'T') { E(tag, what + ": nested BT"); return; } open.push_back('T'); } else if(o.s == "BMC" || o.s == "BDC") open.push_back('M');
            else if(o.s == "Q") { if(!close('q', "Q")) return; } else if(o.s == "ET") { if(!close('T', "ET")) return; } else if(o.s == "EMC") { if(!close('M', "EMC")) return; }
            if(o.s == "Do") rs("XObject", st[0], o.s); else if(o.s == "gs") rs("ExtGState", st[0], o.s); else if(o.s == "Tf") rs("Font", st[0], o.s); else if(o.s == "sh") rs("Shading", st[0], o.s);
            else if((o.s == "cs" || o.s == "CS") && !st[0].is("DeviceRGB") && !st[0].is("DeviceGray") && !st[0].is("DeviceCMYK") && !st[0].is("Pattern") && !st[0].is("DefaultRGB") && !st[0].is("DefaultGray") && !st[0].is("DefaultCMYK")) rs("ColorSpace", st[0], o.s);
            else if((o.s == "scn" || o.s == "SCN") && st.back().k == PObj::Name) rs("Pattern", st.back(), o.s);
            else if(o.s == "BDC" && st[1].k == PObj::Name) rs("Properties", st[1], o.s);
            st.clear();
        }
        if(!st.empty()) E(tag, what + ": operands without operator at the end");
        if(!open.empty()) E(tag, what + ": unclosed bracket " + open.back());
    }
    std::vector<int> pages() { std::vector<int> v; auto *p = at(at(&trailer, "Root"), "Pages"); if(p) if(auto *k = R(p->get("Kids"))) for(auto &x : k->a) v.push_back(x.ref); return v; }
    void contents() {
        for(auto &[n, o] : obj) {
            if(o.k != PObj::Dict) continue;
            auto *ty = o.get("Type"); auto *st = o.get("Subtype"); auto *pt = o.get("PatternType");
            if(ty && ty->is("Page")) { auto *c = o.get("Contents"); if(c && c->k == PObj::Ref) content("page object " + std::to_string(n), data(c->ref), o.get("Resources")); else if(c) E("A02", "page contents is not a reference"); }
            else if(st && st->is("Form") && stream.count(n)) content("form object " + std::to_string(n), data(n), o.get("Resources"));
            else if(pt && pt->n == 1 && stream.count(n)) content("pattern object " + std::to_string(n), data(n), o.get("Resources"));
        }
    }
};
