// shared helpers for the replay harnesses: they call the real code of /repo and compare it with an independent oracle
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <random>
#include <fcntl.h>
#include <csignal>
static long g_evals = 0, g_fails = 0;
static std::set<std::string> g_failkeys;
static std::string hexs(const std::string &s) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for(unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static void fail(const std::string &key, const std::string &what) {
    ++g_fails;
    if(!g_failkeys.insert(key).second) return;
    std::string w;
    for(char c : what) w += (c == '\n' || c == '\t' || c == '\r') ? ' ' : c;
    if(w.size() > 1500) w.resize(1500);
    printf("FAIL %s\t%s\n", key.c_str(), w.c_str());
    fflush(stdout);
}
static void at(const std::string &what) { printf("AT %s\n", what.c_str()); fflush(stdout); }
static void sample(const std::string &what) { printf("SAMPLE %s\n", what.c_str()); }
static int done(const char *what, long distinct = -1) {
    printf("DONE evaluations=%ld\tdistinct=%ld\twhat=%s\n", g_evals, distinct < 0 ? g_evals : distinct, what);
    fflush(stdout);
    return 0;
}
