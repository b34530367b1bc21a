// Shared by the native replay harnesses: run the real code on enumerated / pseudo-random inputs and
// compare with an independent evaluation of the contract.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <limits>
#include <algorithm>
#include <stdexcept>
namespace nv {
static char g_case[4096] = "(start)";
static long g_n = 0; static double g_t0; static double g_secs = 20; static unsigned long long g_s = 1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool more() { return now() - g_t0 < g_secs; }
static void CASE(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(g_case, sizeof g_case, f, a); va_end(a); g_n++; }
static void fail(const char* f, ...) {
    fflush(stdout);
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    fprintf(stderr, "FAIL input: %s\n     %s\n", g_case, b); fflush(stderr); _exit(1);
}
static void onsig(int s) {
    char b[4300]; int n = snprintf(b, sizeof b, "FAIL input: %s\n     the code died with signal %d\n", g_case, s);
    if (write(2, b, n)) {} _exit(1);
}
static unsigned rnd(unsigned n) { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return n ? (unsigned)((g_s >> 11) % n) : 0; }
static double rval() { int k = rnd(10); if (k == 0) return 0; if (k == 1) return -1; if (k < 6) return (int)rnd(21) - 10; return ((int)rnd(2001) - 1000) / 64.0; }
static std::vector<double> rvec(size_t n) { std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = rval(); return v; }
static std::string str(const std::vector<double>& v) { std::string s = "["; char b[40]; for (size_t i = 0; i < v.size() && i < 40; i++) { snprintf(b, 40, i ? ",%g" : "%g", v[i]); s += b; } return s + "]"; }
static std::string stru(const std::vector<unsigned>& v) { std::string s = "["; char b[40]; for (size_t i = 0; i < v.size() && i < 40; i++) { snprintf(b, 40, i ? ",%u" : "%u", v[i]); s += b; } return s + "]"; }
static bool near(double a, double b) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
static void expect(double a, double b, const char* what) { if (!near(a, b)) fail("%s: got %.17g, expected %.17g", what, a, b); }
static void expecti(long long a, long long b, const char* what) { if (a != b) fail("%s: got %lld, expected %lld", what, a, b); }
static void expectv(const double* a, const std::vector<double>& b, const char* what) { for (size_t i = 0; i < b.size(); i++) if (!near(a[i], b[i])) fail("%s [%zu]: got %.17g, expected %.17g", what, i, a[i], b[i]); }
static double eucl(const double* a, const double* b, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
static double metric(const double* a, const double* b, size_t n, int t) { // 0 eucl 1 cos 2 taxi 3 sqeucl
    double s = 0, x = 0, y = 0;
    if (t == 0 || t == 3) { for (size_t i = 0; i < n; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return t == 0 ? std::sqrt(s) : s; }
    if (t == 2) { for (size_t i = 0; i < n; i++) s += std::fabs(a[i] - b[i]); return s; }
    for (size_t i = 0; i < n; i++) { s += a[i] * b[i]; x += a[i] * a[i]; y += b[i] * b[i]; }
    return 1 - s / (std::sqrt(x) * std::sqrt(y));
}
static int g_stall = 25; static long g_seen = -1;
static void onalarm(int) { // a case that makes no progress (the thread pool may lose a wake-up: not this harness's business)
    if (g_n == g_seen) { static const char m[] = "INCONCLUSIVE: a case made no progress\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
    g_seen = g_n; alarm(g_stall);
}
static void quiet() { // the library's own chatter goes to /dev/null; stderr stays with the harness
    fflush(stdout); if (!freopen("/dev/null", "w", stdout)) {} signal(SIGALRM, onalarm); alarm(g_stall); }
static void begin(int c, char** v) {
    g_t0 = now(); if (c > 1) g_s = strtoull(v[1], 0, 10) * 2654435761ULL + 88172645463325252ULL; if (c > 2) g_secs = atof(v[2]);
    signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig);
}
static int done() { fflush(stdout); fprintf(stderr, "PASS %ld cases in %.1fs\n", g_n, now() - g_t0); fflush(stderr); _exit(0); }
}
extern "C" inline void __asan_on_error() { fprintf(stderr, "FAIL input: %s\n     memory error\n", nv::g_case); }
