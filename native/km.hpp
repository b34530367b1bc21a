// Independent reference for Lloyd's algorithm and helpers to run the library end to end.
#pragma once
#include "nv.hpp"
#include "../drivers/knor.cpp"
namespace nv {
typedef std::vector<double> V; typedef std::vector<unsigned> U;
static V gen(size_t n, unsigned style) { // generic reals: ties have probability zero
    V v(n);
    for (auto& x : v) { x = (rnd(1u << 30) / (double)(1u << 30)) * 20 - 10; if (style == 1) x *= 0.05; if (style == 2 && rnd(4) == 0) x += 40; if (style == 3) x = x + 100; }
    return v;
}
template <typename P> static P keep(P p) { static std::vector<P> all; all.push_back(p); return p; } // never joined: it was not started
struct Ref { // one step of Lloyd's algorithm at a time
    unsigned n, d, k; int t; const V& x; V c; U a; std::vector<long long> cnt; unsigned changed;
    Ref(unsigned n, unsigned d, unsigned k, int t, const V& x, const V& c0): n(n), d(d), k(k), t(t), x(x), c(c0), a(n, (unsigned)-1), cnt(k, 0), changed(0) {}
    double D(unsigned r, unsigned j) const { return metric(&x[r * d], &c[j * d], d, t); }
    void assign() {
        changed = 0;
        for (unsigned r = 0; r < n; r++) { unsigned b = 0; for (unsigned j = 1; j < k; j++) if (D(r, j) < D(r, b)) b = j; if (a[r] != b) changed++; a[r] = b; }
    }
    void update() {
        std::fill(c.begin(), c.end(), 0.0); std::fill(cnt.begin(), cnt.end(), 0);
        for (unsigned r = 0; r < n; r++) { cnt[a[r]]++; for (unsigned q = 0; q < d; q++) c[a[r] * d + q] += x[r * d + q]; }
        for (unsigned j = 0; j < k; j++) if (cnt[j] > 1) for (unsigned q = 0; q < d; q++) c[j * d + q] /= (double)cnt[j];
    }
    bool close_call() const {
        if (t == 1) for (unsigned j = 0; j < k; j++) { double s = 0; for (unsigned q = 0; q < d; q++) s += c[j * d + q] * c[j * d + q]; if (s < 1e-12) return true; }
        for (unsigned r = 0; r < n; r++) { double b = 1e300, s = 1e300; for (unsigned j = 0; j < k; j++) { double v = D(r, j); if (std::isnan(v)) return true; if (v < b) { s = b; b = v; } else if (v < s) s = v; } if (s - b < 1e-7) return true; } return false; }
};
static void compare(const knor::base::cluster_t& r, const Ref& f, const char* w) {
    expecti(r.nrow, f.n, "result nrow"); expecti(r.ncol, f.d, "result ncol"); expecti(r.k, f.k, "result k");
    if (r.assignments.size() != f.n || r.centroids.size() != f.c.size() || r.assignment_count.size() != f.k) fail("%s: sizes of the result", w);
    for (unsigned i = 0; i < f.n; i++) if (r.assignments[i] != f.a[i]) fail("%s: row %u assigned to %u, nearest is %u", w, i, r.assignments[i], f.a[i]);
    for (size_t i = 0; i < f.c.size(); i++) if (!(std::fabs(r.centroids[i] - f.c[i]) < 1e-6)) fail("%s: centroid value %zu is %.12g, expected %.12g", w, i, r.centroids[i], f.c[i]);
    for (unsigned j = 0; j < f.k; j++) if ((long long)r.assignment_count[j] != f.cnt[j]) fail("%s: cluster %u has count %lld, expected %lld", w, j, (long long)r.assignment_count[j], f.cnt[j]);
}
static const char* mname(int t) { static const char* m[] = {"eucl", "cos", "taxi", "sqeucl"}; return m[t]; }
// whole runs of the library against the reference, for several iteration caps
// the OpenMP library: the first of its MAX_ITERS counts as initialisation, so MAX_ITERS-1 passes run
typedef knor::base::cluster_t (*ompfn)(const double*, double*, unsigned*, knor::llong_t*, const size_t, const size_t, const unsigned, const size_t, int, const std::string, const double, const std::string);
static void whole_omp(ompfn fn, bool pruned, unsigned maxn) {
    int t = pruned ? 0 : rnd(2); unsigned n = 2 + rnd(maxn), d = 1 + rnd(4), k = 2 + rnd(5), th = 1 + rnd(5), it = 2 + rnd(7), st = rnd(4);
    if (k > n) k = n;
    V x = gen(n * d, st), c0 = rnd(2) ? gen(k * d, rnd(4)) : V(x.begin(), x.begin() + k * d);
    CASE("OpenMP %s k-means, metric %s, n=%u d=%u k=%u threads=%u iterations=%u data=%s centres=%s", pruned ? "pruned" : "exhaustive", mname(t), n, d, k, th, it, str(x).c_str(), str(c0).c_str());
    Ref f(n, d, k, t, x, c0);
    for (unsigned i = 1; i < it; i++) { f.assign(); if (f.close_call()) return; f.update(); if (f.changed == 0 && i > 1) break; }
    if (f.close_call()) return; // outside the domain: a further pass would meet a tie, or the cosine of a zero centroid
    U as(n); std::vector<knor::llong_t> cn(k);
    knor::base::cluster_t r = fn(&x[0], &c0[0], &as[0], &cn[0], n, d, k, it, th, "none", -1, mname(t));
    compare(r, f, "after the run");
    for (unsigned i = 0; i < n; i++) if (as[i] != f.a[i]) fail("caller's assignment of row %u is %u, nearest is %u", i, as[i], f.a[i]);
    for (unsigned j = 0; j < k; j++) if (cn[j] != f.cnt[j]) fail("caller's count of cluster %u", j);
}
template <typename COORD> static void whole(bool pruned, unsigned maxn) {
    int t = pruned ? 0 : (rnd(2) ? 0 : rnd(4)); unsigned n = 2 + rnd(maxn), d = 1 + rnd(4), k = (pruned ? 2 : 1) + rnd(5), th = 1 + rnd(5), it = 1 + rnd(7), st = rnd(4);
    if (k > n) k = n; if (th > n) th = n;
    V x = gen(n * d, st), c0 = rnd(2) ? gen(k * d, rnd(4)) : V(x.begin(), x.begin() + k * d);
    if (rnd(4) == 0) { V m(d, 0); for (unsigned r = 0; r < n; r++) for (unsigned q = 0; q < d; q++) m[q] += x[r * d + q] / n; for (unsigned r = 0; r < n; r++) for (unsigned q = 0; q < d; q++) x[r * d + q] -= m[q]; }
    CASE("%s k-means, metric %s, n=%u d=%u k=%u threads=%u iterations=%u data=%s centres=%s", pruned ? "pruned" : "exhaustive", mname(t), n, d, k, th, it, str(x).c_str(), str(c0).c_str());
    Ref f(n, d, k, t, x, c0);
    for (unsigned i = 1; i <= it; i++) { f.assign(); if (f.close_call()) return; f.update(); if (f.changed == 0 && i > 1) break; }
    if (f.close_call()) return;
    knor::coordinator::ptr co = COORD::create("", n, d, k, it, 1, th, &c0[0], "none", -1, mname(t));
    knor::base::cluster_t r = co->run(&x[0]);
    compare(r, f, "after the run");
}
}
