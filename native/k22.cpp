#include "dist.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
// whole distributed runs: all processes against each other and against a single-process reference
template <typename C> static void dwhole(bool pruned, unsigned maxn) {
    int t = pruned ? 0 : (rnd(2) ? 0 : rnd(4)); unsigned P = 1 + rnd(4), n = P + 1 + rnd(maxn), d = 1 + rnd(4), k = (pruned ? 2 : 1) + rnd(4), th = 1 + rnd(3), it = 1 + rnd(6), st = rnd(4); double tol = rnd(3) ? -1 : rnd(30) / 100.0;
    if (k > n) k = n; if (th > n / P) th = n / P; if (pruned && k < 2) return;
    V x = gen(n * d, st), c0 = rnd(2) ? gen(k * d, rnd(4)) : V(x.begin(), x.begin() + k * d);
    CASE("%s distributed k-means, metric %s, processes=%u n=%u d=%u k=%u threads=%u iterations=%u tolerance=%g data=%s centres=%s", pruned ? "pruned" : "exhaustive", mname(t), P, n, d, k, th, it, tol, str(x).c_str(), str(c0).c_str());
    Ref f(n, d, k, t, x, c0); unsigned passes = 0;
    for (unsigned i = 1; i <= it; i++) { f.assign(); if (f.close_call()) return; f.update(); passes++; if (f.changed == 0 || (double)f.changed / n <= tol) break; }
    if (f.close_call()) return;
    store(x); mpisim::reset(P);
    std::vector<std::shared_ptr<C> > pr(P); std::vector<cluster_t> res(P); std::vector<std::thread> ths;
    for (unsigned r = 0; r < P; r++) ths.emplace_back([&, r] {
        mpisim::R = r; pr[r] = mk<C>(n, d, k, it, th, &c0[0], "none", t, tol);
        try { pr[r]->run(res[r], "."); } catch (std::exception& e) { fail("process %u: %s", r, e.what()); }
        mpisim::leave();
    });
    for (auto& h : ths) h.join();
    for (unsigned r = 0; r < P; r++) {
        clusters& g = *pr[r]->get_gcltrs();
        for (size_t i = 0; i < k * d; i++) { if (g.means[i] != pr[0]->get_gcltrs()->means[i]) fail("process %u: centroid value %zu differs from process 0", r, i); if (!(std::fabs(g.means[i] - f.c[i]) < 1e-6)) fail("process %u: centroid value %zu is %.12g, a single process gets %.12g", r, i, g.means[i], f.c[i]); }
        for (unsigned c = 0; c < k; c++) expecti(g.num_members_v[c], f.cnt[c], "count of a cluster");
        for (unsigned i = 0; i < pr[r]->nrow; i++) if (pr[r]->cluster_assignments[i] != f.a[n / P * r + i]) fail("process %u: row %u assigned to %u, a single process assigns %u", r, i, pr[r]->cluster_assignments[i], f.a[n / P * r + i]);
    }
    compare(res[0], f, "result on the root"); expecti(res[0].iters, passes, "number of passes");
    size_t chg = 0; for (auto& c : pr) chg += c->num_changed; expecti(chg, f.changed, "rows that changed in the last pass");
}
// runs with the library's own initialisations: the processes agree, and the result is the mean of the members
template <typename C> static void inits(bool pruned, unsigned maxn) {
    static const char* nm[] = {"kmeanspp", "random", "forgy"}; const char* in = nm[rnd(3)];
    unsigned P = 1 + rnd(4), n = P + 3 + rnd(maxn), d = 1 + rnd(4), k = 2 + rnd(4), th = 1 + rnd(3), it = 1 + rnd(6);
    if (k > n) k = n; if (th > n / P) th = n / P;
    V x = gen(n * d, rnd(4));
    CASE("%s distributed k-means, initialised by %s, processes=%u n=%u d=%u k=%u threads=%u iterations=%u data=%s", pruned ? "pruned" : "exhaustive", in, P, n, d, k, th, it, str(x).c_str());
    store(x); mpisim::reset(P);
    std::vector<std::shared_ptr<C> > pr(P); std::vector<cluster_t> res(P); std::vector<std::thread> ths;
    for (unsigned r = 0; r < P; r++) ths.emplace_back([&, r] {
        mpisim::R = r; pr[r] = mk<C>(n, d, k, it, th, nullptr, in, 0);
        try { pr[r]->run(res[r], "."); } catch (std::exception& e) { fail("process %u: %s", r, e.what()); }
        mpisim::leave();
    });
    for (auto& h : ths) h.join();
    clusters& g = *pr[0]->get_gcltrs(); V m(k * d, 0); std::vector<long long> c(k, 0);
    for (unsigned r = 0; r < P; r++) {
        clusters& h = *pr[r]->get_gcltrs();
        for (size_t i = 0; i < k * d; i++) if (h.means[i] != g.means[i]) fail("process %u: centroid value %zu differs from process 0", r, i);
        for (unsigned j = 0; j < k; j++) expecti(h.num_members_v[j], g.num_members_v[j], "count of a cluster");
        for (unsigned i = 0; i < pr[r]->nrow; i++) { unsigned a = pr[r]->cluster_assignments[i]; if (a >= k) fail("process %u: row %u is not assigned", r, i); expecti(res[0].assignments[n / P * r + i], a, "assignment reported by the root"); c[a]++; for (unsigned q = 0; q < d; q++) m[a * d + q] += x[(n / P * r + i) * d + q]; }
    }
    for (unsigned j = 0; j < k; j++) { expecti(g.num_members_v[j], c[j], "count of a cluster"); for (unsigned q = 0; q < d; q++) if (!(std::fabs(g.means[j * d + q] - (c[j] ? m[j * d + q] / c[j] : 0)) < 1e-6)) fail("centroid %u is not the mean of its members in all processes", j); }
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) if (i % 4 == 2) inits<DC>(false, i < 200 ? 10 : 50); else if (i % 4 == 0) inits<DT>(true, i < 200 ? 10 : 50); else if (i % 8 < 4) dwhole<DC>(false, i < 200 ? 10 : 50); else dwhole<DT>(true, i < 200 ? 10 : 50);
    return done();
}
