#include "km.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
static const double MX = std::numeric_limits<double>::max();
// reference: the sampled rows, in order, pull their centroids
static void pull(V& c, const V& x, unsigned d, const U& sel, unsigned first, const U& ca, const V& rate) {
    for (unsigned r : sel) { unsigned j = ca[first + r]; for (unsigned q = 0; q < d; q++) c[j * d + q] = (1 - rate[j]) * c[j * d + q] + rate[j] * x[r * d + q]; }
}
// one assignment pass over a block, then one centroid step
static void onepass() {
    int t = rnd(4); unsigned d = 1 + rnd(4), k = 2 + rnd(5), first = rnd(5), n = 1 + rnd(10), b0 = rnd(n), bn = 1 + rnd(n - b0), tot = first + n + rnd(3);
    V x = gen(n * d, rnd(4)), c = gen(k * d, rnd(4)); double pc[] = {0, 0.3, 0.7, 1}; double perctg = pc[rnd(4)];
    auto D = [&](unsigned r, unsigned j) { return metric(&x[r * d], &c[j * d], d, t); };
    for (unsigned r = 0; r < n; r++) { double b = 1e300, s = 1e300; for (unsigned j = 0; j < k; j++) { double v = D(r, j); if (v < b) { s = b; b = v; } else if (v < s) s = v; } if (s - b < 1e-9) return; }
    U ca(tot); for (auto& v : ca) v = rnd(4) ? rnd(k) : INVALID_CLUSTER_ID; V dv(tot, MX);
    U sel0; if (rnd(3) == 0) for (unsigned r = 0; r < b0; r++) if (rnd(2)) { sel0.push_back(r); ca[first + r] = rnd(k); }
    U ca0 = ca; V dv0 = dv, rate(k); for (auto& v : rate) v = rnd(5) ? 1.0 / (1 + rnd(9)) : 1;
    CASE("mini-batch: metric=%s rows=%u columns=%u k=%u first row=%u block=%u+%u sampling %g already sampled=%s data=%s centroids=%s assignments=%s rates=%s", mname(t), n, d, k, first, b0, bn, perctg, stru(sel0).c_str(), str(x).c_str(), str(c).c_str(), stru(ca).c_str(), str(rate).c_str());
    prune_clusters::ptr g = prune_clusters::create(k, d); g->set_mean(&c[0]);
    auto th = std::static_pointer_cast<prune::kmeans_task_thread>(keep(prune::kmeans_task_thread::create(0, 0, first, n, d, g, &ca[0], "", (dist_t)t)));
    task tk(&x[b0 * d], first + b0, bn); th->curr_task = &tk; th->dist_v = &dv[0]; th->set_mb_perctg(perctg); th->local_data = &x[0]; th->mb_selected = sel0;
    th->mb_EM_step(); th->curr_task = nullptr;
    U sel = th->mb_selected; size_t m = sel0.size();
    if (sel.size() < m || !std::equal(sel0.begin(), sel0.end(), sel.begin())) fail("the sample taken before was changed");
    std::vector<bool> in(n, false); long last = -1;
    for (size_t i = m; i < sel.size(); i++) { if (sel[i] < b0 || sel[i] >= b0 + bn) fail("sampled row %u is not in the block", sel[i]); if ((long)sel[i] <= last) fail("sampled row %u twice or out of order", sel[i]); last = sel[i]; in[sel[i]] = true; }
    if (perctg == 1 && sel.size() != m + bn) fail("%zu of %u rows sampled at rate 1", sel.size() - m, bn);
    for (unsigned i = 0; i < tot; i++) {
        if (i < first || i >= first + n || !in[i - first]) { if (ca[i] != ca0[i] || dv[i] != dv0[i]) fail("row %u was not sampled but changed", i); continue; }
        unsigned r = i - first, b = 0; for (unsigned j = 1; j < k; j++) if (D(r, j) < D(r, b)) b = j;
        expecti(ca[i], b, "owner of a sampled row"); expect(dv[i], D(r, b), "recorded distance");
    }
    V want = c; pull(want, x, d, sel, first, ca, rate);
    th->mb_finalize_centroids(&rate[0]);
    expectv(&g->means[0], want, "centroids after the step");
    expecti(th->mb_selected.size(), 0, "sample after the step");
}
// one coordinator's end of an iteration, and whole mini-batch runs that sample every row
static void coord(bool whole) {
    int t = whole ? 0 : rnd(4); unsigned n = 2 + rnd(20), d = 1 + rnd(3), k = 2 + rnd(4), T = 1 + rnd(4), it = whole ? 1 + rnd(4) : 1; if (k > n) k = n; if (T > n) T = n;
    V x = gen(n * d, rnd(4)), c = rnd(2) ? gen(k * d, rnd(4)) : V(x.begin(), x.begin() + k * d);
    CASE("mini-batch %s: metric=%s n=%u d=%u k=%u threads=%u iterations=%u data=%s centroids=%s", whole ? "run" : "iteration end", mname(t), n, d, k, T, it, str(x).c_str(), str(c).c_str());
    coordinator::ptr co = prune::kmeans_task_coordinator::create("", n, d, k, it, 1, T, &c[0], "none", -1, mname(t));
    auto* p = static_cast<prune::kmeans_task_coordinator*>(co.get());
    auto first = [&](unsigned i) { return i * (n / T); }; auto rows = [&](unsigned i) { return i + 1 == T ? n - first(i) : n / T; };
    if (whole) {
        Ref f(n, d, k, t, x, c); bool conv = false;
        for (unsigned i = 0; i < it && !conv; i++) {
            f.assign(); if (f.close_call()) return;
            V v(k, 0); for (unsigned r = 0; r < n; r++) v[f.a[r]]++; for (auto& y : v) y = 1 / y;
            for (unsigned r = 0; r < n; r++) for (unsigned q = 0; q < d; q++) { double& m = f.c[f.a[r] * d + q]; m = (1 - v[f.a[r]]) * m + v[f.a[r]] * x[r * d + q]; }
        }
        f.assign(); if (f.close_call()) return; std::fill(f.cnt.begin(), f.cnt.end(), 0); for (unsigned a : f.a) f.cnt[a]++;
        p->set_mini_batch_size(n); cluster_t r = p->mb_run(&x[0]); compare(r, f, "after a mini-batch run over every row"); return;
    }
    p->set_global_ptrs(); p->set_thread_data_ptr(&x[0]); p->cltrs->set_mean(&c[0]);
    U ca(n); std::vector<U> sel(T); V cnt(k, 0);
    for (unsigned i = 0; i < T; i++) for (unsigned r = 0; r < rows(i); r++) { unsigned gl = first(i) + r; ca[gl] = rnd(3) ? rnd(k) : INVALID_CLUSTER_ID; if (ca[gl] != INVALID_CLUSTER_ID) { cnt[ca[gl]]++; if (rnd(2)) sel[i].push_back(r); } }
    for (unsigned r = 0; r < n; r++) { p->cluster_assignments[r] = ca[r]; p->dist_v[r] = rnd(2) ? MX : 1.5; }
    V rate(k); for (unsigned j = 0; j < k; j++) rate[j] = 1 / cnt[j];
    V want = c;
    for (unsigned i = 0; i < T; i++) { std::static_pointer_cast<prune::kmeans_task_thread>(p->threads[i])->mb_selected = sel[i]; V part(x.begin() + first(i) * d, x.begin() + (first(i) + rows(i)) * d); pull(want, part, d, sel[i], first(i), ca, rate); }
    p->mb_iteration_end();
    expectv(&p->cltrs->get_means()[0], want, "centroids after the iteration");
    for (unsigned r = 0; r < n; r++) { if (p->dist_v[r] != MX) fail("distance of row %u was not reset", r); if (p->cluster_assignments[r] != ca[r]) fail("assignment of row %u changed", r); }
    for (unsigned i = 0; i < T; i++) expecti(std::static_pointer_cast<prune::kmeans_task_thread>(p->threads[i])->mb_selected.size(), 0, "sample after the iteration");
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 10 == 9) coord(true); else if (i % 10 == 4) coord(false); else onepass(); }
    return done();
}
