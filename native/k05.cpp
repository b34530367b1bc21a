#include "km.hpp"
#include "min-tri-kmeans.cpp"
using namespace nv; using namespace knor; using namespace knor::base;
// one pruned pass over a task with arbitrary valid bounds, against an exhaustive search
static void onepass() {
    unsigned n = 1 + rnd(8), d = 1 + rnd(4), k = 2 + rnd(5), st = rnd(5), pre = rnd(3);
    unsigned tot = st + pre + n + rnd(3);
    V x = gen(n * d, rnd(4)), c = gen(k * d, rnd(4));
    auto D = [&](unsigned r, unsigned j) { return eucl(&x[r * d], &c[j * d], d); };
    prune_clusters::ptr g = prune_clusters::create(k, d); g->set_mean(&c[0]);
    U ca(tot, 7777); V dv(tot, -5.0);
    for (unsigned r = 0; r < n; r++) { double b = 1e300, s = 1e300; for (unsigned j = 0; j < k; j++) { double v = D(r, j); if (v < b) { s = b; b = v; } else if (v < s) s = v; } if (s - b < 1e-7) return; }
    V pd(k); for (auto& v : pd) v = rnd(3) ? rnd(100) / 50.0 : 0;
    for (unsigned j = 0; j < k; j++) g->set_prev_dist(pd[j], j);
    unsigned lo = st + pre;
    for (unsigned r = 0; r < n; r++) { unsigned near_ = 0; for (unsigned j = 1; j < k; j++) if (D(r, j) < D(r, near_)) near_ = j; ca[lo + r] = rnd(2) ? rnd(k) : near_; dv[lo + r] = D(r, ca[lo + r]) - pd[ca[lo + r]] + (rnd(3) ? rnd(100) / 40.0 : 1e-9); }
    prune::dist_matrix::ptr dm = prune::dist_matrix::create(k); dm->compute_dist(g, d);
    auto flags = thd_safe_bool_vector::create(tot, false); for (unsigned i = 0; i < tot; i++) flags->set(i, rnd(2));
    U ca0 = ca; V dv0 = dv;
    CASE("pruned pass: n=%u d=%u k=%u first row=%u rows=%s centroids=%s assignments=%s bounds=%s movement=%s", n, d, k, lo, str(x).c_str(), str(c).c_str(), stru(ca).c_str(), str(dv).c_str(), str(pd).c_str());
    auto th = std::static_pointer_cast<prune::kmeans_task_thread>(keep(prune::kmeans_task_thread::create(0, 0, st, pre + n, d, g, &ca[0], "", EUCL)));
    task tk(&x[0], lo, n);
    th->curr_task = &tk; th->dist_v = &dv[0]; th->recalculated_v = flags; th->dm = dm; th->prune_init = false;
    V base = gen(k * d, 0); th->local_clusters->set_mean(&base[0]); std::vector<size_t> cnt(k, 50); th->local_clusters->set_num_members_v(&cnt[0]);
    unsigned nc0 = rnd(5); th->meta.num_changed = nc0;
    th->EM_step();
    unsigned ch = 0; std::vector<long long> wc(cnt.begin(), cnt.end()); V wm = base;
    for (unsigned i = 0; i < tot; i++) {
        if (i < lo || i >= lo + n) { if (ca[i] != ca0[i] || dv[i] != dv0[i]) fail("row %u outside the task was changed", i); continue; }
        unsigned r = i - lo, b = 0; for (unsigned j = 1; j < k; j++) if (D(r, j) < D(r, b)) b = j;
        if (ca[i] != b) fail("row %u assigned to %u, nearest is %u", i, ca[i], b);
        if (dv[i] < D(r, b) - 1e-8) fail("row %u: stored bound %.12g below its distance %.12g", i, dv[i], D(r, b));
        if (ca[i] != ca0[i]) { ch++; wc[ca0[i]]--; wc[ca[i]]++; for (unsigned q = 0; q < d; q++) { wm[ca0[i] * d + q] -= x[r * d + q]; wm[ca[i] * d + q] += x[r * d + q]; } }
    }
    expecti(th->meta.num_changed, nc0 + ch, "number of changes");
    for (unsigned j = 0; j < k; j++) expecti(th->local_clusters->get_num_members(j), wc[j], "running count");
    for (size_t q = 0; q < wm.size(); q++) if (std::fabs(th->local_clusters->get_means()[q] - wm[q]) > 1e-7) fail("running sum %zu: %.12g, expected %.12g", q, th->local_clusters->get_means()[q], wm[q]);
    th->curr_task = nullptr;
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 2) onepass(); else if (i % 8 == 0) whole_omp(knor::omp::compute_min_kmeans, true, i < 200 ? 12 : 60); else whole<prune::kmeans_task_coordinator>(true, i < 200 ? 12 : 60); }
    return done();
}
