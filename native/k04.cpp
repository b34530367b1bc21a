#include "km.hpp"
#include "kmeans.cpp"
using namespace nv; using namespace knor; using namespace knor::base;
// one exhaustive pass over a worker's rows (or a task), against a direct evaluation
static void onepass(bool task_lib) {
    int t = rnd(4); unsigned n = 1 + rnd(8), d = 1 + rnd(4), k = 1 + rnd(5), st = rnd(5), tot = st + n + rnd(3);
    if (task_lib && k < 2) k = 2;
    V x = gen(n * d, rnd(4)), c = gen(k * d, rnd(4));
    auto D = [&](unsigned r, unsigned j) { return metric(&x[r * d], &c[j * d], d, t); };
    for (unsigned r = 0; r < n; r++) { double b = 1e300, s = 1e300; for (unsigned j = 0; j < k; j++) { double v = D(r, j); if (v < b) { s = b; b = v; } else if (v < s) s = v; } if (s - b < 1e-9) return; }
    U ca(tot); for (auto& v : ca) v = rnd(4) ? rnd(k) : INVALID_CLUSTER_ID; U ca0 = ca; V dv(tot, std::numeric_limits<double>::max());
    if (task_lib) for (unsigned r = 0; r < n; r++) if (rnd(2)) { ca[st + r] = ca0[st + r] = rnd(k); dv[st + r] = D(r, ca[st + r]); }
    V dv0 = dv;
    CASE("%s pass: metric=%s n=%u d=%u k=%u first row=%u rows=%s centroids=%s assignments=%s distances=%s", task_lib ? "first pruned-library" : "exhaustive", mname(t), n, d, k, st, str(x).c_str(), str(c).c_str(), stru(ca).c_str(), task_lib ? str(dv).c_str() : "-");
    unsigned nc; const clusters* lc; std::vector<long long> base(k, 0); V wm(k * d, 0); unsigned nc0 = 0; task tk(&x[0], st, n);
    if (!task_lib) {
        clusters::ptr g = clusters::create(k, d); g->set_mean(&c[0]);
        auto th = std::static_pointer_cast<kmeans_thread>(keep(kmeans_thread::create(0, 0, st, n, d, g, &ca[0], "", (dist_t)t)));
        th->local_data = &x[0]; th->meta.num_changed = 77; V junk = gen(k * d, 0); th->local_clusters->set_mean(&junk[0]);
        th->EM_step(); nc = th->meta.num_changed; lc = th->local_clusters.get();
    } else {
        prune_clusters::ptr g = prune_clusters::create(k, d); g->set_mean(&c[0]);
        auto th = std::static_pointer_cast<prune::kmeans_task_thread>(keep(prune::kmeans_task_thread::create(0, 0, 0, st + n, d, g, &ca[0], "", (dist_t)t)));
        th->curr_task = &tk; th->dist_v = &dv[0]; th->prune_init = true; th->meta.num_changed = nc0 = rnd(4);
        th->EM_step(); nc = th->meta.num_changed; lc = th->local_clusters.get(); th->curr_task = nullptr;
    }
    unsigned ch = 0;
    for (unsigned i = 0; i < tot; i++) {
        if (i < st || i >= st + n) { if (ca[i] != ca0[i] || dv[i] != dv0[i]) fail("row %u outside the range was changed", i); continue; }
        unsigned r = i - st, b = 0; for (unsigned j = 1; j < k; j++) if (D(r, j) < D(r, b)) b = j;
        if (ca[i] != b) fail("row %u assigned to %u, nearest is %u", i, ca[i], b);
        if (task_lib) expect(dv[i], D(r, b), "recorded distance");
        if (ca[i] != ca0[i]) ch++;
        base[b]++; for (unsigned q = 0; q < d; q++) wm[b * d + q] += x[r * d + q];
    }
    expecti(nc, task_lib ? nc0 + n : ch, "number of changes");
    for (unsigned j = 0; j < k; j++) expecti(const_cast<clusters*>(lc)->get_num_members(j), base[j], "member count");
    for (size_t q = 0; q < wm.size(); q++) expect(lc->means[q], wm[q], "member sums");
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 4 == 1) onepass(false); else if (i % 4 == 3) onepass(true); else if (i % 8 == 0) whole_omp(knor::omp::compute_kmeans, false, i < 200 ? 12 : 60); else whole<kmeans_coordinator>(false, i < 200 ? 12 : 60); }
    return done();
}
