#include "km.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
// one seeding pass of one worker (or of one block of a worker) against a direct evaluation
static void onepass(bool task_lib) {
    int t = rnd(4); unsigned n = 1 + rnd(9), d = 1 + rnd(4), k = 2 + rnd(5), st = rnd(5), tot = st + n + rnd(3);
    V x = gen(n * d, rnd(4)), c = gen(k * d, rnd(4)); unsigned ci = rnd(k);
    bool exact = t != 1 && rnd(2);   // small integers: distances are computed exactly up to the final square root, so ties can be judged
    if (exact) { for (auto& v : x) v = (int)rnd(5); for (auto& v : c) v = (int)rnd(5); }
    if (t != 1 && rnd(3) == 0) { unsigned r = rnd(n); for (unsigned q = 0; q < d; q++) c[ci * d + q] = x[r * d + q]; }  // the seed is one of the rows
    U ca(tot); for (auto& v : ca) v = rnd(k); V dv(tot); for (auto& v : dv) v = rnd(3) ? rnd(1000) / 50.0 : std::numeric_limits<double>::max();
    if (t == 1) for (auto& v : dv) if (v < 1e100) v /= 10;
    if (exact) for (unsigned r = 0; r < n; r++) if (rnd(2)) dv[st + r] = metric(&x[r * d], &c[rnd(k) * d], d, t);
    for (unsigned r = 0; r < n; r++) if (rnd(8) == 0 && t != 1) { dv[st + r] = 0; }
    if (!exact) for (unsigned r = 0; r < n; r++) if (std::fabs(metric(&x[r * d], &c[ci * d], d, t) - dv[st + r]) < 1e-9) return;
    U ca0 = ca; V dv0 = dv; double cum0 = rnd(100);
    CASE("%s seeding pass: metric=%s rows=%u columns=%u k=%u first row=%u seed=%u data=%s centroids=%s distances=%s owners=%s", task_lib ? "block" : "worker", mname(t), n, d, k, st, ci, str(x).c_str(), str(c).c_str(), str(dv).c_str(), stru(ca).c_str());
    double cum; task tk(&x[0], st, n);
    if (!task_lib) {
        clusters::ptr g = clusters::create(k, d); g->set_mean(&c[0]);
        auto th = std::static_pointer_cast<kmeans_thread>(keep(kmeans_thread::create(0, 0, st, n, d, g, &ca[0], "", (dist_t)t)));
        th->local_data = &x[0]; th->dist_v = &dv[0]; th->set_clust_idx(ci);
        if (rnd(2)) { th->cuml_dist = cum0; th->wake(KMSPP_INIT); expect(th->get_cuml_dist(), 0, "cumulative distance after waking"); cum0 = 0; }
        th->cuml_dist = cum0; th->kmspp_dist(); cum = th->get_cuml_dist();
    } else {
        prune_clusters::ptr g = prune_clusters::create(k, d); g->set_mean(&c[0]);
        auto th = std::static_pointer_cast<prune::kmeans_task_thread>(keep(prune::kmeans_task_thread::create(0, 0, 0, st + n, d, g, &ca[0], "", (dist_t)t)));
        th->curr_task = &tk; th->dist_v = &dv[0]; th->set_clust_idx(ci); th->cuml_dist = cum0; th->kmspp_dist(); cum = th->get_cuml_dist(); th->curr_task = nullptr;
    }
    double want = cum0;
    for (unsigned i = 0; i < tot; i++) {
        if (i < st || i >= st + n) { if (ca[i] != ca0[i] || dv[i] != dv0[i]) fail("row %u outside the range was changed", i); continue; }
        double D = metric(&x[(i - st) * d], &c[ci * d], d, t); bool closer = D < dv0[i];
        expect(dv[i], closer ? D : dv0[i], "recorded distance"); expecti(ca[i], closer ? ci : ca0[i], "recorded owner"); want += closer ? D : dv0[i];
    }
    expect(cum, want, "cumulative distance");
}
// a whole seeding through the library's entry point: every row ends with its nearest seed
static void ready(kmeans_coordinator&) {}
static void ready(prune::kmeans_task_coordinator& c) { c.set_global_ptrs(); }
template <typename COORD> static void seeding() {
    int t = rnd(4); unsigned n = 2 + rnd(20), d = 1 + rnd(3), k = 2 + rnd(4), th = 1 + rnd(4); if (k > n) k = n; if (th > n) th = n;
    V x = gen(n * d, 0); CASE("kmeans++ through the coordinator: metric=%s n=%u d=%u k=%u threads=%u data=%s", mname(t), n, d, k, th, str(x).c_str());
    coordinator::ptr co = COORD::create("", n, d, k, 1, 1, th, NULL, "kmeanspp", -1, mname(t));
    auto* c = static_cast<COORD*>(co.get());
    ready(*c); c->set_thread_data_ptr(&x[0]); c->run_init();
    const V& m = c->cltrs->get_means();
    for (unsigned j = 0; j < k; j++) { bool f = false; for (unsigned r = 0; r < n; r++) { bool e = true; for (unsigned q = 0; q < d; q++) if (m[j * d + q] != x[r * d + q]) e = false; f = f || e; } if (!f) fail("seed %u is not a row", j); }
    for (unsigned r = 0; r < n; r++) { double b = metric(&x[r * d], &m[0], d, t); for (unsigned j = 1; j < k; j++) b = std::min(b, metric(&x[r * d], &m[j * d], d, t)); unsigned a = c->cluster_assignments[r]; if (a >= k) fail("row %u has no owner", r); double own = metric(&x[r * d], &m[a * d], d, t); if (!(own <= b + 1e-9)) fail("row %u belongs to seed %u at distance %g; the nearest seed is at %g", r, a, own, b); }
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 10 == 9) { if (i % 20 == 9) seeding<kmeans_coordinator>(); else seeding<prune::kmeans_task_coordinator>(); } else onepass(i & 1); }
    return done();
}
