#include "km.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
struct KC: kmeans_coordinator { void update_clusters_(bool) { update_clusters(); } using kmeans_coordinator::kmeans_coordinator; };
struct PC: prune::kmeans_task_coordinator { void update_clusters_(bool i) { update_clusters(i); } using prune::kmeans_task_coordinator::kmeans_task_coordinator; };
// the update step of each pool library on made-up worker accumulators, against direct sums
template <typename COORD> static void once(bool pruned) {
    unsigned T = 1 + rnd(6), k = (pruned ? 2 : 1) + rnd(5), d = 1 + rnd(4), n = std::max(T, 1 + rnd(40)); int mode = rnd(3);
    bool init = !pruned || rnd(2);
    std::vector<std::vector<unsigned>> cnt(T, std::vector<unsigned>(k)); std::vector<V> sum(T, V(k * d)); U chg(T); std::vector<unsigned> base(k, 0); V bm(k * d, 0); 
    unsigned total = 0; V z0 = gen(k * d, 0);
    for (unsigned i = 0; i < T; i++) for (unsigned c = 0; c < k; c++) { cnt[i][c] = mode == 0 ? rnd(3) : mode == 1 ? (rnd(3) ? 0 : rnd(5)) : (c == 0 ? 0 : rnd(2)); for (unsigned q = 0; q < d; q++) sum[i][c * d + q] = cnt[i][c] ? rval() : 0; total += cnt[i][c]; }
    if (!init) for (unsigned c = 0; c < k; c++) { base[c] = rnd(4); total += base[c]; for (unsigned q = 0; q < d; q++) bm[c * d + q] = base[c] ? rval() : 0; }
    bool swaps = !init && rnd(2);   // a later pass as it happens: rows leave one cluster for another, the total stays
    if (swaps) {
        total = 0; for (unsigned c = 0; c < k; c++) total += base[c] = rnd(5);
        for (unsigned c = 0; c < k; c++) for (unsigned q = 0; q < d; q++) bm[c * d + q] = base[c] ? rval() : 0;
        std::vector<unsigned> left = base;
        for (unsigned i = 0; i < T; i++) {
            for (unsigned c = 0; c < k; c++) { cnt[i][c] = 0; for (unsigned q = 0; q < d; q++) sum[i][c * d + q] = 0; }
            for (unsigned m = rnd(4); m > 0; m--) { unsigned a = rnd(k), b = rnd(k); if (!left[a]) continue; left[a]--; left[b]++; cnt[i][a]--; cnt[i][b]++; for (unsigned q = 0; q < d; q++) { double v = rval(); sum[i][a * d + q] -= v; sum[i][b * d + q] += v; } }
        }
    }
    if (total == 0) { cnt[0][0] = 1; total = 1; }
    n = std::max(total, T); unsigned pad = n - total; cnt[T - 1][k - 1] += pad; 
    unsigned prevch = pruned ? rnd(2) : 9;
    unsigned room = n - (pruned ? prevch : 0); if (n < prevch) { prevch = 0; room = n; } 
    for (unsigned i = 0; i < T; i++) { chg[i] = rnd(room / T + 1); }
    std::string h; char b[200]; for (unsigned i = 0; i < T; i++) { snprintf(b, 200, " worker %u: changed=%u counts=", i, chg[i]); h += b; h += stru(cnt[i]) + " sums=" + str(sum[i]); }
    CASE("%s update%s: workers=%u k=%u d=%u rows=%u running counts=%s running means=%s%s", pruned ? "pruned" : "plain", pruned ? (init ? " (first pass)" : " (later pass)") : "", T, k, d, n, stru(base).c_str(), str(bm).c_str(), h.c_str());
    coordinator::ptr co = std::make_shared<COORD>("", n, d, k, 1, 1, T, &z0[0], init_t::NONE, -1, dist_t::EUCL); auto* c = static_cast<COORD*>(co.get());
    for (unsigned i = 0; i < T; i++) {
        auto lc = c->threads[i]->local_clusters; lc->clear();
        for (unsigned j = 0; j < k; j++) { for (unsigned q = 0; q < d; q++) lc->means[j * d + q] = sum[i][j * d + q]; lc->num_members_v[j] = (int)cnt[i][j]; }
        c->threads[i]->meta.num_changed = chg[i];
    }
    V before(k * d); std::vector<unsigned> was(k, 0);
    if (pruned) {
        auto* pc = static_cast<prune_clusters*>((clusters*)c->cltrs.get());
        if (init) { for (unsigned j = 0; j < k; j++) was[j] = rnd(3); before = gen(k * d, 0); } else { was = base; before = bm; }
        for (size_t p = 0; p < before.size(); p++) pc->means[p] = before[p];
        for (unsigned j = 0; j < k; j++) { pc->num_members_v[j] = was[j]; pc->complete_v[j] = true; pc->prev_dist_v[j] = -4; c->cluster_assignment_counts[j] = was[j]; }
        for (auto& v : pc->prev_means) v = 123;
    }
    c->num_changed = prevch;
    c->update_clusters_(init);
    unsigned want = pruned ? prevch : 0; for (unsigned i = 0; i < T; i++) want += chg[i];
    expecti(c->num_changed, want, "change counter");
    for (unsigned j = 0; j < k; j++) {
        unsigned w = init ? 0 : was[j]; for (unsigned i = 0; i < T; i++) w += (int)cnt[i][j];
        expecti(c->cltrs->get_num_members(j), w, "member count"); expecti(c->cluster_assignment_counts[j], w, "reported count");
        double dr = 0;
        for (unsigned q = 0; q < d; q++) {
            double s = 0; if (!init) s = was[j] > 1 ? before[j * d + q] * was[j] : before[j * d + q]; for (unsigned i = 0; i < T; i++) s += sum[i][j * d + q];
            if (w > 1) s /= w; expect(c->cltrs->get_means()[j * d + q], s, "centroid"); dr += (s - before[j * d + q]) * (s - before[j * d + q]);
        }
        if (pruned) { auto* pc = static_cast<prune_clusters*>((clusters*)c->cltrs.get()); expect(pc->get_prev_dist(j), std::sqrt(dr), "drift"); for (unsigned q = 0; q < d; q++) expect(pc->prev_means[j * d + q], before[j * d + q], "previous centroid"); }
    }
}
int main(int ac, char** av) { begin(ac, av); quiet(); for (long i = 0; more(); i++) { if (i & 1) once<PC>(true); else once<KC>(false); } return done(); }
