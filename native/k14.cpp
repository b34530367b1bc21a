#include "km.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
static void packaging() {
    unsigned n = 1 + rnd(9), d = 1 + rnd(4), k = 1 + rnd(6), it = rnd(9); U a(n); std::vector<llong_t> c(k); V m = rvec(k * d); for (auto& v : a) v = rnd(k); for (auto& v : c) v = rnd(20);
    CASE("result of %u rows, %u columns, %u clusters: assignments %s", n, d, k, stru(a).c_str());
    cluster_t one(n, d, it, k, &a[0], &c[0], m), two; two.set_params(n, d, it, k); two.set_computed(&a[0], &c[0], m);
    cluster_t* all[] = {&one, &two};
    for (auto* r : all) {
        expecti(r->nrow, n, "nrow"); expecti(r->ncol, d, "ncol"); expecti(r->iters, it, "iters"); expecti(r->k, k, "k");
        if (r->assignments != a) fail("assignments of the result"); if (r->centroids != m) fail("centroids of the result");
        expecti(r->assignment_count.size(), k, "number of counts"); for (unsigned j = 0; j < k; j++) expecti(r->assignment_count[j], c[j], "count");
    }
    if (!(one == two)) fail("equal results compare different");
    int w = rnd(6); cluster_t x = one;
    if (w == 0) x.assignments[rnd(n)]++; else if (w == 1) x.assignment_count[rnd(k)]++; else if (w == 2) x.centroids[rnd(k * d)] += 1; else if (w == 3) x.assignments.push_back(0); else if (w == 4) x.assignment_count.push_back(1); else x.centroids.push_back(2);
    if (one == x) fail("different results compare equal (part %d)", w); if (w > 2 && x == one) fail("different results compare equal (part %d, swapped)", w);
}
static void sparse() {
    unsigned ids = 1 + rnd(20), d = 1 + rnd(4), used = 0; std::vector<llong_t> c(ids, 0); for (auto& v : c) if (rnd(2)) { v = 1 + rnd(3); used++; } if (!used) { c[rnd(ids)] = 2; used = 1; }
    U a, num(ids, 0); std::unordered_map<unsigned, V> m; unsigned r = 0; for (unsigned i = 0; i < ids; i++) if (c[i]) { num[i] = r++; m[i] = rvec(d); for (int q = 0; q < c[i]; q++) a.push_back(i); }
    for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[rnd(i)]);
    CASE("sparse ids: columns=%u rows in %s", d, stru(a).c_str());
    std::vector<llong_t> c2(c); cluster_t z(a.size(), d, 3, a, c2, m);
    expecti(z.k, used, "k"); expecti(z.nrow, a.size(), "nrow"); expecti(z.ncol, d, "ncol"); expecti(z.iters, 3, "iters"); expecti(z.assignments.size(), a.size(), "assignments"); expecti(z.assignment_count.size(), used, "counts"); expecti(z.centroids.size(), used * d, "centroids");
    for (size_t i = 0; i < a.size(); i++) expecti(z.assignments[i], num[a[i]], "renumbered row");
    for (unsigned i = 0; i < ids; i++) if (c[i]) { expecti(z.assignment_count[num[i]], c[i], "renumbered count"); for (unsigned q = 0; q < d; q++) expect(z.centroids[num[i] * d + q], m[i][q], "renumbered centroid"); }
}
static void equality() {
    unsigned n = rnd(6); V x = rvec(n), y = x; if (n && rnd(2)) y[rnd(n)] += rnd(2); CASE("equality of %s and %s", str(x).c_str(), str(y).c_str());
    if (eq_all<double>(x.data(), y.data(), n) != (x == y)) fail("eq_all"); if (v_eq(x, y) != (x == y)) fail("v_eq"); y.push_back(1); if (v_eq(x, y) || v_eq(y, x)) fail("vectors of different lengths compare equal");
    unsigned k = 1 + rnd(4), d = 1 + rnd(3); auto a = clusters::create(k, d), b = clusters::create(k, d); V m = rvec(k * d); a->set_mean(&m[0]); b->set_mean(&m[0]); if (!(*a == *b)) fail("equal cluster sets compare different"); b->means[rnd(k * d)] += 1; if (*a == *b) fail("different cluster sets compare equal");
}
static void consistent(const cluster_t& r, unsigned n, unsigned d, const coordinator& c, bool sparse) {
    expecti(r.nrow, n, "nrow"); expecti(r.ncol, d, "ncol"); expecti(r.assignments.size(), n, "assignments"); expecti(r.assignment_count.size(), r.k, "number of counts"); expecti(r.centroids.size(), r.k * d, "centroids");
    std::vector<long> cnt(r.k, 0); for (unsigned i = 0; i < n; i++) { if (r.assignments[i] >= r.k) fail("row %u in cluster %u of %zu", i, r.assignments[i], r.k); cnt[r.assignments[i]]++; }
    for (unsigned j = 0; j < r.k; j++) expecti(r.assignment_count[j], cnt[j], "rows counted in a cluster");
    if (!sparse) { for (unsigned i = 0; i < n; i++) expecti(r.assignments[i], c.cluster_assignments[i], "computed cluster of a row"); for (unsigned j = 0; j < r.k; j++) expecti(r.assignment_count[j], c.cluster_assignment_counts[j], "computed count"); }
}
static void means(const cluster_t& r, const V& x, unsigned n, unsigned d) {
    for (unsigned j = 0; j < r.k; j++) for (unsigned q = 0; q < d; q++) { double m = 0; long c = 0; for (unsigned i = 0; i < n; i++) if (r.assignments[i] == j) { m += x[i * d + q]; c++; } expect(r.centroids[j * d + q], c ? m / c : 0, "mean of a cluster's rows"); }
}
static void whole_runs() {
    int w = rnd(7), t = rnd(4); unsigned n = 4 + rnd(30), d = 1 + rnd(3), k = 2 + rnd(5), T = 1 + rnd(4), it = 1 + rnd(5); if (t == 1 || w == 1) t = 0; if (k > n) k = n; if (T > n) T = n;
    V x = gen(n * d, rnd(4)), c = V(x.begin(), x.begin() + k * d); if (w >= 5 && rnd(2)) for (auto& v : x) v = (int)v;
    static const char* nm[] = {"k-means", "pruned k-means", "scaled k-means", "fuzzy c-means", "k-medoids", "hierarchical", "x-means"};
    CASE("whole run of %s: metric=%s n=%u d=%u k=%u threads=%u iterations=%u data=%s", nm[w], mname(t), n, d, k, T, it, str(x).c_str());
    coordinator::ptr co; cluster_t r;
    if (w == 0) co = kmeans_coordinator::create("", n, d, k, it, 1, T, &c[0], "none", -1, mname(t));
    else if (w == 1) co = prune::kmeans_task_coordinator::create("", n, d, k, it, 1, T, &c[0], "none", -1, mname(t));
    else if (w == 2) co = skmeans_coordinator::create("", n, d, k, it, 1, T, &c[0], "none", -1, mname(t));
    else if (w == 3) co = fcm_coordinator::create("", n, d, k, it, 1, T, &c[0], "none", -1, mname(t), 2);
    else if (w == 4) co = medoid_coordinator::create("", n, d, k, it, 1, T, NULL, "forgy", -1, mname(t), 1);
    else if (w == 5) co = hclust_coordinator::create("", n, d, k, it, 1, T, NULL, "forgy", -1, mname(t), 2);
    else co = xmeans_coordinator::create("", n, d, k, it, 1, T, NULL, "forgy", -1, mname(t), 2);
    r = co->run(&x[0], false);
    consistent(r, n, d, *co, w >= 5);
    if (w < 3 || w >= 5) means(r, x, n, d);
    if (w < 5) expecti(r.k, k, "k");
    if (w == 0 && r.centroids != static_cast<kmeans_coordinator&>(*co).cltrs->get_means()) fail("computed centroids");
    if (w == 3 && r.centroids != static_cast<fcm_coordinator&>(*co).centers->as_vector()) fail("computed centres");
    if (w == 4 && r.centroids != static_cast<medoid_coordinator&>(*co).cltrs->get_means()) fail("computed medoids");
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 8 == 7) whole_runs(); else if (i % 4 == 1) sparse(); else if (i % 4 == 2) equality(); else packaging(); }
    return done();
}
