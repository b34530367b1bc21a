#include "km.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
static V table(unsigned n, unsigned d) { // with features that are constant, never positive, never negative
    V x = gen(n * d, rnd(4));
    for (unsigned q = 0; q < d; q++) { int w = rnd(5); double c = rval(); for (unsigned r = 0; r < n; r++) { double& v = x[r * d + q]; if (w == 0) v = c; else if (w == 1) v = -std::fabs(v) - 1; else if (w == 2) v = std::fabs(v) + 1; } }
    return x;
}
static V scaled(const V& x, unsigned n, unsigned d) {
    V y(x);
    for (unsigned q = 0; q < d; q++) { double lo = x[q], hi = x[q]; for (unsigned r = 0; r < n; r++) { lo = std::min(lo, x[r * d + q]); hi = std::max(hi, x[r * d + q]); } for (unsigned r = 0; r < n; r++) y[r * d + q] = hi == lo ? 0 : (x[r * d + q] - lo) / (hi - lo); }
    return y;
}
static void worker() {
    unsigned n = 1 + rnd(9), d = 1 + rnd(4), first = rnd(4); V x = table(n, d), big(x); V tail = rvec(d * 2); big.insert(big.end(), tail.begin(), tail.end()); V all = big;
    CASE("one worker's features: rows=%u columns=%u data=%s", n, d, str(x).c_str());
    auto th = std::static_pointer_cast<skmeans>(keep(skmeans::create(0, 0, first, n, d, clusters::create(1, d), nullptr, "", (dist_t)0)));
    th->local_data = &big[0]; th->feature_bounds_reduction();
    for (unsigned q = 0; q < d; q++) { double lo = x[q], hi = x[q]; for (unsigned r = 0; r < n; r++) { lo = std::min(lo, x[r * d + q]); hi = std::max(hi, x[r * d + q]); } expect(th->get_min_feature_val()[q], lo, "smallest value of a feature"); expect(th->get_max_feature_val()[q], hi, "largest value of a feature"); }
    if (big != all) fail("the data changed while its bounds were taken");
    if (rnd(2)) for (unsigned q = 0; q < d; q++) { th->get_min_feature_val()[q] -= 1 + rnd(3); th->get_max_feature_val()[q] += rnd(3); }
    V lo = th->get_min_feature_val(), hi = th->get_max_feature_val(); th->feature_normalize();
    for (unsigned r = 0; r < n; r++) for (unsigned q = 0; q < d; q++) expect(big[r * d + q], hi[q] == lo[q] ? 0 : (x[r * d + q] - lo[q]) / (hi[q] - lo[q]), "scaled value");
    for (unsigned i = n * d; i < big.size(); i++) if (big[i] != all[i]) fail("value %u, which belongs to another worker, changed", i);
}
static void reduce() {
    unsigned d = 1 + rnd(4), T = 1 + rnd(5), n = T + rnd(5);
    std::vector<V> lo(T), hi(T); for (unsigned i = 0; i < T; i++) { lo[i] = table(1, d); hi[i] = lo[i]; for (auto& v : hi[i]) v += rnd(4); }
    CASE("reduction over %u workers, %u features", T, d);
    coordinator::ptr co = skmeans_coordinator::create("", n, d, 1, 2, 1, T, nullptr, "none", -1, "eucl"); auto* p = static_cast<skmeans_coordinator*>(co.get());
    for (unsigned i = 0; i < T; i++) { auto t = std::static_pointer_cast<skmeans>(p->threads[i]); t->get_min_feature_val() = lo[i]; t->get_max_feature_val() = hi[i]; }
    p->bounds_reduction();
    for (unsigned q = 0; q < d; q++) {
        double a = lo[0][q], b = hi[0][q]; for (unsigned i = 0; i < T; i++) { a = std::min(a, lo[i][q]); b = std::max(b, hi[i][q]); }
        for (unsigned i = 0; i < T; i++) { auto t = std::static_pointer_cast<skmeans>(p->threads[i]); expect(t->get_min_feature_val()[q], a, "smallest value over all workers"); expect(t->get_max_feature_val()[q], b, "largest value over all workers"); }
    }
}
static void project() {
    unsigned n = 1 + rnd(9), d = 1 + rnd(5); V x = gen(n * d, rnd(4)), y(x); CASE("spherical projection: rows=%u columns=%u data=%s", n, d, str(x).c_str());
    spherical_projection(&y[0], n, d);
    for (unsigned r = 0; r < n; r++) { double s = 0; for (unsigned q = 0; q < d; q++) s += x[r * d + q] * x[r * d + q]; if (s == 0) return; for (unsigned q = 0; q < d; q++) expect(y[r * d + q], x[r * d + q] / std::sqrt(s), "projected value"); }
}
static void run() {
    int t = rnd(2) ? 0 : rnd(4); unsigned n = 3 + rnd(16), d = 1 + rnd(4), k = 1 + rnd(4), T = 1 + rnd(4), it = 1 + rnd(5); if (k > n) k = n; if (T > n) T = n;
    V x = table(n, d), y = scaled(x, n, d), c(k * d); for (auto& v : c) v = (rnd(1u << 20) + 1) / (double)(1u << 20);
    CASE("scaled k-means: metric=%s n=%u d=%u k=%u threads=%u iterations=%u data=%s centres=%s", mname(t), n, d, k, T, it, str(x).c_str(), str(c).c_str());
    if (t == 1) for (unsigned r = 0; r < n; r++) { double s = 0; for (unsigned q = 0; q < d; q++) s += y[r * d + q]; if (s == 0) return; }
    Ref f(n, d, k, t, y, c);
    for (unsigned i = 1; i <= it; i++) { f.assign(); if (f.close_call()) return; f.update(); if (f.changed == 0) break; }
    if (f.close_call()) return;
    cluster_t r = skmeans_coordinator::create("", n, d, k, it, 1, T, &c[0], "none", -1, mname(t))->run(&x[0], false);
    expectv(&x[0], y, "scaled data");
    compare(r, f, "after the run");
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 8 == 7) run(); else if (i % 8 == 3) reduce(); else if (i % 8 == 5) project(); else worker(); }
    return done();
}
