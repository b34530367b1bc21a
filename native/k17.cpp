#include "km.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
typedef knor::base::dense_matrix<double> DMat;
struct Fuzzy { // reference
    unsigned n, d, k, f; int t; const V& x; V c, u; bool hard;
    double D(unsigned r, unsigned j) { return metric(&x[r * d], &c[j * d], d, t); }
    double raw(unsigned r, unsigned j) { double v = D(r, j); if (std::isnan(v) || (v != 0 && v < 1e-7) || (t == 1 && v < 1e-7)) hard = true; if (v == 0) v = 2.2e-16; return std::pow(1 / v, 1.0 / (f - 1)); }
    void e() { u.assign(k * n, 0); for (unsigned r = 0; r < n; r++) { double s = 0; for (unsigned j = 0; j < k; j++) s += u[j * n + r] = raw(r, j); for (unsigned j = 0; j < k; j++) u[j * n + r] = std::pow(u[j * n + r] / s, f); } }
    void m() { for (unsigned j = 0; j < k; j++) { double s = 0; V p(d, 0); for (unsigned r = 0; r < n; r++) { s += u[j * n + r]; for (unsigned q = 0; q < d; q++) p[q] += u[j * n + r] * x[r * d + q]; } if (s < 1e-12) hard = true; for (unsigned q = 0; q < d; q++) c[j * d + q] = p[q] / s; } }
};
static void passes() {
    int t = rnd(4); unsigned d = 1 + rnd(4), k = 1 + rnd(4), first = rnd(5), n = 1 + rnd(8), tot = first + n + rnd(3), f = 2 + rnd(3);
    V x = gen(n * d, rnd(4)), c = gen(k * d, rnd(4)), u0(k * tot); for (auto& v : u0) v = rval();
    if (rnd(2) && t != 1) for (unsigned q = 0; q < d; q++) x[rnd(n) * 0 + q] = c[rnd(k) * 0 + q]; // a row on a centre
    CASE("fuzzy passes: metric=%s rows %u+%u of %u columns=%u k=%u fuzziness=%u data=%s centres=%s", mname(t), first, n, tot, d, k, f, str(x).c_str(), str(c).c_str());
    Fuzzy z{n, d, k, f, t, x, c, V()}; for (unsigned r = 0; r < n; r++) for (unsigned j = 0; j < k; j++) z.raw(r, j); if (z.hard) return;
    DMat* um = DMat::create(k, tot); um->set(&u0[0]); DMat* ce = DMat::create(k, d); ce->set(&c[0]);
    auto th = std::static_pointer_cast<fcm>(keep(fcm::create(0, 0, first, n, d, k, f, um, ce, "", (dist_t)t))); th->local_data = &x[0];
    th->Estep(); V u = um->as_vector();
    for (unsigned j = 0; j < k; j++) for (unsigned r = 0; r < tot; r++) {
        if (r < first || r >= first + n) { if (u[j * tot + r] != u0[j * tot + r]) fail("membership of row %u, which belongs to another worker, changed", r); continue; }
        if (!(u[j * tot + r] > 0)) fail("membership of row %u in cluster %u is not positive", r - first, j);
        expect(u[j * tot + r], z.raw(r - first, j), "inverse distance to the power 1/(fuzziness-1)");
    }
    th->innerprod->set(0, 0, 77); for (auto& v : u) v = rnd(1000) / 1000.0; um->set(&u[0]);
    th->Mstep();
    for (unsigned j = 0; j < k; j++) for (unsigned q = 0; q < d; q++) { double s = 0; for (unsigned r = 0; r < n; r++) s += u[j * tot + first + r] * x[r * d + q]; expect(th->innerprod->get(j, q), s, "weighted sum of a worker's rows"); }
    if (um->as_vector() != u) fail("the memberships changed in the M step");
    delete um; delete ce; th->um = nullptr; th->centers = nullptr;
}
static void coord() {
    unsigned n = 2 + rnd(16), d = 1 + rnd(3), k = 1 + rnd(4), T = 1 + rnd(4), f = 2 + rnd(3); if (k > n) k = n; if (T > n) T = n;
    V u(k * n), c0 = gen(k * d, 0); for (auto& v : u) v = (1 + rnd(1000)) / 1000.0; std::vector<V> ip(T); for (auto& v : ip) v = rvec(k * d);
    CASE("fuzzy totals: n=%u d=%u k=%u threads=%u fuzziness=%u memberships=%s", n, d, k, T, f, str(u).c_str());
    coordinator::ptr co = fcm_coordinator::create("", n, d, k, 2, 1, T, &c0[0], "none", -1, "eucl", f); auto* p = static_cast<fcm_coordinator*>(co.get());
    p->um->set(&u[0]); p->update_contribution_matrix();
    V w(k * n); for (unsigned r = 0; r < n; r++) { double s = 0; for (unsigned j = 0; j < k; j++) s += u[j * n + r]; for (unsigned j = 0; j < k; j++) w[j * n + r] = std::pow(u[j * n + r] / s, f); }
    expectv(&p->um->as_vector()[0], w, "memberships scaled and raised");
    for (unsigned i = 0; i < T; i++) std::static_pointer_cast<fcm>(p->threads[i])->innerprod->set(&ip[i][0]);
    p->update_centers();
    for (unsigned j = 0; j < k; j++) { double s = 0; for (unsigned r = 0; r < n; r++) s += w[j * n + r]; for (unsigned q = 0; q < d; q++) { double v = 0; for (auto& z : ip) v += z[j * d + q]; expect(p->centers->get(j, q), v / s, "centre"); } }
}
static void run() {
    int t = rnd(4); unsigned n = 3 + rnd(16), d = 1 + rnd(3), k = 1 + rnd(4), T = 1 + rnd(4), f = 2 + rnd(2), it = 1 + rnd(4); if (k > n) k = n; if (T > n) T = n;
    V x = gen(n * d, rnd(4)), c = rnd(2) ? gen(k * d, rnd(4)) : V(x.begin(), x.begin() + k * d);
    CASE("fuzzy run: metric=%s n=%u d=%u k=%u threads=%u fuzziness=%u iterations=%u data=%s centres=%s", mname(t), n, d, k, T, f, it, str(x).c_str(), str(c).c_str());
    Fuzzy z{n, d, k, f, t, x, c, V()}; for (unsigned i = 0; i < it; i++) { z.e(); z.m(); } if (z.hard) return;
    U own(n); for (unsigned r = 0; r < n; r++) { unsigned b = 0; for (unsigned j = 1; j < k; j++) if (z.u[j * n + r] > z.u[b * n + r]) b = j; own[r] = b; for (unsigned j = 0; j < k; j++) if (j != b && z.u[b * n + r] - z.u[j * n + r] < 1e-6) return; }
    cluster_t r = fcm_coordinator::create("", n, d, k, it, 1, T, &c[0], "none", -1, mname(t), f)->run(&x[0], false);
    for (unsigned i = 0; i < n; i++) expecti(r.assignments[i], own[i], "cluster of a row");
    U cnt(k, 0); for (unsigned o : own) cnt[o]++;
    for (unsigned j = 0; j < k; j++) expecti(r.assignment_count[j], cnt[j], "count");
    for (unsigned i = 0; i < k * d; i++) if (std::fabs(r.centroids[i] - z.c[i]) > 1e-5 * std::max(1.0, std::fabs(z.c[i]))) fail("centre value %u is %.12g, expected %.12g", i, r.centroids[i], z.c[i]);
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 8 == 7) run(); else if (i % 8 == 3) coord(); else passes(); }
    return done();
}
