#include "nv.hpp"
#include "linalg.hpp"
using namespace nv; using namespace knor::base;
// the linear-algebra helpers against direct definitions (determinant by the Leibniz formula over permutations)
typedef std::vector<double> V;
static double leibniz(const V& a, size_t n) {
    std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; double d = 0;
    do { int inv = 0; double t = 1; for (size_t i = 0; i < n; i++) { t *= a[i * n + p[i]]; for (size_t j = 0; j < i; j++) inv += p[j] > p[i]; } d += inv % 2 ? -t : t; } while (std::next_permutation(p.begin(), p.end()));
    return d; }
static V minor(const V& a, size_t n, size_t r, size_t c) { V m; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != r && j != c) m.push_back(a[i * n + j]); return m; }
static void square(size_t n) {
    V a(n * n); for (auto& e : a) e = (int)rnd(9) - 4 + (rnd(4) ? 0 : 0.5); bool sing = n > 1 && rnd(4) == 0; if (sing) for (size_t j = 0; j < n; j++) a[(n - 1) * n + j] = 2 * a[j]; if (n == 1 && rnd(4) == 0) a[0] = 0;
    CASE("%zu x %zu matrix %s", n, n, str(a).c_str()); V k = a;
    double d = leibniz(a, n); expect(linalg::determinant(&a[0], n, n), d, "determinant");
    if (n > 1) { size_t N = n + rnd(3), p = rnd(n), q = rnd(n); V big(N * N, 99), t(N * N, -7); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) big[i * N + j] = a[i * n + j]; linalg::getCofactor(&big[0], &t[0], p, q, n, N); V m = minor(a, n, p, q); for (size_t i = 0; i + 1 < n; i++) for (size_t j = 0; j + 1 < n; j++) if (t[i * N + j] != m[i * (n - 1) + j]) fail("minor without row %zu and column %zu at (%zu,%zu): got %g, expected %g", p, q, i, j, t[i * N + j], m[i * (n - 1) + j]); expect(linalg::determinant(&big[0], n, N), d, "determinant of a leading block"); }
    V adj(n * n, 5), want(n * n, 1); linalg::adjoint(&a[0], &adj[0], n);
    if (n > 1) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) want[j * n + i] = ((i + j) % 2 ? -1 : 1) * leibniz(minor(a, n, i, j), n - 1);
    expectv(&adj[0], want, "adjoint");
    dense_matrix<double> m(n, n); m.set(&a[0]); dense_matrix<double>* am = linalg::adjoint(&m); expecti(am->get_nrow(), n, "adjoint shape"); expecti(am->get_ncol(), n, "adjoint shape"); expectv(am->as_pointer(), want, "adjoint matrix"); delete am;
    V inv(n * n, 42); bool ok = linalg::inverse(&a[0], &inv[0], n); expecti(ok, linalg::determinant(&a[0], n, n) != 0, "inverse says whether it exists");
    if (!ok) expectv(&inv[0], V(n * n, 42), "result for a singular matrix");
    else { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { expect(inv[i * n + j], want[i * n + j] / d, "inverse element"); if (std::fabs(d) > .4) { double s = 0; for (size_t t = 0; t < n; t++) s += a[i * n + t] * inv[t * n + j]; if (std::fabs(s - (i == j)) > 1e-6) fail("matrix times inverse at (%zu,%zu) is %g", i, j, s); } } }
    expectv(&a[0], k, "the matrix itself");
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long it = 0; more(); it++) {
        square(1 + it % 5); if (it % 50 == 0) square(6);
        size_t n = 1 + rnd(9), c = 1 + rnd(6); V x = rvec(n), y = rvec(n), m = rvec(n * c); double f = rval();
        CASE("vectors %s %s matrix %zu x %zu %s factor %g", str(x).c_str(), str(y).c_str(), n, c, str(m).c_str(), f);
        double xy = 0, xx = 0; for (size_t i = 0; i < n; i++) { xy += x[i] * y[i]; xx += x[i] * x[i]; }
        expect(linalg::dot<double>(&x[0], &y[0], n), xy, "dot"); expect(linalg::dot<double>(x, y), xy, "dot of vectors"); expect(linalg::frobenius_norm<double>(&x[0], n), std::sqrt(xx), "norm");
        { V t = x, w(n); linalg::peq<double>(&t[0], &y[0], n); for (size_t i = 0; i < n; i++) w[i] = x[i] + y[i]; expectv(&t[0], w, "peq"); t.assign(n + 1, 1); linalg::peq<double>(&t[0], &y[0], n); expect(t[n], 1, "element past the end of peq"); }
        for (int filled = 0; filled < 2; filled++) {
            size_t extra = filled ? rnd(3) : 0; V w(n + extra, 3.25); V r(filled ? n + extra : 0, 3.25); linalg::vdiff(&x[0], &y[0], n, r); for (size_t i = 0; i < n; i++) w[i] = x[i] - y[i]; expecti(r.size(), n + extra, "vdiff length"); expectv(&r[0], w, "vdiff");
            r.assign(filled ? n + extra : 0, 3.25); linalg::scale(x, f, r); for (size_t i = 0; i < n; i++) w[i] = x[i] * f; expecti(r.size(), n + extra, "scale length"); expectv(&r[0], w, "scale");
            double e = rnd(4); r.assign(filled ? n + extra : 0, 3.25); linalg::pow(x, r, e); for (size_t i = 0; i < n; i++) w[i] = std::pow(x[i], e); expecti(r.size(), n + extra, "pow length"); expectv(&r[0], w, "pow"); }
        { V r(rnd(5), 1), w(c, 0); linalg::dot(&x[0], &m[0], n, c, r); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < n; i++) w[j] += x[i] * m[i * c + j]; expecti(r.size(), c, "vector-matrix product length"); expectv(&r[0], w, "vector-matrix product"); }
        double mean = 0, sd = 0; for (double v : x) mean += v; mean /= n; for (double v : x) sd += (v - mean) * (v - mean); sd = std::sqrt(sd / n);
        if (sd > 1e-6) { V t = x, w(n); linalg::scale(&t[0], n); for (size_t i = 0; i < n; i++) w[i] = (x[i] - mean) / sd; expectv(&t[0], w, "standardised"); }
    }
    return done();
}
