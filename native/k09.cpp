#include "nv.hpp"
#include "dense_matrix.hpp"
using namespace nv; using namespace knor::base;
// the dense matrix type against direct evaluation on row-major reference vectors
typedef dense_matrix<double> M; typedef std::vector<double> V;
struct R { size_t r, c; V v; double at(size_t i, size_t j) const { return v[i * c + j]; } };
static R gen(size_t r, size_t c) { R x; x.r = r; x.c = c; x.v = rvec(r * c); int k = rnd(5); if (k == 0) for (auto& e : x.v) e = -1 - std::fabs(e); if (k == 1) for (auto& e : x.v) e *= 1e-3; return x; }
static V divs(size_t n) { V v = rvec(n); for (auto& e : v) if (e == 0) e = 2; return v; }
static void load(M& m, const R& x) { if (rnd(2)) m.set(&x.v[0]); else for (size_t i = 0; i < x.r; i++) m.set_row(&x.v[i * x.c], i); }
static void same(M& m, const R& x, const char* w) {
    expecti(m.get_nrow(), x.r, w); expecti(m.get_ncol(), x.c, w); expecti(m.as_vector().size(), x.v.size(), w); expectv(m.as_pointer(), x.v, w);
    for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) if (!near(m.get(i, j), x.at(i, j))) fail("%s: get(%zu,%zu) is %g, expected %g", w, i, j, m.get(i, j), x.at(i, j)); }
static void same_and_free(M* m, const R& x, const char* w) { same(*m, x, w); delete m; }
template <typename F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long it = 0; more(); it++) {
        size_t r = it < 64 ? 1 + it % 8 : 1 + rnd(9), c = it < 64 ? 1 + it / 8 : 1 + rnd(9), k = 1 + rnd(6); if (rnd(8) == 0) c = r;
        R x = gen(r, c), y = gen(r, c), z = gen(c, k); V vr = divs(r), vc = divs(c);
        CASE("%zu x %zu matrix %s other %s (product with %zu x %zu %s) row vector %s column vector %s", r, c, str(x.v).c_str(), str(y.v).c_str(), c, k, str(z.v).c_str(), str(vr).c_str(), str(vc).c_str());
        M e; expecti(e.get_nrow() + e.get_ncol() + e.as_vector().size(), 0, "empty matrix");
        M z0(r, c, true); same(z0, R{r, c, V(r * c, 0)}, "zero matrix");
        M a(r, c), b(r, c), p(c, k); load(a, x); load(b, y); load(p, z); same(a, x, "set");
        { M* q = M::create(&a); same(*q, x, "copy"); q->set(r - 1, c - 1, 77); same(a, x, "copied matrix"); R x2 = x; x2.v[r * c - 1] = 77; same_and_free(q, x2, "set cell"); }
        { M q; q.copy_from(&a); same(q, x, "copy_from"); R x2 = x; size_t i = rnd(r), j = rnd(c); q.peq(i, j, 2.5); x2.v[i * c + j] += 2.5; same(q, x2, "peq"); q.copy_from(&p); same(q, z, "copy_from other shape"); q.zero(); same(q, R{c, k, V(c * k, 0)}, "zero"); q.resize(r, c); expecti(q.as_vector().size(), r * c, "resize"); expecti(q.get_nrow(), r, "resize"); expecti(q.get_ncol(), c, "resize"); }
        { M q; q.copy_from(&a); size_t i = rnd(r); V w = rvec(c); R x2 = x; for (size_t j = 0; j < c; j++) x2.v[i * c + j] = w[j]; q.set_row(&w[0], i); same(q, x2, "set_row"); }
        { R s = x; for (size_t i = 0; i < r * c; i++) s.v[i] = x.v[i] + y.v[i]; same_and_free(a + b, s, "sum"); same(a, x, "left operand of +"); same(b, y, "right operand of +"); M q; q.copy_from(&a); q += b; same(q, s, "+="); same(b, y, "operand of +="); }
        { R s = x; for (size_t i = 0; i < r * c; i++) s.v[i] = x.v[i] - y.v[i]; same_and_free(a - b, s, "difference"); same(a, x, "left operand of -"); same(b, y, "right operand of -"); }
        { R s{r, k, V(r * k, 0)}; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < k; j++) { for (size_t t = 0; t < c; t++) s.v[i * k + j] += x.at(i, t) * z.at(t, j); } same_and_free(a * p, s, "product"); same(a, x, "left operand of *"); same(p, z, "right operand of *"); }
        if (r == c) { R s = x; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) s.v[i * c + j] -= vr[i]; V w = vr; same_and_free(a - w, s, "difference with a vector"); same(a, x, "left operand of -"); }
        { double dv = divs(1)[0]; M q; q.copy_from(&a); R s = x; for (auto& v : s.v) v /= dv; q /= dv; same(q, s, "scaled"); }
        { M q; q.copy_from(&a); R s = x; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) s.v[i * c + j] /= vr[i]; q.div_eq(vr, 1); same(q, s, "div_eq rows"); if (r != c) { M t; t.copy_from(&a); t /= vr; same(t, s, "/= rows"); } }
        { M q; q.copy_from(&a); R s = x; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) s.v[i * c + j] /= vc[j]; q.div_eq(vc, 0); same(q, s, "div_eq columns"); if (r != c) { M t; t.copy_from(&a); t /= vc; same(t, s, "/= columns"); } }
        { unsigned ex = rnd(4); M q, t; q.copy_from(&a); t.copy_from(&a); R s = x, u = x; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { s.v[i * c + j] = std::pow(x.at(i, j) / vc[j], ex); u.v[i * c + j] = std::pow(x.at(i, j) / vr[i], ex); } q.div_eq_pow(vc, 0, ex); same(q, s, "div_eq_pow columns"); t.div_eq_pow(vr, 1, ex); same(t, u, "div_eq_pow rows");
          M o; o.copy_from(&a); R g = x; for (auto& v : g.v) v = std::pow(v, (double)ex); o.pow_eq(ex); same(o, g, "pow_eq"); }
        { V w(rnd(3), 9.0); M q; q.copy_from(&a); if (r + 1 != c && !throws([&] { V l(r + c + 1, 1.0); q.div_eq(l, 0); })) fail("div_eq accepted a vector of the wrong length"); if (!throws([&] { q.sum(2, w); })) fail("sum accepted axis 2"); std::vector<unsigned> u; if (!throws([&] { q.argmax(2, u); })) fail("argmax accepted axis 2"); if (r == c && !throws([&] { q /= vr; })) fail("/= accepted a square matrix"); same(q, x, "matrix after a rejected operation"); }
        { V cs(c, 0), rs(r, 0); double tot = 0, fr = 0; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { cs[j] += x.at(i, j); rs[i] += x.at(i, j); tot += x.at(i, j); fr += x.at(i, j) * x.at(i, j); }
          V w(rnd(12), 5.0); a.sum(0, w); expecti(w.size(), c, "column sums"); expectv(&w[0], cs, "column sums"); w.assign(rnd(12), 5.0); a.sum(1, w); expecti(w.size(), r, "row sums"); expectv(&w[0], rs, "row sums"); expect(a.sum(), tot, "total"); expect(a.frobenius_norm(), std::sqrt(fr), "norm");
          for (auto& v : cs) v /= r; for (auto& v : rs) v /= c; w.assign(rnd(12), 5.0); a.mean(w); expecti(w.size(), c, "column means"); expectv(&w[0], cs, "column means"); w.assign(rnd(12), 5.0); a.mean(w, 0); expecti(w.size(), r, "row means"); expectv(&w[0], rs, "row means"); same(a, x, "matrix after summing"); }
        { std::vector<unsigned> u(rnd(12), 3); a.argmax(0, u); expecti(u.size(), r, "argmax rows"); for (size_t i = 0; i < r; i++) { size_t w = 0; for (size_t j = 1; j < c; j++) if (x.at(i, j) > x.at(i, w)) w = j; expecti(u[i], w, "argmax of a row"); }
          u.assign(rnd(12), 3); a.argmax(1, u); expecti(u.size(), c, "argmax columns"); for (size_t j = 0; j < c; j++) { size_t w = 0; for (size_t i = 1; i < r; i++) if (x.at(i, j) > x.at(w, j)) w = i; expecti(u[j], w, "argmax of a column"); } same(a, x, "matrix after argmax"); }
        { M q; q.copy_from(&a); if (!(q == a)) fail("a copy compares unequal"); size_t i = rnd(r), j = rnd(c); q.set(i, j, x.at(i, j) + 1); if (q == a) fail("matrices differing at (%zu,%zu) compare equal", i, j); if (r != c) { M t(c, r); t.set(&x.v[0]); if (t == a) fail("matrices of different shape compare equal"); } }
    }
    return done();
}
