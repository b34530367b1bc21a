#include "nv.hpp"
#include "util.cpp"
#include "types.cpp"
#include "clusters.cpp"
using namespace nv; using namespace knor::base;
struct It { const double* p; unsigned n, i; bool has_next() { return i < n; } double next() { return p[i++]; } };
struct M {
    unsigned k, d; std::vector<double> m; std::vector<long long> c; std::vector<bool> f;
    M(unsigned k, unsigned d): k(k), d(d), m(k * d, 0), c(k, 0), f(k, false) {}
    double* row(unsigned i) { return m.data() + i * d; }
    void fin(unsigned i) { if (f[i]) return; if (c[i] > 1) for (unsigned j = 0; j < d; j++) row(i)[j] /= (double)c[i]; f[i] = true; }
    void unfin(unsigned i) { if (!f[i]) return; if (c[i] > 1) for (unsigned j = 0; j < d; j++) row(i)[j] *= (double)c[i]; f[i] = false; }
};
static bool exact = true;
static void same(clusters& c, M& m, const char* w, bool flags = true) {
    expecti(c.nclust, m.k, "nclust"); expecti(c.ncol, m.d, "ncol");
    expecti(c.means.size(), m.m.size(), "coordinate storage size"); expecti(c.num_members_v.size(), m.k, "count storage size");
    for (size_t i = 0; i < m.m.size(); i++) if (!near(c.means[i], m.m[i])) fail("after %s: sums[%zu] = %.17g, expected %.17g", w, i, c.means[i], m.m[i]);
    for (unsigned i = 0; i < m.k; i++) if (c.num_members_v[i] != m.c[i]) fail("after %s: count[%u] = %lld, expected %lld", w, i, (long long)c.num_members_v[i], m.c[i]);
    if (flags) for (unsigned i = 0; i < m.k; i++) if (c.complete_v[i] != m.f[i]) fail("after %s: finalised[%u] = %d, expected %d", w, i, (int)c.complete_v[i], (int)m.f[i]);
}
static void load(clusters& c, M& m) { for (size_t i = 0; i < m.m.size(); i++) c.means[i] = m.m[i]; for (unsigned i = 0; i < m.k; i++) { c.num_members_v[i] = m.c[i]; c.complete_v[i] = m.f[i]; } }
static void randomise(M& m) { m.m = rvec(m.k * m.d); for (unsigned i = 0; i < m.k; i++) { m.c[i] = rnd(6); m.f[i] = rnd(2); } }
int main(int ac, char** av) {
    begin(ac, av);
    for (long it = 0; it < 30000 && more(); it++) {
        unsigned k = 1 + rnd(it < 500 ? 4 : 9), d = 1 + rnd(it < 500 ? 4 : 11);
        int op = it % 22;
        M m(k, d); randomise(m);
        prune_clusters::ptr cp = prune_clusters::create(k, d); clusters& c = *cp;
        { M z(k, d); CASE("create(%u,%u)", k, d); same(c, z, "create"); }
        load(c, m);
        std::vector<double> x = rvec(d), x0 = x; unsigned i = rnd(k), j = rnd(k);
        std::string pre = "k=" + std::to_string(k) + " d=" + std::to_string(d) + " sums=" + str(m.m) + " counts=" + stru(std::vector<unsigned>(m.c.begin(), m.c.end())) + " finalised=" + stru(std::vector<unsigned>(m.f.begin(), m.f.end()));
#define OP(...) { char t_[600]; snprintf(t_, 600, __VA_ARGS__); CASE("%s; %s", pre.c_str(), t_); }
        switch (op) {
        case 0: OP("add_member(%s, %u)", str(x).c_str(), i); c.add_member(x.data(), i); for (unsigned q = 0; q < d; q++) m.row(i)[q] += x[q]; m.c[i]++; same(c, m, "add_member"); break;
        case 1: OP("remove_member(%s, %u)", str(x).c_str(), i); c.remove_member<double>(x.data(), i); for (unsigned q = 0; q < d; q++) m.row(i)[q] -= x[q]; m.c[i]--; same(c, m, "remove_member"); break;
        case 2: OP("swap_membership(%s, %u, %u)", str(x).c_str(), i, j); c.swap_membership<double>(x.data(), i, j); for (unsigned q = 0; q < d; q++) { m.row(i)[q] -= x[q]; m.row(j)[q] += x[q]; } m.c[i]--; m.c[j]++; same(c, m, "swap_membership"); break;
        case 3: { OP("add_member(iterator %s, %u)", str(x).c_str(), i); It t = {x.data(), d, 0}; c.add_member<It>(t, i); for (unsigned q = 0; q < d; q++) m.row(i)[q] += x[q]; m.c[i]++; same(c, m, "add_member(it)"); break; }
        case 4: { OP("remove_member(iterator %s, %u)", str(x).c_str(), i); It t = {x.data(), d, 0}; c.remove_member<It>(t, i); for (unsigned q = 0; q < d; q++) m.row(i)[q] -= x[q]; m.c[i]--; same(c, m, "remove_member(it)"); break; }
        case 5: { OP("swap_membership(iterator %s, %u, %u)", str(x).c_str(), i, j); It t = {x.data(), d, 0}; c.swap_membership<It>(t, i, j); for (unsigned q = 0; q < d; q++) { m.row(i)[q] -= x[q]; m.row(j)[q] += x[q]; } m.c[i]--; m.c[j]++; same(c, m, "swap_membership(it)"); break; }
        case 6: OP("finalize(%u)", i); c.finalize(i); m.fin(i); same(c, m, "finalize"); c.finalize(i); same(c, m, "finalize twice"); break;
        case 7: OP("unfinalize(%u)", i); c.unfinalize(i); m.unfin(i); same(c, m, "unfinalize"); break;
        case 8: OP("finalize_all"); c.finalize_all(); for (unsigned q = 0; q < k; q++) m.fin(q); same(c, m, "finalize_all"); break;
        case 9: OP("unfinalize_all"); c.unfinalize_all(); for (unsigned q = 0; q < k; q++) m.unfin(q); same(c, m, "unfinalize_all"); break;
        case 10: { M o(k, d); randomise(o); prune_clusters::ptr b = prune_clusters::create(k, d); load(*b, o); OP("peq(sums=%s)", str(o.m).c_str()); c.peq(b); for (size_t q = 0; q < m.m.size(); q++) m.m[q] += o.m[q]; for (unsigned q = 0; q < k; q++) m.c[q] += o.c[q]; same(c, m, "peq"); same(*b, o, "peq (right operand)"); break; }
        case 11: { M o(k, d); randomise(o); prune_clusters::ptr b = prune_clusters::create(k, d); load(*b, o); OP("+= (sums=%s)", str(o.m).c_str()); clusters& r = (c += *b); if (&r != &c) fail("+= returns another object"); for (size_t q = 0; q < m.m.size(); q++) m.m[q] += o.m[q]; for (unsigned q = 0; q < k; q++) m.c[q] += o.c[q]; same(c, m, "+="); same(*b, o, "+= (right operand)"); break; }
        case 12: OP("clear"); c.clear(); { M z(k, d); same(c, z, "clear"); } break;
        case 13: OP("set_mean(%s, %u)", str(x).c_str(), i); if (rnd(2)) c.set_mean((const std::vector<double>&)x, i); else if (rnd(2)) c.set_mean((const double*)x.data(), i); else { It t = {x.data(), d, 0}; c.set_mean<It>(t, i); } for (unsigned q = 0; q < d; q++) m.row(i)[q] = x[q]; same(c, m, "set_mean", true); break;
        case 14: { std::vector<double> a = rvec(k * d); OP("set_mean(%s)", str(a).c_str()); if (rnd(2)) c.set_mean((const std::vector<double>&)a); else c.set_mean((const double*)a.data()); m.m = a; same(c, m, "set_mean all"); break; }
        case 15: { std::vector<double> a = rvec(k * d); OP("means_peq(%s)", str(a).c_str()); c.means_peq(a.data()); for (size_t q = 0; q < a.size(); q++) m.m[q] += a[q]; same(c, m, "means_peq"); break; }
        case 16: { std::vector<size_t> a(k); for (auto& q : a) q = rnd(7); OP("num_members_v_peq"); c.num_members_v_peq(a.data()); for (unsigned q = 0; q < k; q++) m.c[q] += a[q]; same(c, m, "num_members_v_peq"); break; }
        case 17: { std::vector<size_t> a(k); for (auto& q : a) q = rnd(7); OP("set_num_members_v"); c.set_num_members_v(a.data()); for (unsigned q = 0; q < k; q++) m.c[q] = a[q]; same(c, m, "set_num_members_v"); break; }
        case 18: { double f = rval(); OP("scale_centroid(%g, %u, %s)", f, i, str(x).c_str()); c.scale_centroid(f, i, x.data()); for (unsigned q = 0; q < d; q++) m.row(i)[q] = (1 - f) * m.row(i)[q] + f * x[q]; same(c, m, "scale_centroid"); break; }
        case 19: { prune_clusters::ptr b = prune_clusters::create(k, d); M z(k, d); OP("operator="); clusters& bb = *b; bb = c; for (size_t q = 0; q < m.m.size(); q++) expect(bb.means[q], m.m[q], "copied sums"); for (unsigned q = 0; q < k; q++) expecti(bb.num_members_v[q], m.c[q], "copied counts"); break; }
        case 20: { std::vector<double> a = rvec(k * d); OP("create with centroids %s", str(a).c_str()); clusters::ptr b = rnd(2) ? clusters::create(k, d, a) : clusters::create(k, d, a.data()); M z(k, d); z.m = a; same(*b, z, "create", false); break; }
        case 21: { // add everything, finalise = mean, unfinalise = sums
            unsigned n = rnd(12); prune_clusters::ptr b = prune_clusters::create(k, d); M z(k, d); std::string t;
            for (unsigned q = 0; q < n; q++) { std::vector<double> y = rvec(d); unsigned w = rnd(k); b->add_member(y.data(), w); for (unsigned e = 0; e < d; e++) z.row(w)[e] += y[e]; z.c[w]++; t += str(y) + "->" + std::to_string(w) + " "; }
            CASE("k=%u d=%u members %s; finalize_all", k, d, t.c_str()); same(*b, z, "members"); b->finalize_all(); M y = z; for (unsigned q = 0; q < k; q++) y.fin(q); same(*b, y, "finalize_all"); b->unfinalize_all(); z.f.assign(k, false); same(*b, z, "unfinalize_all"); break; }
        }
        if (x != x0) fail("member modified");
    }
    return done();
}
