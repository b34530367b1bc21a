#include "nv.hpp"
#include "util.cpp"
#include "types.cpp"
#include "clusters.cpp"
#include "dist_matrix.cpp"
using namespace nv; using namespace knor::base; using namespace knor::prune;
int main(int ac, char** av) {
    begin(ac, av);
    const double MX = std::numeric_limits<double>::max();
    for (long it = 0; it < 20000 && more(); it++) {
        unsigned n = 2 + (it < 200 ? it % 8 : rnd(14));
        dist_matrix::ptr m = dist_matrix::create(n);
        std::map<std::pair<unsigned, unsigned>, double> ref;
        std::string h = "n=" + std::to_string(n);
        int mode = it % 3;
        if (mode == 0) {
            for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) { double v = rval(); bool sw = rnd(2); CASE("%s; set(%u,%u,%g)", h.c_str(), i, j, v); m->set(sw ? j : i, sw ? i : j, v); ref[{i, j}] = v; }
            for (int q = 0; q < 6; q++) { unsigned i = rnd(n), j = rnd(n); if (i == j) continue; double v = rval(); h += " set(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(v) + ")"; CASE("%s", h.c_str()); m->set(i, j, v); ref[{std::min(i, j), std::max(i, j)}] = v; }
            for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { CASE("%s; get(%u,%u)", h.c_str(), i, j);
                expect(m->get(i, j), i == j ? MX : ref[{std::min(i, j), std::max(i, j)}], "get"); expect(m->pw_get(i, j), i == j ? 0 : ref[{std::min(i, j), std::max(i, j)}], "pw_get"); }
            for (unsigned i = 0; i < n; i++) { double b = MX; for (unsigned j = 0; j < n; j++) if (j != i) b = std::min(b, ref[{std::min(i, j), std::max(i, j)}]); CASE("%s; get_min_dist(%u)", h.c_str(), i); expect(m->get_min_dist(i), b, "get_min_dist"); }
        } else if (mode == 1) {
            unsigned d = 1 + rnd(6); std::vector<double> x = rvec(n * d); prune_clusters::ptr c = prune_clusters::create(n, d, x);
            for (int rep = 0; rep < 2; rep++) {
                if (rep) { x = rvec(n * d); c->set_mean(x); }
                CASE("k=%u d=%u centroids=%s compute_dist%s", n, d, str(x).c_str(), rep ? " (second round)" : ""); m->compute_dist(c, d);
                for (unsigned i = 0; i < n; i++) { double b = MX; for (unsigned j = 0; j < n; j++) if (j != i) { double e = eucl(&x[i * d], &x[j * d], d) / 2; expect(m->get(i, j), e, "half distance"); b = std::min(b, e); } expect(c->get_s_val(i), b, "separation"); expect(m->get_min_dist(i), b, "get_min_dist"); }
            }
        } else {
            unsigned d = 1 + rnd(6); std::vector<double> x = rvec(n * d); int t = rnd(3); for (unsigned i = 0; i < n; i++) x[i * d] += 0.5;
            CASE("n=%u d=%u rows=%s compute_pairwise_dist metric %d", n, d, str(x).c_str(), t);
            bool z = false; for (unsigned i = 0; i < n; i++) { bool a = true; for (unsigned j = 0; j < d; j++) if (x[i * d + j]) a = false; z |= a; } if (z) continue;
            m->compute_pairwise_dist(x.data(), d, (dist_t)t);
            for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) expect(m->pw_get(i, j), i == j ? 0 : metric(&x[i * d], &x[j * d], d, t), "pairwise distance");
        }
    }
    return done();
}
