#include "km.hpp"


using namespace nv; using namespace knor; using namespace knor::base;
static const double MX = std::numeric_limits<double>::max();
struct Kmed { // reference
    unsigned n, d, k; int t; const V& x; U med, a; V en; std::vector<U> mem; unsigned changed;
    double D(unsigned r, unsigned m) const { return metric(&x[r * d], &x[m * d], d, t); }
    bool assign() { // false: too close to call
        changed = 0; U b(n); en.assign(k, 0); mem.assign(k, U());
        for (unsigned r = 0; r < n; r++) {
            unsigned w = 0; for (unsigned j = 1; j < k; j++) if (D(r, med[j]) < D(r, med[w])) w = j;
            for (unsigned j = 0; j < k; j++) if (med[j] != med[w] && std::fabs(D(r, med[j]) - D(r, med[w])) < 1e-9) return false;
            if (a[r] != w) changed++; a[r] = w; en[w] += D(r, med[w]); mem[w].push_back(r);
        }
        return true;
    }
    double cost(unsigned r) const { double s = 0; for (unsigned m : mem[a[r]]) if (m != r) s += D(r, m); return s; }
    bool step() {
        for (unsigned j = 0; j < k; j++) {
            double b = MX; unsigned w = 0; bool two = false;
            for (unsigned r : mem[j]) { double c = cost(r); if (c < b) { two = b < MX && b - c < 1e-9; b = c; w = r; } else if (c - b < 1e-9) two = true; }
            if (mem[j].size() == 2 && t == 1) return false; // rounding decides
            if (mem[j].size() <= 2) continue; // both members cost the same: the medoid stays
            if (std::fabs(b - en[j]) < 1e-9) { if (w != med[j] || two) return false; continue; }
            if (b < en[j]) { if (two) return false; med[j] = w; en[j] = b; }
        }
        return true;
    }
};
static void steps() {
    int t = rnd(4); unsigned n = 2 + rnd(16), d = 1 + rnd(3), k = 1 + rnd(4), T = 1 + rnd(4); if (k > n) k = n; if (T > n) T = n;
    V x = gen(n * d, rnd(4)); U med(k), a(n), ca(n); for (auto& m : med) m = rnd(n); for (auto& v : ca) v = rnd(3) ? rnd(k) : INVALID_CLUSTER_ID;
    CASE("k-medoids steps: metric=%s n=%u d=%u k=%u threads=%u medoids=%s assignments=%s data=%s", mname(t), n, d, k, T, stru(med).c_str(), stru(ca).c_str(), str(x).c_str());
    Kmed f{n, d, k, t, x, med, ca}; if (!f.assign()) return;
    coordinator::ptr co = medoid_coordinator::create("", n, d, k, 5, 1, T, NULL, "forgy", -1, mname(t), 1);
    auto* p = static_cast<medoid_coordinator*>(co.get()); auto w = [&](unsigned i) { return std::static_pointer_cast<medoid>(p->threads[i]); };
    auto first = [&](unsigned i) { return i * (n / T); }; auto rows = [&](unsigned i) { return i + 1 == T ? n - first(i) : n / T; };
    p->set_thread_data_ptr(&x[0]);
    for (unsigned j = 0; j < k; j++) { p->cltrs->set_mean(&x[med[j] * d], j); p->cltrs->get_num_members_v()[j] = med[j]; }
    for (unsigned r = 0; r < n; r++) p->cluster_assignments[r] = ca[r];
    for (unsigned i = 0; i < T; i++) {
        w(i)->EM_step(); V en(k, 0); U cnt(k, 0); unsigned ch = 0;
        for (unsigned r = first(i); r < first(i) + rows(i); r++) {
            if (p->cluster_assignments[r] != f.a[r]) fail("row %u went to cluster %u, the nearest medoid is that of %u", r, p->cluster_assignments[r], f.a[r]);
            en[f.a[r]] += f.D(r, med[f.a[r]]); cnt[f.a[r]]++; ch += ca[r] != f.a[r];
        }
        for (unsigned r = first(i) + rows(i); r < n; r++) if (p->cluster_assignments[r] != ca[r]) fail("row %u of another worker changed", r);
        expecti(w(i)->get_num_changed(), ch, "changes of a worker");
        for (unsigned j = 0; j < k; j++) { expect(w(i)->get_local_medoid_energy()[j], en[j], "cost of a worker's cluster"); expecti(w(i)->get_local_clusters()->get_num_members(j), cnt[j], "count of a worker's cluster"); }
    }
    p->clear_membership(); p->compute_globals();
    expecti(p->num_changed, f.changed, "change counter");
    for (unsigned j = 0; j < k; j++) {
        if (p->get_membership()[j] != f.mem[j]) fail("members of cluster %u: %s, expected %s", j, stru(p->get_membership()[j]).c_str(), stru(f.mem[j]).c_str());
        expecti(p->cluster_assignment_counts[j], f.mem[j].size(), "count of a cluster"); expect(p->medoid_energy[j], f.en[j], "cost of a cluster");
    }
    double rate = rnd(2) ? 1 : 0.5; V best(k, MX);
    for (unsigned i = 0; i < T; i++) {
        auto m = w(i); m->sample_rate = rate; m->medoid_step(); V low(k, MX);
        for (unsigned r = first(i); r < first(i) + rows(i); r++) low[f.a[r]] = std::min(low[f.a[r]], f.cost(r));
        for (unsigned j = 0; j < k; j++) {
            double e = m->get_candidate_energy()[j]; unsigned c = m->get_candidate_medoids()[j];
            if (e == MX) { if (rate == 1 && low[j] < MX) fail("worker %u examined members of cluster %u and proposed none", i, j); continue; }
            if (c < first(i) || c >= first(i) + rows(i) || f.a[c] != j) fail("worker %u proposes row %u for cluster %u, which is not one of its members", i, c, j);
            expect(e, f.cost(c), "cost of a proposal");
            if (rate == 1 && e > low[j] + 1e-9) fail("proposal %u of worker %u costs %.12g, a row it examined %.12g", c, i, e, low[j]);
            best[j] = std::min(best[j], e);
        }
    }
    if (rnd(3) == 0) for (unsigned j = 0; j < k; j++) if (rnd(2)) { p->medoid_energy[j] *= 0.5; f.en[j] *= 0.5; } // a medoid cheaper than every proposal
    p->choose_global_medoids(rnd(2) ? &x[0] : nullptr);
    for (unsigned j = 0; j < k; j++) {
        unsigned m = p->cltrs->get_num_members_v()[j]; double e = p->medoid_energy[j];
        if (best[j] < f.en[j] - 1e-9) {
            expect(e, best[j], "cost after the choice"); bool ok = false;
            for (unsigned i = 0; i < T; i++) ok = ok || (w(i)->get_candidate_medoids()[j] == m && w(i)->get_candidate_energy()[j] == e);
            if (!ok) fail("cluster %u took row %u, which no worker proposed at %.12g", j, m, e);
        } else if (best[j] > f.en[j] + 1e-9) { expect(e, f.en[j], "cost of a kept medoid"); expecti(m, med[j], "kept medoid"); }
        for (unsigned q = 0; q < d; q++) expect(p->cltrs->get_means()[j * d + q], x[m * d + q], "coordinates of the medoid");
    }
}
static void run() {
    int t = rnd(4); unsigned n = 3 + rnd(20), d = 1 + rnd(3), k = 1 + rnd(4), T = 1 + rnd(4), it = 1 + rnd(4); if (k > n) k = n; if (T > n) T = n;
    V x = gen(n * d, rnd(4));
    CASE("k-medoids run: metric=%s n=%u d=%u k=%u threads=%u iterations=%u data=%s", mname(t), n, d, k, T, it, str(x).c_str());
    cluster_t z = medoid_coordinator::create("", n, d, k, 0, 1, T, NULL, "forgy", -1, mname(t), 1)->run(&x[0]); // no iteration: the medoids it starts from
    U med; for (unsigned j = 0; j < k; j++) { unsigned r = 0; while (r < n && !std::equal(&x[r * d], &x[r * d] + d, &z.centroids[j * d])) r++; if (r == n) fail("initial medoid %u is not a row", j); med.push_back(r); }
    Kmed f{n, d, k, t, x, med, U(n, INVALID_CLUSTER_ID)}; if (!f.assign()) return;
    for (unsigned i = 0; i < it; i++) { if (!f.step() || !f.assign()) return; if (!f.changed) break; }
    cluster_t r = medoid_coordinator::create("", n, d, k, it, 1, T, NULL, "forgy", -1, mname(t), 1)->run(&x[0]);
    for (unsigned i = 0; i < n; i++) expecti(r.assignments[i], f.a[i], "cluster of a row");
    for (unsigned j = 0; j < k; j++) { expecti(r.assignment_count[j], f.mem[j].size(), "count"); for (unsigned q = 0; q < d; q++) expect(r.centroids[j * d + q], x[f.med[j] * d + q], "medoid"); }
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) { if (i % 4 == 3) run(); else steps(); }
    return done();
}
