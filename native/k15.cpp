#include "dist.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
// blocks of rows of the processes of one run
static void shift(DC& c) { c.shift_thread_start_rid(); } static void shift(DT&) {}
template <typename C> static void blocks(const char* nm, unsigned n, unsigned P, unsigned d, unsigned th) {
    V x = gen(n * d, 0); store(x); mpisim::reset(P); size_t next = 0;
    std::vector<std::shared_ptr<C> > pr;
    for (unsigned r = 0; r < P; r++) {
        CASE("%s: rows=%u processes=%u process=%u columns=%u threads=%u", nm, n, P, r, d, th);
        mpisim::R0 = r; auto c = mk<C>(n, d, 2, 1, th, nullptr, "none", 0); pr.push_back(c);
        expecti(c->nprocs, P, "number of processes"); expecti(c->mpi_rank, r, "number of the process"); expecti(c->g_nrow, n, "rows of all processes");
        if (c->nrow < 1) fail("the process owns no rows");
        expecti(c->global_rid(0), next, "first row of the process");
        for (size_t i = 0; i < c->nrow; i++) {
            size_t g = c->global_rid(i); expecti(g, next + i, "global id"); if (g >= n) fail("row %zu does not exist", g);
            if (!c->is_local(g)) fail("own row %zu is reported foreign", g);
            expecti(c->local_rid(g), i, "local id of an own row");
        }
        for (size_t g = 0; g < n; g++) if (g < next || g >= next + c->nrow) {
            if (c->is_local(g)) fail("row %zu of another process is reported local", g);
            try { size_t l = c->local_rid(g); fail("row %zu of another process gets the local id %zu", g, l); } catch (knor::base::thread_exception&) {} catch (std::runtime_error&) {}
        }
        size_t w = next; for (auto t : c->threads) { expecti(t->start_rid, w, "first row of a worker"); w += c->get_rid_len_tup(&t - &t + t->get_thd_id()).second; }
        c->wake4run(ALLOC_DATA); c->wait4complete();
        for (unsigned i = 0; i < c->nrow; i++) for (unsigned q = 0; q < d; q++) if (c->get_thd_data(i)[q] != x[(next + i) * d + q]) fail("local row %u holds other data than row %zu of the file", i, next + i);
        shift(*c); if (std::is_same<C, DC>::value) { w = 0; for (auto t : c->threads) { expecti(t->start_rid, w, "local first row of a worker"); w += c->get_rid_len_tup(t->get_thd_id()).second; } }
        next += c->nrow;
    }
    expecti(next, n, "rows owned by some process");
    for (size_t g = 0; g < n; g++) { unsigned own = 0; for (auto& c : pr) own += c->is_local(g); expecti(own, 1, "processes that own a row"); }
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    for (long i = 0; more(); i++) {
        unsigned P = 1 + rnd(i < 40 ? 4 : 9), n = P + rnd(i < 40 ? 9 : 40), d = 1 + rnd(3), th = 1 + rnd(3); if (th > n / P) th = n / P;
        if (i % 2) blocks<DC>("exhaustive", n, P, d, th); else blocks<DT>("pruned", n, P, d, th);
    }
    return done();
}
