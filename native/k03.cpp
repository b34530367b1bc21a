#include "km.hpp"
using namespace nv; using namespace knor;
typedef prune::kmeans_task_thread PTT;
static bool same_addr(const double* a, const double* b) { return a == b; }
// histories of reset / take on a bare queue, against "rows are handed out in order, once each"
static void queue(unsigned n, unsigned d) {
    unsigned st = rnd(5); if (rnd(6) == 0) st += 100000;
    V x((size_t)n * d + 1); std::string h = "queue rows=" + std::to_string(n) + " columns=" + std::to_string(d) + " first row=" + std::to_string(st);
    CASE("%s", h.c_str());
    bool made = rnd(2); task_queue* q = made ? new task_queue(&x[0], st, n, d) : new task_queue();
    if (!made) { q->set_data_ptr(&x[0]); q->set_start_rid(st); q->set_nrow(n); q->set_ncol(d); q->reset(); h += " set up by setters"; }
    for (int pass = 0; pass < 3; pass++) {
        unsigned next = 0, stop = rnd(3) ? n : rnd(n + 1);   // sometimes abandon the pass half way
        while (next < stop) {
            CASE("%s, pass %d, %u rows handed out", h.c_str(), pass, next);
            if (!q->has_task()) fail("no work reported with %u of %u rows handed out", next, n);
            expecti(q->get_nxt_rid(), st + next, "next row id");
            task* t = q->get_task();
            if (t->get_nrow() < 1) fail("empty block");
            expecti(t->get_start_rid(), st + next, "first row of the block");
            if (!same_addr(t->get_data_ptr(), &x[0] + (size_t)next * d)) fail("block points at element %ld, expected %ld", (long)(t->get_data_ptr() - &x[0]), (long)next * d);
            next += t->get_nrow(); if (next > n) fail("rows handed out beyond the end: %u of %u", next, n);
            delete t;
        }
        CASE("%s, pass %d, %u rows handed out", h.c_str(), pass, next);
        if (q->has_task() != (next < n)) fail("work reported: %d with %u of %u rows handed out", (int)q->has_task(), next, n);
        h += " reset"; CASE("%s", h.c_str()); q->reset();
    }
    delete q;
}
// a worker driven by wake / request_task, several passes
static void worker(unsigned n, unsigned d) {
    unsigned st = rnd(1000), k = 2 + rnd(3); V x((size_t)n * d + 1); U ca(st + n);
    std::string h = "worker rows=" + std::to_string(n) + " columns=" + std::to_string(d) + " first row=" + std::to_string(st);
    CASE("%s", h.c_str());
    base::prune_clusters::ptr g = base::prune_clusters::create(k, d);
    auto th = std::static_pointer_cast<PTT>(keep(PTT::create(0, 0, st, n, d, g, &ca[0], "", base::EUCL)));
    th->tasks->set_data_ptr(&x[0]); th->curr_task = nullptr;
    std::atomic<unsigned> pend; pthread_mutex_t m; pthread_cond_t c; pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0);
    th->set_parent_pending_threads(&pend); th->set_parent_cond(&c);
    th->local_clusters->clear();
    for (int pass = 0; pass < 3; pass++) {
        thread_state_t want = pass == 0 && rnd(2) ? KMSPP_INIT : EM; pend = 3; th->meta.num_changed = 5; th->cuml_dist = 7;
        V one(d, 1); th->local_clusters->add_member(&one[0], 0u);
        th->wake(want);
        if (th->get_state() != want) fail("state after waking");
        expecti(th->local_clusters->get_num_members(0), 0, "member count after waking"); expect(th->local_clusters->get_means()[0], 0, "member sums after waking");
        if (want == EM) expecti(th->meta.num_changed, 0, "change count after waking"); else expect(th->cuml_dist, 0, "cumulative distance after waking");
        unsigned next = 0, stop = rnd(3) ? n : rnd(n) + 1;
        for (;;) {
            CASE("%s, pass %d, %u rows handed out", h.c_str(), pass, next);
            task* t = th->curr_task; if (!t || t->get_nrow() < 1) fail("no block held");
            expecti(t->get_start_rid(), st + next, "first row of the block");
            if (!same_addr(t->get_data_ptr(), &x[0] + (size_t)next * d)) fail("block points at the wrong row");
            unsigned i = rnd(t->get_nrow()); expecti(th->get_global_data_id(i), st + next + i, "global row id");
            next += t->get_nrow(); if (next > n) fail("rows handed out beyond the end");
            if (next >= stop && next < n) break;
            th->request_task();
            if (next == n) { if (th->get_state() != WAIT) fail("all rows handed out but the worker is not waiting"); expecti(pend, 2, "pending workers"); break; }
            if (th->get_state() != want) fail("state changed with rows left"); expecti(pend, 3, "pending workers");
        }
    }
    th->curr_task = nullptr;
}
int main(int ac, char** av) {
    begin(ac, av); quiet();
    static const unsigned b[] = { 1, 2, 3, 8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 16386, 24575, 24576, 24577, 24578, 40961 };
    for (long i = 0; more(); i++) {
        unsigned n = i < 60 ? b[i % 17] : rnd(3) ? b[rnd(17)] : 1 + rnd(50000), d = i < 60 ? 1 + i % 3 : 1 + rnd(4);
        if (rnd(2)) queue(n, d); else worker(n, d);
    }
    return done();
}
