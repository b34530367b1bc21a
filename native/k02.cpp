#include "km.hpp"
using namespace nv; using namespace knor; using namespace knor::base;
// rows handed to the workers of one coordinator, and access to rows through them
static unsigned n, d, th;
template <typename W> static unsigned rows_of(W& w) { return w.nprocrows; }
static void queues(prune::kmeans_task_coordinator& c, bool file) { if (!file) c.set_task_data_ptrs(); for (auto t : c.threads) { auto& w = static_cast<prune::kmeans_task_thread&>(*t); if (w.tasks->get_data_ptr() != w.local_data) fail("the queue of a worker points at other data"); } }
template <typename C> static void queues(C&, bool) {}
static unsigned rows_of(prune::kmeans_task_thread& w) { expecti(w.tasks->start_rid, w.start_rid, "queue's first row"); expecti(w.tasks->ncol, d, "queue's columns"); return w.tasks->nrow; }
static unsigned gid(thread& w, unsigned q) { return w.get_global_data_id(q); }
static unsigned gid(prune::kmeans_task_thread& w, unsigned q) { task t(nullptr, w.tasks->get_start_rid(), 1); w.curr_task = &t; unsigned r = w.get_global_data_id(q); w.curr_task = nullptr; return r; }
template <typename C, typename W> static void partition(const char* nm, std::shared_ptr<C> co, const V& x, const char* file) {
    coordinator& b = *co; if (b.threads.empty()) co->build_thread_state();
    if (b.threads.size() != th || b.thd_max_row_idx.size() != th) fail("%s: %zu workers, %zu ranges for %u threads", nm, b.threads.size(), b.thd_max_row_idx.size(), th);
    if (file) { b.wake4run(ALLOC_DATA); b.wait4complete(); } else b.set_thread_data_ptr(const_cast<double*>(&x[0]));
    queues(*co, file);
    unsigned next = 0;
    for (unsigned i = 0; i < th; i++) {
        W& w = static_cast<W&>(*b.threads[i]); unsigned r = rows_of(w);
        expecti(w.start_rid, next, "first row of a worker"); if (r < 1) fail("%s: worker %u has no rows", nm, i);
        auto p = b.get_rid_len_tup(i); expecti(p.first, next, "announced first row"); expecti(p.second, r, "announced number of rows");
        expecti(w.ncol, d, "columns of a worker"); expecti(w.get_data_size(), (long long)(r * (size_t)d * 8), "bytes of a worker"); expecti(w.get_thd_id(), i, "worker id");
        if (next + r > n) fail("%s: worker %u reads past the last row", nm, i);
        for (unsigned q = 0; q < r; q++) { expecti(gid(w, q), next + q, "global row of a local row"); for (unsigned c = 0; c < d; c++) if (w.local_data[q * d + c] != x[(next + q) * d + c]) fail("%s: worker %u row %u holds other data", nm, i, q); }
        next += r; expecti(b.thd_max_row_idx[i], next, "end of a range");
    }
    expecti(next, n, "rows covered");
    for (unsigned r = 0; r < n; r++) { const double* p = b.get_thd_data(r); for (unsigned c = 0; c < d; c++) if (p[c] != x[r * d + c]) fail("%s: row %u looked up through the workers holds other data", nm, r); }
}
template <typename C> static std::shared_ptr<C> mk(const std::string& f, unsigned k) { return std::static_pointer_cast<C>(C::create(f, n, d, k, 1, 1, th, NULL, "none")); }
template <> std::shared_ptr<gmm_coordinator> mk(const std::string& f, unsigned k) { return std::static_pointer_cast<gmm_coordinator>(gmm_coordinator::create(f, n, d, k, 1, NULL, 1, th, "none")); }
int main(int ac, char** av) {
    begin(ac, av); quiet();
    char fn[] = "/tmp/kv_k02_XXXXXX"; int fd = mkstemp(fn);
    for (long i = 0; more(); i++) {
        n = i < 60 ? 1 + i % 12 : 1 + rnd(40); th = 1 + rnd(n < 8 ? n : 8); d = 1 + rnd(5); if (th > n) th = n;
        V x = gen(n * d, 0); for (unsigned j = 0; j < n * d; j++) x[j] += j * 100; unsigned k = 2 + rnd(3); int t = i % 9; bool file = rnd(4) == 0 && t != 7;
        if (file) { FILE* f = fopen(fn, "wb"); fwrite(&x[0], 8, n * d, f); fclose(f); }
        CASE("coordinator %d: rows=%u columns=%u threads=%u%s", t, n, d, th, file ? " data from a file" : ""); const char* f = file ? fn : nullptr; std::string s = file ? fn : "";
        switch (t) {
        case 0: partition<kmeans_coordinator, kmeans_thread>("k-means", mk<kmeans_coordinator>(s, k), x, f); break;
        case 1: partition<prune::kmeans_task_coordinator, prune::kmeans_task_thread>("pruned k-means", mk<prune::kmeans_task_coordinator>(s, k), x, f); break;
        case 2: partition<hclust_coordinator, hclust>("hierarchical", mk<hclust_coordinator>(s, k), x, f); break;
        case 3: partition<xmeans_coordinator, xmeans>("x-means", mk<xmeans_coordinator>(s, k), x, f); break;
        case 4: partition<gmeans_coordinator, gmeans>("g-means", mk<gmeans_coordinator>(s, k), x, f); break;
        case 5: partition<fcm_coordinator, fcm>("fuzzy c-means", mk<fcm_coordinator>(s, k), x, f); break;
        case 6: partition<medoid_coordinator, medoid>("k-medoids", mk<medoid_coordinator>(s, k), x, f); break;
        case 7: partition<skmeans_coordinator, skmeans>("spherical", mk<skmeans_coordinator>(s, k), x, f); break;
        case 8: partition<gmm_coordinator, gmm>("mixture", mk<gmm_coordinator>(s, k), x, f); break;
        }
    }
    close(fd); unlink(fn);
    return done();
}
