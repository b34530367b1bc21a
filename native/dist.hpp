// Runs the distributed coordinators with every process simulated by a thread (native/mpi.h).
#pragma once
#include <cstdlib>
namespace std { inline int kv_system(const char*) { return 1; } } // results are written to the scratch directory, no helper program is started
#define system kv_system
#include "km.hpp"
#include "mpi.hpp"
#include "dist_coordinator.cpp"
#include "dist_task_coordinator.cpp"
#include <thread>
namespace nv {
typedef knor::dist::dist_coordinator DC; typedef knor::prune::dist_task_coordinator DT;
static std::string datafile() { static char fn[] = "kv_dist_XXXXXX"; static int fd = mkstemp(fn); (void)fd; return fn; }
static void store(const V& x) { FILE* f = fopen(datafile().c_str(), "wb"); fwrite(&x[0], 8, x.size(), f); fclose(f); }
template <typename C> static std::shared_ptr<C> mk(unsigned n, unsigned d, unsigned k, unsigned it, unsigned th, const double* c, const char* init, int t, double tol = -1) {
    return std::static_pointer_cast<C>(C::create(0, nullptr, datafile(), n, d, k, it, 1, th, c, init, tol, mname(t)));
}
}
