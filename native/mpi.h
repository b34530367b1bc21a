// A stand-in for MPI in which every process is a thread of this program: messages really travel, a collective
// completes when every process has entered it. Used by the native replay of the distributed library only.
#pragma once
#include <cstring>
#include <cstddef>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <map>
typedef int MPI_Comm; typedef int MPI_Op; typedef int MPI_Status;
struct MPI_Datatype { int k; size_t w; };
static const MPI_Datatype MPI_DOUBLE = {0, 8};
namespace MPI { static const MPI_Datatype UNSIGNED_LONG_LONG = {1, 8}, LONG_LONG = {2, 8}, UNSIGNED = {3, 4}; }
#define MPI_COMM_WORLD 0
#define MPI_SUM 1
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
namespace nv { static void fail(const char* f, ...); }
namespace mpisim {
static int P = 1, R0 = 0; static thread_local int R = -1;
static std::mutex mx; static std::condition_variable cv;
static long gen = 0, left_gen = 0, calls = 0; static int in = 0, left = 0, gone = 0, talking = 0; static int kind; static size_t num;
static std::vector<const void*> src; static std::vector<char> out;
static std::map<int, std::pair<const void*, size_t> > box;
static int me() { return R >= 0 ? R : R0; }
static void reset(int p) { P = p; in = left = gone = talking = 0; box.clear(); src.assign(p, nullptr); calls = 0; }
static void leave() { std::unique_lock<std::mutex> l(mx); gone++; if (in) nv::fail("a process finished while others wait for it in a collective operation"); cv.notify_all(); }
// every process brings n elements; the last one to arrive computes the outcome
template <typename F> static void all(int k, size_t n, const void* s, void* r, F f) {
    std::unique_lock<std::mutex> l(mx);
    if (gone) nv::fail("a process entered a collective operation after another one had finished");
    if (talking) nv::fail("a process entered a collective operation while another one, past it, sends or receives its result");
    if (in == 0) { kind = k; num = n; calls++; }
    else if (kind != k || num != n) nv::fail("processes entered different collective operations (%d with %zu elements, %d with %zu)", kind, num, k, n);
    src[me()] = s; long g = gen;
    if (++in == P) { f(); in = 0; gen++; cv.notify_all(); } else cv.wait(l, [&] { return gen != g; });
    memcpy(r, &out[0], out.size());
    long h = left_gen;                                  // nobody starts the next one before everybody has the outcome
    if (++left == P) { left = 0; left_gen++; cv.notify_all(); } else cv.wait(l, [&] { return left_gen != h; });
}
static void talk() { if (in) nv::fail("a process sends or receives its result while others wait for it in a collective operation"); talking++; }
template <typename T> static void sum(size_t n) { out.assign(n * sizeof(T), 0); T* o = (T*)&out[0]; for (int p = 0; p < P; p++) for (size_t i = 0; i < n; i++) o[i] += ((const T*)src[p])[i]; }
}
static int MPI_Init(int*, char***) { return 0; }
static int MPI_Finalize() { return 0; }
static int MPI_Comm_size(MPI_Comm, int* p) { *p = mpisim::P; return 0; }
static int MPI_Comm_rank(MPI_Comm, int* r) { *r = mpisim::me(); return 0; }
static int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) {
    mpisim::all(10 + t.k, n, s, r, [&] { if (t.k == 0) mpisim::sum<double>(n); else if (t.k == 1) mpisim::sum<unsigned long long>(n); else mpisim::sum<long long>(n); });
    return 0;
}
static int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, MPI_Comm) {
    mpisim::all(20, n, s, r, [&] { mpisim::out.resize(mpisim::P * n * t.w); for (int p = 0; p < mpisim::P; p++) memcpy(&mpisim::out[p * n * t.w], mpisim::src[p], n * t.w); });
    return 0;
}
static int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) {
    mpisim::all(30 + root * 100, n, b, b, [&] { mpisim::out.resize(n * t.w); memcpy(&mpisim::out[0], mpisim::src[root], n * t.w); });
    return 0;
}
static int MPI_Ssend(const void* s, int n, MPI_Datatype t, int, int, MPI_Comm) {
    using namespace mpisim; std::unique_lock<std::mutex> l(mx); int r = me(); talk(); box[r] = std::make_pair(s, n * t.w); cv.notify_all();
    cv.wait(l, [&] { return !box.count(r); }); talking--; return 0;
}
static int MPI_Recv(void* b, int n, MPI_Datatype t, int from, int, MPI_Comm, MPI_Status*) {
    using namespace mpisim; std::unique_lock<std::mutex> l(mx); talk();
    cv.wait(l, [&] { return box.count(from) != 0; });
    if (box[from].second != n * t.w) nv::fail("process %d sends %zu bytes, %zu are expected", from, box[from].second, n * t.w);
    memcpy(b, box[from].first, n * t.w); box.erase(from); talking--; cv.notify_all(); return 0;
}
