"""Which contracts decide which property."""
import importlib
DRIVERS = {"knor": ("drivers/knor.cpp", ("knor",)), "auto": ("drivers/auto.cpp", ("no",)), "automin": ("drivers/automin.cpp", ("no",)), "dist": ("drivers/dist.cpp", ("knor",))}
ALLMODS = ["k01", "k02", "k03", "k04", "k04a", "k05", "k05a", "k06", "k07", "k08", "k09", "k10", "k11", "k12", "k13", "k14", "k15", "k16", "k17", "k18", "k19", "k20", "k22"]
def of(m, *names):
    mod = importlib.import_module("spec." + m)
    return ["%s.%s" % (m, c.__name__) for c in mod.CONTRACTS if not names or c.__name__ in names]

TRUSTED = [
 "clang 18 front end (AST of the real sources, re-extracted on every run)",
 "the translation of AST to verification conditions in /verif/kv (exec.py, interp.py, calls.py, stmts.py)",
 "z3 (unsat verdicts)",
 "models of std::vector, std::string equality, std::fill/copy/accumulate/transform/..., math functions in kv/calls.py",
 "background axioms for products, reciprocals, square roots and bounded sums/minima in kv/sym.py and kv/prove.py",
]
ASSUMPTIONS = [
 "double arithmetic is treated as real arithmetic (no rounding, NaN or infinity); DBL_MAX is larger than every value compared with it where a contract says so",
 "integer additions and multiplications do not overflow upwards; unsigned subtraction that would wrap is modelled exactly",
 "distinct pointer/reference parameters do not alias each other",
 "memory allocation succeeds; pointers handed to a function are non-null unless the code tests them",
 "printing, logging and lock operations have no effect on the computed values",
]
PROPS = {
 "K01": dict(contracts=of("k01"), level="proof", native="k01.cpp", note=""),
 "K02": dict(contracts=of("k02"), level="proof", native="k02.cpp", note="get_rid_len_tup, get_thd_data and build_thread_state of all nine coordinators are proved for every number of rows, columns and threads; the copy of each worker's rows out of a file (numa_alloc_mem) is exercised natively only.",
      bounded=["that workers copy exactly their own rows out of the data file (numa_alloc_mem): random shapes up to 40 rows and 8 threads"]),
 "K03": dict(contracts=of("k03"), level="proof", native="k03.cpp", note="Each operation is proved for every queue state satisfying its invariant, so the statement holds for every history by induction. A thread that waits for work is woken under its lock; that the worker loop alternates processing and request_task is read off kmeans_task_thread::run and not proved."),
 "K07": dict(contracts=of("k07"), level="proof", native="k07.cpp", note="kmeans_coordinator::update_clusters and the pruned kmeans_task_coordinator::update_clusters are proved for every number of workers."),
 "K16": dict(contracts=of("k16"), level="proof", native="k16.cpp", note="One seeding pass of a worker (both libraries), the coordinator's total and the announcement of the seed are proved; random choice of the next seed is not part of the statement."),
 "K04": dict(contracts=of("k04") + of("k04a"), level="proof", native="k04.cpp", note="The thread-pool passes (kmeans_thread::EM_step; kmeans_task_thread::EM_step with prune_init) and the OpenMP pass of libauto/kmeans.cpp (assignment, change count, per-thread accumulation, aggregation and the new centroids) are proved.",
      bounded=["whole runs of kmeans_coordinator and knor::omp::compute_kmeans: random generic data, up to 61 rows, 6 clusters, 5 threads, 8 iterations, compared with an independent Lloyd reference"]),
 "K05": dict(contracts=of("k05", "TaskEMPruned") + of("k04", "TaskEMInit") + of("k08", "ComputeDist") + of("k05a"), level="proof", native="k05.cpp", note="The pruned pass (kmeans_task_thread::EM_step, prune_init false), the initial pass that establishes its invariant, both passes of the OpenMP library (libauto/min-tri-kmeans.cpp EM_step, for each value of prune_init) and dist_matrix::compute_dist are proved.",
      bounded=["whole pruned runs of kmeans_task_coordinator and knor::omp::compute_min_kmeans (invariant carried from pass to pass): random generic data, up to 61 rows, 6 clusters, 5 threads, 8 iterations, compared with an independent Lloyd reference"]),
 "K06": dict(contracts=of("k06"), level="proof", native="k06.cpp", note=""),
 "K08": dict(contracts=of("k08"), level="proof", native="k08.cpp", note=""),
 "K11": dict(contracts=of("k11"), level="proof", native="k11.cpp", note=""),
 "K12": dict(contracts=of("k12"), level="proof", native="k12.cpp", note=""),
 "K13": dict(contracts=of("k13"), level="proof", native="k13.cpp", note="vmap<unsigned> instantiation; the element type is only compared with the empty value and copied"),
 "K09": dict(contracts=of("k09"), level="proof", native="k09.cpp", note="dense_matrix<double> (the instantiation the library uses). operator-(vector) asserts a square matrix, and is proved for that; as_pointer/as_vector/set_nrow/set_ncol are accessors handled by inlining."),
 "K10": dict(contracts=of("k10"), level="proof", native="k10.cpp", note="double instantiations. Determinant, adjoint and inverse are proved for every size against the cofactor definition (a matrix is named by an uninterpreted code, its elements, minors and determinant are functions of the code); that adjoint over determinant is the inverse is the textbook theorem, replayed natively up to 6 x 6."),
 "K19": dict(contracts=of("k19")+of("k06","ScaleCentroid"), level="proof", native="k19.cpp", note="mb_EM_step, mb_finalize_centroids, mb_iteration_end and scale_centroid; the random draws are arbitrary; whole mini-batch runs are replayed natively",
      bounded=["the driver kmeans_task_coordinator::mb_run: random data up to 21 rows, 5 clusters, 4 threads, 4 iterations, against a reference with the same draws"]),
 "K20": dict(contracts=of("k20"), level="proof", native="k20.cpp", note="Assignment, member lists, totals, proposals and the choice are proved for all inputs; a row is examined when a uniform draw in [0,1) does not exceed the sampling rate (draws arbitrary). The iteration driver run() is replayed natively against a reference k-medoids.",
      bounded=["the driver medoid_coordinator::run: random data up to 22 rows, 4 clusters, 4 threads, 4 iterations, against a reference k-medoids"]),
 "K17": dict(contracts=of("k17") + of("k09", "DivEq", "DivEqPow", "SumAxis", "PlusMat", "PlusEq", "CopyFrom"), level="proof", native="k17.cpp", assumptions=["a positive real to any power is positive"], note="Memberships, weighted sums, scaling and centres are proved; the iteration driver run() is replayed natively against a reference fuzzy c-means.",
      bounded=["the iteration driver fcm_coordinator::run: random data up to 18 rows, 4 clusters, 4 threads, 4 iterations, against a reference fuzzy c-means"]),
 "K18": dict(contracts=of("k18"), level="proof", native="k18.cpp", note="The phases of the scaling, the spherical projection and the centroid step are proved; the driver run(), which orders the phases, is replayed natively against a reference.",
      bounded=["the driver skmeans_coordinator::run, which orders the phases: random data up to 18 rows, 4 clusters, 4 threads, 5 iterations, against a reference"]),
 "K15": dict(contracts=of("k15"), level="proof", native="k15.cpp", assumptions=["MPI_Comm_size and MPI_Comm_rank store the number of processes (at least 1) and this process's number (below it); MPI_Init reports failure by its result"],
      note="init, global_rid, local_rid, is_local of both distributed coordinators and the shift of the workers' rows are proved for every number of rows and processes; that blocks cover all rows without overlap is a lemma over the contracts.",
      bounded=["the constructors (workers' first rows, the rows each process reads from the file): up to 49 rows, 9 simulated processes, 3 threads"]),
 "K22": dict(contracts=of("k22"), level="other", native="k22.cpp", assumptions=["MPI collectives deliver what they promise (each process is a thread of the harness, messages are exchanged by a stand-in for MPI)"],
      note="Bounded claim. What a process contributes to the reduction (pp_aggregate of both distributed coordinators: the sums over its own workers, kept previous centroids and counts) is proved; the iteration in run(), where the contributions are reduced over the processes, is outside the contracts and only checked boundedly by running all processes against each other and a single-process reference.",
      bounded=["run() of both distributed coordinators (reductions, initialisation, stopping, gathering of the result): up to 53 rows, 5 clusters, 4 simulated processes, 3 threads, 6 iterations"]),
 "K14": dict(contracts=of("k14"), level="proof", native="k14.cpp", note="Both constructors, set_computed, the renumbering of sparse ids and the comparisons are proved.",
      bounded=["that the drivers (run) of k-means, pruned, scaled and fuzzy k-means, k-medoids, hierarchical clustering and x-means hand the final state to the constructor, and that the state of the hierarchical ones meets its precondition: random data up to 33 rows, 6 clusters, 4 threads, 5 iterations"]),
}
NA = {
 "K21": "interleavings of threads over mutexes and condition variables: the contracts here are sequential (pre-state to post-state of one call) and no installed deductive verifier covers this C++ concurrency; the three wake-up/shutdown defects recorded in known_findings.txt were found by reading",
 "K23": "the descent of the objective follows from K04/K05 (assignment minimises) and K07 (centroid is the mean) by the textbook Lloyd argument over exact sums; under floating point the literal statement can fail by rounding, and the functions carry no further obligation of their own",
}
