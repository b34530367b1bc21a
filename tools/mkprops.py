#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))

p("K01", "Dissimilarity measures compute what they are named after",
  "For any two equal-length vectors of any length, the Euclidean, squared-Euclidean, Manhattan and cosine measures return exactly the mathematical quantity of that name over all coordinates, the measure selected by the user's distance option is the one that is evaluated, and an unknown selection is rejected. None of them writes to, or reads outside, the two vectors.",
  ["inputs"], "all vector contents, all lengths including 0 and 1, all distance selections",
  "Unit tests evaluate a couple of fixed vectors; a slip at one coordinate position, for negative differences or for one metric is invisible to them and every clustering result depends on it.",
  ["libkcommon/util.hpp", "libkcommon/util.cpp"],
  [("eucl_dist/sqeucl_dist/taxi_dist/cos_dist", "libkcommon/util.hpp"), ("dist_comp_raw dispatch", "libkcommon/util.hpp"), ("get_dist_type", "libkcommon/util.cpp")])

p("K02", "Rows are partitioned exactly among worker threads",
  "For every number of rows, columns and worker threads with at least one row per worker, the row ranges handed to the workers are contiguous, disjoint and together cover every input row exactly once, whether the row count divides evenly or not. A worker's local row is the global row at its range start plus the local index, and looking up a row by its global id through the workers reaches exactly that row's coordinates.",
  ["inputs", "configurations"], "all (rows, columns, threads) with threads <= rows, all rows",
  "Tests use a few datasets with fixed thread counts; off-by-one errors on the remainder rows show only for particular divisibility and only on particular rows.",
  ["libman/coordinator.cpp", "libman/thread.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp"],
  [("get_rid_len_tup", "libman/coordinator.cpp"), ("thd_max_row_idx / get_thd_data", "libman/kmeans_coordinator.cpp, libman/coordinator.cpp"), ("set_local_data_ptr, get_global_data_id", "libman/thread.cpp")])

p("K03", "The task queue hands out every local row exactly once per pass",
  "Between two resets of a worker's task queue, the tasks handed out are consecutive, non-overlapping blocks that start at the queue's first row, carry the matching data pointer and global row id, and together cover all of its rows exactly once; the queue reports work available exactly until the last row has been handed out. Resetting makes the full set of rows available again.",
  ["inputs", "histories"], "all row counts (including below, at and just above the block size), all column counts, all sequences of take and reset",
  "The unit test drives a handful of sizes; the block-boundary cases (rows = multiple of the block size, one more, one less) are where rows would be lost or repeated.",
  ["libman/task_queue.hpp", "libman/task_thread.cpp"],
  [("task_queue::get_task/reset/has_task", "libman/task_queue.hpp"), ("task_thread::request_task, get_global_data_id", "libman/task_thread.cpp")])

p("K04", "The exhaustive assignment step picks the nearest centroid for every row",
  "After an unpruned assignment pass over a worker's rows (thread-pool library and sequential/OpenMP library), every processed row is assigned to a centroid whose distance, in the dissimilarity the run was created with, is minimal among all centroids, rows of other workers are untouched, and the reported number of changes equals the number of rows whose assignment differs from before the pass (the first pass of the pruned library counts every row as changed). The accumulated per-cluster sums and counts equal the sum and number of the rows assigned to each cluster.",
  ["inputs"], "all data, all centroids, all k >= 1, all row counts, all previous assignments",
  "End-to-end tests compare final clusterings on tiny files, which many wrong assignment passes still reach.",
  ["libman/kmeans_thread.cpp", "libauto/kmeans.cpp", "libman/kmeans_task_thread.cpp"],
  [("kmeans_thread::EM_step", "libman/kmeans_thread.cpp"), ("EM_step", "libauto/kmeans.cpp"), ("kmeans_task_thread::EM_step (initial pass)", "libman/kmeans_task_thread.cpp")])

p("K05", "Triangle-inequality pruning never changes the result",
  "When the stored upper bounds, centroid-to-centroid half-distances and per-centroid minimum half-distances are valid for Euclidean distance, the pruned assignment pass of the thread-pool library leaves every row assigned to a centroid at minimal distance, exactly as an exhaustive search would. It leaves the stored bound of every row at least the distance to its assigned centroid, and adjusts the running cluster sums and counts by exactly the rows that moved.",
  ["inputs", "histories"], "all data, centroids, bounds satisfying the invariant, k >= 2, every iteration history",
  "Whether a skipped comparison was safe depends on the geometry of each row; a test sees only the few rows of its datasets.",
  ["libman/kmeans_task_thread.cpp", "libkcommon/dist_matrix.cpp", "libman/kmeans_task_coordinator.cpp", "libauto/min-tri-kmeans.cpp"],
  [("kmeans_task_thread::EM_step", "libman/kmeans_task_thread.cpp"), ("dist_matrix::compute_dist", "libkcommon/dist_matrix.cpp"), ("kmeans_task_coordinator::update_clusters (centroid drift)", "libman/kmeans_task_coordinator.cpp")])

p("K06", "Cluster accumulators obey exact sum/count algebra",
  "Adding, removing or moving a member changes exactly the named clusters' coordinate sums by that member's coordinates and their counts by one, merging two accumulators adds sums and counts element by element, and nothing else changes. Finalising a cluster divides its sums by its count once (no effect if already finalised or fewer than two members), unfinalising restores the sums, and clearing zeroes everything.",
  ["inputs", "histories"], "all k, dimensions, members, cluster ids and operation sequences",
  "Unit tests exercise a fixed 4-cluster example; index arithmetic and completeness-flag errors need other shapes, ids or operation orders.",
  ["libkcommon/clusters.cpp", "libkcommon/clusters.hpp"],
  [("add_member/remove_member/swap_membership", "libkcommon/clusters.hpp"), ("peq/+=/means_peq/num_members_v_peq", "libkcommon/clusters.cpp"), ("finalize/unfinalize/clear/set_mean/scale_centroid", "libkcommon/clusters.cpp"), ("sparse_clusters growth", "libkcommon/clusters.cpp")])

p("K07", "The update step makes each centroid the mean of its members",
  "After the update step of the thread-pool k-means, every centroid equals the sum of all workers' accumulated members divided by their total count (the zero vector for an empty cluster), every cluster count is the sum of the workers' counts, and the change counter grows by the sum of the workers' change counts. In the pruned variant the running sums are restored before merging, and the recorded centroid drift is the Euclidean distance between the new and the immediately preceding centroid.",
  ["inputs", "configurations"], "all worker counts, k, dimensions, local accumulators",
  "End-to-end tests use a few fixed thread counts and data sets and compare only final output.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libkcommon/clusters.cpp"],
  [("kmeans_coordinator::update_clusters", "libman/kmeans_coordinator.cpp"), ("kmeans_task_coordinator::update_clusters", "libman/kmeans_task_coordinator.cpp")])

p("K08", "The pairwise distance matrix is a faithful symmetric map",
  "For every size of at least two, a value stored for an unordered pair of distinct ids is what any later lookup of that pair in either order returns until that pair is stored again, storing one pair never alters another pair, and all accesses stay inside the allocated triangle. After recomputation from a set of centroids every pair holds half the Euclidean distance between them and each centroid's separation value is the minimum over its pairs.",
  ["inputs", "histories"], "all sizes >= 2, all pairs, all centroid sets",
  "The triangular index translation is tested on one small matrix.",
  ["libkcommon/dist_matrix.cpp", "libkcommon/dist_matrix.hpp"],
  [("translate/get/set/pw_get", "libkcommon/dist_matrix.cpp"), ("compute_dist, get_min_dist, compute_pairwise_dist", "libkcommon/dist_matrix.cpp")])

p("K09", "Dense matrix operations match matrix algebra",
  "For every shape, the dense matrix type's element access, row assignment, copy, addition, subtraction, product, scaling, axis sums and means, element powers, norm, equality and arg-max return exactly what matrix algebra defines for a row-major matrix, without touching other elements. Operands are left unchanged by the operations that return a new matrix.",
  ["inputs"], "all shapes including rectangular ones, all contents including negative values",
  "Unit tests use small square or positive matrices, where swapped strides and wrong start values coincide with the right answer.",
  ["libkcommon/dense_matrix.hpp"],
  [("dense_matrix", "libkcommon/dense_matrix.hpp")])

p("K10", "Vector and matrix helper routines match their definitions",
  "The linear-algebra helpers return the mathematical result for every input: element-wise add and difference, scaling by a factor, vector-matrix product, dot product, Frobenius norm, element powers, and standardisation to zero mean and unit deviation. The determinant, adjoint and inverse satisfy the cofactor definition, so a matrix times its computed inverse is the identity whenever it is not singular.",
  ["inputs"], "all sizes, all contents",
  "The unit test prints a determinant and an inverse without checking them and standardises four integers.",
  ["libkcommon/linalg.hpp"],
  [("linalg", "libkcommon/linalg.hpp")])

p("K11", "The flag vector behaves as a vector of booleans",
  "For every size, a flag reads back the value most recently written to it, writing one flag never changes another, a resize keeps existing flags and gives every new flag the requested initial value, and writing beyond the end through the growing setter extends the vector so that the write takes effect.",
  ["inputs", "histories"], "all sizes, indices and operation sequences",
  "The unit test flips a fixed set of flags on one size.",
  ["libkcommon/thd_safe_bool_vector.cpp", "libkcommon/thd_safe_bool_vector.hpp"],
  [("thd_safe_bool_vector", "libkcommon/thd_safe_bool_vector.cpp")])

p("K12", "Hierarchical split ids are unique among live clusters",
  "At every point of any history of splits and reclaims (each live id reclaimed at most once), the two ids given to a split are different from each other and from every id currently in use, and reclaimed ids are reused before new ones are created.",
  ["histories"], "all sequences of split and reclaim",
  "The unit test runs one scripted sequence.",
  ["libman/hclust_id_generator.hpp"],
  [("get_split_ids/reclaim_id", "libman/hclust_id_generator.hpp")])

p("K13", "The vector-backed map behaves as a map",
  "For every history of inserts, erases and clears, membership tests, key listings, key counts and lookups of the vector-backed map agree with an ordinary map from the present keys to their values, and iterating visits every present key exactly once in increasing order with its value.",
  ["inputs", "histories"], "all capacities, keys and operation sequences",
  "Unit tests insert a few dense keys; empty maps, gaps and the last slot are where it can go wrong.",
  ["libkcommon/types.hpp"],
  [("vmap, vmap_iterator", "libkcommon/types.hpp")])

p("K14", "Returned results faithfully package the computed state",
  "The result object returned to the user carries exactly the computed assignments, per-cluster counts and centroids, for every number of rows, columns and clusters. When cluster ids are sparse (hierarchical methods), they are renumbered 0..m-1 preserving order, with assignments, counts and centroids renumbered consistently; a cluster without rows is not part of such a result. Two results (and two vectors or cluster sets) compare equal exactly when all their elements agree.",
  ["inputs"], "all shapes, all id sets with non-negative counts",
  "Tests look at a few fixed results; gaps in the id space are rarely present.",
  ["libkcommon/types.cpp", "libkcommon/hclust_compactor.hpp"],
  [("cluster_t constructors, set_computed", "libkcommon/types.cpp"), ("compactor::remap", "libkcommon/hclust_compactor.hpp")])

p("K15", "Distributed processes own disjoint, covering row blocks",
  "For every number of rows and processes, with at least as many rows as processes, the row blocks owned by the processes of the distributed library are contiguous, disjoint and cover all rows, and translating between local and global row ids on the owning process is a bijection. A row is reported local to exactly one process, and asking for the local id of another process's row is refused.",
  ["inputs", "configurations"], "all (rows, processes, ranks, row ids)",
  "Tests run one process count on one file.",
  ["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  [("init, global_rid, local_rid, is_local, shift_thread_start_rid", "libdist/dist_coordinator.cpp, libdist/dist_task_coordinator.cpp")])

p("K16", "k-means++ seeding keeps each row's distance to its nearest seed",
  "After each seeding pass, every row's recorded distance is the minimum of its previous value and its distance to the newest seed, the recorded owner changes to the newest seed exactly when it is strictly closer, and the worker's cumulative distance grows by exactly the sum of the recorded distances of its rows.",
  ["inputs", "histories"], "all data, seeds, row counts and previous distances",
  "Seeding is randomised and tests only look at final clusterings.",
  ["libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp"],
  [("kmspp_dist", "libman/kmeans_thread.cpp, libman/kmeans_task_thread.cpp")])

p("K17", "Fuzzy c-means memberships and centroids follow their definition",
  "For every worker range, the membership pass of fuzzy c-means computes, for the worker's own rows only, positive memberships equal to the inverse distance (in the dissimilarity the run was created with; a row lying on a centre counts as a tiny distance) to the power 1/(fuzziness-1). The memberships of a row are then scaled to sum to one over the clusters and raised to the fuzziness, and every centre becomes the mean of all rows weighted by these values.",
  ["inputs"], "all data, centroids, k and worker ranges, all integer fuzziness values above 1",
  "Tests check only that a run finishes on one data set.",
  ["libman/fcm.cpp", "libman/fcm_coordinator.cpp"],
  [("fcm::Estep/Mstep", "libman/fcm.cpp"), ("fcm_coordinator::update_contribution_matrix/update_centers", "libman/fcm_coordinator.cpp")])

p("K18", "Scaled k-means scales every feature by its extremes over all rows",
  "Scaled k-means replaces every value x of a feature by (x - min)/(max - min), where min and max are the smallest and the largest value of that feature over all rows of all workers, and by zero where min and max are equal; every worker changes only its own rows, measures with the selected dissimilarity, and the centroid step makes every centroid the mean of its rows. The spherical projection divides every row by its own Euclidean norm.",
  ["inputs", "configurations"], "all data (features that are constant, never positive or never negative included), row ranges, numbers of workers; projection: rows that are not zero",
  "Tests check only that a run finishes on one data set.",
  ["libman/skmeans.cpp", "libman/skmeans_coordinator.cpp", "libkcommon/util.cpp"],
  [("skmeans::feature_bounds_reduction / feature_normalize", "libman/skmeans.cpp"), ("skmeans_coordinator::bounds_reduction / update_clusters", "libman/skmeans_coordinator.cpp"), ("spherical_projection", "libkcommon/util.cpp")])

p("K19", "Mini-batch steps move centroids by the stated convex combination",
  "A mini-batch assignment pass assigns each sampled row to a centroid no farther than its recorded distance and leaves unsampled rows untouched, and the centroid step moves exactly the assigned centroid of each sampled row to (1-eta) times itself plus eta times the row, with the rate of that centroid, then empties the sample.",
  ["inputs", "histories"], "all data, sampling outcomes, rates",
  "Sampling is random and end-to-end tests check only completion.",
  ["libman/kmeans_task_thread.cpp", "libkcommon/clusters.cpp"],
  [("mb_EM_step/mb_finalize_centroids", "libman/kmeans_task_thread.cpp"), ("scale_centroid", "libkcommon/clusters.cpp")])

p("K20", "k-medoids assignment and medoid choice minimise within-cluster cost",
  "The k-medoids assignment pass assigns every row to a medoid at minimal distance, in the dissimilarity the run was created with, and a worker's medoid step proposes for each cluster a member of that cluster whose total distance to the members is no larger than that of any candidate it examined. A cluster takes the cheapest proposal of all workers exactly when it costs less than the current medoid, and counts, costs and change counter are totals over all rows.",
  ["inputs"], "all pairwise distances, all memberships",
  "Tests check only that a run finishes on one data set.",
  ["libman/medoid.cpp", "libman/medoid_coordinator.cpp"],
  [("medoid::EM_step / medoid_step", "libman/medoid.cpp"), ("medoid_coordinator::choose_global_medoids", "libman/medoid_coordinator.cpp")])

p("K21", "Worker threads and coordinator never lose a wake-up",
  "Whatever the interleaving of worker threads with the coordinating thread, every dispatched step is executed exactly once by every worker and the coordinator resumes after the last worker finishes, without deadlock and without data races on assignments, bounds or accumulators.",
  ["schedules"], "all thread interleavings",
  "Tests run whatever schedules the OS happens to produce.",
  ["libman/thread.cpp", "libman/coordinator.cpp", "libman/task_thread.cpp"],
  [("sleep/wake/wait4complete/request_task", "libman/thread.cpp, libman/task_thread.cpp, libman/coordinator.cpp")])

p("K22", "Distributed reduction makes all processes agree",
  "After every distributed iteration all processes hold identical centroids, counts and change counters, equal (up to rounding) to those a single-process run from the same centroids over the union of the rows would hold; all processes stop after the same iteration.",
  ["configurations", "schedules"], "all process counts, all message timings",
  "Tests run one process count.",
  ["libdist/dist_coordinator.cpp", "libdist/mpi.hpp"],
  [("pp_aggregate, mpi reductions", "libdist/dist_coordinator.cpp")])

p("K23", "Lloyd iterations never increase the objective",
  "Over the iterations of any k-means variant the total within-cluster distance never increases and the loop stops when no assignment changes or the iteration cap is reached.",
  ["inputs", "histories"], "all data sets and iteration histories",
  "Tests observe a few runs.",
  ["libman/kmeans_coordinator.cpp"],
  [("run", "libman/kmeans_coordinator.cpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
