// the distributed coordinators with the sources they call; contains no code of its own
#include "util.cpp"
#include "types.cpp"
#include "clusters.cpp"
#include "dist_matrix.cpp"
#include "thd_safe_bool_vector.cpp"
#include "coordinator.cpp"
#include "kmeans_coordinator.cpp"
#include "kmeans_task_coordinator.cpp"
#include "kmeans_task_thread.cpp"
#include "kmeans_thread.cpp"
#include "task_thread.cpp"
#include "thread.cpp"
#include "prune_stats.cpp"
#include "dist_coordinator.cpp"
#include "dist_task_coordinator.cpp"
