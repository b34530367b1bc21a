// the OpenMP library's pruned k-means with the sources it calls; contains no code of its own
#include "util.cpp"
#include "types.cpp"
#include "clusters.cpp"
#include "dist_matrix.cpp"
#include "thd_safe_bool_vector.cpp"
#include "kmeans.hpp"
#include "min-tri-kmeans.cpp"
