// the OpenMP library's exhaustive k-means with the sources it calls; contains no code of its own
#include "util.cpp"
#include "types.cpp"
#include "clusters.cpp"
#include "kmeans.hpp"
#include "kmeans.cpp"
