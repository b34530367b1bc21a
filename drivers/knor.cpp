// one translation unit over the real sources; contains no code of its own beyond explicit instantiations
#include "util.cpp"
#include "types.cpp"
#include "clusters.cpp"
#include "dist_matrix.cpp"
#include "thd_safe_bool_vector.cpp"
#include "hclust_compactor.hpp"
#include "linalg.hpp"
#include "dense_matrix.hpp"
#include "coordinator.cpp"
#include "fcm.cpp"
#include "fcm_coordinator.cpp"
#include "gmeans.cpp"
#include "gmeans_coordinator.cpp"
#include "gmm.cpp"
#include "gmm_coordinator.cpp"
#include "hclust.cpp"
#include "hclust_coordinator.cpp"
#include "kmeans_coordinator.cpp"
#include "kmeans_task_coordinator.cpp"
#include "kmeans_task_thread.cpp"
#include "kmeans_thread.cpp"
#include "medoid.cpp"
#include "medoid_coordinator.cpp"
#include "skmeans.cpp"
#include "skmeans_coordinator.cpp"
#include "task_thread.cpp"
#include "thread.cpp"
#include "xmeans.cpp"
#include "xmeans_coordinator.cpp"
#include "prune_stats.cpp"
template class knor::base::dense_matrix<double>;
namespace knor { namespace base {
template const double eucl_dist<double>(const double*, const double*, const unsigned);
template const double sqeucl_dist<double>(const double*, const double*, const unsigned);
template const double taxi_dist<double>(const double*, const double*, const unsigned);
template const double cos_dist<double>(const double*, const double*, const unsigned);
template double dist_comp_raw<double>(const double*, const double*, const unsigned, dist_t);
template bool eq_all<double>(const double*, const double*, const unsigned);
template bool v_eq<std::vector<double> >(const std::vector<double>&, const std::vector<double>&);
} }
namespace knor { namespace base {
template void clusters::remove_member<double>(const double*, const unsigned);
template void clusters::swap_membership<double>(const double*, const unsigned, const unsigned);
} }
namespace knor { namespace base {
template vmap<unsigned>::vmap();
template vmap<unsigned>::vmap(const size_t, const unsigned);
template void vmap<unsigned>::set_capacity(const size_t);
template const size_t vmap<unsigned>::size() const;
template void vmap<unsigned>::erase(size_t);
template unsigned& vmap<unsigned>::operator[](const size_t);
template const unsigned& vmap<unsigned>::operator[](const size_t) const;
template unsigned& vmap<unsigned>::at(const size_t);
template vmap_iterator<unsigned> vmap<unsigned>::get_iterator();
template void vmap<unsigned>::clear();
template const bool vmap<unsigned>::empty() const;
template const bool vmap<unsigned>::has_key(const size_t) const;
template void vmap<unsigned>::get_keys(std::vector<size_t>&);
template const size_t vmap<unsigned>::keycount();
template const bool vmap<unsigned>::keyless() const;
template class vmap_iterator<unsigned>;
} }
namespace knor { namespace base {
template void linalg::peq<double>(double*, const double*, const size_t);
template double linalg::frobenius_norm<double>(const double*, const size_t);
template double linalg::dot<double>(const double*, const double*, const size_t);
template double linalg::dot<double>(std::vector<double>&, std::vector<double>&);
} }
