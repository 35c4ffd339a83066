// Contribution merging and search constraints.
#include <macis/asci/determinant_sort.hpp>
#include <macis/asci/mask_constraints.hpp>
#include <macis/util/dist_quickselect.hpp>
namespace macis {
extern double vc_key(double);
struct vc_less { bool operator()(const double& a, const double& b) const { return vc_key(a) < vc_key(b); } };
struct vc_same { bool operator()(const double& a, const double& b) const { return vc_key(a) == vc_key(b); } };
template <size_t N> void vc_asci(std::vector<asci_contrib<std::bitset<N>>>& p, std::vector<std::bitset<N>>& d, std::vector<double>& c, std::bitset<N> a) {
  sort_and_accumulate_asci_pairs(p.begin(), p.end()); sort_and_accumulate_asci_pairs(p); keep_only_largest_copy_asci_pairs(p); reorder_ci_on_coeff(d, c);
  make_triplet<N>(2, 1, 0); make_quad<N>(3, 2, 1, 0); satisfies_constraint<N>(a, a, 0);
  generate_constraint_single_excitations<N>(a, a, a, a); generate_constraint_double_excitations<N>(a, a, a, a); generate_constraint_singles<N>(a, a, a, a, d); generate_constraint_doubles<N>(a, a, a, a, d);
  count_constraint_singles(a, a, a, a); count_constraint_doubles<N>(a, a, a, a); constraint_histogram<N>(a, 0, 0, a, a, a);
  dist_constraint_general<N>(1, 4, 1, 1, d, MPI_COMM_WORLD);
}
inline double vc_select(std::vector<double>& v, int k, std::vector<size_t>& g, std::vector<int>& h) {
  leg_partition(v.begin(), v.end(), v[0], vc_less{}, vc_same{});
  total_gather_and_exclusive_scan<size_t>(3, g, g, MPI_COMM_WORLD); total_gather_and_exclusive_scan<int>(3, h, h, MPI_COMM_WORLD);
  return dist_quickselect(v.begin(), v.end(), k, MPI_COMM_WORLD, vc_less{}, vc_same{});
}
inline void vc_use() {
  std::vector<asci_contrib<std::bitset<64>>> p; std::vector<std::bitset<64>> d; std::vector<double> c; vc_asci<64>(p, d, c, {});
  std::vector<asci_contrib<std::bitset<128>>> q; std::vector<std::bitset<128>> e; vc_asci<128>(q, e, c, {});
}
}
