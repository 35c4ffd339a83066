// Search contributions and their scores.
#include <macis/asci/determinant_search.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
namespace macis {
template <size_t N> void vc_score(HamiltonianGenerator<N>& h, std::bitset<N> s, std::bitset<N / 2> a, const std::vector<uint32_t>& o, const double* p, asci_contrib_container<std::bitset<N>>& c, std::vector<std::bitset<N>>& d, const std::vector<double>& x) {
  append_singles_asci_contributions<N / 2, 0>(1., s, a, o, o, o, p, p, 1, p, 1, p, 1, 0., 0., 0., h, c); append_singles_asci_contributions<N / 2, N / 2>(1., s, a, o, o, o, p, p, 1, p, 1, p, 1, 0., 0., 0., h, c);
  append_ss_doubles_asci_contributions<N / 2, 0>(1., s, a, o, o, o, p, p, 1, 0., 0., 0., h, c); append_ss_doubles_asci_contributions<N / 2, N / 2>(1., s, a, o, o, o, p, p, 1, 0., 0., 0., h, c);
  append_os_doubles_asci_contributions<N / 2>(1., s, a, a, o, o, o, o, p, p, p, 1, 0., 0., 0., h, c);
  generate_constraint_singles_contributions_ss<N>(1., s, s, s, s, s, o, o, p, p, 1, p, 1, p, 1, 0., 0., 0., h, c);
  generate_constraint_doubles_contributions_ss<N>(1., s, s, s, s, s, o, o, p, p, 1, 0., 0., 0., h, c);
  generate_constraint_doubles_contributions_os<N>(1., s, s, s, s, s, o, o, o, p, p, p, 1, 0., 0., 0., h, c);
  asci_contributions_standard<N>(ASCISettings{}, d.begin(), d.end(), 0., x, 1, p, p, p, p, p, h);
  asci_contributions_constraint<N>(ASCISettings{}, d.begin(), d.end(), 0., x, 1, p, p, p, p, p, h, MPI_COMM_WORLD);
}
inline void vc_use(matrix_span<double> T, rank4_span<double> V, const std::vector<uint32_t>& o) {
  std::vector<std::bitset<64>> d; std::vector<std::bitset<128>> e; std::vector<double> x; asci_contrib_container<std::bitset<64>> c; asci_contrib_container<std::bitset<128>> g;
  DoubleLoopHamiltonianGenerator<64> h(T, V); DoubleLoopHamiltonianGenerator<128> k(T, V);
  vc_score<64>(h, {}, {}, o, nullptr, c, d, x); vc_score<128>(k, {}, {}, o, nullptr, g, e, x);
}
}
