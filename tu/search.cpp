// The search over determinants and the iteration around it.
#include <macis/asci/refine.hpp>
#include <macis/asci/grow.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
namespace macis {
template <size_t N> void vc_search(HamiltonianGenerator<N>& h, const double* p, std::vector<std::bitset<N>>& d, const std::vector<double>& x) {
  asci_iter<N, int32_t>(ASCISettings{}, MCSCFSettings{}, 1, 0., d, x, h, 1, MPI_COMM_WORLD); asci_grow<N, int32_t>(ASCISettings{}, MCSCFSettings{}, 0., d, x, h, 1, MPI_COMM_WORLD); asci_refine<N, int32_t>(ASCISettings{}, MCSCFSettings{}, 0., d, x, h, 1, MPI_COMM_WORLD);
  asci_search<N>(ASCISettings{}, 1, d.begin(), d.end(), 0., x, 1, p, p, p, p, p, h, MPI_COMM_WORLD);
}
inline void vc_use(matrix_span<double> T, rank4_span<double> V) {
  std::vector<std::bitset<64>> d; std::vector<std::bitset<128>> e; std::vector<double> x;
  DoubleLoopHamiltonianGenerator<64> h(T, V); DoubleLoopHamiltonianGenerator<128> k(T, V);
  vc_search<64>(h, nullptr, d, x); vc_search<128>(k, nullptr, e, x);
}
}
