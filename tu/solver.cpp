// The Davidson solvers and the selected-CI diagonalisation around them.
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
namespace macis {
using vc_csr = sparsexx::csr_matrix<double, int32_t>;
inline void vc_use(const vc_csr& A, std::vector<double>& x) {
  diagonal_guess(1, A, x.data()); SparseMatrixOperator<vc_csr> op(A); davidson(1, 1, op, x.data(), 0., x.data()); serial_selected_ci_diag(A, 1, 0., x);
}
template <size_t N> void vc_diag(HamiltonianGenerator<N>& h, std::vector<std::bitset<N>>& d, std::vector<double>& x) { selected_ci_diag<N, int32_t>(d.begin(), d.end(), h, 0., 1, 0., x, MPI_COMM_WORLD); }
template void vc_diag<64>(HamiltonianGenerator<64>&, std::vector<std::bitset<64>>&, std::vector<double>&); template void vc_diag<128>(HamiltonianGenerator<128>&, std::vector<std::bitset<128>>&, std::vector<double>&);
}
