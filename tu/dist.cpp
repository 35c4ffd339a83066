// Distributed matrices: instantiations whose clang AST is the verified text.
#include <cassert>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
namespace sparsexx {
#define csr_t csr_matrix<double,int32_t,std::allocator<double>>
#define dist_t dist_sparse_matrix<csr_t>
template class csr_t;
template class dist_sparse_matrix<csr_t>;
inline void vc_use_dist(const csr_t& a, double* p, const std::vector<std::pair<int32_t,int32_t>>& rows, MPI_Comm c) {
  dist_t d0(c, 1, 1), d1(c, 1, 1, rows), d2(c, a), d3(c, a, rows), d4(d3);
  auto info = spblas::generate_spmv_comm_info(d4);
  spblas::pgespmv(1.0, d4, p, 0.0, p, info);
  info.communication_volume();
}
}
