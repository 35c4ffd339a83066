// Instantiations whose clang AST is the verified text.
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/graph.hpp>
namespace sparsexx {
using csr_t = csr_matrix<double,int32_t,std::allocator<double>>;
using csc_t = csc_matrix<double,int32_t,std::allocator<double>>;
using coo_t = coo_matrix<double,int32_t,std::allocator<double>>;
template class csr_matrix<double,int32_t,std::allocator<double>>;
template class csc_matrix<double,int32_t,std::allocator<double>>;
template class coo_matrix<double,int32_t,std::allocator<double>>;
inline void vc_use(csr_t& a, coo_t& o, double* p, std::vector<int32_t>& perm, int64_t n) {
  csr_t x1(o); csc_t x2(o); csr_t x3(x2); coo_t x4(a); csc_t x5(a);
  convert_to_dense(a, p, n); convert_to_dense(o, p, n);
  spblas::gespmbv(n, 1.0, a, p, n, 1.0, p, n);
  spblas::gespmbv(n, 1.0, o, p, n, 1.0, p, n);
  extract_submatrix(a, {0,0}, {1,1});
  extract_submatrix_inclrow_exclcol(a, {0,0}, {1,1});
  extract_upper_triangle(a); extract_diagonal_elements(a); trace(a);
  extract_adjacency(a, 0);
  perm_from_part(n, perm); invert_perm(perm);
  permute_vector(n, (const double*)p, perm.data(), p, PermuteDirection::Forward);
  permute_vector(n, p, perm.data(), PermuteDirection::Forward);
  permute_rows(a, perm); permute_cols(a, perm); permute_rows_cols(a, perm, perm);
}
}
