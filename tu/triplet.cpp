// Instantiations whose clang AST is the verified text.
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
namespace sparsexx {
using csr_t = csr_matrix<double,int32_t,std::allocator<double>>;
using coo_t = coo_matrix<double,int32_t,std::allocator<double>>;
template class csr_matrix<double,int32_t,std::allocator<double>>;
template class coo_matrix<double,int32_t,std::allocator<double>>;
inline void vc_use(csr_t& a, coo_t& o, std::string s) {
  write_binary_triplet(a, s); write_binary_triplet(o, s);
  o = read_binary_triplet<coo_t>(s); a = read_binary_triplet<csr_t>(s); csr_t x(o);
}
}
