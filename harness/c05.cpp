#include "sparse.hpp"
#include <sparsexx/util/submatrix.hpp>
using namespace hv;
void hv::run_all() {
  for_mats([](const Mat& A) {
    bool sh = ri(0, 1);
    csr B = mk_csr(A, sh);
    begin_case("diagonal/trace of CSR " + show(A) + " colind=" + show(B.colind()), !A.e.empty());
    if(A.m == 0) return;
    std::vector<double> ref(A.m, 0.); double tr = 0;
    for(auto& e : A.e) if(e.r == e.c) { ref[e.r] = e.v; tr += e.v; }
    auto D = sparsexx::extract_diagonal_elements(B);
    check(D == ref, "extract_diagonal_elements returned " + show(D) + " expected " + show(ref));
    double t = sparsexx::trace(B);
    check(t == tr, "trace returned " + std::to_string(t) + " expected " + std::to_string(tr));
  });
}
