#include "sparse.hpp"
#include <sparsexx/matrix_types/dense_conversions.hpp>
using namespace hv;
template <class M> void go(const Mat& A, const M& B, const char* kind) {
  int64_t LD = std::max<int64_t>(1, A.m + ri(0, 3));
  std::vector<double> D(LD * std::max<int64_t>(1, A.n), -777.);
  for(auto& x : D) x = -700. - (double)ri(0, 50);
  auto ref = D;
  for(auto& e : A.e) ref[e.r + e.c * LD] = e.v;
  std::ostringstream o; o << "dense expansion of " << kind << " LD=" << LD << " " << show(A);
  begin_case(o.str(), !A.e.empty());
  sparsexx::convert_to_dense(B, D.data(), LD);
  check(D == ref, "buffer " + show(D) + " expected " + show(ref));
  if(A.m > 0) {
    begin_case(o.str() + " with leading dimension " + std::to_string(A.m - 1));
    auto D2 = D;
    check(throws([&] { sparsexx::convert_to_dense(B, D2.data(), A.m - 1); }), "a leading dimension smaller than the row count was accepted");
    check(D2 == D, "buffer written although the leading dimension was rejected");
  }
}
void hv::run_all() {
  for_mats([](const Mat& A) { go(A, mk_csr(A, ri(0, 1)), "CSR"); go(A, mk_coo(A, ri(0, 1)), "COO"); });
}
