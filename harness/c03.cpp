#include "sparse.hpp"
#include <sparsexx/spblas/spmbv.hpp>
using namespace hv;
template <class M> void go(const Mat& A, const M& B, const char* kind) {
  int64_t K = ri(0, 4), LDV = std::max<int64_t>(1, A.n + ri(0, 3)), LDAV = std::max<int64_t>(1, A.m + ri(0, 3));
  double al = ri(0, 3) ? rv() : 0., be = ri(0, 2) ? rv() : (double)ri(0, 1);
  std::vector<double> V(LDV * std::max<int64_t>(K, 1)), AV(LDAV * std::max<int64_t>(K, 1));
  for(auto& x : V) x = rv(); for(auto& x : AV) x = rv();
  auto ref = AV, V0 = V;
  for(int64_t k = 0; k < K; ++k) for(int64_t i = 0; i < A.m; ++i) ref[i + k * LDAV] *= be;
  for(int64_t k = 0; k < K; ++k) for(auto& e : A.e) ref[e.r + k * LDAV] += al * e.v * V[e.c + k * LDV];
  std::ostringstream o; o << kind << " block product K=" << K << " LDV=" << LDV << " LDAV=" << LDAV << " alpha=" << al << " beta=" << be << " " << show(A) << " V=" << show(V) << " AV=" << show(AV);
  begin_case(o.str(), !A.e.empty() && K > 0);
  sparsexx::spblas::gespmbv(K, al, B, V.data(), LDV, be, AV.data(), LDAV);
  check(V == V0, "input block was modified");
  check(AV == ref, "result " + show(AV) + " expected " + show(ref));
}
void hv::run_all() {
  for_mats([](const Mat& A) { go(A, mk_csr(A, ri(0, 1)), "CSR"); go(A, mk_coo(A, ri(0, 1)), "COO"); });
}
