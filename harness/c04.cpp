#include "sparse.hpp"
#include <sparsexx/util/submatrix.hpp>
using namespace hv;
static void expect(const csr& S, std::vector<Ent> ref, int64_t m, int64_t n, int idx, const std::string& w) {
  same_shape(S, m, n, idx, w);
  check(S.nnz() == (int64_t)ref.size(), w + ": stored entry count " + std::to_string(S.nnz()) + " expected " + std::to_string(ref.size()));
  check(ents_csr(S, w) == ref, w + ": entries differ (values, columns or order)");
}
static void windows(const Mat& A, int64_t rl, int64_t ru, int64_t cl, int64_t cu) {
  auto B = mk_csr(A);
  std::ostringstream o; o << "window rows [" << rl << "," << ru << ") columns [" << cl << "," << cu << ") of " << show(A);
  std::vector<Ent> in, ex;
  for(auto e : A.e) if(e.r >= rl && e.r < ru) {
    if(e.c >= cl && e.c < cu) in.push_back({e.r - rl, e.c - cl, e.v}); else ex.push_back({e.r - rl, e.c, e.v});
  }
  begin_case("extract_submatrix " + o.str(), !in.empty());
  expect(sparsexx::extract_submatrix(B, {rl, cl}, {ru, cu}), in, ru - rl, cu - cl, A.idx, "extract_submatrix");
  begin_case("extract_submatrix_inclrow_exclcol " + o.str(), !ex.empty());
  expect(sparsexx::extract_submatrix_inclrow_exclcol(B, {rl, cl}, {ru, cu}), ex, ru - rl, A.n, A.idx, "extract_submatrix_inclrow_exclcol");
}
void hv::run_all() {
  for_mats([](const Mat& A) {
    std::vector<Ent> up;
    for(auto& e : A.e) if(e.c >= e.r) up.push_back(e);
    begin_case("extract_upper_triangle " + show(A), !up.empty());
    expect(sparsexx::extract_upper_triangle(mk_csr(A)), up, A.m, A.n, A.idx, "extract_upper_triangle");
    if(A.m <= 2 && A.n <= 3) {
      for(int64_t a = 0; a <= A.m; ++a) for(int64_t b = a; b <= A.m; ++b) for(int64_t c = 0; c <= A.n; ++c) for(int64_t d = c; d <= A.n; ++d) windows(A, a, b, c, d);
    } else for(int k = 0; k < 6; ++k) {
      int64_t a = ri(0, A.m), b = ri(a, A.m), c = ri(0, A.n), d = ri(c, A.n);
      windows(A, a, b, c, d);
    }
  });
}
