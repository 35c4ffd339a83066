#include "orb.hpp"
#include <macis/util/transform.hpp>
using namespace hv; using namespace macis;
void hv::run_all() {
  int N = g_thorough ? 400 : 80;
  for(int t = 0; t < N; ++t) {
    size_t n = ri(1, 4), m = ri(1, 4);
    Mat2 X({n, n}, sl(), false), C({n, m}, sl(), false), Y({m, m}, sl(), true); Ten4 V({n, n, n, n}, sl(), false), W({m, m, m, m}, sl(), true);
    std::ostringstream o; o << "old=" << n << " new=" << m << " LDX=" << X.ld << "/" << V.ld << " LDC=" << C.ld << " LDY=" << Y.ld << "/" << W.ld;
    begin_case(o.str(), n > 1 && m > 1);
    two_index_transform(n, m, X.data(), X.ld, C.data(), C.ld, Y.data(), Y.ld);
    Y.expect("two-index transform", [&](auto& P) { double s = 0; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) s += C(i, P[0]) * X(i, j) * C(j, P[1]); return s; });
    four_index_transform(n, m, V.data(), V.ld, C.data(), C.ld, W.data(), W.ld);
    W.expect("four-index transform", [&](auto& P) { double s = 0; V.each([&](auto& S) { s += V(S) * C(S[0], P[0]) * C(S[1], P[1]) * C(S[2], P[2]) * C(S[3], P[3]); }); return s; });
  }
}
