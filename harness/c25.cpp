#include "ham.hpp"
#include <macis/csr_hamiltonian.hpp>
using namespace hv;
inline bool ok(bool c, const std::string& m) { check(c, m); return c; }
template <size_t N> using Dets = std::vector<std::bitset<N>>;
template <size_t N> double el(Ints& I, const std::bitset<N>& b, const std::bitset<N>& k) {
  std::bitset<N / 2> ba, bb, ka, kb; for(size_t s = 0; s < N / 2; ++s) { ba[s] = b[s]; bb[s] = b[s + N / 2]; ka[s] = k[s]; kb[s] = k[s + N / 2]; }
  return ref_element(I, ba, ka, bb, kb);
}
template <class It, size_t N> void block(const sparsexx::csr_matrix<double, It>& M, Ints& I, const Dets<N>& bra, const Dets<N>& ket, double thr) {
  check(M.m() == bra.size() && M.n() == ket.size() && M.indexing() == 0, "shape and index base");
  if(!ok(M.rowptr().size() == bra.size() + 1 && M.rowptr()[0] == 0 && M.nnz() == (size_t)M.rowptr().back() && M.colind().size() == M.nnz() && M.nzval().size() == M.nnz(), "array lengths and element count")) return;
  for(size_t i = 0; i < bra.size(); ++i) {
    It p = M.rowptr()[i];
    for(size_t j = 0; j < ket.size(); ++j) {
      if(bra[i].none() || ket[j].none()) continue;
      double v = el(I, bra[i], ket[j]); if(!(std::abs(v) > thr)) continue;
      std::string at = "element (" + std::to_string(i) + "," + std::to_string(j) + ") = " + std::to_string(v);
      if(!ok(p < M.rowptr()[i + 1] && (size_t)M.colind()[p] == j, at + " is stored in its place")) return;
      if(!ok(near(M.nzval()[p], v), at + " is stored as " + std::to_string(M.nzval()[p]))) return;
      ++p;
    }
    if(!ok(p == M.rowptr()[i + 1], "row " + std::to_string(i) + " holds nothing else")) return;
  }
}
template <size_t N> void family(int k) {
  constexpr size_t S = N / 2; size_t no = k == 2 ? 12 : k == 3 ? std::min<size_t>(S, 20) : rno(k, S); if(no > 20) no = 20;
  // integer integrals: elements are exact, so that thresholds can be hit exactly
  Ints I(no, true); for(auto& x : I.T) x = std::round(3 * x); for(auto& x : I.V) x = std::round(2 * x); I.T0 = I.T; I.V0 = I.V;
  DoubleLoopHamiltonianGenerator<N> H(I.tspan(), I.vspan());
  auto a = rspin<S>(no), b = rspin<S>(no); Occ o, v;
  auto some = [&](int n) { Dets<N> d; for(int i = 0; i < n; ++i) { auto x = a, y = b; excite(x, no, ri(0, 2), o, v); excite(y, no, ri(0, 2), o, v); d.push_back(ri(0, 7) ? join<N>(x, y) : std::bitset<N>()); } return d; };
  for(int t = 0; t < 6; ++t) {
    auto bra = some(t == 1 ? 0 : ri(0, 7)), ket = some(t == 2 ? 0 : ri(0, 7)); double thr = t == 0 ? 0. : t < 4 ? ri(0, 4) : std::abs(rd());
    std::string d = "norb=" + std::to_string(no) + " threshold=" + std::to_string(thr) + " bra:"; for(auto& x : bra) d += " " + bs(x); d += " ket:"; for(auto& x : ket) d += " " + bs(x);
    { begin_case("32-bit block " + d); block(make_csr_hamiltonian_block<int32_t>(bra.begin(), bra.end(), ket.begin(), ket.end(), H, thr), I, bra, ket, thr); }
    { begin_case("64-bit block " + d); block(make_csr_hamiltonian_block<int64_t>(bra.begin(), bra.end(), ket.begin(), ket.end(), H, thr), I, bra, ket, thr); }
    { begin_case("32-bit square matrix " + d); block(make_csr_hamiltonian<int32_t>(ket.begin(), ket.end(), H, thr), I, ket, ket, thr); }
    { begin_case("64-bit square matrix " + d); block(make_csr_hamiltonian<int64_t>(bra.begin(), bra.end(), H, thr), I, bra, bra, thr); }
  }
}
void hv::run_all() { int n = g_thorough ? 300 : 40; for(int k = 0; k < n; ++k) { family<64>(k); family<128>(k); } }
