#include "bits.hpp"
using namespace hv; using namespace macis;
template <size_t N> int between(const std::bitset<N>& b, size_t p, size_t q) { int c = 0; if(p > q) std::swap(p, q); for(size_t i = p + 1; i < q; ++i) c += b.test(i); return c; }
template <size_t N> double ref_sign(const std::bitset<N>& b, size_t p, size_t q) { return between(b, p, q) % 2 ? -1. : 1.; }
template <size_t N> void one(std::bitset<N> ket, int k) {
  size_t p = ri(0, N - 1), q = ri(0, N - 1); if(k == 0) { p = 0; q = N - 1; } if(k == 1) { p = N - 1; q = N - 2; } if(k == 2) { p = 0; q = 1; }
  begin_case("sign N=" + std::to_string(N) + " state=" + bs(ket) + " p=" + std::to_string(p) + " q=" + std::to_string(q), p != q);
  if(p != q) check(single_excitation_sign(ket, p, q) == ref_sign(ket, p, q), "single_excitation_sign");
  std::vector<uint32_t> o, v; for(size_t i = 0; i < N; ++i) (ket.test(i) ? o : v).push_back(i);
  if(o.size() < 2 || v.size() < 2) return;
  std::shuffle(o.begin(), o.end(), rng()); std::shuffle(v.begin(), v.end(), rng());
  { auto bra = ket; bra.flip(o[0]).flip(v[0]); begin_case("single N=" + std::to_string(N) + " bra=" + bs(bra) + " ket=" + bs(ket));
    auto [a, b, s] = single_excitation_sign_indices(bra, ket, bra ^ ket);
    check(a == o[0] && b == v[0], "single indices " + std::to_string(a) + " -> " + std::to_string(b));
    check(s == ref_sign(ket, o[0], v[0]), "single phase"); }
  { uint32_t o1 = std::min(o[0], o[1]), o2 = std::max(o[0], o[1]), v1 = std::min(v[0], v[1]), v2 = std::max(v[0], v[1]);
    auto bra = ket; bra.flip(o1).flip(v1); auto mid = bra; bra.flip(o2).flip(v2); begin_case("double N=" + std::to_string(N) + " bra=" + bs(bra) + " ket=" + bs(ket));
    auto [a, b, c, d, s] = doubles_sign_indices(bra, ket, bra ^ ket);
    check(a == o1 && b == v1 && c == o2 && d == v2, "double indices " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d));
    double w = ref_sign(ket, o1, v1) * ref_sign(mid, o2, v2);
    check(s == w, "double phase"); check(doubles_sign(bra, ket, bra ^ ket) == w, "doubles_sign"); }
}
void hv::run_all() {
  int n = g_thorough ? 30000 : 3000;
  for(int k = 0; k < n; ++k) { one<32>(rbits<32>(), k); one<64>(rbits<64>(), k); one<128>(rbits<128>(), k); }
}
