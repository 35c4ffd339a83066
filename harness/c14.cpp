#include "ham.hpp"
using namespace hv;
template <size_t N> void family(int k) {
  constexpr size_t S = N / 2; size_t no = rno(k, S); Ints I(no, true);
  DoubleLoopHamiltonianGenerator<N> H(I.tspan(), I.vspan());
  for(int t = 0; t < 60; ++t) {
    auto ka = rspin<S>(no), kb = rspin<S>(no); auto ba = ka, bb = kb;
    size_t na = ri(0, 3), nb = ri(0, na > 2 ? 1 : 3); if(t % 3 == 0) { size_t c = ri(0, 5); na = c == 0 ? 2 : c == 1 ? 0 : c == 2 ? 1 : c == 3 ? 1 : 0; nb = c == 0 ? 0 : c == 1 ? 2 : c == 2 ? 1 : c == 3 ? 0 : c == 4 ? 1 : 0; }
    Occ o, v; if(na && !excite(ba, no, na, o, v)) continue; if(nb && !excite(bb, no, nb, o, v)) continue;
    begin_case("norb=" + std::to_string(no) + " bra a/b " + bs(ba) + " " + bs(bb) + " ket a/b " + bs(ka) + " " + bs(kb));
    double w = ref_element(I, ba, ka, bb, kb);
    double r = H.matrix_element(join<N>(ba, bb), join<N>(ka, kb));
    check(near(r, w), "matrix_element(bra, ket) = " + std::to_string(r) + ", expected " + std::to_string(w));
    auto A = positions(ba), B = positions(bb);
    double r2 = H.matrix_element(ba, ka, ba ^ ka, bb, kb, bb ^ kb, A, B);
    check(near(r2, w), "matrix_element of the spin strings = " + std::to_string(r2) + ", expected " + std::to_string(w));
    if(na == 2 && nb == 0) check(near(H.matrix_element_4(ba, ka, ba ^ ka), w), "matrix_element_4");
    if(na == 1 && nb == 1) check(near(H.matrix_element_22(ba, ka, ba ^ ka, bb, kb, bb ^ kb), w), "matrix_element_22");
    if(na == 1 && nb == 0) check(near(H.matrix_element_2(ba, ka, ba ^ ka, A, B), w), "matrix_element_2");
    if(na == 0 && nb == 0) check(near(H.matrix_element_diag(A, B), w), "matrix_element_diag");
    check(near(H.matrix_element(join<N>(bb, ba), join<N>(kb, ka)), w), "element with the spins exchanged");
  }
}
void hv::run_all() {
  int n = g_thorough ? 300 : 30;
  for(int k = 0; k < n; ++k) { family<64>(k); family<128>(k); }
}
