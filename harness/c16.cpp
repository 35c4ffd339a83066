#include "ham.hpp"
using namespace hv;
template <size_t N> void one(int k) {
  size_t no = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 3 : ri(1, 9); Ints I(no, false);
  begin_case("N=" + std::to_string(N) + " norb=" + std::to_string(no));
  DoubleLoopHamiltonianGenerator<N> H(I.tspan(), I.vspan());
  auto all = [&](Ints& I, const char* when) {
    for(size_t i = 0; i < no; ++i) for(size_t j = 0; j < no; ++j) {
      check(near(H.G2_red_(i, j), 0.5 * I.g(i, i, j, j)), std::string("G2_red ") + when); check(near(H.V2_red_(i, j), I.v(i, i, j, j)), std::string("V2_red ") + when);
      for(size_t l = 0; l < no; ++l) {
        check(near(H.G_red_(l, i, j), I.g(l, l, i, j)), std::string("G_red ") + when); check(near(H.V_red_(l, i, j), I.v(l, l, i, j)), std::string("V_red ") + when);
        for(size_t m = 0; m < no; ++m) check(near(H.G_pqrs_(i, j, l, m), I.g(i, j, l, m)), std::string("G ") + when);
      }
    }
    check(I.V == I.V0 && I.T == I.T0, std::string("input integrals unchanged ") + when);
    check(H.G_pqrs_.data_handle() == H.G() && H.G_red_.data_handle() == H.G_red() && H.V_red_.data_handle() == H.V_red(), "accessors");
    check(H.G_pqrs_data_.size() == no * no * no * no && H.G_red_data_.size() == no * no * no && H.V_red_data_.size() == no * no * no && H.G2_red_data_.size() == no * no && H.V2_red_data_.size() == no * no, "sizes");
  };
  all(I, "after construction");
  Ints J(no, false); H.generate_integral_intermediates(J.vspan()); all(J, "after new integrals");
  begin_case("inconsistent dimensions norb=" + std::to_string(no));
  for(int d = 0; d < 4; ++d) for(size_t x : {no + 1, no - 1, size_t(0)}) {
    size_t e[4] = {no, no, no, no}; e[d] = x; if(x == no) continue; std::vector<double> v(e[0] * e[1] * e[2] * e[3] + 1);
    check(throws([&] { H.generate_integral_intermediates(rank4_span<double>(v.data(), e[0], e[1], e[2], e[3])); }), "dimension " + std::to_string(d) + " = " + std::to_string(x) + " is rejected");
    check(throws([&] { DoubleLoopHamiltonianGenerator<N> K(I.tspan(), rank4_span<double>(v.data(), e[0], e[1], e[2], e[3])); }), "the constructor rejects dimension " + std::to_string(d));
  }
  std::vector<double> v((no + 1) * (no + 1) * (no + 1) * (no + 1));
  check(throws([&] { H.generate_integral_intermediates(rank4_span<double>(v.data(), no + 1, no + 1, no + 1, no + 1)); }), "all dimensions off are rejected");
}
void hv::run_all() { int n = g_thorough ? 200 : 25; for(int k = 0; k < n; ++k) { one<64>(k); one<128>(k); } }
