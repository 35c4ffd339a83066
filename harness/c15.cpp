#include "ham.hpp"
using namespace hv;
template <size_t N> void family(int k) {
  constexpr size_t S = N / 2; size_t no = rno(k, S); Ints I(no, true);
  DoubleLoopHamiltonianGenerator<N> H(I.tspan(), I.vspan());
  for(int t = 0; t < 30; ++t) {
    auto a = rspin<S>(no), b = rspin<S>(no); auto A = positions(a), B = positions(b); double h0 = ref_diag(I, A, B);
    begin_case("norb=" + std::to_string(no) + " alpha " + bs(a) + " beta " + bs(b));
    // orbital energies: the change of the diagonal on adding an electron, or minus the change on removing it
    for(int sp = 0; sp < 2; ++sp) {
      auto& X = sp ? B : A; auto& Y = sp ? A : B;
      auto ens = H.single_orbital_ens(no, X, Y); check(ens.size() == no, "one energy per orbital");
      for(size_t p = 0; p < no; ++p) {
        double e = H.single_orbital_en(p, X, Y); check(near(ens[p], e), "single_orbital_ens agrees with single_orbital_en at orbital " + std::to_string(p));
        double w = I.t(p, p) - 0.5 * I.g(p, p, p, p); for(auto q : X) w += 0.5 * (I.g(p, p, q, q) + I.g(q, q, p, p)); for(auto q : Y) w += I.v(p, p, q, q);
        check(near(e, w), "single_orbital_en of orbital " + std::to_string(p));
      }
    }
    auto ea = H.single_orbital_ens(no, A, B), eb = H.single_orbital_ens(no, B, A);
    for(int sp = 0; sp < 2; ++sp) {
      auto& X = sp ? B : A; auto& Y = sp ? A : B; auto& ex = sp ? eb : ea; auto& ey = sp ? ea : eb; auto x = sp ? b : a; auto y = sp ? a : b; Occ o, v;
      auto full = [&](const std::bitset<S>& p, const std::bitset<S>& q) { return sp ? ref_diag(I, positions(q), positions(p)) : ref_diag(I, positions(p), positions(q)); };
      { auto n = x; if(excite(n, no, 1, o, v)) { double w = full(n, y);
        check(near(H.fast_diag_single(X, Y, o[0], v[0], h0), w), "fast_diag_single (lists)"); check(near(H.fast_diag_single(ex[o[0]], ex[v[0]], o[0], v[0], h0), w), "fast_diag_single (energies)"); } }
      { auto n = x; if(excite(n, no, 2, o, v)) { double w = full(n, y); if(ri(0, 1)) std::swap(o[0], o[1]); if(ri(0, 1)) std::swap(v[0], v[1]);
        check(near(H.fast_diag_ss_double(X, Y, o[0], o[1], v[0], v[1], h0), w), "fast_diag_ss_double (lists)");
        check(near(H.fast_diag_ss_double(ex[o[0]], ex[o[1]], ex[v[0]], ex[v[1]], o[0], o[1], v[0], v[1], h0), w), "fast_diag_ss_double (energies)"); } }
      { auto n = x, m = y; Occ o2, v2; if(excite(n, no, 1, o, v) && excite(m, no, 1, o2, v2)) { double w = full(n, m);
        check(near(H.fast_diag_os_double(X, Y, o[0], o2[0], v[0], v2[0], h0), w), "fast_diag_os_double (lists)");
        check(near(H.fast_diag_os_double(ex[o[0]], ey[o2[0]], ex[v[0]], ey[v2[0]], o[0], o2[0], v[0], v2[0], h0), w), "fast_diag_os_double (energies)"); } }
    }
  }
}
void hv::run_all() { int n = g_thorough ? 300 : 30; for(int k = 0; k < n; ++k) { family<64>(k); family<128>(k); } }
