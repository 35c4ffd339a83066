#include "orb.hpp"
#include <macis/util/fock_matrices.hpp>
#include <macis/util/orbital_energies.hpp>
using namespace hv; using namespace macis;
void hv::run_all() {
  int N = g_thorough ? 600 : 80;
  for(int k = 0; k < N; ++k) {
    Part p = rpart(k); auto [ni, na, nv, no] = p; (void)nv;
    NumOrbital NO(no); NumInactive NI(ni); NumActive NA(na);
    Mat2 T({no, no}, sl(), false), D({na, na}, sl(), false); Ten4 V({no, no, no, no}, sl(), false), D2({na, na, na, na}, sl(), false);
    Mat2 Fi({no, no}, sl(), true), Fa({no, no}, sl(), true), Q({na, no}, sl(), true), F({ni + na, no}, sl(), true), F1 = F, F2 = F, TA({na, na}, sl(), true), FI2 = Fi; Ten4 VA({na, na, na, na}, sl(), true);
    { Mat2 q({na, no}, 0, true); }
    std::ostringstream o; o << pstr(p) << " ldT=" << T.ld << " ldV=" << V.ld << " ldD=" << D.ld << " ldD2=" << D2.ld << " ldFi=" << Fi.ld << " ldFa=" << Fa.ld << " ldQ=" << Q.ld << " ldF=" << F.ld << " (small integer random data)";
    begin_case(o.str(), no > 1);
    auto fi = [&](size_t a, size_t b) { double s = T(a, b); for(size_t i = 0; i < ni; ++i) s += 2 * V(a, b, i, i) - V(a, i, i, b); return s; };
    auto fa = [&](size_t a, size_t b) { double s = 0; for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) s += D(x, y) * (V(a, b, x + ni, y + ni) - .5 * V(a, y + ni, x + ni, b)); return s; };
    auto q = [&](size_t v, size_t a) { double s = 0; for(size_t w = 0; w < na; ++w) for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) s += D2(v, w, x, y) * V(a, w + ni, x + ni, y + ni); return 2 * s; };
    auto gf = [&](size_t r, size_t a) { if(r < ni) return 2 * (fi(a, r) + fa(a, r)); double s = q(r - ni, a); for(size_t y = 0; y < na; ++y) s += fi(a, y + ni) * D(y, r - ni); return s; };
    inactive_fock_matrix(NO, NI, T.data(), T.ld, V.data(), V.ld, Fi.data(), Fi.ld);
    Fi.expect("inactive Fock", [&](auto& ix) { return fi(ix[0], ix[1]); });
    active_fock_matrix(NO, NI, NA, V.data(), V.ld, D.data(), D.ld, Fa.data(), Fa.ld);
    Fa.expect("active Fock", [&](auto& ix) { return fa(ix[0], ix[1]); });
    aux_q_matrix(NA, NO, NI, V.data(), V.ld, D2.data(), D2.ld, Q.data(), Q.ld);
    Q.expect("auxiliary Q", [&](auto& ix) { return q(ix[0], ix[1]); });
    generalized_fock_matrix(NO, NI, NA, Fi.data(), Fi.ld, Fa.data(), Fa.ld, D.data(), D.ld, Q.data(), Q.ld, F.data(), F.ld);
    F.expect("generalised Fock", [&](auto& ix) { return gf(ix[0], ix[1]); });
    generalized_fock_matrix_comp_mat1(NO, NI, NA, Fi.data(), Fi.ld, V.data(), V.ld, D.data(), D.ld, D2.data(), D2.ld, F1.data(), F1.ld);
    F1.expect("generalised Fock (from Fi)", [&](auto& ix) { return gf(ix[0], ix[1]); });
    generalized_fock_matrix_comp_mat2(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, D.data(), D.ld, D2.data(), D2.ld, F2.data(), F2.ld);
    F2.expect("generalised Fock (from T, V)", [&](auto& ix) { return gf(ix[0], ix[1]); });
    active_hamiltonian(NO, NA, NI, T.data(), T.ld, V.data(), V.ld, FI2.data(), FI2.ld, TA.data(), TA.ld, VA.data(), VA.ld);
    FI2.expect("inactive Fock (active_hamiltonian)", [&](auto& ix) { return fi(ix[0], ix[1]); });
    TA.expect("active one-body Hamiltonian", [&](auto& ix) { return fi(ix[0] + ni, ix[1] + ni); });
    VA.expect("active two-body Hamiltonian", [&](auto& ix) { return V(ix[0] + ni, ix[1] + ni, ix[2] + ni, ix[3] + ni); });
    Mat2 SA({na, na}, sl(), true); active_submatrix_1body(NA, NI, T.data(), T.ld, SA.data(), SA.ld);
    SA.expect("active submatrix", [&](auto& ix) { return T(ix[0] + ni, ix[1] + ni); });
    double e = 0; for(size_t i = 0; i < ni; ++i) e += T(i, i) + fi(i, i);
    check(near(inactive_energy(NI, T.data(), T.ld, Fi.data(), Fi.ld), e), "inactive energy");
    e = 0; for(size_t i = 0; i < ni; ++i) e += 2 * T(i, i);
    for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) e += D(x, y) * T(x + ni, y + ni);
    for(size_t r = 0; r < ni + na; ++r) e += gf(r, r);
    check(near(energy_from_generalized_fock(NI, NA, T.data(), T.ld, D.data(), D.ld, F.data(), F.ld), .5 * e), "energy from the generalised Fock matrix");
    std::vector<double> eps(no + 1, 77.25);
    canonical_orbital_energies(NO, NI, T.data(), T.ld, V.data(), V.ld, eps.data());
    for(size_t a = 0; a < no; ++a) check(near(eps[a], fi(a, a)), "canonical orbital energy");
    check(eps[no] == 77.25, "canonical orbital energies write past the end");
  }
}
