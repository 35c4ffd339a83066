#include "orb.hpp"
#include <macis/util/fock_matrices.hpp>
#include <macis/util/moller_plesset.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/orbital_steps.hpp>
namespace macis { void one_index_transformed_hamiltonian(NumOrbital, const double*, size_t, const double*, size_t, const double*, size_t, double*, size_t, double*, size_t); }
using namespace hv; using namespace macis;
static void mp2(int k) {
  size_t nc = k == 0 ? 1 : ri(0, 3), nv = k == 0 ? 2 : ri(0, 3), no = nc + nv + (ri(0, 3) ? 0 : 1); if(!no) { nv = no = 1; }
  NumCanonicalOccupied NC(nc); NumCanonicalVirtual NV(nv); NumOrbital NO(no);
  Ten4 V({no, no, no, no}, sl(), false); Mat2 T({no, no}, sl(), false), D({no, no}, sl(), true);
  for(size_t i = 0; i < no; ++i) T(i, i) = i < nc ? -700. - 3 * i : 600. + 2 * i;
  std::vector<double> e(no); for(size_t i = 0; i < no; ++i) e[i] = (i < nc ? -1 : 1) * (20.5 + ri(0, 9));
  begin_case("MP2 nc=" + std::to_string(nc) + " nv=" + std::to_string(nv) + " norb=" + std::to_string(no) + " ldV=" + std::to_string(V.ld) + " ldT=" + std::to_string(T.ld) + " ldD=" + std::to_string(D.ld), nc && nv);
  auto amp = [&](auto& ep, size_t i, size_t j, size_t a, size_t b) { return V(i, a + nc, j, b + nc) / (ep[i] + ep[j] - ep[a + nc] - ep[b + nc]); };
  size_t n = nc * nc * nv * nv; std::vector<double> t(n + 2, 77.25);
  mp2_t2(NC, NV, V.data(), V.ld, e.data(), t.data() + 1);
  for(size_t i = 0; i < nc; ++i) for(size_t j = 0; j < nc; ++j) for(size_t a = 0; a < nv; ++a) for(size_t b = 0; b < nv; ++b)
    check(near(t[1 + i + nc * (j + nc * (a + nv * b))], amp(e, i, j, a, b)), "MP2 amplitude");
  check(t[0] == 77.25 && t[n + 1] == 77.25, "MP2 amplitudes written outside the block");
  for(size_t a = 0; a < no; ++a) { double s = T(a, a); for(size_t i = 0; i < nc; ++i) s += 2 * V(a, a, i, i) - V(a, i, i, a); e[a] = s; }
  std::streambuf* sb = std::cout.rdbuf(nullptr);
  mp2_1rdm(NO, NC, NV, T.data(), T.ld, V.data(), V.ld, D.data(), D.ld);
  std::cout.rdbuf(sb); std::cout.clear();
  D.expect("MP2 density", [&](auto& ix) {
    size_t p = ix[0], q = ix[1]; double s = 0;
    if(p < nc && q < nc) { for(size_t j = 0; j < nc; ++j) for(size_t a = 0; a < nv; ++a) for(size_t b = 0; b < nv; ++b) s += amp(e, p, j, a, b) * (2 * amp(e, q, j, a, b) - amp(e, q, j, b, a)); return (p == q ? 2. : 0.) - 2 * s; }
    if(p >= nc && q >= nc && p < nc + nv && q < nc + nv) { for(size_t i = 0; i < nc; ++i) for(size_t j = 0; j < nc; ++j) for(size_t c = 0; c < nv; ++c) s += amp(e, i, j, c, p - nc) * (2 * amp(e, i, j, c, q - nc) - amp(e, i, j, q - nc, c)); return 2 * s; }
    return 77.25; });
}
void hv::run_all() {
  int N = g_thorough ? 600 : 80;
  for(int k = 0; k < N; ++k) {
    mp2(k);
    Part p = rpart(k); auto [ni, na, nv, no] = p; NumOrbital NO(no); NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv);
    Mat2 T({no, no}, sl(), false), D({na, na}, sl(), false), Fi({no, no}, sl(), false), Fa({no, no}, sl(), false), F({ni + na, no}, sl(), false), X({no, no}, sl(), false); Ten4 V({no, no, no, no}, sl(), false), D2({na, na, na, na}, sl(), false);
    Mat2 Tx({no, no}, sl(), true); Ten4 Vx({no, no, no, no}, sl(), true);
    std::ostringstream o; o << pstr(p) << " ldT=" << T.ld << " ldV=" << V.ld << " ldD=" << D.ld << " ldD2=" << D2.ld << " ldFi=" << Fi.ld << " ldFa=" << Fa.ld << " ldF=" << F.ld << " ldX=" << X.ld << " ldTx=" << Tx.ld << " ldVx=" << Vx.ld;
    begin_case(o.str(), no > 1);
    auto oti1 = [&](auto& X, size_t p, size_t q) { double s = 0; for(size_t o = 0; o < no; ++o) s += X(p, o) * T(o, q) + X(q, o) * T(p, o); return s; };
    auto oti2 = [&](auto& X, size_t p, size_t q, size_t r, size_t t) { double s = 0; for(size_t o = 0; o < no; ++o) s += X(p, o) * V(o, q, r, t) + X(q, o) * V(p, o, r, t) + X(r, o) * V(p, q, o, t) + X(t, o) * V(p, q, r, o); return s; };
    one_index_transformed_hamiltonian(NO, T.data(), T.ld, V.data(), V.ld, X.data(), X.ld, Tx.data(), Tx.ld, Vx.data(), Vx.ld);
    Tx.expect("one-index transformed one-body part", [&](auto& ix) { return oti1(X, ix[0], ix[1]); });
    Vx.expect("one-index transformed two-body part", [&](auto& ix) { return oti2(X, ix[0], ix[1], ix[2], ix[3]); });
    size_t n1 = nv * ni, n2 = nv * na, n3 = na * ni, sz = n1 + n2 + n3;
    auto blocks = [&](const char* what, const double* h, auto& fi, auto& fa, auto& f) {
      auto g = [&](size_t p) { return fi(p, p) + fa(p, p); }; size_t c = 0; std::string w = what;
      for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < nv; ++a) check(near(h[c++], 4 * (g(a + ni + na) - g(i))), w + ", virtual-inactive");
      for(size_t i = 0; i < na; ++i) for(size_t a = 0; a < nv; ++a) check(near(h[c++], 2 * D(i, i) * g(a + ni + na) - 2 * f(i + ni, i + ni)), w + ", virtual-active");
      for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < na; ++a) check(near(h[c++], 2 * D(a, a) * g(i) + 4 * (g(a + ni) - g(i)) - 2 * f(a + ni, a + ni)), w + ", active-inactive");
    };
    std::vector<double> h(sz + 2, 77.25);
    auto guards = [&](const char* w) { check(h[0] == 77.25 && h[sz + 1] == 77.25, std::string(w) + " wrote outside the vector"); };
    approx_diag_hessian(NI, NA, NV, Fi.data(), Fi.ld, Fa.data(), Fa.ld, D.data(), D.ld, F.data(), F.ld, h.data() + 1);
    blocks("diagonal Hessian", h.data() + 1, Fi, Fa, F); guards("diagonal Hessian");
    std::vector<double> b1(n1 + 1, 77.25), b2(n2 + 1, 77.25), b3(n3 + 1, 77.25), bb;
    approx_diag_hessian(NI, NA, NV, Fi.data(), Fi.ld, Fa.data(), Fa.ld, D.data(), D.ld, F.data(), F.ld, b1.data(), b2.data(), b3.data());
    check(b1[n1] == 77.25 && b2[n2] == 77.25 && b3[n3] == 77.25, "diagonal Hessian wrote outside a block");
    bb = b1; bb.pop_back(); bb.insert(bb.end(), b2.begin(), b2.end() - 1); bb.insert(bb.end(), b3.begin(), b3.end() - 1);
    blocks("diagonal Hessian (blocks)", bb.data(), Fi, Fa, F);
    auto fi = [&](size_t a, size_t b) { double s = T(a, b); for(size_t i = 0; i < ni; ++i) s += 2 * V(a, b, i, i) - V(a, i, i, b); return s; };
    auto fa = [&](size_t a, size_t b) { double s = 0; for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) s += D(x, y) * (V(a, b, x + ni, y + ni) - .5 * V(a, y + ni, x + ni, b)); return s; };
    auto gfT = [&](auto& v, auto& t1, size_t r, size_t a) {
      auto fi = [&](size_t a, size_t b) { double s = t1(a, b); for(size_t i = 0; i < ni; ++i) s += 2 * v(a, b, i, i) - v(a, i, i, b); return s; };
      auto fa = [&](size_t a, size_t b) { double s = 0; for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) s += D(x, y) * (v(a, b, x + ni, y + ni) - .5 * v(a, y + ni, x + ni, b)); return s; };
      if(r >= ni + na) return 0.;
      if(r < ni) return 2 * (fi(a, r) + fa(a, r));
      double s = 0; for(size_t w = 0; w < na; ++w) for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) s += 2 * D2(r - ni, w, x, y) * v(a, w + ni, x + ni, y + ni);
      for(size_t y = 0; y < na; ++y) s += fi(a, y + ni) * D(y, r - ni); return s; };
    auto gf = [&](size_t r, size_t a) { return gfT(V, T, r, a); };
    std::fill(h.begin(), h.end(), 77.25);
    approx_diag_hessian(NO, NI, NA, NV, T.data(), T.ld, V.data(), V.ld, D.data(), D.ld, D2.data(), D2.ld, h.data() + 1);
    blocks("diagonal Hessian from integrals", h.data() + 1, fi, fa, gf); guards("diagonal Hessian from integrals");
    // step: real-valued F so that no denominator vanishes
    { Mat2 G = Fi, H = Fa, E = F, DD = D; G.each([&](auto& ix) { G(ix) = rd(); }); H.each([&](auto& ix) { H(ix) = rd(); }); E.each([&](auto& ix) { E(ix) = rd(); });
      std::vector<double> og(sz), hh(sz + 1); for(auto& v : og) v = rv();
      approx_diag_hessian(NI, NA, NV, G.data(), G.ld, H.data(), H.ld, D.data(), D.ld, E.data(), E.ld, hh.data());
      std::fill(h.begin(), h.end(), 77.25);
      precond_cg_orbital_step(NO, NI, NA, NV, G.data(), G.ld, H.data(), H.ld, E.data(), E.ld, D.data(), D.ld, og.data(), h.data() + 1);
      for(size_t i = 0; i < sz; ++i) check(near(h[i + 1] * hh[i], -og[i]), "preconditioned step"); guards("preconditioned step"); }
    { std::vector<double> og(sz + 1), kl(sz + 1); for(auto& v : og) v = rv(); for(auto& v : kl) v = rv();
      auto full = [&](const std::vector<double>& x) { return [&, no = no, ni = ni, na = na, nv = nv](size_t r, size_t c) { auto e = [&](size_t r, size_t c) -> double { if(r >= ni + na && c < ni) return x[r - ni - na + c * nv]; if(r >= ni + na && c < ni + na) return x[n1 + r - ni - na + (c - ni) * nv]; if(r >= ni && r < ni + na && c < ni) return x[n1 + n2 + r - ni + c * na]; return 0.; }; return e(r, c) - e(c, r); }; };
      auto K = full(kl), G = full(og);
      auto Tk = [&](size_t p, size_t q) { return oti1(K, p, q); }; auto Vk = [&](size_t p, size_t q, size_t r, size_t s) { return oti2(K, p, q, r, s); };
      std::vector<double> fk(no * no); for(size_t r = 0; r < no; ++r) for(size_t a = 0; a < no; ++a) fk[r + a * no] = gfT(Vk, Tk, r, a);
      auto want = [&](size_t r, size_t c) { double s = 2 * (fk[r + c * no] - fk[c + r * no]); for(size_t o = 0; o < no; ++o) s += G(r, o) * K(o, c) - G(c, o) * K(o, r); return s; };
      std::fill(h.begin(), h.end(), 77.25);
      orb_orb_hessian_contract(NO, NI, NA, NV, T.data(), T.ld, V.data(), V.ld, D.data(), D.ld, D2.data(), D2.ld, og.data(), kl.data(), h.data() + 1);
      size_t c = 1;
      for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < nv; ++a) check(near(h[c++], want(a + ni + na, i), 1e3), "Hessian contraction, virtual-inactive");
      for(size_t i = 0; i < na; ++i) for(size_t a = 0; a < nv; ++a) check(near(h[c++], want(a + ni + na, i + ni), 1e3), "Hessian contraction, virtual-active");
      for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < na; ++a) check(near(h[c++], want(a + ni, i), 1e3), "Hessian contraction, active-inactive");
      guards("Hessian contraction"); }
  }
}
