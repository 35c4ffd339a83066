#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include "ham.hpp"
#include "simmpi.hpp"
using namespace macis; using namespace hv;
template <size_t N> using W = std::bitset<N>; using Sums = std::map<std::string, double>;
template <size_t N> struct Sys {
  Ints I; std::unique_ptr<DoubleLoopHamiltonianGenerator<N>> h; size_t no; double E0;
  Sys(size_t n, bool ties = false) : I(n, true), no(n) { if(ties) { for(auto& x : I.T) x = std::round(x) / 2; for(auto& x : I.V) x = std::round(x) / 2; } h = std::make_unique<DoubleLoopHamiltonianGenerator<N>>(I.tspan(), I.vspan()); E0 = -7.3; }
  double el(const W<N>& bra, const W<N>& ket) { return ref_element<N / 2>(I, bitset_lo_word(bra), bitset_lo_word(ket), bitset_hi_word(bra), bitset_hi_word(ket)); }
};
template <size_t N, class F> void connected(const W<N>& d, size_t no, F f) {
  std::vector<size_t> o[2], v[2]; for(int s = 0; s < 2; ++s) for(size_t k = 0; k < no; ++k) (d[k + s * N / 2] ? o : v)[s].push_back(k + s * N / 2);
  for(int s = 0; s < 2; ++s) for(auto i : o[s]) for(auto a : v[s]) { auto x = d; x.flip(i).flip(a); f(x, s == 0);
    for(auto j : o[s]) if(j > i) for(auto b : v[s]) if(b > a) { auto y = x; y.flip(j).flip(b); f(y, s == 0); }
    if(s == 0) for(auto j : o[1]) for(auto b : v[1]) { auto y = x; y.flip(j).flip(b); f(y, true); } }
}
template <size_t N> W<N> rdet(size_t no, size_t na, size_t nb) { W<N> d; for(int s = 0; s < 2; ++s) { size_t n = s ? nb : na; while(n) { size_t k = ri(0, no - 1) + s * N / 2; if(!d[k]) { d[k] = 1; --n; } } } return d; }
template <size_t N> std::vector<W<N>> rdets(size_t no, size_t na, size_t nb, int m) { std::vector<W<N>> d; for(int k = 0; k < m; ++k) { auto x = rdet<N>(no, na, nb); if(k && ri(0, 2)) for(size_t p = 0; p < N / 2; ++p) x[p] = d[0][p]; if(std::find(d.begin(), d.end(), x) == d.end()) d.push_back(x); } return d; }
template <size_t N> std::string show_dets(const std::vector<W<N>>& d, const std::vector<double>& c) { std::string s; for(size_t k = 0; k < d.size(); ++k) s += " " + std::to_string(c[k]) + "*" + show(positions(d[k])); return s; }
// the best determinants: everything reached if it fits, otherwise nothing left out scores higher than something kept
template <size_t N> void best(size_t no, size_t na, size_t nb, int P) {
  bool ties = ri(0, 1); Sys<N> s(no, ties); auto& h = *s.h; auto d = rdets<N>(no, na, nb, ri(1, 4)); std::vector<double> c; for(size_t k = 0, e = d.size() + ri(0, 1); k < e; ++k) c.push_back(ties ? (ri(0, 1) ? 1. : -0.5) : rd() + 0.01);
  ASCISettings st; st.pair_size_max = 200000; st.h_el_tol = ri(0, 1) ? 0. : 0.3; st.constraint_level = ri(0, 3); st.rv_prune_tol = 1e-12; size_t nmax = d.size() + (ri(0, 7) == 0 ? 0 : ri(0, 3) ? ri(0, 20) : ri(0, 400));
  begin_case("N=" + std::to_string(N) + " search from" + show_dets(d, c) + " norb " + std::to_string(no) + " at most " + std::to_string(nmax) + " threshold " + std::to_string(st.h_el_tol) + (ties ? " with equal scores" : "") + " processes " + std::to_string(P));
  std::vector<std::vector<W<N>>> out(P); unsigned left = alarm(20);
  sim::run(P, [&](int r) { out[r] = asci_search<N>(st, nmax, d.begin(), d.end(), s.E0, c, no, h.T(), h.G_red(), h.V_red(), h.G(), h.V(), h, MPI_COMM_WORLD); }); alarm(left);
  Sums sc; std::map<std::string, int> all; std::map<std::string, W<N>> det;
  for(size_t k = 0; k < d.size(); ++k) connected(d[k], no, [&](const W<N>& x, bool alpha) { double e = s.el(x, d[k]); if(std::abs(P > 1 && alpha ? c[k] * e : e) >= st.h_el_tol) { sc[x.to_string()] += c[k] * e / (s.E0 - s.el(x, x)); } });
  for(auto& x : d) sc.erase(x.to_string());
  for(int r = 0; r < P; ++r) {
    auto& o = out[r]; std::string who = " (process " + std::to_string(r) + ")"; if(o.size() > nmax) { check(false, "more determinants than asked for" + who); return; } if(o.size() < d.size()) { check(false, "fewer determinants than the search started from" + who); return; }
    if(P > 1 && o != out[0]) { check(false, "the processes found different determinants" + who); return; }
    std::map<std::string, int> n; for(auto& x : o) ++n[x.to_string()];
    for(auto& [k, m] : n) if(m > 1) { check(false, "determinant " + k + " is listed twice"); return; }
    for(auto& x : d) if(!n.count(x.to_string())) { check(false, "search determinant " + x.to_string() + " is dropped"); return; }
    if(P == 1) for(size_t k = 0; k < d.size(); ++k) check(o[o.size() - d.size() + k] == d[k], "the search determinants are out of order");
    for(auto& x : d) n.erase(x.to_string());
    double low = 1e300, high = -1, nz = 0; for(auto& [k, m] : n) { auto it = sc.find(k); if(it == sc.end()) { check(false, "determinant " + k + " is not connected to the wavefunction"); return; } low = std::min(low, std::abs(it->second)); }
    for(auto& [k, v] : sc) { nz += std::abs(v) > 1e-10; if(!n.count(k)) high = std::max(high, std::abs(v)); }
    if(o.size() < nmax) check(high <= 1e-10, "a determinant with the score " + std::to_string(high) + " is left out although there is room"); else check(high <= low + 1e-9, "a determinant with the score " + std::to_string(high) + " is left out, one with the score " + std::to_string(low) + " is kept");
  }
}
template <size_t N> double mean(HamiltonianGenerator<N>& h, const std::vector<W<N>>& w, const std::vector<double>& X, double& norm) { double e = 0; norm = 0; for(size_t i = 0; i < w.size(); ++i) for(size_t j = 0; j < w.size(); ++j) e += X[i] * X[j] * h.matrix_element(w[i], w[j]); for(auto c : X) norm += c * c; return e / norm; }
// what a run returns belongs together: the energy is the expectation value of the (rotated) Hamiltonian, one coefficient per determinant
template <size_t N> void together(int what, int P) {
  size_t no = ri(4, 6), na = std::min<size_t>(no - 1, 3), nb = ri(2, 3); Ints I0(no, true); for(auto& x : I0.V) x *= 0.1; for(size_t k = 0; k < no; ++k) I0.t(k, k) = k; auto d = std::vector<W<N>>{canonical_hf_determinant<N>(na, nb)}; std::vector<double> x{1.};
  ASCISettings st; st.h_el_tol = 0; st.pair_size_max = 200000; st.ncdets_max = ri(1, 12); st.ntdets_min = ri(2, 6); st.ntdets_max = ri(6, 24); st.grow_factor = ri(2, 4); st.grow_with_rot = ri(0, 1); st.rot_size_start = ri(0, 12); st.max_refine_iter = 12; st.refine_energy_tol = 1e-6; MCSCFSettings ms; ms.ci_max_subspace = 60;
  static const char* nm[] = {"one step", "growth", "growth and refinement"}; begin_case(std::string("N=") + std::to_string(N) + " " + nm[what] + " norb " + std::to_string(no) + " electrons " + std::to_string(na) + "," + std::to_string(nb) + " to " + std::to_string(st.ntdets_max) + " search determinants " + std::to_string(st.ncdets_max) + " factor " + std::to_string(st.grow_factor) + (st.grow_with_rot ? " rotating from " + std::to_string(st.rot_size_start) : "") + " processes " + std::to_string(P));
  unsigned left = alarm(30); std::vector<double> En(P); std::vector<std::vector<double>> Xs(P); std::vector<std::vector<W<N>>> ws(P); std::vector<int> skip(P);
  sim::run(P, [&](int r) {
    auto I = I0; DoubleLoopHamiltonianGenerator<N> h(I.tspan(), I.vspan());
    double E = h.matrix_element(d[0], d[0]); auto w = d; auto X = x;
    try {
      if(what == 0) { st.ncdets_max = 3; std::tie(E, w, X) = asci_iter<N, int32_t>(st, ms, 8, E, w, X, h, no, MPI_COMM_WORLD); std::tie(E, w, X) = asci_iter<N, int32_t>(st, ms, 20, E, w, X, h, no, MPI_COMM_WORLD); }
      else std::tie(E, w, X) = asci_grow<N, int32_t>(st, ms, E, w, X, h, no, MPI_COMM_WORLD);
      if(what && w.size() != st.ntdets_max) { check(false, "the wavefunction has not reached its size"); return; }
      if(what == 2) {
        auto s1 = st; s1.max_refine_iter = 1; s1.refine_energy_tol = 1e-3; auto I1 = I; DoubleLoopHamiltonianGenerator<N> h1(I1.tspan(), I1.vspan());
        for(double off : {4., -4., 0.}) try { auto [E1, w1, X1] = asci_refine<N, int32_t>(s1, ms, E + off, w, X, h1, no, MPI_COMM_WORLD); check(std::abs(E1 - (E + off)) < 1e-3, "refinement returned although its last step changed the energy by " + std::to_string(E1 - E - off)); check(w1.size() == w.size(), "refinement changed the number of determinants"); } catch(const std::runtime_error& e) { if(std::string(e.what()).find("onverge") == std::string::npos && std::string(e.what()).find("can't change") == std::string::npos) throw; }
        std::tie(E, w, X) = asci_refine<N, int32_t>(st, ms, E, w, X, h, no, MPI_COMM_WORLD);
      }
    } catch(const std::runtime_error& e) { std::string m = e.what(); if(m.find("onverge") == std::string::npos && m.find("didn't grow") == std::string::npos && m.find("can't change") == std::string::npos) throw; skip[r] = 1; return; }
    if(X.size() != w.size()) { check(false, "coefficients do not match the determinants"); return; }
    DoubleLoopHamiltonianGenerator<N> h2(I.tspan(), I.vspan()); double n, e = mean<N>(h2, w, X, n);   // built anew from the integrals En[r] = E; Xs[r] = X; ws[r] = w;
    check(std::abs(n - 1) < 1e-6, "the wavefunction has the norm " + std::to_string(n)); check(std::abs(e - E) < 1e-6, "the energy " + std::to_string(E) + " is not that of the wavefunction, " + std::to_string(e));
  }); alarm(left);
  for(int r = 1; r < P; ++r) { if(skip[r] != skip[0]) { check(false, "only some processes give up"); return; } check(skip[r] || (ws[r] == ws[0] && Xs[r].size() == Xs[0].size() && std::abs(En[r] - En[0]) < 1e-9), "the processes return different wavefunctions"); }
}
void hv::run_all() {
  for(auto n : {"asci_search", "asci_grow", "asci_refine", "ci_solver", "davidson"}) if(!spdlog::get(n)) spdlog::null_logger_mt(n);
  int n = g_thorough ? 900 : 90;
  for(int i = 0; i < n; ++i) {
    size_t no = ri(1, 5); best<64>(no, ri(0, no), ri(0, no), 1); no = ri(1, 5); best<128>(no, ri(0, no), ri(0, no), 1);
    for(int k = 0; k < 2; ++k) { no = ri(4, 6); best<64>(no, ri(3, no), ri(0, no), ri(2, 4)); } no = ri(4, 6); best<128>(no, ri(3, no), ri(0, no), ri(2, 3));
    for(int w = 0; w < 3; ++w) { together<64>(w, 1); if(i % 3 == w) together<128>(w, 1); together<64>(w, ri(2, 3)); }
  }
}
