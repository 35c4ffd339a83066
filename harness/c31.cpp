#include <macis/asci/determinant_search.hpp>
#include "ham.hpp"
#include "simmpi.hpp"
using namespace macis; using namespace hv;
template <size_t N> using W = std::bitset<N>; template <size_t N> using Pairs = asci_contrib_container<W<N>>;
using Multi = std::vector<std::pair<std::string, double>>; using Sums = std::map<std::string, double>;
// a system with exactly representable integrals, many of them zero
template <size_t N> struct Sys {
  Ints I; std::unique_ptr<DoubleLoopHamiltonianGenerator<N>> h; size_t no; double E0;
  Sys(size_t n) : I(n, true), no(n) { auto q = [](double x) { return std::round(x * 3) / 4; }; for(auto& x : I.T) x = q(x); for(auto& x : I.V) x = q(x); h = std::make_unique<DoubleLoopHamiltonianGenerator<N>>(I.tspan(), I.vspan()); E0 = -7.3; }
  double el(const W<N>& bra, const W<N>& ket) { return ref_element<N / 2>(I, bitset_lo_word(bra), bitset_lo_word(ket), bitset_hi_word(bra), bitset_hi_word(ket)); }
};
template <size_t N> double pts(const std::vector<double>& v, const W<N>&) { return v.size(); }
// every single and double excitation of d: moves of na alpha and nb beta electrons
template <size_t N, class F> void connected(const W<N>& d, size_t no, F f) {
  std::vector<size_t> o[2], v[2]; for(int s = 0; s < 2; ++s) for(size_t k = 0; k < no; ++k) (d[k + s * N / 2] ? o : v)[s].push_back(k + s * N / 2);
  for(int s = 0; s < 2; ++s) for(auto i : o[s]) for(auto a : v[s]) { auto x = d; x.flip(i).flip(a); f(x, s ? 0 : 1, s ? 1 : 0);
    for(auto j : o[s]) if(j > i) for(auto b : v[s]) if(b > a) { auto y = x; y.flip(j).flip(b); f(y, s ? 0 : 2, s ? 2 : 0); }
    if(s == 0) for(auto j : o[1]) for(auto b : v[1]) { auto y = x; y.flip(j).flip(b); f(y, 1, 1); } }
}
template <size_t N> Multi listed(const Pairs<N>& p) { Multi m; for(auto& x : p) m.emplace_back(x.state.to_string(), x.rv); std::sort(m.begin(), m.end()); return m; }
inline void compare(const Multi& got, Multi want, const std::string& what) {
  std::sort(want.begin(), want.end()); std::map<std::string, int> c; for(auto& x : got) ++c[x.first]; for(auto& x : want) --c[x.first];
  for(auto& [k, n] : c) if(n) { check(false, what + ": determinant " + k + " has " + std::to_string(n) + " entries too many"); return; }
  for(size_t k = 0; k < got.size(); ++k) if(!near(got[k].second, want[k].second)) { check(false, what + ": determinant " + got[k].first + " has the score " + std::to_string(got[k].second) + ", expected " + std::to_string(want[k].second)); return; }
}
template <size_t N> double score(Sys<N>& s, double c, const W<N>& x, const W<N>& d) { return c * s.el(x, d) / (s.E0 - s.el(x, x)); }
template <size_t N> W<N> rdet(size_t no, size_t na, size_t nb) { W<N> d; for(int s = 0; s < 2; ++s) { size_t n = s ? nb : na; while(n) { size_t k = ri(0, no - 1) + s * N / 2; if(!d[k]) { d[k] = 1; --n; } } } return d; }
inline double rtol() { return std::vector<double>{0., 0.25, 0.5, 1., 0.75}[ri(0, 4)]; }
inline double rcoeff() { return std::vector<double>{1., -1., 0.5, -0.25, 2.}[ri(0, 4)]; }
template <size_t N> std::string show_dets(const std::vector<W<N>>& d, const std::vector<double>& c) { std::string s; for(size_t k = 0; k < d.size(); ++k) s += " " + std::to_string(c[k]) + "*" + show(positions(d[k])); return s; }
template <size_t N> Pairs<N> standard(Sys<N>& s, ASCISettings st, std::vector<W<N>>& d, const std::vector<double>& c) { auto& h = *s.h; return asci_contributions_standard<N>(st, d.begin(), d.end(), s.E0, c, s.no, h.T(), h.G_red(), h.V_red(), h.G(), h.V(), h); }
template <size_t N> std::vector<W<N>> rdets(size_t no, size_t na, size_t nb, int m) { std::vector<W<N>> d; for(int k = 0; k < m; ++k) { auto x = rdet<N>(no, na, nb); if(k && ri(0, 2)) for(size_t p = 0; p < N / 2; ++p) x[p] = d[0][p]; if(std::find(d.begin(), d.end(), x) == d.end()) d.push_back(x); } return d; }
template <size_t N> void whole(size_t no, size_t na, size_t nb) {
  Sys<N> s(no); auto d = rdets<N>(no, na, nb, ri(1, 4)); std::vector<double> c; for(auto& x : d) { (void)x; c.push_back(rcoeff()); }
  ASCISettings st; st.pair_size_max = 200000; st.h_el_tol = rtol(); st.just_singles = ri(0, 4) == 0;
  begin_case("N=" + std::to_string(N) + " search of" + show_dets(d, c) + " norb " + std::to_string(no) + " threshold " + std::to_string(st.h_el_tol) + (st.just_singles ? " singles only" : ""));
  Multi want; for(size_t k = 0; k < d.size(); ++k) connected(d[k], no, [&](const W<N>& x, int a, int b) { if(std::abs(s.el(x, d[k])) >= st.h_el_tol && (a + b == 1 || !st.just_singles)) want.emplace_back(x.to_string(), score(s, c[k], x, d[k])); });
  compare(listed<N>(standard(s, st, d, c)), want, "search contributions");
}
inline std::vector<double> pad(const double* p, size_t no, int k, size_t L) { std::vector<double> v(std::pow(L, k), 1e30); size_t n = std::pow(no, k); for(size_t x = 0; x < n; ++x) { size_t r = x, o = 0, w = 1; for(int q = 0; q < k; ++q) { o += (r % no) * w; w *= L; r /= no; } v[o] = p[x]; } return v; }
template <size_t N> void padded(size_t no) {
  Sys<N> s(no); auto& h = *s.h; size_t na = ri(0, no), nb = ri(0, no); auto d = rdet<N>(no, na, nb); double c = rcoeff(), tol = rtol(); size_t L[5]; for(auto& x : L) x = no + ri(0, 2);
  begin_case("N=" + std::to_string(N) + " one determinant " + show(positions(d)) + " norb " + std::to_string(no) + " threshold " + std::to_string(tol) + " leading dimensions " + show(std::vector<size_t>(L, L + 5)));
  auto T = pad(h.T(), no, 2, L[0]), G3 = pad(h.G_red(), no, 3, L[1]), V3 = pad(h.V_red(), no, 3, L[2]), G4 = pad(h.G(), no, 4, L[3]), V4 = pad(h.V(), no, 4, L[4]);
  auto a = bitset_lo_word(d), b = bitset_hi_word(d); Occ oa, va, ob, vb; bitset_to_occ_vir(no, a, oa, va); bitset_to_occ_vir(no, b, ob, vb); auto ea = h.single_orbital_ens(no, oa, ob), eb = h.single_orbital_ens(no, ob, oa); double hd = s.el(d, d); Pairs<N> p; p.push_back({d, 7.});
  append_singles_asci_contributions<N / 2, 0>(c, d, a, oa, va, ob, ea.data(), T.data(), L[0], G3.data(), L[1], V3.data(), L[2], tol, hd, s.E0, h, p);
  append_singles_asci_contributions<N / 2, N / 2>(c, d, b, ob, vb, oa, eb.data(), T.data(), L[0], G3.data(), L[1], V3.data(), L[2], tol, hd, s.E0, h, p);
  append_ss_doubles_asci_contributions<N / 2, 0>(c, d, a, oa, va, ob, ea.data(), G4.data(), L[3], tol, hd, s.E0, h, p); append_ss_doubles_asci_contributions<N / 2, N / 2>(c, d, b, ob, vb, oa, eb.data(), G4.data(), L[3], tol, hd, s.E0, h, p);
  append_os_doubles_asci_contributions<N / 2>(c, d, a, b, oa, ob, va, vb, ea.data(), eb.data(), V4.data(), L[4], tol, hd, s.E0, h, p);
  Multi want{{d.to_string(), 7.}}; connected(d, no, [&](const W<N>& x, int, int) { if(std::abs(s.el(x, d)) >= tol) want.emplace_back(x.to_string(), score(s, c, x, d)); }); compare(listed<N>(p), want, "contributions");
}
template <size_t N> bool sat(W<N> d, W<N> C) { int m = 0; while(!C[m]) ++m; for(size_t k = 0; k < N / 2; ++k) if((C[k] && !d[k]) || (int(k) >= m && d[k] && !C[k])) return false; return true; }
template <size_t N> void constrained(size_t no) {
  Sys<N> s(no); auto& h = *s.h; size_t na = ri(0, 3) ? std::min<size_t>(no - 1, ri(3, 4)) : ri(3, no), nb = ri(0, no); auto d = rdet<N>(no, na, nb); double c = rcoeff(), tol = rtol(); size_t L[5]; for(auto& x : L) x = no + ri(0, 1);
  W<N> C; auto e = d; if(int mv = ri(0, 2)) { std::vector<W<N>> all; connected(d, no, [&](const W<N>& x, int a, int) { if(a == mv) all.push_back(x); }); if(!all.empty()) e = all[ri(0, all.size() - 1)]; }   // the constraint of a determinant in reach
  { size_t nc = ri(3, 4), c = 0; for(size_t k = no; k-- > 0;) if(e[k] && c < nc) { C[k] = 1; ++c; } if(ri(0, 9) == 0) for(size_t k = 0; k < no; ++k) if(C[k]) { size_t q = ri(0, no - 1); if(!C[q]) { C[k] = 0; C[q] = 1; } break; } }
  int m = 0; while(!C[m]) ++m; auto O = full_mask<N>(no), B = full_mask<N>(m); auto a = d, b = d; for(size_t k = 0; k < N / 2; ++k) { a[k + N / 2] = 0; b[k] = 0; }
  begin_case("N=" + std::to_string(N) + " constraint " + show(positions(C)) + " determinant " + std::to_string(c) + "*" + show(positions(d)) + " norb " + std::to_string(no) + " threshold " + std::to_string(tol));
  auto T = pad(h.T(), no, 2, L[0]), G3 = pad(h.G_red(), no, 3, L[1]), V3 = pad(h.V_red(), no, 3, L[2]), G4 = pad(h.G(), no, 4, L[3]), V4 = pad(h.V(), no, 4, L[4]);
  Occ oa, va, ob, vb; bitset_to_occ_vir(no, bitset_lo_word(d), oa, va); bitset_to_occ_vir(no, bitset_hi_word(d), ob, vb); auto ea = h.single_orbital_ens(no, oa, ob), eb = h.single_orbital_ens(no, ob, oa); double hd = s.el(d, d); Pairs<N> p[3];
  generate_constraint_singles_contributions_ss<N>(c, a, C, O, B, b, oa, ob, ea.data(), T.data(), L[0], G3.data(), L[1], V3.data(), L[2], tol, hd, s.E0, h, p[0]);
  generate_constraint_doubles_contributions_ss<N>(c, a, C, O, B, b, oa, ob, ea.data(), G4.data(), L[3], tol, hd, s.E0, h, p[1]);
  generate_constraint_doubles_contributions_os<N>(c, a, C, O, B, b, oa, ob, vb, ea.data(), eb.data(), V4.data(), L[4], tol, hd, s.E0, h, p[2]);
  Multi want[3]; connected(d, no, [&](const W<N>& x, int na, int nb) { if(na && sat(x, C) && std::abs(c * s.el(x, d)) >= tol) want[nb ? 2 : na - 1].emplace_back(x.to_string(), score(s, c, x, d)); });
  for(int k = 0; k < 3; ++k) compare(listed<N>(p[k]), want[k], k == 0 ? "constrained singles" : k == 1 ? "constrained doubles" : "constrained opposite-spin doubles");
}
template <size_t N> Sums sums(const Pairs<N>& p) { Sums m; for(auto& x : p) m[x.state.to_string()] += x.rv; return m; }
inline void compare(const Sums& got, const Sums& want, const std::string& what, bool all) {
  for(auto& [k, v] : want) { auto it = got.find(k); if(it == got.end() ? all || std::abs(v) > 1e-10 : !near(it->second, v)) { check(false, what + ": determinant " + k + (it == got.end() ? " is missing" : " has the score " + std::to_string(it->second)) + ", expected " + std::to_string(v)); return; } }
  for(auto& [k, v] : got) if(!want.count(k)) { check(false, what + ": determinant " + k + " has no contribution"); return; }
}
template <size_t N> void distributed(size_t no, size_t na, size_t nb, int P, bool prune) {
  Sys<N> s(no); auto& h = *s.h; auto d = rdets<N>(no, na, nb, ri(1, 4)); std::vector<double> c; for(auto& x : d) { (void)x; c.push_back(rcoeff()); }
  ASCISettings st; st.pair_size_max = 200000; st.h_el_tol = rtol(); st.constraint_level = ri(0, 3); st.rv_prune_tol = 1e-12; bool hard = false; if(prune) { st.pair_size_max = ri(1, 60); hard = ri(0, 2); if(hard) st.rv_prune_tol = std::pow(10., -ri(1, 4)); }
  begin_case("N=" + std::to_string(N) + " distributed search of" + show_dets(d, c) + " norb " + std::to_string(no) + " threshold " + std::to_string(st.h_el_tol) + " processes " + std::to_string(P) + " level " + std::to_string(st.constraint_level) + (prune ? " limit " + std::to_string(st.pair_size_max) + " pruning " + std::to_string(st.rv_prune_tol) : ""));
  unsigned left = alarm(20); std::vector<Pairs<N>> out(P); sim::run(P, [&](int r) { out[r] = asci_contributions_constraint<N>(st, d.begin(), d.end(), s.E0, c, no, h.T(), h.G_red(), h.V_red(), h.G(), h.V(), h, MPI_COMM_WORLD); }); alarm(left);
  Sums want, got; for(size_t k = 0; k < d.size(); ++k) connected(d[k], no, [&](const W<N>& x, int a, int) { double e = s.el(x, d[k]); if(std::abs(a ? c[k] * e : e) >= st.h_el_tol) want[x.to_string()] += score(s, c[k], x, d[k]); });
  size_t n = 0; for(auto& p : out) for(auto& x : p) { ++n; got[x.state.to_string()] += x.rv; }
  check(n == got.size(), "a determinant is listed twice");
  if(!hard) compare(got, want, "distributed search", !prune); else for(auto& [k, v] : got) if(!want.count(k)) { check(false, "determinant " + k + " has no contribution"); break; }
}
template <size_t N> void pruned(size_t no, size_t na, size_t nb) {
  Sys<N> s(no); auto d = rdets<N>(no, na, nb, ri(1, 4)); std::vector<double> c; for(auto& x : d) { (void)x; c.push_back(rcoeff()); } ASCISettings st; st.pair_size_max = ri(1, 40); st.h_el_tol = rtol(); st.rv_prune_tol = 1e-12;
  begin_case("N=" + std::to_string(N) + " search of" + show_dets(d, c) + " norb " + std::to_string(no) + " threshold " + std::to_string(st.h_el_tol) + " limit " + std::to_string(st.pair_size_max));
  Sums want; for(size_t k = 0; k < d.size(); ++k) connected(d[k], no, [&](const W<N>& x, int, int) { if(std::abs(s.el(x, d[k])) >= st.h_el_tol) want[x.to_string()] += score(s, c[k], x, d[k]); });
  compare(sums<N>(standard(s, st, d, c)), want, "search with pruning", false);
}
void hv::run_all() {
  if(!spdlog::get("asci_search")) spdlog::null_logger_mt("asci_search");
  int n = g_thorough ? 1500 : 120;
  for(int i = 0; i < n; ++i) {
    size_t no = ri(1, 5); whole<64>(no, ri(0, no), ri(0, no)); no = ri(1, 5); whole<128>(no, ri(0, no), ri(0, no)); padded<64>(ri(1, 5)); padded<128>(ri(1, 5)); constrained<64>(ri(4, 7)); constrained<128>(ri(4, 7));
    if(i % 2 == 0) { no = ri(4, 6); distributed<64>(no, ri(3, no), ri(0, no), ri(1, 4), false); no = ri(4, 6); distributed<128>(no, ri(3, no), ri(0, no), ri(1, 4), false); for(int k = 0; k < 4; ++k) { no = ri(4, 6); distributed<64>(no, ri(3, no), ri(0, no), ri(1, 3), true); } no = ri(1, 5); pruned<64>(no, ri(0, no), ri(0, no)); }
    if(i % 60 == 0) { whole<64>(32, ri(1, 2), 2); whole<128>(34, 2, ri(1, 2)); whole<64>(5, 3, 2); }
  }
}
