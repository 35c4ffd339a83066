#include "bits.hpp"
#include <set>
using namespace hv; using namespace macis;
template <size_t N> using BS = std::bitset<N>;
template <size_t N> using L = std::vector<BS<N>>;
using U = std::vector<uint32_t>;
// orbitals orbs of the block starting at lo: every move of n electrons
template <size_t N> L<N> moves(const BS<N>& s, const U& orbs, size_t lo, int n) {
  L<N> r; U o, v; for(auto x : orbs) (s[x + lo] ? o : v).push_back(x + lo);
  if(n == 1) for(auto a : o) for(auto b : v) { auto t = s; t[a] = 0; t[b] = 1; r.push_back(t); }
  if(n == 2) for(size_t i = 0; i < o.size(); ++i) for(size_t j = 0; j < i; ++j) for(size_t a = 0; a < v.size(); ++a) for(size_t b = 0; b < a; ++b) { auto t = s; t[o[i]] = t[o[j]] = 0; t[v[a]] = t[v[b]] = 1; r.push_back(t); }
  return r;
}
template <size_t N> void same(L<N> g, L<N> w, const char* what) {
  std::sort(g.begin(), g.end(), RefLess<N>{}); std::sort(w.begin(), w.end(), RefLess<N>{});
  if(g == w) return check(true, "");
  std::string m; for(auto& x : w) if(!std::binary_search(g.begin(), g.end(), x, RefLess<N>{})) { m = ", missing " + bs(x); break; }
  for(auto& x : g) if(!std::binary_search(w.begin(), w.end(), x, RefLess<N>{})) { m += ", extra " + bs(x); break; }
  for(size_t i = 1; i < g.size(); ++i) if(g[i] == g[i - 1]) { m += ", twice " + bs(g[i]); break; }
  check(false, std::string(what) + ": " + std::to_string(g.size()) + " determinants, expected " + std::to_string(w.size()) + m);
}
template <size_t N> BS<N> fill(size_t lo, size_t norb, size_t top = 14) { BS<N> s; int mode = ri(0, 5); for(size_t i = 0; i < norb; ++i) s[lo + i] = mode == 0 ? 1 : mode == 1 ? 0 : mode == 2 ? ri(0, 3) == 0 : mode == 3 ? ri(0, 3) != 0 : ri(0, 1);
  // long ranges: keep the lists small by leaving few orbitals of one kind
  if(norb > top) { bool few = ri(0, 1); for(size_t i = 0; i < norb; ++i) s[lo + i] = !few; for(int k = ri(0, 3); k-- > 0;) s[lo + ri(0, norb - 1)] = few; if(ri(0, 1)) s[lo + norb - 1] = few; }
  return s; }
template <size_t N> std::string in(const BS<N>& s, size_t norb) { return "N=" + std::to_string(N) + " norb=" + std::to_string(norb) + " state=" + bs(s); }
U range(size_t n) { U r(n); for(size_t i = 0; i < n; ++i) r[i] = i; return r; }
U subset(size_t n) { U r; for(size_t i = 0; i < n; ++i) if(ri(0, 3)) r.push_back(i); std::shuffle(r.begin(), r.end(), rng()); return r; }
size_t rnorb(size_t M) { return ri(0, 5) == 0 ? size_t(M) : ri(0, 4) == 0 ? size_t(ri(0, M)) : size_t(ri(0, std::min<size_t>(M, 9))); }
template <size_t N> void plain() {
  size_t norb = rnorb(N); auto s = fill<N>(0, norb); auto all = range(norb);
  begin_case("excitations " + in(s, norb), s.any());
  U o{7}, v{3, 9}, wo, wv; for(auto x : all) (s[x] ? wo : wv).push_back(x);
  bitset_to_occ_vir(norb, s, o, v); check(o == wo, "occupied orbitals"); check(v == wv, "virtual orbitals");
  L<N> a(3), b(2), c, d; generate_singles_doubles(norb, s, a, b); same(a, moves(s, all, 0, 1), "generate_singles_doubles singles"); same(b, moves(s, all, 0, 2), "generate_singles_doubles doubles");
  generate_singles(norb, s, c); generate_doubles(norb, s, d); same(c, moves(s, all, 0, 1), "generate_singles"); same(d, moves(s, all, 0, 2), "generate_doubles");
  if(norb <= 14) {
    auto as = subset(norb); generate_singles_doubles_as(norb, s, a, b, as); same(a, moves(s, as, 0, 1), "generate_singles_doubles_as singles"); same(b, moves(s, as, 0, 2), "generate_singles_doubles_as doubles");
    generate_singles_as(norb, s, c, as); same(c, moves(s, as, 0, 1), "generate_singles_as");
  }
}
template <size_t N> L<N> cross(const BS<N>& s, const U& orbs) { L<N> r; for(auto& x : moves(s, orbs, 0, 1)) for(auto& y : moves(x, orbs, N / 2, 1)) r.push_back(y); return r; }
template <size_t N> L<N> cat(L<N> a, const L<N>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
template <size_t N> void spin() {
  size_t norb = rnorb(N / 2); if(norb > 14 && ri(0, 3)) norb = ri(1, 8); auto s = fill<N>(0, norb, 8) | fill<N>(N / 2, norb, 8); auto all = range(norb);
  begin_case("spin-resolved excitations " + in(s, norb), s.any());
  auto w1 = cat(moves(s, all, 0, 1), moves(s, all, N / 2, 1)), w2 = cat(cat(moves(s, all, 0, 2), moves(s, all, N / 2, 2)), cross(s, all));
  L<N> a(3), b(2); generate_singles_doubles_spin(norb, s, a, b); same(a, w1, "generate_singles_doubles_spin singles"); same(b, w2, "generate_singles_doubles_spin doubles");
  generate_singles_spin(norb, s, a); same(a, w1, "generate_singles_spin");
  auto c1 = generate_cis_hilbert_space(norb, s), c2 = generate_cisd_hilbert_space(norb, s); check(!c1.empty() && c1[0] == s, "reference of the CIS list"); check(!c2.empty() && c2[0] == s, "reference of the CISD list");
  same(c1, cat(L<N>{s}, w1), "CIS list"); same(c2, cat(cat(L<N>{s}, w1), w2), "CISD list");
  if(norb <= 9) { auto as = subset(norb); generate_singles_doubles_spin_as(norb, s, a, b, as); same(a, cat(moves(s, as, 0, 1), moves(s, as, N / 2, 1)), "generate_singles_doubles_spin_as singles"); same(b, cat(cat(moves(s, as, 0, 2), moves(s, as, N / 2, 2)), cross(s, as)), "generate_singles_doubles_spin_as doubles");
    generate_singles_spin_as(norb, s, a, as); same(a, cat(moves(s, as, 0, 1), moves(s, as, N / 2, 1)), "generate_singles_spin_as"); }
}
template <size_t N> void ref() {
  uint32_t na = ri(0, N / 2), nb = ri(0, N / 2); begin_case("reference determinant N=" + std::to_string(N) + " " + std::to_string(na) + "+" + std::to_string(nb));
  BS<N> w; for(uint32_t i = 0; i < na; ++i) w[i] = 1; for(uint32_t i = 0; i < nb; ++i) w[N / 2 + i] = 1;
  check(canonical_hf_determinant<N>(na, nb) == w, "canonical_hf_determinant gave " + bs(canonical_hf_determinant<N>(na, nb)));
  size_t no = ri(std::max(na, nb), N / 2); std::vector<double> e(no); for(auto& x : e) x = ri(0, 12) * 0.5 - 3;
  auto g = canonical_hf_determinant<N>(na, nb, e);
  for(int sp = 0; sp < 2; ++sp) { uint32_t n = sp ? nb : na, c = 0; double mo = -1e9, mv = 1e9; for(size_t i = 0; i < N / 2; ++i) if(g[i + sp * N / 2]) { ++c; check(i < no, "occupied orbital out of range"); if(i < no) mo = std::max(mo, e[i]); } else if(i < no) mv = std::min(mv, e[i]);
    check(c == n, "electron count by energy"); check(mo <= mv, "an occupied orbital lies above a virtual one"); }
  size_t nn = ri(0, 7), k = ri(0, nn), l = ri(0, nn); auto cb = generate_combs<N>(nn, k); L<N> wc; for(uint64_t m = 0; m < (1ull << nn); ++m) if(size_t(__builtin_popcountll(m)) == k) wc.push_back(BS<N>(m)); same(cb, wc, "generate_combs");
  { size_t wide = ri(1, N / 2); bool two = ri(0, 1) && wide > 1; auto cw = generate_combs<N>(wide, two ? 2 : 1); L<N> ww; for(size_t p = 0; p < wide; ++p) { if(!two) ww.push_back(BS<N>().set(p)); else for(size_t q = p + 1; q < wide; ++q) ww.push_back(BS<N>().set(p).set(q)); } same(cw, ww, "generate_combs over many orbitals");
    if(wide <= 40) { auto hw = generate_hilbert_space<N>(wide, 1, 1); ww.clear(); for(size_t p = 0; p < wide; ++p) for(size_t q = 0; q < wide; ++q) ww.push_back(BS<N>().set(p).set(q + N / 2)); same(hw, ww, "generate_hilbert_space over many orbitals"); } }
  auto h = generate_hilbert_space<N>(nn, k, l); L<N> wh; for(auto& x : wc) for(uint64_t m = 0; m < (1ull << nn); ++m) if(size_t(__builtin_popcountll(m)) == l) wh.push_back(x | (BS<N>(m) << (N / 2))); same(h, wh, "generate_hilbert_space");
  BS<N> s = fill<N>(0, 6) | fill<N>(N / 2, 6); L<N> r, wr; generate_residues(s, r); U p = positions(s); for(size_t i = 0; i < p.size(); ++i) for(size_t j = 0; j < i; ++j) { auto t = s; t[p[i]] = t[p[j]] = 0; wr.push_back(t); } same(r, wr, "generate_residues");
}
void hv::run_all() {
  int n = g_thorough ? 2000 : 120;
  for(int k = 0; k < n; ++k) { plain<32>(); plain<64>(); plain<128>(); plain<96>(); spin<64>(); spin<128>(); ref<64>(); ref<128>(); }
}
