#include <macis/asci/determinant_sort.hpp>
#include <macis/asci/mask_constraints.hpp>
#include "bits.hpp"
using namespace macis; using namespace hv;
static int g_rank = 0, g_size = 1;   // any rank of any communicator size, without a launcher
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = g_rank; return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int* s) { *s = g_size; return 0; }
template <size_t N> using W = std::bitset<N>;
template <size_t N> using L = std::set<std::string>;
template <size_t N> bool sat(W<N> d, W<N> C) { int m = 0; while(!C[m]) ++m; for(size_t k = 0; k < N; ++k) if((C[k] && !d[k]) || (int(k) >= m && d[k] && !C[k])) return false; return true; }
template <size_t N> void excitations(W<N> d, size_t norb, std::vector<W<N>>& s, std::vector<W<N>>& t) {
  std::vector<size_t> o, v; for(size_t k = 0; k < norb; ++k) (d[k] ? o : v).push_back(k);
  for(size_t i = 0; i < o.size(); ++i) for(size_t a = 0; a < v.size(); ++a) { auto x = d; x.flip(o[i]).flip(v[a]); s.push_back(x);
    for(size_t j = i + 1; j < o.size(); ++j) for(size_t b = a + 1; b < v.size(); ++b) { auto y = x; y.flip(o[j]).flip(v[b]); t.push_back(y); } } }
template <size_t N> W<N> low(size_t n) { W<N> b; for(size_t k = 0; k < n; ++k) b[k] = 1; return b; }
template <size_t N> void same(std::vector<W<N>>& got, const std::vector<W<N>>& all, W<N> C, const char* what) {
  std::set<std::string> want, g; for(auto& x : all) if(sat(x, C)) want.insert(x.to_string()); for(auto& x : got) g.insert(x.to_string());
  check(g.size() == got.size(), std::string(what) + ": an excitation is listed twice"); check(g == want, std::string(what) + ": the list is not the set of excitations that satisfy the constraint"); }
template <size_t N> void one(size_t norb) {
  size_t base = ri(0, 3) ? 0 : norb - std::min<size_t>(norb, 8); W<N> d, C; for(size_t k = 0; k < norb; ++k) d[k] = k < base ? ri(0, 9) == 0 : ri(0, 1);
  if(norb > 16 || ri(0, 1)) { d.reset(); size_t n = ri(3, 5); for(size_t i = 0; i < n; ++i) d[ri(0, 3) ? ri(base, norb - 1) : ri(0, norb - 1)] = 1; }
  size_t n = ri(3, 4); n = ri(0, 5) ? n : 5; if(n > norb) n = 3;
  std::vector<size_t> occ; for(size_t k = norb; k-- > 0;) if(d[k]) occ.push_back(k);
  if(ri(0, 2) && occ.size() >= n) { size_t s = ri(0, 1) ? 0 : ri(0, occ.size() - n); for(size_t i = 0; i < n; ++i) C[occ[s + i]] = 1; int e = ri(0, 2); for(int z = 0; z < e; ++z) { for(size_t k = 0; k < norb; ++k) if(C[k] && ri(0, 1)) { size_t q = ri(0, norb - 1); if(!C[q]) { C[k] = 0; C[q] = 1; } break; } } }
  else while(C.count() < n) C[ri(0, 2) ? ri(base, norb - 1) : ri(0, norb - 1)] = 1;
  int m = 0; while(!C[m]) ++m; auto O = low<N>(norb), B = low<N>(m);
  begin_case("N=" + std::to_string(N) + " norb=" + std::to_string(norb) + " det " + show(positions(d)) + " constraint " + show(positions(C)));
  std::vector<W<N>> s, t, gs{d, C}, gt{d}; excitations(d, norb, s, t);
  check(satisfies_constraint(d, C, m) == sat(d, C), "satisfies_constraint");
  generate_constraint_singles(d, C, O, B, gs); same(gs, s, C, "singles"); generate_constraint_doubles(d, C, O, B, gt); same(gt, t, C, "doubles");
  check(count_constraint_singles(d, C, O, B) == gs.size(), "number of singles"); check(count_constraint_doubles(d, C, O, B) == gt.size(), "number of doubles");
  size_t a = ri(0, 9), b = ri(0, 9); check(constraint_histogram(d, a, b, C, O, B) == gs.size() + gt.size() + gs.size() * a + (sat(d, C) ? a + b + 1 : 0), "histogram");
  auto [o, v] = generate_constraint_single_excitations(d, C, O, B); auto [Ol, Vl] = generate_constraint_double_excitations(d, C, O, B); check(o.count() * v.count() == gs.size() && Ol.size() * Vl.size() == gt.size(), "set sizes");
}
template <size_t N> void masks(size_t norb) {
  std::set<size_t> q; while(q.size() < 4) q.insert(ri(0, norb - 1)); std::vector<size_t> x(q.rbegin(), q.rend()); begin_case("N=" + std::to_string(N) + " make_triplet/make_quad " + show(x));
  auto t = make_triplet<N>(x[0], x[1], x[2]); W<N> w; w[x[0]] = w[x[1]] = w[x[2]] = 1; check(t.C == w && t.B == low<N>(x[2]) && t.C_min == x[2], "triplet"); w[x[3]] = 1; auto u = make_quad<N>(x[0], x[1], x[2], x[3]); check(u.C == w && u.B == low<N>(x[3]) && u.C_min == x[3], "quad"); }
template <size_t N> void dist(size_t norb, size_t ne, size_t levels, int np) {
  std::vector<W<N>> roots(ri(1, 3)); for(auto& r : roots) while(r.count() < ne) r[ri(0, norb - 1)] = 1; size_t a = ri(0, 5), b = ri(0, 5);
  std::string s; for(auto& r : roots) s += show(positions(r)); begin_case("N=" + std::to_string(N) + " dist_constraint_general levels " + std::to_string(levels) + " norb " + std::to_string(norb) + " ranks " + std::to_string(np) + " other-spin singles/doubles " + std::to_string(a) + "/" + std::to_string(b) + " roots " + s);
  std::vector<W<N>> all; std::set<std::string> reach; g_size = np; bool equal = true;
  for(g_rank = 0; g_rank < np; ++g_rank) { auto c = dist_constraint_general<N>(levels, norb, a, b, roots, MPI_COMM_WORLD); for(auto& x : c) { int m = 0; while(!x.C[m]) ++m; check(int(x.C_min) == m && x.B == low<N>(m), "constraint fields"); all.push_back(x.C); } }
  std::vector<W<N>> seen; for(auto& r : roots) { std::vector<W<N>> e{r}; if(a + b == 0 && false) e.clear(); excitations(r, norb, e, e); for(auto& x : e) if(reach.insert(x.to_string()).second) seen.push_back(x); }
  for(auto& x : seen) { int n = 0; for(auto& c : all) n += sat(x, c); check(n == 1, "a determinant the search reaches satisfies " + std::to_string(n) + " of the distributed constraints: " + show(positions(x))); } (void)equal; }
void hv::run_all() {
  int n = g_thorough ? 20000 : 1500;
  for(int i = 0; i < n; ++i) { size_t norb = ri(0, 1) ? ri(4, 9) : 12; one<64>(norb); one<128>(norb); if(i % 100 == 0) { one<64>(64); one<128>(ri(65, 128)); one<256>(ri(65, 140)); } masks<64>(64); masks<128>(128); masks<256>(200); }
  for(int i = 0; i < n / 10; ++i) { size_t lv = ri(0, 3); size_t norb = ri(5, 8); dist<64>(norb, ri(3, norb), lv, ri(1, 5)); dist<128>(norb, ri(3, norb), lv, ri(1, 5)); }
}
