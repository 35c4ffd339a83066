#include <macis/asci/determinant_sort.hpp>
#include <map>
#include "bits.hpp"
using namespace macis; using namespace hv;
template <size_t N> using P = asci_contrib<std::bitset<N>>;
template <size_t N> std::vector<P<N>> rlist() {
  size_t pool = ri(1, 12), n = ri(0, ri(0, 1) ? 40 : 6); std::vector<std::bitset<N>> d(pool); for(auto& x : d) x = rbits<N>();
  std::vector<P<N>> v(n); for(auto& x : v) { x.state = d[ri(0, pool - 1)]; x.rv = int(ri(0, 40)) - 20; } return v;
}
template <size_t N> bool ascending(const std::vector<P<N>>& v) { for(size_t i = 1; i < v.size(); ++i) if(!ref_less(v[i-1].state, v[i].state)) return false; return true; }
template <size_t N> void run() {
  auto v = rlist<N>(); std::string d = "N=" + std::to_string(N) + " n=" + std::to_string(v.size()) + ":"; for(auto& x : v) d += " " + std::to_string(x.rv) + "@" + std::to_string(std::hash<std::bitset<N>>()(x.state) % 10007);
  begin_case("merge " + d, v.size() > 1);
  std::map<std::bitset<N>, double, RefLess<N>> sum, big; for(auto& x : v) { sum[x.state] += x.rv; if(!big.count(x.state)) big[x.state] = x.rv; else big[x.state] = std::max(big[x.state], x.rv); }
  auto test = [&](const std::vector<P<N>>& o, auto& w, const char* what) {
    check(ascending(o), std::string(what) + ": ascending without repetition"); check(o.size() == w.size(), std::string(what) + ": number of entries");
    for(auto& x : o) check(w.count(x.state) && w[x.state] == x.rv, std::string(what) + ": score"); };
  auto a = v; sort_and_accumulate_asci_pairs(a); test(a, sum, "accumulate");
  auto b = v; keep_only_largest_copy_asci_pairs(b); test(b, big, "keep largest");
  auto c = v; size_t l = ri(0, c.size()), h = ri(l, c.size()); auto e = sort_and_accumulate_asci_pairs(c.begin() + l, c.begin() + h); std::map<std::bitset<N>, double, RefLess<N>> part; for(size_t i = l; i < h; ++i) part[v[i].state] += v[i].rv;
  test(std::vector<P<N>>(c.begin() + l, e), part, "accumulate range"); for(size_t i = 0; i < v.size(); ++i) if(i < l || i >= h) check(c[i].state == v[i].state && c[i].rv == v[i].rv, "outside the range");
  std::vector<std::bitset<N>> D; std::vector<double> C; std::multimap<double, std::string> w; for(auto& x : v) { D.push_back(x.state); C.push_back(x.rv); w.emplace(x.rv, x.state.to_string()); }
  reorder_ci_on_coeff(D, C); check(D.size() == v.size() && C.size() == v.size(), "reorder sizes"); for(size_t i = 1; i < C.size(); ++i) check(std::abs(C[i-1]) >= std::abs(C[i]), "reorder: descending magnitude");
  for(size_t i = 0; i < C.size(); ++i) { auto r = w.equal_range(C[i]); auto it = r.first; for(; it != r.second; ++it) if(it->second == D[i].to_string()) break; check(it != r.second, "reorder: determinant keeps its coefficient"); if(it != r.second) w.erase(it); }
}
void hv::run_all() { int n = g_thorough ? 20000 : 1500; for(int i = 0; i < n; ++i) { run<64>(); run<128>(); run<256>(); } }
