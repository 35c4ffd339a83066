// C24: distributed selection on any number of processes (threads behind the MPI calls) against the sorted data.
#include "simmpi.hpp"
#include <macis/util/dist_quickselect.hpp>
using namespace macis; using namespace hv;
template <class T> using Parts = std::vector<std::vector<T>>;
template <class T, class O, class E, class V> void select_case(const Parts<T>& d, int k, O ord, E eq, V val, const std::string& nm) {
  int P = d.size(); std::vector<T> all; std::string s = nm + " k=" + std::to_string(k) + " data"; for(auto& x : d) { all.insert(all.end(), x.begin(), x.end()); s += show(x); } begin_case(s, P > 1);
  std::stable_sort(all.begin(), all.end(), ord); std::vector<T> res(P); auto copy = d; std::vector<int> same(P, 1);
  sim::run(P, [&](int r) { res[r] = dist_quickselect(copy[r].begin(), copy[r].end(), k, MPI_COMM_WORLD, ord, eq); });
  for(int r = 0; r < P; ++r) { check(res[r] == res[0], "the processes return different elements"); auto a = copy[r], b = d[r]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); check(a == b, "the local data is not a rearrangement of the input"); }
  check(std::find(all.begin(), all.end(), res[0]) != all.end(), "the result is not one of the elements");
  check(!ord(res[0], all[k - 1]) && !ord(all[k - 1], res[0]), "the result does not have rank k: " + std::to_string(val(res[0])) + " expected " + std::to_string(val(all[k - 1])));
}
template <class T> Parts<T> spread(int P, int total, int distinct, bool last) {
  Parts<T> d(P); int mode = ri(0, 3); for(int i = 0; i < total; ++i) d[mode == 0 ? ri(0, P - 1) : mode == 1 ? (last ? P - 1 : 0) : mode == 2 ? std::min<int64_t>(ri(0, P - 1), ri(0, P - 1)) : ri(0, P - 1) / 2 * 2].push_back(T(ri(-distinct, distinct))); return d;
}
template <class T> void all_ranks(const Parts<T>& d, const std::string& nm) {
  int n = 0; for(auto& x : d) n += x.size(); auto id = [](T x) { return double(x); };
  for(int k = 1; k <= n; ++k) {
    if(n > 12 && k > 2 && k < n - 1 && ri(0, n / 6)) continue;
    select_case(d, k, std::less<T>{}, std::equal_to<T>{}, id, nm + " less"); select_case(d, k, std::greater<T>{}, std::equal_to<T>{}, id, nm + " greater");
    // equivalence classes instead of equal elements
    select_case(d, k, [](T a, T b) { return std::abs(double(a)) < std::abs(double(b)); }, [](T a, T b) { return std::abs(double(a)) == std::abs(double(b)); }, id, nm + " by magnitude");
  }
}
static void leg_case(int n, int lo, int hi, int distinct, int pivot) {
  std::vector<std::pair<int, int>> v(n); for(int i = 0; i < n; ++i) v[i] = {int(ri(0, distinct)), i}; auto w = v;
  std::string s = "leg_partition pivot=" + std::to_string(pivot) + " range=[" + std::to_string(lo) + "," + std::to_string(hi) + ") data="; for(auto& x : v) s += std::to_string(x.first) + ","; begin_case(s, hi > lo);
  auto [b, e, g, x] = leg_partition(v.begin() + lo, v.begin() + hi, pivot, [](auto& a, auto p) { return a.first < p; }, [](auto& a, auto p) { return a.first == p; });
  check(b == v.begin() + lo && x == v.begin() + hi && b <= e && e <= g && g <= x, "the parts do not tile the range");
  for(auto i = b; i != e; ++i) check(i->first < pivot, "an element of the first part is not below the pivot"); for(auto i = e; i != g; ++i) check(i->first == pivot, "an element of the middle part is not the pivot"); for(auto i = g; i != x; ++i) check(i->first > pivot, "an element of the last part is not above the pivot");
  for(int i = 0; i < n; ++i) if(i < lo || i >= hi) check(v[i] == w[i], "an element outside the range changed"); std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); check(v == w, "elements were lost or repeated");
}
template <class I> void gather_case(int P, int64_t big) {
  std::vector<I> val(P); for(auto& x : val) x = I(ri(0, big)); if(ri(0, 3) == 0) val[ri(0, P - 1)] = 0; begin_case("total_gather_and_exclusive_scan P=" + std::to_string(P) + " values=" + show(val), P > 1);
  Parts<I> g(P), s(P); std::vector<I> t(P); for(int r = 0; r < P; ++r) g[r].resize(ri(0, 5)), s[r].resize(ri(0, 5));
  sim::run(P, [&](int r) { t[r] = total_gather_and_exclusive_scan(val[r], g[r], s[r], MPI_COMM_WORLD); });
  for(int r = 0; r < P; ++r) { check(g[r] == val, "gathered values differ from what the processes passed: " + show(g[r])); I acc = 0; check(int(s[r].size()) == P, "number of offsets"); for(int k = 0; k < P; ++k) { check(s[r][k] == acc, "offset " + std::to_string(k) + " is not the sum of the values before: " + show(s[r])); acc += val[k]; } check(t[r] == acc, "total"); }
}
void hv::run_all() {
  const int rounds = g_thorough ? 12 : 1;
  for(int q = 0; q < rounds; ++q) {
    for(int it = 0; it < 300; ++it) { int n = ri(0, 12), lo = ri(0, n), hi = ri(lo, n), m = ri(0, 4); leg_case(n, lo, hi, m, ri(-1, m + 1)); }
    for(int P : {1, 2, 3, 5, 8}) for(int it = 0; it < 6; ++it) { gather_case<int>(P, 1000); gather_case<size_t>(P, 1000); gather_case<size_t>(P, int64_t(1) << 40); gather_case<size_t>(P, int64_t(1) << 31); }
    for(int P : {1, 2, 3, 4, 7}) for(int total : {1, 2, 3, 5, 9, 20, 60}) for(int m : {0, 1, 3, 50}) { all_ranks(spread<int>(P, total, m, m & 1), "int"); if(m == 3) all_ranks(spread<double>(P, total, m, true), "double"); }
    for(int P : {2, 6}) { auto d = spread<double>(P, 400, 1000, true); for(auto& x : d) for(auto& y : x) y = rd(); all_ranks(d, "double"); }
  }
}
