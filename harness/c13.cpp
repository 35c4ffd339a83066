#include "bits.hpp"
#include <macis/wavefunction_io.hpp>
using namespace hv; using namespace macis;
template <size_t N> void one(std::bitset<N> s) {
  begin_case("string of N=" + std::to_string(N) + " state=" + bs(s), s.any());
  std::string w; for(size_t i = 0; i < N / 2; ++i) w += s.test(i) ? (s.test(i + N / 2) ? '2' : 'u') : (s.test(i + N / 2) ? 'd' : '0');
  auto g = to_canonical_string(s);
  check(g == w, "to_canonical_string gave " + g + " expected " + w);
  check(from_canonical_string<N>(g) == s, "parsing " + g + " gave " + bs(from_canonical_string<N>(g)));
  size_t n = ri(0, N / 2); std::bitset<N> t; for(size_t i = 0; i < n; ++i) { t[i] = s[i]; t[i + N / 2] = s[i + N / 2]; }
  check(from_canonical_string<N>(w.substr(0, n)) == t, "parsing the prefix " + w.substr(0, n));
}
template <size_t N> void file(int k) {
  std::vector<std::bitset<N>> d; std::vector<double> c; int n = ri(1, 12);
  for(int i = 0; i < n; ++i) { d.push_back(rbits<N>()); c.push_back(ri(0, 1) ? rd() : rd() * 1e-9); }
  begin_case("wave function file N=" + std::to_string(N) + " with " + std::to_string(n) + " determinants, first " + bs(d[0]));
  std::string f = std::string(std::getenv("HV_DIR") ? std::getenv("HV_DIR") : "/tmp") + "/wfn" + std::to_string(k) + ".dat";
  write_wavefunction(f, N / 2, d, c);
  std::vector<std::bitset<N>> e(3); std::vector<double> g(2); read_wavefunction(f, e, g); ::unlink(f.c_str());
  check(e == d, "determinants read back differ"); check(g.size() == c.size(), "coefficient count");
  for(size_t i = 0; i < c.size(); ++i) check(std::abs(g[i] - c[i]) <= 1e-15 * std::abs(c[i]), "coefficient read back differs");
}
void hv::run_all() {
  int n = g_thorough ? 20000 : 2000;
  for(int k = 0; k < n; ++k) { one<64>(rbits<64>()); one<128>(rbits<128>()); }
  for(int k = 0; k < n / 100; ++k) { file<64>(k); file<128>(k); }
}
