// Replay support: runs the real code from /repo on concrete inputs and compares with the property's definition.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <unistd.h>
#include <signal.h>
#if HV_ASAN
#include <sanitizer/common_interface_defs.h>
#endif
namespace hv {
inline std::string g_case = "(setup)";
inline uint64_t g_cases = 0, g_nontrivial = 0;
inline std::vector<std::string> g_samples;
inline bool g_thorough = false;
inline void dump() { std::printf("\nFAILING-INPUT %s\n", g_case.c_str()); std::fflush(stdout); }
inline void on_death() { std::printf("\nFAIL crash or memory error in the code under test\n"); dump(); }
inline void on_sig(int s) { std::printf("\nFAIL signal %d in the code under test\n", s); dump(); _exit(1); }
[[noreturn]] inline void fail(const std::string& what) {
  std::printf("FAIL %s\n", what.c_str()); dump(); std::fflush(stdout); _exit(1);
}
inline void check(bool ok, const std::string& what) { if(!ok) fail(what); }
inline std::mt19937_64& rng() { static std::mt19937_64 g; return g; }
inline int64_t ri(int64_t a, int64_t b) { return a + (int64_t)(rng()() % (uint64_t)(b - a + 1)); }
// values exactly representable: arithmetic on them is exact in double
inline double rv() { double v = (double)ri(-9, 9); return v == 0 ? 10.0 : v; }
inline double rd() { return std::uniform_real_distribution<double>(-1., 1.)(rng()); }
inline void begin_case(const std::string& s, bool nontrivial = true) {
  g_case = s; ++g_cases; if(nontrivial) ++g_nontrivial;
  if(g_samples.size() < 3 && nontrivial && (g_nontrivial == 1 || g_nontrivial == 40 || g_nontrivial == 400)) g_samples.push_back(s.substr(0, 400));
}
template <class V> std::string show(const V& v) { std::ostringstream o; o << "["; bool f = true; for(const auto& x : v) { if(!f) o << ","; f = false; o << x; } o << "]"; return o.str(); }
inline bool near(double a, double b, double scale = 1.0) {
  if(std::isnan(a) || std::isnan(b)) return false;
  return std::abs(a - b) <= 1e-9 * (1.0 + std::abs(scale) + std::abs(a) + std::abs(b));
}
template <class F> bool throws(F&& f) { try { f(); } catch(const std::exception&) { return true; } return false; }
void run_all();
inline int entry(int argc, char** argv) {
  uint64_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
  g_thorough = argc > 2 && std::string(argv[2]) == "thorough";
  rng().seed(seed * 7919 + 13);
#if HV_ASAN
  __sanitizer_set_death_callback(on_death);
#else
  for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_sig);
#endif
  signal(SIGABRT, on_sig);
  signal(SIGALRM, on_sig);
  alarm(g_thorough ? 600 : 120);
  try { run_all(); }
  catch(const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
  std::printf("OK cases=%llu nontrivial=%llu\n", (unsigned long long)g_cases, (unsigned long long)g_nontrivial);
  for(auto& s : g_samples) std::printf("SAMPLE %s\n", s.c_str());
  std::fflush(stdout);
  _exit(0);
}
}  // namespace hv
#ifndef HV_NO_MAIN
int main(int argc, char** argv) { return hv::entry(argc, argv); }
#endif
