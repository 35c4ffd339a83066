#include "common.hpp"
#include <macis/util/detail/rdm_files.hpp>
#include <cstdlib>
#include <cstring>
#include <limits>
using namespace hv;
static double value() {
  int k = ri(0, 40);
  if(k == 0) return -0.0;
  if(k == 1) return std::numeric_limits<double>::infinity();
  if(k == 2) return std::numeric_limits<double>::denorm_min();
  if(k == 3) return std::numeric_limits<double>::quiet_NaN();
  return ri(-1000000, 1000000) / 7.;
}
static bool bits_equal(double a, double b) { return !std::memcmp(&a, &b, sizeof a); }
// n^d block of a column-major buffer with leading dimension ld, the last dimension n
struct Block {
  size_t n, ld; int d; std::vector<double> x;
  Block(size_t n, size_t ld, int d) : n(n), ld(ld), d(d) { size_t s = n ? n : 1; for(int k = 1; k < d; ++k) s *= ld; x.resize(s); for(auto& v : x) v = value(); }
  bool inside(size_t t, size_t* ix) const { for(int k = 0; k < d; ++k) { ix[k] = k + 1 < d ? t % ld : t; t /= ld; if(ix[k] >= n) return false; } return true; }
  double at(const size_t* ix) const { size_t o = 0, s = 1; for(int k = 0; k < d; ++k) { o += ix[k] * s; s *= ld; } return x[o]; }
};
static void same(const Block& got, const Block& before, const Block& want, const char* what) {
  size_t ix[4];
  for(size_t t = 0; t < got.x.size(); ++t) {
    std::ostringstream o; bool in = got.inside(t, ix); double w = in ? want.at(ix) : before.x[t];
    if(!bits_equal(got.x[t], w)) { o << what << (in ? " differs at" : ": the buffer outside the matrix is changed at offset "); if(in) for(int k = 0; k < got.d; ++k) o << " " << ix[k]; else o << t; o << " (" << got.x[t] << ", expected " << w << ")"; fail(o.str()); return; }
  }
}
void hv::run_all() {
  std::string dir = std::getenv("HV_DIR") ? std::getenv("HV_DIR") : ".", file = dir + "/rdms.bin";
  int N = g_thorough ? 1500 : 250;
  for(int k = 0; k < N; ++k) {
    size_t n = k < 6 ? k : ri(0, k % 9 == 0 ? 9 : 6), m = k % 4 == 3 ? ri(0, 6) : n;
    auto slack = [&] { return ri(0, 2) ? size_t(ri(0, 4)) : size_t(0); };
    Block D1(n, n + 1 - (n > 0) + slack(), 2), D2(n, n + 1 - (n > 0) + slack(), 4), E1(m, m + 1 - (m > 0) + slack(), 2), E2(m, m + 1 - (m > 0) + slack(), 4); const Block d1 = D1, d2 = D2, e1 = E1, e2 = E2;
    std::ostringstream o; o << "norb=" << n << " ldD1=" << D1.ld << " ldD2=" << D2.ld << "; reader norb=" << m << " ldD1=" << E1.ld << " ldD2=" << E2.ld; begin_case(o.str(), n > 1);
    if(k % 5 == 0) { Block big(n + 1, n + 1, 4); macis::write_rdms_binary(file, n + 1, big.x.data(), n + 1, big.x.data(), n + 1); }      // an older, longer file
    macis::write_rdms_binary(file, n, D1.x.data(), D1.ld, D2.x.data(), D2.ld);
    same(D1, d1, d1, "one-particle matrix given to the writer"); same(D2, d2, d2, "two-particle matrix given to the writer");
    if(m != n) { check(throws([&] { macis::read_rdms_binary(file, m, E1.x.data(), E1.ld, E2.x.data(), E2.ld); }), "a file for another orbital count is accepted"); continue; }
    macis::read_rdms_binary(file, m, E1.x.data(), E1.ld, E2.x.data(), E2.ld);
    same(E1, e1, d1, "one-particle matrix"); same(E2, e2, d2, "two-particle matrix");
  }
}
