// orbital-space tensors with arbitrary leading dimensions; elements outside the addressed block are poisoned
#pragma once
#include "common.hpp"
#include <limits>
#include <macis/types.hpp>
namespace hv {
using macis::NumActive; using macis::NumInactive; using macis::NumOrbital; using macis::NumVirtual;
inline const double NaN = std::numeric_limits<double>::quiet_NaN();
// column-major tensor of rank R with equal leading dimension; only indices below ext[k] are addressable
template <int R> struct Ten {
  std::array<size_t, R> ext; size_t ld; std::vector<double> a, old;
  Ten(std::array<size_t, R> e, size_t slack, bool out) : ext(e) {
    ld = 1; for(int k = 0; k < R; ++k) if(k < R - 1 || R == 1) ld = std::max(ld, e[k]);
    ld += slack;
    size_t n = 1; for(int k = 0; k < R - 1; ++k) n *= ld;
    n *= e[R - 1]; a.assign(n + 1, out ? 77.25 : NaN);
    if(!out) each([&](auto& ix) { (*this)(ix) = rv(); });
    if(out) old = a;
  }
  size_t off(const std::array<size_t, R>& ix) const { size_t o = 0, s = 1; for(int k = 0; k < R; ++k) { o += ix[k] * s; s *= ld; } return o; }
  double& operator()(const std::array<size_t, R>& ix) { return a[off(ix)]; }
  template <class... I> double& operator()(I... i) { return a[off({(size_t)i...})]; }
  template <class F> void each(F f) {
    std::array<size_t, R> ix{}; for(auto e : ext) if(!e) return;
    while(true) { f(ix); int k = 0; while(k < R && ++ix[k] == ext[k]) ix[k++] = 0; if(k == R) return; }
  }
  double* data() { return a.data(); }
  // every block element equals f(ix), everything else is as before
  template <class F> void expect(const char* what, F f) {
    std::vector<double> w = old; each([&](auto& ix) { w[off(ix)] = f(ix); });
    for(size_t i = 0; i < w.size(); ++i) if(!near(a[i], w[i])) { std::ostringstream o; o << what << " at flat offset " << i << ": got " << a[i] << " expected " << w[i] << " (ld " << ld << ")"; fail(o.str()); }
  }
};
using Mat2 = Ten<2>; using Ten4 = Ten<4>;
struct Part { size_t ni, na, nv, no; };
inline Part rpart(int k) {
  Part p; p.ni = ri(0, 2); p.na = ri(0, 3); p.nv = ri(0, 2);
  if(k == 0) p = {0, 1, 0, 0}; if(k == 1) p = {1, 0, 1, 0}; if(k == 2) p = {2, 3, 1, 0};
  p.no = p.ni + p.na + p.nv; if(!p.no) { p.nv = 1; p.no = 1; }
  return p;
}
inline size_t sl() { return ri(0, 2) ? ri(1, 3) : 0; }
inline std::string pstr(const Part& p) { std::ostringstream o; o << "ni=" << p.ni << " na=" << p.na << " nv=" << p.nv; return o.str(); }
}  // namespace hv
