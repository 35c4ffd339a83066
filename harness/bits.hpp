#pragma once
#include "common.hpp"
#include <macis/bitset_operations.hpp>
#include <macis/sd_operations.hpp>
namespace hv {
template <size_t N> std::bitset<N> rbits(int mode = -1) {
  std::bitset<N> b;
  if(mode < 0) mode = ri(0, 7);
  switch(mode) {
    case 0: for(size_t i = 0; i < N; ++i) b[i] = ri(0, 1); break;
    case 1: b[ri(0, N - 1)] = 1; break;
    case 2: for(size_t i = 0; i < N; ++i) b[i] = ri(0, 9) == 0; break;
    case 3: for(size_t i = 0; i < N; ++i) b[i] = ri(0, 9) != 0; break;
    case 4: { size_t a = ri(0, N - 1), c = ri(0, N - 1); if(a > c) std::swap(a, c); for(size_t i = a; i <= c; ++i) b[i] = 1; break; }
    case 5: b[ri(0, 3) ? (ri(0, 1) ? N / 2 : N / 2 - 1) : N - 1] = 1; if(ri(0, 1)) b[ri(0, N - 1)] = 1; break;
    case 6: { size_t lo = ri(0, 1) ? N / 2 : 0; for(size_t i = lo; i < lo + N / 2; ++i) b[i] = ri(0, 1); break; }
    case 7: for(size_t i = 0; i < N; ++i) b[i] = i % 32 == 31 || i % 32 == 0 ? ri(0, 1) : 0; break;
  }
  return b;
}
template <size_t N> std::string bs(const std::bitset<N>& b) { return b.to_string(); }
template <size_t N> std::vector<uint32_t> positions(const std::bitset<N>& b) { std::vector<uint32_t> r; for(size_t i = 0; i < N; ++i) if(b.test(i)) r.push_back(i); return r; }
template <size_t N> bool ref_less(const std::bitset<N>& a, const std::bitset<N>& b) { for(size_t i = N; i-- > 0;) if(a.test(i) != b.test(i)) return b.test(i); return false; }
template <size_t N> struct RefLess { bool operator()(const std::bitset<N>& a, const std::bitset<N>& b) const { return ref_less(a, b); } };
}
