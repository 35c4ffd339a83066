// random integrals and determinants for the Hamiltonian generator
#pragma once
#include "bits.hpp"
#include <macis/hamiltonian_generator/double_loop.hpp>
namespace hv {
using namespace macis;
struct Ints {
  size_t no; std::vector<double> T, V, V0, T0;
  Ints(size_t n, bool symmetric) : no(n), T(n * n), V(n * n * n * n) {
    for(auto& x : T) x = rd(); for(auto& x : V) x = rd();
    if(symmetric) {
      for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) t(i, j) = t(j, i);
      for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) for(size_t k = 0; k < n; ++k) for(size_t l = 0; l <= k; ++l)
        if(i * n + j <= k * n + l) { double x = rd(); v(i, j, k, l) = v(j, i, k, l) = v(i, j, l, k) = v(j, i, l, k) = v(k, l, i, j) = v(l, k, i, j) = v(k, l, j, i) = v(l, k, j, i) = x; }
    }
    V0 = V; T0 = T;
  }
  double& t(size_t i, size_t j) { return T[i + no * j]; }
  double& v(size_t i, size_t j, size_t k, size_t l) { return V[i + no * (j + no * (k + no * l))]; }
  double g(size_t i, size_t j, size_t k, size_t l) { return v(i, j, k, l) - v(i, l, k, j); }
  matrix_span<double> tspan() { return matrix_span<double>(T.data(), no, no); }
  rank4_span<double> vspan() { return rank4_span<double>(V.data(), no, no, no, no); }
};
using Occ = std::vector<uint32_t>;
template <size_t S> double ref_phase(const std::bitset<S>& b, size_t p, size_t q) { int c = 0; if(p > q) std::swap(p, q); for(size_t i = p + 1; i < q; ++i) c += b.test(i); return c % 2 ? -1. : 1.; }
template <size_t S> std::bitset<S> rspin(size_t no) {   // any subset of the first no orbitals
  std::bitset<S> b; int m = ri(0, 3);
  for(size_t i = 0; i < no; ++i) b[i] = m == 0 ? ri(0, 1) : m == 1 ? ri(0, 4) == 0 : m == 2 ? ri(0, 4) != 0 : i < no / 2;
  return b;
}
// moves n electrons; o and v come back ascending; false when there are not enough
template <size_t S> bool excite(std::bitset<S>& b, size_t no, size_t n, Occ& o, Occ& v) {
  Occ oc, vi; for(size_t i = 0; i < no; ++i) (b.test(i) ? oc : vi).push_back(i);
  if(oc.size() < n || vi.size() < n) return false;
  std::shuffle(oc.begin(), oc.end(), rng()); std::shuffle(vi.begin(), vi.end(), rng());
  o.assign(oc.begin(), oc.begin() + n); v.assign(vi.begin(), vi.begin() + n); std::sort(o.begin(), o.end()); std::sort(v.begin(), v.end());
  for(auto x : o) b.flip(x); for(auto x : v) b.flip(x);
  return true;
}
template <size_t S> double ref_dphase(std::bitset<S> ket, const Occ& o, const Occ& v) { double a = ref_phase(ket, v[0], o[0]); ket.flip(o[0]).flip(v[0]); return a * ref_phase(ket, v[1], o[1]); }
template <size_t N> std::bitset<N> join(const std::bitset<N / 2>& a, const std::bitset<N / 2>& b) { std::bitset<N> r; for(size_t i = 0; i < N / 2; ++i) { r[i] = a[i]; r[i + N / 2] = b[i]; } return r; }
inline double ref_diag(Ints& I, const Occ& a, const Occ& b) {
  double h = 0; for(auto p : a) h += I.t(p, p); for(auto p : b) h += I.t(p, p);
  for(auto& l : {a, b}) for(auto p : l) for(auto q : l) h += 0.5 * I.g(p, p, q, q);
  for(auto p : a) for(auto q : b) h += I.v(p, p, q, q);
  return h;
}
template <size_t S> double ref_single(Ints& I, const std::bitset<S>& ket, const Occ& o, const Occ& v, const Occ& same, const Occ& other) {
  double h = I.t(v[0], o[0]); for(auto p : same) h += I.g(p, p, v[0], o[0]); for(auto p : other) h += I.v(p, p, v[0], o[0]);
  return h * ref_phase(ket, v[0], o[0]);
}
// the Slater-Condon rule for ket -> bra given the excitations of each spin
template <size_t S> double ref_element(Ints& I, const std::bitset<S>& bra_a, const std::bitset<S>& ket_a, const std::bitset<S>& bra_b, const std::bitset<S>& ket_b) {
  auto xa = bra_a ^ ket_a, xb = bra_b ^ ket_b; size_t na = xa.count(), nb = xb.count();
  if(na + nb > 4) return 0.;
  auto oa = positions(xa & ket_a), va = positions(xa & bra_a), ob = positions(xb & ket_b), vb = positions(xb & bra_b), A = positions(bra_a), B = positions(bra_b);
  if(na == 4) return ref_dphase(ket_a, oa, va) * I.g(va[0], oa[0], va[1], oa[1]);
  if(nb == 4) return ref_dphase(ket_b, ob, vb) * I.g(vb[0], ob[0], vb[1], ob[1]);
  if(na == 2 && nb == 2) return ref_phase(ket_a, va[0], oa[0]) * ref_phase(ket_b, vb[0], ob[0]) * I.v(va[0], oa[0], vb[0], ob[0]);
  if(na == 2) return ref_single(I, ket_a, oa, va, A, B);
  if(nb == 2) return ref_single(I, ket_b, ob, vb, B, A);
  return ref_diag(I, A, B);
}
inline size_t rno(int k, size_t S) { if(k == 0) return 1; if(k == 1) return 2; if(k == 2) return std::min<size_t>(S, 34); return ri(2, 9); }
}
