#include "ham.hpp"
#include <map>
using namespace hv;
struct Rdm {
  size_t no; std::vector<double> o, t;
  Rdm(size_t n) : no(n), o(n * n), t(n * n * n * n) { for(auto& x : o) x = rd(); for(auto& x : t) x = rd(); }
  matrix_span<double> ospan() { return matrix_span<double>(o.data(), no, no); }
  rank4_span<double> tspan(bool null) { return rank4_span<double>(null ? nullptr : t.data(), no, no, no, no); }
  void a1(size_t i, size_t j, double v) { o[i + no * j] += v; }
  void a2(size_t i, size_t j, size_t k, size_t l, double v) { t[i + no * (j + no * (k + no * l))] += v; }
};
inline bool same(const std::vector<double>& a, const std::vector<double>& b) { for(size_t i = 0; i < a.size(); ++i) if(!near(a[i], b[i])) return false; return true; }
inline std::string where(const std::vector<double>& a, const std::vector<double>& b) { for(size_t i = 0; i < a.size(); ++i) if(!near(a[i], b[i])) return " at offset " + std::to_string(i) + ": " + std::to_string(a[i]) + " expected " + std::to_string(b[i]); return ""; }
template <size_t S> void ref_add(Rdm& D, const std::bitset<S>& bra_a, const std::bitset<S>& ket_a, const std::bitset<S>& bra_b, const std::bitset<S>& ket_b, double val) {
  auto xa = bra_a ^ ket_a, xb = bra_b ^ ket_b; size_t na = xa.count(), nb = xb.count();
  if(na + nb > 4) return;
  auto oa = positions(xa & ket_a), va = positions(xa & bra_a), ob = positions(xb & ket_b), vb = positions(xb & bra_b), A = positions(bra_a), B = positions(bra_b);
  auto dbl = [&](const std::bitset<S>& ket, const Occ& o, const Occ& v) { double x = 0.5 * val * ref_dphase(ket, o, v);
    D.a2(v[0], o[0], v[1], o[1], x); D.a2(v[1], o[0], v[0], o[1], -x); D.a2(v[0], o[1], v[1], o[0], -x); D.a2(v[1], o[1], v[0], o[0], x); };
  auto sgl = [&](const std::bitset<S>& ket, const Occ& o, const Occ& v, const Occ& same, const Occ& other) { double s = ref_phase(ket, v[0], o[0]); D.a1(v[0], o[0], s * val); double x = 0.5 * s * val;
    for(auto p : same) { D.a2(v[0], o[0], p, p, x); D.a2(p, p, v[0], o[0], x); D.a2(v[0], p, p, o[0], -x); D.a2(p, o[0], v[0], p, -x); }
    for(auto p : other) { D.a2(v[0], o[0], p, p, x); D.a2(p, p, v[0], o[0], x); } };
  if(na == 4) return dbl(ket_a, oa, va);
  if(nb == 4) return dbl(ket_b, ob, vb);
  if(na == 2 && nb == 2) { double x = 0.5 * val * ref_phase(ket_a, va[0], oa[0]) * ref_phase(ket_b, vb[0], ob[0]); D.a2(va[0], oa[0], vb[0], ob[0], x); D.a2(vb[0], ob[0], va[0], oa[0], x); return; }
  if(na == 2) return sgl(ket_a, oa, va, A, B);
  if(nb == 2) return sgl(ket_b, ob, vb, B, A);
  for(auto p : A) D.a1(p, p, val); for(auto p : B) D.a1(p, p, val);
  for(auto& l : {A, B}) for(auto p : l) for(auto q : l) { D.a2(p, p, q, q, 0.5 * val); D.a2(p, q, p, q, -0.5 * val); }
  for(auto p : A) for(auto q : B) { D.a2(p, p, q, q, 0.5 * val); D.a2(q, q, p, p, 0.5 * val); }
}
template <size_t N> void family(int k) {
  constexpr size_t S = N / 2; size_t no = k == 2 ? 12 : k == 3 ? std::min<size_t>(S, 20) : rno(k, S); if(no > 20) no = 20;
  for(int t = 0; t < 40; ++t) {
    auto ka = rspin<S>(no), kb = rspin<S>(no); auto ba = ka, bb = kb; size_t c = ri(0, 8); double val = rd();
    size_t na = c == 0 ? 2 : c == 2 || c == 3 ? 1 : c == 6 ? 3 : c == 7 ? 2 : c == 8 ? 1 : 0, nb = c == 1 ? 2 : c == 2 || c == 4 ? 1 : c == 7 ? 1 : c == 8 ? 2 : 0;
    Occ o, v; if(na && !excite(ba, no, na, o, v)) continue; if(nb && !excite(bb, no, nb, o, v)) continue;
    Rdm D(no), W = D; ref_add(W, ba, ka, bb, kb, val); auto A = positions(ba), B = positions(bb);
    std::string d = "norb=" + std::to_string(no) + " val=" + std::to_string(val) + " bra a/b " + bs(ba) + " " + bs(bb) + " ket a/b " + bs(ka) + " " + bs(kb);
    { begin_case(d); Rdm X = D; rdm_contributions(ba, ka, ba ^ ka, bb, kb, bb ^ kb, A, B, val, X.ospan(), X.tspan(false));
      check(same(X.o, W.o), "one-particle matrix" + where(X.o, W.o)); check(same(X.t, W.t), "two-particle matrix" + where(X.t, W.t)); }
    { begin_case(d + " without a two-particle matrix"); Rdm X = D; rdm_contributions(ba, ka, ba ^ ka, bb, kb, bb ^ kb, A, B, val, X.ospan(), X.tspan(true));
      check(same(X.o, W.o), "one-particle matrix" + where(X.o, W.o)); check(X.t == D.t, "untouched matrix"); }
  }
  // form_rdms over a small wavefunction
  no = std::min<size_t>(no, 7); Ints I(no, true); DoubleLoopHamiltonianGenerator<N> H(I.tspan(), I.vspan());
  std::vector<std::bitset<N>> dets; auto a = rspin<S>(no), b = rspin<S>(no); Occ o, v; int nd = ri(1, 8);
  for(int i = 0; i < nd; ++i) { auto x = a, y = b; excite(x, no, ri(0, 2), o, v); excite(y, no, ri(0, 2), o, v); auto f = join<N>(x, y); if(std::find(dets.begin(), dets.end(), f) == dets.end()) dets.push_back(f); }
  std::vector<double> C(dets.size()); for(auto& x : C) x = rd(); if(C.size() > 2) C[1] = 0.; if(k % 3 == 1) for(size_t i = 0; i < C.size(); i += 2) C[i] *= 1e-9;
  for(int null = 0; null < 2; ++null) {
    begin_case("form_rdms norb=" + std::to_string(no) + " ndets=" + std::to_string(dets.size()) + (null ? " without a two-particle matrix" : "") + " first det " + bs(dets[0]));
    Rdm X(no), W = X, D = X;
    for(size_t i = 0; i < dets.size(); ++i) for(size_t j = 0; j < dets.size(); ++j) { if(dets[i].none() || dets[j].none() || !(std::abs(C[i] * C[j]) > 1e-16)) continue; std::bitset<S> ia, ib, ja, jb; for(size_t s = 0; s < S; ++s) { ia[s] = dets[i][s]; ib[s] = dets[i][s + S]; ja[s] = dets[j][s]; jb[s] = dets[j][s + S]; } ref_add(W, ia, ja, ib, jb, C[i] * C[j]); }
    H.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(), C.data(), X.ospan(), X.tspan(null));
    auto close = [](auto& a, auto& b) { for(size_t i = 0; i < a.size(); ++i) if(!(std::abs(a[i] - b[i]) <= 1e-13 * (1. + std::abs(b[i])))) return false; return true; };   // small weights are seen
    check(close(X.o, W.o), "one-particle matrix" + where(X.o, W.o)); if(null) check(X.t == D.t, "untouched matrix"); else check(close(X.t, W.t), "two-particle matrix" + where(X.t, W.t));
  }
}
void hv::run_all() { int n = g_thorough ? 300 : 30; for(int k = 0; k < n; ++k) { family<64>(k); family<128>(k); } }
