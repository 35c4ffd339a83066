#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include "ham.hpp"
#include "simmpi.hpp"
using namespace macis; using namespace hv;
using Csr = sparsexx::csr_matrix<double, int32_t>; using Dist = sparsexx::dist_sparse_matrix<Csr>; using Tiles = std::vector<std::pair<int32_t, int32_t>>;
struct Sym { int n; std::vector<double> a; std::vector<char> on; double& operator()(int i, int j) { return a[i * n + j]; } };
// a symmetric matrix whose smallest diagonal element may be anywhere, with a gap large enough to converge or none
Sym rsym(int n, int kind) {
  Sym S{n, std::vector<double>(n * n), std::vector<char>(n * n)}; double off = kind == 0 ? 0.1 : 0.7; int same = ri(0, 4) == 0;
  for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) { bool on = i == j || ri(0, 3) != 0; double v = i == j ? (same ? 1. : (kind == 2 ? 3. * rd() - 1. : rd() * n)) : on ? off * (rd() - 0.5) * 2 : 0.; S(i, j) = S(j, i) = v; S.on[i * n + j] = S.on[j * n + i] = on; }
  return S;
}
Csr mk(Sym& S) { size_t nz = 0; for(auto o : S.on) nz += o; Csr A(S.n, S.n, nz, 0); size_t p = 0; A.rowptr()[0] = 0; for(int i = 0; i < S.n; ++i) { for(int j = 0; j < S.n; ++j) if(S.on[i * S.n + j]) { A.colind()[p] = j; A.nzval()[p++] = S(i, j); } A.rowptr()[i + 1] = p; } return A; }
Tiles cut(int n, int P, bool empty) { std::vector<int> c{0, n}; for(int k = 1; k < P; ++k) c.push_back(empty ? ri(0, n) : 0); if(!empty) { c = {0, n}; std::vector<int> q(n > 1 ? n - 1 : 0); std::iota(q.begin(), q.end(), 1); std::shuffle(q.begin(), q.end(), rng()); for(int k = 1; k < P; ++k) c.push_back(q[k - 1]); } std::sort(c.begin(), c.end()); Tiles t; for(int k = 0; k < P; ++k) t.push_back({c[k], c[k + 1]}); return t; }
std::string show(Sym& S) { std::ostringstream o; o << "symmetric matrix of size " << S.n << ":"; for(int i = 0; i < S.n; ++i) { o << " ["; for(int j = 0; j < S.n; ++j) o << (j ? " " : "") << S(i, j); o << "]"; } return o.str(); }
std::string show(const std::vector<double>& x) { std::ostringstream o; for(auto v : x) o << " " << v; return o.str(); }
// how far (E, x) is from an eigenpair of the matrix, and the norm of x
double residual(Sym& S, double E, const std::vector<double>& x, double& norm) { double r2 = 0, n2 = 0; for(int i = 0; i < S.n; ++i) { double s = -E * x[i]; for(int j = 0; j < S.n; ++j) s += S(i, j) * x[j]; r2 += s * s; n2 += x[i] * x[i]; } norm = std::sqrt(n2); return std::sqrt(r2); }
void pair(Sym& S, double E, const std::vector<double>& x, double tol, double norm0) {
  double n, r = residual(S, E, x, n); check(std::isfinite(E) && r < tol * (1 + 1e-6) + 1e-11, "success is reported, but the residual of the returned pair is " + std::to_string(r) + " with the energy " + std::to_string(E) + " and the tolerance " + std::to_string(tol));
  check(std::abs(n - norm0) < 1e-6, "the returned vector has the norm " + std::to_string(n));
}
// textbook Davidson: does some step reach the tolerance?
bool reaches(Sym& S, std::vector<double> x, size_t mm, double tol) {
  int n = S.n; std::vector<std::vector<double>> V, W; auto mul = [&](const std::vector<double>& v) { std::vector<double> w(n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) w[i] += S(i, j) * v[j]; return w; }; auto dot = [&](auto& a, auto& b) { double s = 0; for(int i = 0; i < n; ++i) s += a[i] * b[i]; return s; };
  V.push_back(x); W.push_back(mul(x)); auto nw = W[0];
  for(size_t k = 2; k <= mm; ++k) {
    for(int t = 0; t < 2; ++t) for(auto& v : V) { double s = dot(v, nw); for(int i = 0; i < n; ++i) nw[i] -= s * v[i]; } double s = std::sqrt(dot(nw, nw)); if(!(s > 1e-12)) return false; for(auto& v : nw) v /= s; V.push_back(nw); W.push_back(mul(nw));
    std::vector<double> C(k * k), L(k); for(size_t a = 0; a < k; ++a) for(size_t b = 0; b < k; ++b) C[a + b * k] = dot(V[a], W[b]); lapack::syev(lapack::Job::Vec, lapack::Uplo::Lower, k, C.data(), k, L.data());
    std::vector<double> R(n); for(size_t a = 0; a < k; ++a) for(int i = 0; i < n; ++i) R[i] += C[a] * (W[a][i] - L[0] * V[a][i]); if(std::sqrt(dot(R, R)) < tol) return true; for(int i = 0; i < n; ++i) nw[i] = -R[i] / (S(i, i) - L[0]);
  }
  return false;
}
bool gave_up(const std::exception& e) { return std::string(e.what()).find("onverge") != std::string::npos; }
struct Counted { const SparseMatrixOperator<Csr>& o; size_t& n; void operator_action(size_t m, double a, const double* V, size_t lv, double b, double* AV, size_t la) const { n += m; o.operator_action(m, a, V, lv, b, AV, la); } };
int good = 0;
void serial(int what) {
  int n = ri(2, 12); auto S = rsym(n, ri(0, 2)); auto A = mk(S); double tol = std::pow(10., -1 - 8 * std::abs(rd())); size_t mm = ri(0, 3) ? n + ri(0, 3) : ri(2, 6); std::vector<double> x(n); int g = ri(0, 3); for(auto& v : x) v = g ? 0. : rd() - 0.5; if(g == 1 && what == 1) for(auto& v : x) v = (rd() - 0.5) / n;
  if(what == 1 && ri(0, 3) == 0) x.resize(ri(0, 1) ? 0 : ri(0, n + 2));
  begin_case(std::string(what ? "serial selected-CI " : "serial ") + show(S) + " tolerance " + std::to_string(tol) + " subspace " + std::to_string(mm) + " start" + show(x)); auto x0 = x, x1 = x; if(x0.size() > (size_t)n) x0.resize(n); double E; size_t count = 0;
  std::vector<double> D(n); for(int i = 0; i < n; ++i) D[i] = S(i, i); int mi = std::min_element(D.begin(), D.end()) - D.begin();
  try {
    if(what == 1) { E = serial_selected_ci_diag(A, mm, tol, x); if(x.size() != (size_t)n) { check(false, "the vector does not have one element per row"); return; } }
    else { if(g) { diagonal_guess(n, A, x.data()); for(int i = 0; i < n; ++i) check(x[i] == (D[i] == D[mi] && i == mi ? 1. : 0.), "the guess is not the unit vector of the smallest diagonal element"); } else { double s = 0; for(auto v : x) s += v * v; for(auto& v : x) v /= std::sqrt(s); }
      x1 = x; SparseMatrixOperator<Csr> op(A); Counted c{op, count}; size_t it; std::tie(it, E) = davidson(n, mm, c, D.data(), tol, x.data()); check(count <= std::min<size_t>(mm, n) + 1, "more vectors than the subspace limit"); }
  } catch(const std::runtime_error& e) { if(!gave_up(e)) throw; if(what == 0 && (int)mm >= n && reaches(S, x1, mm, tol / 100)) check(false, "the solver gives up although a step reaches the tolerance"); return; }
  ++good; double nn, r = residual(S, E, x, nn);
  if(what == 1) { x0.resize(n, 0.); double s = 0, mx = 0; for(auto v : x0) { s += v * v; mx = std::max(mx, std::abs(v)); } if(mx > 1. / n) pair(S, E, x, tol, std::sqrt(s) > 1e-12 && std::abs(std::sqrt(s) - 1) < 1e-9 ? 1. : nn); else { x0[mi] = 1; s = 0; for(auto v : x0) s += v * v; pair(S, E, x, tol, std::abs(s - 1) < 1e-12 ? 1. : nn); } } else pair(S, E, x, tol, 1.);
}
void distributed(int what, int P) {
  bool empty = ri(0, 3) == 0; int n = ri(std::max(2, P), 12); auto S = rsym(n, ri(0, 2)); auto A = mk(S); auto t = cut(n, P, empty); double tol = std::pow(10., -1 - 7 * std::abs(rd())); size_t mm = ri(2, n); if(ri(0, 3)) mm = n; std::vector<double> start(n); int g = ri(0, what == 1 ? 1 : 2); if(g == 0) { double s = 0; for(auto& v : start) { v = rd() - 0.5; s += v * v; } for(auto& v : start) v /= std::sqrt(s); } if(g == 1) start[ri(0, n - 1)] = 1.;
  std::string w; for(auto& p : t) w += " " + std::to_string(p.first) + "-" + std::to_string(p.second);
  begin_case(std::string(what == 0 ? "distributed guess, " : what == 1 ? "distributed solver, " : "distributed selected-CI, ") + show(S) + " rows" + w + " tolerance " + std::to_string(tol) + " subspace " + std::to_string(mm) + " start" + show(start));
  std::vector<double> D(n), x(n, -3.), Es(P); for(int i = 0; i < n; ++i) D[i] = S(i, i); int mi = std::min_element(D.begin(), D.end()) - D.begin(); std::vector<int> up(P); unsigned left = alarm(30); std::vector<char> bad(P);
  sim::run(P, [&](int r) {
    Dist B(MPI_COMM_WORLD, A, t); int lo = t[r].first, k = t[r].second - lo; std::vector<double> c(start.begin() + lo, start.begin() + lo + k); double E = 0; size_t it;
    try {
      if(what == 0) { std::vector<double> z(k + 1, 5.); p_diagonal_guess(k, B, z.data()); if(z[k] != 5.) bad[r] = 1; c.assign(z.begin(), z.begin() + k); }
      else if(what == 1) { SparseMatrixOperator<Dist> op(B); std::tie(it, E) = p_davidson(k, mm, op, D.data() + lo, tol, c.data(), MPI_COMM_WORLD); }
      else { if(g == 2 && ri(0, 1)) c.resize(ri(0, 1) ? 0 : k + 2, 0.); E = parallel_selected_ci_diag(B, mm, tol, c, MPI_COMM_WORLD); if((int)c.size() != k) { bad[r] = 1; return; } }
    } catch(const std::runtime_error& e) { if(!gave_up(e)) throw; up[r] = 1; return; }
    std::copy(c.begin(), c.end(), x.begin() + lo); Es[r] = E;
  }); alarm(left);
  for(int r = 0; r < P; ++r) { if(up[r] != up[0]) { check(false, "only some processes give up"); return; } if(bad[r]) { check(false, "elements other than the own rows are touched"); return; } if(!up[0] && std::abs(Es[r] - Es[0]) > 1e-10) { check(false, "the processes return different energies"); return; } }
  if(what == 0) { for(int i = 0; i < n; ++i) check(x[i] == (i == mi ? 1. : 0.), "the guess is not the unit vector of the smallest diagonal element: element " + std::to_string(i) + " is " + std::to_string(x[i])); return; }
  if(up[0]) { std::vector<double> u(n); u[mi] = 1.; if((int)mm >= n && (g != 2 || what == 2) && reaches(S, g == 2 ? u : start, mm, tol / 100)) check(false, "the solver gives up although a step reaches the tolerance"); return; }
  ++good; if(what == 1 && g == 2) return; pair(S, Es[0], x, tol, 1.);
}
// the whole path: Hamiltonian of determinants, lowest pair
template <size_t N> void whole(int P) {
  size_t no = ri(3, 5), na = 2, nb = ri(1, 2); Ints I(no, true); for(auto& x : I.V) x *= 0.2; for(size_t k = 0; k < no; ++k) I.t(k, k) = k; DoubleLoopHamiltonianGenerator<N> h0(I.tspan(), I.vspan()); std::vector<std::bitset<N>> d;
  while(d.size() < (size_t)std::max(P, 2)) { d.clear(); for(size_t a = 0; a < (1u << no); ++a) for(size_t b = 0; b < (1u << no); ++b) if(__builtin_popcount(a) == (int)na && __builtin_popcount(b) == (int)nb && ri(0, 2)) { std::bitset<N> x; for(size_t k = 0; k < no; ++k) { x[k] = a >> k & 1; x[k + N / 2] = b >> k & 1; } d.push_back(x); } if(d.size() > 30) d.resize(30); }
  double thr = ri(0, 1) ? 0. : 0.05, tol = std::pow(10., -ri(3, 8)); int n = d.size(); size_t mm = ri(0, 4) ? n : ri(2, 8); begin_case("selected-CI of " + std::to_string(n) + " determinants of " + std::to_string(N) + " bits, threshold " + std::to_string(thr) + " tolerance " + std::to_string(tol) + " subspace " + std::to_string(mm) + " processes " + std::to_string(P));
  Sym S{n, std::vector<double>(n * n), std::vector<char>(n * n)}; for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { double v = h0.matrix_element(d[i], d[j]); S(i, j) = std::abs(v) > thr ? v : 0.; }
  std::vector<double> Es(P); std::vector<std::vector<double>> xs(P); std::vector<int> up(P); unsigned left = alarm(30);
  sim::run(P, [&](int r) { auto I1 = I; DoubleLoopHamiltonianGenerator<N> h(I1.tspan(), I1.vspan()); auto w = d; try { Es[r] = selected_ci_diag<N, int32_t>(w.begin(), w.end(), h, thr, mm, tol, xs[r], MPI_COMM_WORLD); } catch(const std::runtime_error& e) { if(!gave_up(e)) throw; up[r] = 1; } }); alarm(left);
  for(int r = 1; r < P; ++r) { if(up[r] != up[0]) { check(false, "only some processes give up"); return; } if(!up[0] && std::abs(Es[r] - Es[0]) > 1e-10) { check(false, "the processes return different energies"); return; } }
  if(up[0]) return; std::vector<double> x; for(auto& v : xs) x.insert(x.end(), v.begin(), v.end()); if((int)x.size() != n) { check(false, "the processes' vectors do not make up one element per determinant"); return; } ++good; pair(S, Es[0], x, tol, 1.);
}
void hv::run_all() {
  for(auto l : {"ci_solver", "davidson"}) if(!spdlog::get(l)) spdlog::null_logger_mt(l);
  for(int k = 0, e = g_thorough ? 4000 : 400; k < e; ++k) { int P = ri(1, 4); distributed(0, P); distributed(1, P); distributed(1, ri(2, 4)); distributed(2, P); sim::run(1, [&](int) { serial(0); serial(1); }); if(k % 8 == 0) { whole<64>(ri(1, 3)); whole<128>(ri(1, 3)); } }
  begin_case("some runs converge"); check(good > 20, "almost no run converges");
}
