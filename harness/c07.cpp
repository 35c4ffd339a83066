#include "sparse.hpp"
#include <sparsexx/util/permute.hpp>
using namespace hv;
static std::vector<int> rperm(int64_t n, int kind) {
  std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
  if(kind == 0) std::shuffle(p.begin(), p.end(), rng());
  else if(kind == 1 && n) std::rotate(p.begin(), p.begin() + ri(0, n - 1), p.end());
  else if(kind == 2) std::reverse(p.begin(), p.end());
  return p;
}
static std::vector<int> inv(const std::vector<int>& p) { std::vector<int> q(p.size(), -1); for(size_t i = 0; i < p.size(); ++i) q[p[i]] = i; return q; }
static void compare(const Mat& A, const csr& R, const csr& src, const std::vector<int>& rp, const std::vector<int>& cp, bool colsorted) {
  check(R.m() == A.m && R.n() == A.n && R.nnz() == (int64_t)A.e.size() && R.indexing() == A.idx, "shape / count / base");
  auto got = ents_csr(R, "result");
  auto ri_ = inv(rp), ci_ = inv(cp);
  std::vector<Ent> exp; for(auto& e : A.e) exp.push_back({ri_[e.r], ci_[e.c], e.v});
  std::sort(exp.begin(), exp.end()); auto g2 = got; std::sort(g2.begin(), g2.end());
  check(g2 == exp, "entries differ from the relabelled source entries");
  if(colsorted) { for(size_t i = 1; i < got.size(); ++i) check(got[i - 1].r < got[i].r || got[i - 1].c < got[i].c, "columns of a row are not ascending"); }
}
void hv::run_all() {
  for(int n = 0; n < 12; ++n) for(int k = 0; k < 4; ++k) {
    auto p = rperm(n, k);
    begin_case("invert_perm p=" + show(p), n > 1);
    auto q = sparsexx::invert_perm(p);
    check(q == inv(p), "inverse " + show(q));
    std::vector<double> x(n + 1), y(n + 1, -7.), z;
    for(auto& v : x) v = rv();
    const auto x0 = x;
    begin_case("permute_vector p=" + show(p) + " x=" + show(x), n > 1);
    sparsexx::permute_vector((int64_t)n, (const double*)x.data(), p.data(), y.data(), sparsexx::PermuteDirection::Forward);
    for(int i = 0; i < n; ++i) check(y[p[i]] == x[i], "forward does not scatter");
    check(y[n] == -7. && x == x0, "writes outside the output");
    std::fill(y.begin(), y.end(), -7.);
    sparsexx::permute_vector((int64_t)n, (const double*)x.data(), p.data(), y.data(), sparsexx::PermuteDirection::Backward);
    for(int i = 0; i < n; ++i) check(y[i] == x[p[i]], "backward does not gather");
    check(y[n] == -7. && x == x0, "writes outside the output");
    z = x; sparsexx::permute_vector((int64_t)n, z.data(), p.data(), sparsexx::PermuteDirection::Forward);
    for(int i = 0; i < n; ++i) check(z[p[i]] == x[i], "in-place forward does not scatter");
    check(z[n] == x[n], "in-place writes outside");
    sparsexx::permute_vector((int64_t)n, z.data(), p.data(), sparsexx::PermuteDirection::Backward);
    check(z == x, "backward does not undo forward");
    z = x; sparsexx::permute_vector((int64_t)n, z.data(), p.data(), sparsexx::PermuteDirection::Backward);
    for(int i = 0; i < n; ++i) check(z[i] == x[p[i]], "in-place backward does not gather");
    check(z[n] == x[n], "in-place writes outside");
  }
  for(int rep = 0; rep < 60; ++rep) {
    int np = ri(1, 6), n = ri(0, 40);
    std::vector<int> part(n); for(auto& x : part) x = ri(0, 3) ? ri(0, np - 1) : 0;
    begin_case("perm_from_part npart=" + std::to_string(np) + " part=" + show(part), n > 1 && np > 1);
    auto [p, pp] = sparsexx::perm_from_part<int>(np, part);
    check((int)p.size() == n && (int)pp.size() == np + 1, "lengths");
    std::vector<char> seen(n); for(auto i : p) { check(i >= 0 && i < n && !seen[i], "not a permutation"); seen[i] = 1; }
    check(pp[0] == 0 && pp[np] == n, "part pointers do not cover all elements");
    for(int k = 0; k < np; ++k) { check(pp[k] <= pp[k + 1], "part pointers not ascending"); for(int i = pp[k]; i < pp[k + 1]; ++i) { check(part[p[i]] == k, "element in the wrong part"); if(i > pp[k]) check(p[i - 1] < p[i], "order inside a part not preserved"); } }
  }
  for_mats([](const Mat& A) {
    for(int sh = 0; sh < 2; ++sh) for(int k = 0; k < 4; ++k) {
      auto B = mk_csr(A, sh); auto rp0 = B.rowptr(); auto ci0 = B.colind(); auto nz0 = B.nzval();
      std::vector<int> rp = rperm(A.m, k), cp = rperm(A.n, (k * 7 + sh) % 4), ir = rperm(A.m, 3), ic = rperm(A.n, 3);
      std::string d = std::string(sh ? "unsorted rows, " : "") + "rows p=" + show(rp) + " cols p=" + show(cp) + " " + show(A) + " colind=" + show(B.colind());
      begin_case("permute_rows " + d, A.e.size() > 1);
      auto R = sparsexx::permute_rows(B, rp); compare(A, R, B, rp, ic, false);
      { int64_t q = 0; for(int64_t i = 0; i < A.m; ++i) for(int t = B.rowptr()[rp[i]] - A.idx; t < B.rowptr()[rp[i] + 1] - A.idx; ++t, ++q) check(R.colind()[q] == B.colind()[t] && R.nzval()[q] == B.nzval()[t], "a row's entries changed order"); }
      begin_case("permute_cols " + d, A.e.size() > 1);
      compare(A, sparsexx::permute_cols(B, cp), B, ir, cp, true);
      begin_case("permute_rows_cols " + d, A.e.size() > 1);
      compare(A, sparsexx::permute_rows_cols(B, rp, cp), B, rp, cp, true);
      check(B.rowptr() == rp0 && B.colind() == ci0 && B.nzval() == nz0, "the input changed");
    }
  });
}
