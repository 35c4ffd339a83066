#pragma once
#include "common.hpp"
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
namespace hv {
using csr = sparsexx::csr_matrix<double, int32_t, std::allocator<double>>;
using csc = sparsexx::csc_matrix<double, int32_t, std::allocator<double>>;
using coo = sparsexx::coo_matrix<double, int32_t, std::allocator<double>>;
struct Ent { int64_t r, c; double v; bool operator<(const Ent& o) const { return std::tie(r, c, v) < std::tie(o.r, o.c, o.v); } bool operator==(const Ent& o) const { return r == o.r && c == o.c && v == o.v; } };
struct Mat { int64_t m, n; int idx; std::vector<Ent> e; };   // entries in row-major order, zero based
inline std::string show(const Mat& A) {
  std::ostringstream o; o << "m=" << A.m << " n=" << A.n << " indexing=" << A.idx << " entries(0-based r,c,v)=";
  for(auto& e : A.e) o << "(" << e.r << "," << e.c << "," << e.v << ")";
  return o.str();
}
inline Mat rand_mat(int64_t m, int64_t n, int idx, double dens, bool sq = false) {
  Mat A{m, n, idx, {}};
  std::vector<char> rowon(m), colon(n);
  for(auto& x : rowon) x = ri(0, 3) != 0;
  for(auto& x : colon) x = ri(0, 3) != 0;
  bool full = ri(0, 2) == 0; double k = 1;
  for(int64_t i = 0; i < m; ++i) for(int64_t j = 0; j < n; ++j)
    if((full || (rowon[i] && colon[j])) && (double)ri(0, 999) < dens * 1000) A.e.push_back({i, j, k += 1});
  for(auto& e : A.e) if(ri(0, 1)) e.v = -e.v;
  return A;
}
inline csr mk_csr(const Mat& A, bool shuffle_rows = false) {
  csr B(A.m, A.n, A.e.size(), A.idx);
  std::vector<std::vector<Ent>> rows(A.m);
  for(auto& e : A.e) rows[e.r].push_back(e);
  B.rowptr()[0] = A.idx; size_t p = 0;
  for(int64_t i = 0; i < A.m; ++i) {
    if(shuffle_rows) std::shuffle(rows[i].begin(), rows[i].end(), rng());
    for(auto& e : rows[i]) { B.colind()[p] = e.c + A.idx; B.nzval()[p] = e.v; ++p; }
    B.rowptr()[i + 1] = p + A.idx;
  }
  return B;
}
inline csc mk_csc(const Mat& A, bool shuffle_cols = false) {
  csc B(A.m, A.n, A.e.size(), A.idx);
  std::vector<std::vector<Ent>> cols(A.n);
  for(auto& e : A.e) cols[e.c].push_back(e);
  B.colptr()[0] = A.idx; size_t p = 0;
  for(int64_t j = 0; j < A.n; ++j) {
    if(shuffle_cols) std::shuffle(cols[j].begin(), cols[j].end(), rng());
    for(auto& e : cols[j]) { B.rowind()[p] = e.r + A.idx; B.nzval()[p] = e.v; ++p; }
    B.colptr()[j + 1] = p + A.idx;
  }
  return B;
}
inline coo mk_coo(const std::vector<Ent>& es, int64_t m, int64_t n, int idx) {
  coo B(m, n, es.size(), idx);
  for(size_t i = 0; i < es.size(); ++i) { B.rowind()[i] = es[i].r + idx; B.colind()[i] = es[i].c + idx; B.nzval()[i] = es[i].v; }
  return B;
}
inline coo mk_coo(const Mat& A, bool shuffle = false) { auto e = A.e; if(shuffle) std::shuffle(e.begin(), e.end(), rng()); return mk_coo(e, A.m, A.n, A.idx); }
inline std::vector<Ent> ents_csr(const csr& B, const std::string& w) {
  check((int64_t)B.rowptr().size() == B.m() + 1, w + ": row pointer length");
  check((int64_t)B.colind().size() == B.nnz() && (int64_t)B.nzval().size() == B.nnz(), w + ": index/value array length differs from nnz");
  check(B.rowptr()[0] == B.indexing(), w + ": first row pointer");
  check(B.rowptr()[B.m()] == B.nnz() + B.indexing(), w + ": last row pointer");
  std::vector<Ent> r;
  for(int64_t i = 0; i < B.m(); ++i) {
    check(B.rowptr()[i] <= B.rowptr()[i + 1], w + ": row pointers not ascending");
    for(int64_t t = B.rowptr()[i] - B.indexing(); t < B.rowptr()[i + 1] - B.indexing(); ++t) {
      int64_t c = B.colind()[t] - B.indexing();
      check(c >= 0 && c < B.n(), w + ": column index out of range");
      r.push_back({i, c, B.nzval()[t]});
    }
  }
  return r;
}
inline std::vector<Ent> ents_csc(const csc& B, const std::string& w) {
  check((int64_t)B.colptr().size() == B.n() + 1, w + ": column pointer length");
  check((int64_t)B.rowind().size() == B.nnz() && (int64_t)B.nzval().size() == B.nnz(), w + ": index/value array length differs from nnz");
  check(B.colptr()[0] == B.indexing(), w + ": first column pointer");
  check(B.colptr()[B.n()] == B.nnz() + B.indexing(), w + ": last column pointer");
  std::vector<Ent> r;
  for(int64_t j = 0; j < B.n(); ++j) {
    check(B.colptr()[j] <= B.colptr()[j + 1], w + ": column pointers not ascending");
    for(int64_t t = B.colptr()[j] - B.indexing(); t < B.colptr()[j + 1] - B.indexing(); ++t) {
      int64_t c = B.rowind()[t] - B.indexing();
      check(c >= 0 && c < B.m(), w + ": row index out of range");
      r.push_back({c, j, B.nzval()[t]});
    }
  }
  return r;
}
inline std::vector<Ent> ents_coo(const coo& B, const std::string& w) {
  check((int64_t)B.rowind().size() == B.nnz() && (int64_t)B.colind().size() == B.nnz() && (int64_t)B.nzval().size() == B.nnz(), w + ": array lengths differ from nnz");
  std::vector<Ent> r;
  for(int64_t t = 0; t < B.nnz(); ++t) {
    int64_t i = B.rowind()[t] - B.indexing(), j = B.colind()[t] - B.indexing();
    check(i >= 0 && i < B.m() && j >= 0 && j < B.n(), w + ": index out of range");
    r.push_back({i, j, B.nzval()[t]});
  }
  return r;
}
inline std::vector<Ent> sorted(std::vector<Ent> e) { std::sort(e.begin(), e.end()); return e; }
template <class M> void same_shape(const M& B, int64_t m, int64_t n, int idx, const std::string& w) {
  check(B.m() == m && B.n() == n, w + ": shape changed");
  check(B.indexing() == idx, w + ": index base changed");
}
// all small shapes + random larger ones
template <class F> void for_mats(F&& f, bool square = false) {
  for(int64_t m = 0; m <= 3; ++m) for(int64_t n = 0; n <= 3; ++n) {
    if(square && m != n) continue;
    for(int idx = 0; idx < 2; ++idx) {
      int64_t cells = m * n;
      int64_t lim = (cells <= 6 || g_thorough) ? (int64_t(1) << cells) : 64;
      for(int64_t b0 = 0; b0 < lim; ++b0) {
        int64_t bits = (lim == (int64_t(1) << cells)) ? b0 : ri(0, (int64_t(1) << cells) - 1);
        Mat A{m, n, idx, {}}; double k = 1;
        for(int64_t c = 0; c < cells; ++c) if(bits >> c & 1) A.e.push_back({c / n, c % n, (c & 1) ? -(k += 1) : (k += 1)});
        f(A);
      }
    }
  }
  for(int it = 0; it < (g_thorough ? 4000 : 300); ++it) {
    int64_t m = ri(1, 12), n = square ? m : ri(1, 12);
    f(rand_mat(m, n, ri(0, 1), ri(1, 9) / 10.));
  }
  for(int it = 0; it < (g_thorough ? 60 : 6); ++it) {
    int64_t m = ri(20, 140), n = square ? m : ri(20, 140);
    f(rand_mat(m, n, it & 1, ri(1, 20) / 100.));
  }
}
}  // namespace hv
