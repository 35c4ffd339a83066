// C08: row distribution of distributed matrices on any number of processes (threads behind the MPI calls).
#include "simmpi.hpp"
#include "sparse.hpp"
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <optional>
using namespace hv;
template <class I> using csr_i = sparsexx::csr_matrix<double, I>;
template <class I> using dist_i = sparsexx::dist_sparse_matrix<csr_i<I>>;
template <class I> csr_i<I> mk(const Mat& A) {
  csr_i<I> B(A.m, A.n, A.e.size(), A.idx); B.rowptr()[0] = A.idx; size_t p = 0;
  for(int64_t i = 0; i < A.m; ++i) { while(p < A.e.size() && A.e[p].r == i) { B.colind()[p] = A.e[p].c + A.idx; B.nzval()[p] = A.e[p].v; ++p; } B.rowptr()[i + 1] = p + A.idx; }
  return B;
}
template <class I> using Ranges = std::vector<std::pair<I, I>>;
template <class I> void tiling(const dist_i<I>& D, int P, int64_t M, Ranges<I>& out) {
  for(int r = 0; r < P; ++r) out.push_back(D.row_bounds(r));
  check(out[0].first == 0, "the first range does not begin at row 0"); check(out[P - 1].second == M, "the last range does not end at the last row");
  for(int r = 0; r < P; ++r) { check(out[r].first <= out[r].second, "a range is reversed"); if(r) check(out[r].first == out[r - 1].second, "ranges are not contiguous"); check((int64_t)D.row_extent(r) == out[r].second - out[r].first, "row_extent"); }
}
template <class I> void entries(const csr_i<I>& T, int64_t m, int64_t n, std::vector<Ent>& out, int64_t roff, int64_t coff, const std::string& w) {
  check(T.m() == m && T.n() == n, w + ": shape"); check(T.indexing() == 0, w + ": index base"); check((int64_t)T.rowptr().size() == m + 1 && T.rowptr()[0] == 0 && T.rowptr()[m] == (I)T.nnz() && T.colind().size() == T.nnz() && T.nzval().size() == T.nnz(), w + ": array lengths");
  for(int64_t i = 0; i < m; ++i) for(int64_t t = T.rowptr()[i]; t < T.rowptr()[i + 1]; ++t) { check(T.colind()[t] >= 0 && T.colind()[t] < n, w + ": column out of range"); out.push_back({i + roff, T.colind()[t] + coff, T.nzval()[t]}); }
}
template <class I> void same(const csr_i<I>& a, const csr_i<I>& b, const std::string& w) { check(a.m() == b.m() && a.n() == b.n() && a.nnz() == b.nnz() && a.indexing() == b.indexing() && a.rowptr() == b.rowptr() && a.colind() == b.colind() && a.nzval() == b.nzval(), w + " differs in the copy"); }
template <class I> void whole(int P, const Mat& A, const Ranges<I>* cust) {
  std::string s = "P=" + std::to_string(P) + " " + show(A); if(cust) { s += " ranges="; for(auto [a, b] : *cust) s += "[" + std::to_string(a) + "," + std::to_string(b) + ")"; } begin_case(s, P > 1 && A.m);
  auto B = mk<I>(A); std::vector<std::optional<dist_i<I>>> D(P), K(P); std::vector<std::string> err(P);
  sim::run(P, [&](int r) { try { if(cust) D[r].emplace(MPI_COMM_WORLD, B, *cust); else D[r].emplace(MPI_COMM_WORLD, B); K[r].emplace(*D[r]); } catch(std::exception& e) { err[r] = e.what(); } });
  Ranges<I> first;
  for(int r = 0; r < P; ++r) {
    if(!err[r].empty()) { fail("exception: " + err[r]); return; }
    Ranges<I> R; tiling(*D[r], P, A.m, R); if(!r) first = R; check(R == first, "the processes disagree about the ranges"); if(cust) check(R == *cust, "not the given ranges");
    check((int64_t)D[r]->m() == A.m && (int64_t)D[r]->n() == A.n, "global shape"); auto [lo, up] = R[r]; check((int64_t)D[r]->local_row_start() == lo && (int64_t)D[r]->local_row_extent() == up - lo, "local range");
    std::vector<Ent> got, want, off; entries(D[r]->diagonal_tile(), up - lo, up - lo, got, lo, lo, "diagonal tile"); for(auto& e : got) check(e.c >= lo && e.c < up, "diagonal tile: column of another process");
    entries(D[r]->off_diagonal_tile(), up - lo, A.n, off, lo, 0, "off-diagonal tile"); for(auto& e : off) check(e.c < lo || e.c >= up, "off-diagonal tile: column of this process");
    got.insert(got.end(), off.begin(), off.end()); for(auto& e : A.e) if(e.r >= lo && e.r < up) want.push_back(e); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); check(got == want, "the tiles do not hold exactly the entries of the local rows"); check(D[r]->nnz() == want.size(), "nnz");
    Ranges<I> C; tiling(*K[r], P, A.m, C); check(C == R, "the copy has another distribution"); check(K[r]->m() == D[r]->m() && K[r]->n() == D[r]->n() && K[r]->comm() == D[r]->comm() && K[r]->local_row_start() == D[r]->local_row_start(), "the copy has another shape or communicator");
    same<I>(D[r]->diagonal_tile(), K[r]->diagonal_tile(), "diagonal tile"); same<I>(D[r]->off_diagonal_tile(), K[r]->off_diagonal_tile(), "off-diagonal tile"); check(D[r]->diagonal_tile_ptr() != K[r]->diagonal_tile_ptr(), "the copy shares its tile");
  }
}
template <class I> void ranges_only(int P, int64_t M, int64_t N) {
  begin_case("default ranges P=" + std::to_string(P) + " M=" + std::to_string(M) + " N=" + std::to_string(N), P > 1); std::vector<Ranges<I>> R(P);
  std::vector<std::optional<dist_i<I>>> D(P); sim::run(P, [&](int r) { D[r].emplace(MPI_COMM_WORLD, M, N); dist_i<I> K(*D[r]); for(int q = 0; q < P; ++q) if(K.row_bounds(q) != D[r]->row_bounds(q)) fail("the copy has another distribution"); });
  for(int r = 0; r < P; ++r) { tiling(*D[r], P, M, R[r]); check(R[r] == R[0], "the processes disagree about the ranges"); check((int64_t)D[r]->m() == M && (int64_t)D[r]->n() == N, "global shape"); check(!D[r]->diagonal_tile_ptr() && !D[r]->off_diagonal_tile_ptr(), "a tile exists"); }
}
template <class I> void custom_ranges(int P, int64_t M, const Ranges<I>& T) {
  std::string s = "custom ranges P=" + std::to_string(P) + " M=" + std::to_string(M) + ":"; for(auto [a, b] : T) s += " [" + std::to_string(a) + "," + std::to_string(b) + ")"; begin_case(s, true);
  bool ok = (int)T.size() == P && T[0].first == 0 && T.back().second == M; for(size_t i = 0; ok && i < T.size(); ++i) ok = T[i].first <= T[i].second && (i == 0 || T[i].first == T[i - 1].second);
  std::vector<int> acc(P, 1); sim::run(P, [&](int r) { try { dist_i<I> D(MPI_COMM_WORLD, M, M, T); for(int q = 0; q < P; ++q) if(D.row_bounds(q) != T[q]) acc[r] = 2; } catch(std::exception&) { acc[r] = 0; } });
  for(int r = 0; r < P; ++r) { check(acc[r] != 2, "an accepted distribution was changed"); check((acc[r] != 0) == ok, ok ? "a valid distribution was rejected" : "an invalid distribution was accepted"); }
}
template <class I> Ranges<I> cut(int P, int64_t M, bool sorted = true) { std::vector<I> c; for(int i = 0; i + 1 < P; ++i) c.push_back(ri(0, M)); if(sorted) std::sort(c.begin(), c.end()); Ranges<I> R; I a = 0; for(int i = 0; i < P; ++i) { I b = i + 1 < P ? c[i] : M; R.push_back({a, b}); a = b; } return R; }
template <class I> void type(int rounds) {
  for(int q = 0; q < rounds; ++q) {
    for(int P : {1, 2, 3, 4, 5, 7, 8, 13}) {
      for(int64_t M : {0, 1, 2, 3, 7, 8, 12, 13, 25, 100, 1000003, 2147483646}) ranges_only<I>(P, M, ri(0, 1) ? M : ri(0, 50));
      for(int it = 0; it < 6; ++it) {
        int64_t m = ri(0, 14), n = ri(0, 2) ? m : ri(0, 18); auto A = rand_mat(m, n, ri(0, 1), 0.2 + 0.2 * ri(0, 4)); auto R = cut<I>(P, m);
        if constexpr(sizeof(I) == 4) { whole<I>(P, A, nullptr); whole<I>(P, A, &R); }   // (the constructor from a matrix does not compile for int64_t indices)
      }
      for(int it = 0; it < 12; ++it) {
        int64_t M = ri(0, 9); auto R = cut<I>(P, M, ri(0, 2)); int k = ri(0, P - 1);
        switch(ri(0, 8)) { case 0: R[k].second += 1; break; case 1: R[k].first += 1; break; case 2: R[k].first -= 1; break; case 3: R.pop_back(); break; case 4: R.push_back({I(M), I(M)}); break; case 5: std::swap(R[k], R[ri(0, P - 1)]); break; case 6: std::swap(R[k].first, R[k].second); break; case 7: if(k) { R[k].first += 1; R[k - 1].second += 1; R[k].second -= 1; } break; default: break; }
        custom_ranges<I>(P, M, R);
      }
    }
  }
}
void hv::run_all() { const int rounds = g_thorough ? 60 : 6; type<int32_t>(rounds); type<int64_t>(rounds); }
