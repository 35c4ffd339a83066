// C27: communication plans and the distributed product on any number of processes (threads behind the MPI calls) against the serial product.
#include "simmpi.hpp"
#include "sparse.hpp"
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <optional>
#include <set>
using namespace hv;
using dist = sparsexx::dist_sparse_matrix<csr>; using Info = sparsexx::spblas::spmv_info<int32_t>; using Ranges = std::vector<std::pair<int32_t, int32_t>>;
static void one(int P, const Mat& A, const Ranges* cust) {
  std::string s = "P=" + std::to_string(P) + " " + show(A); if(cust) { s += " ranges="; for(auto [a, b] : *cust) s += "[" + std::to_string(a) + "," + std::to_string(b) + ")"; } begin_case(s, P > 1 && A.e.size());
  auto B = mk_csr(A); int64_t N = A.m; std::vector<double> x(N), y0(N), want(N); for(auto& v : x) v = rd(); for(auto& v : y0) v = rd(); double al = ri(0, 3) ? rd() : 1., be = ri(0, 2) ? rd() : 0.; for(int64_t i = 0; i < N; ++i) want[i] = be * y0[i]; for(auto& e : A.e) want[e.r] += al * e.v * x[e.c];
  std::vector<std::optional<dist>> D(P); std::vector<Info> I(P); std::vector<std::vector<double>> Y(P), Z(P); Ranges R(P); std::vector<size_t> vol(P);
  sim::run(P, [&](int r) {
    if(cust) D[r].emplace(MPI_COMM_WORLD, B, *cust); else D[r].emplace(MPI_COMM_WORLD, B);
    I[r] = sparsexx::spblas::generate_spmv_comm_info(*D[r]); vol[r] = I[r].communication_volume();
    auto [lo, hi] = D[r]->row_bounds(r); R[r] = {lo, hi};
    for(int k = 0; k < 2; ++k) {      // a plan serves any number of products
      std::vector<double> v(x.begin() + lo, x.begin() + hi), y(y0.begin() + lo, y0.begin() + hi); auto w = v; y.push_back(77); v.reserve(1); y.reserve(1);
      sparsexx::spblas::pgespmv(al, *D[r], v.data(), be, y.data(), I[r]); if(v != w) fail("the vector was changed"); if(y.back() != 77) fail("the result was written past the local rows"); y.pop_back(); (k ? Z : Y)[r] = y;
    }
  });
  for(auto& d : D) if(!d) { fail("no matrix"); return; }
  for(int r = 0; r < P; ++r) {
    auto& i = I[r]; auto [lo, hi] = R[r]; std::set<int32_t> need; for(auto& e : A.e) if(e.r >= lo && e.r < hi && (e.c < lo || e.c >= hi)) need.insert(e.c);
    std::string w = "process " + std::to_string(r) + ": "; size_t p = P; bool shape = i.recv_counts.size() == p && i.recv_offsets.size() == p && i.send_counts.size() == p && i.send_offsets.size() == p; check(shape, w + "one count and offset per process"); if(!shape) return;
    std::multiset<int32_t> got(i.recv_indices.begin(), i.recv_indices.end()); check(got == std::multiset<int32_t>(need.begin(), need.end()), w + "the received columns are not each needed remote column once: " + show(i.recv_indices));
    size_t ro = 0, so = 0; for(int k = 0; k < P; ++k) {
      check(i.recv_offsets[k] == ro && i.send_offsets[k] == so, w + "offsets do not match the counts"); check(ro + i.recv_counts[k] <= i.recv_indices.size() && so + i.send_counts[k] <= i.send_indices.size(), w + "counts exceed the lists"); if(ro + i.recv_counts[k] > i.recv_indices.size() || so + i.send_counts[k] > i.send_indices.size()) return;
      for(size_t t = 0; t < i.recv_counts[k]; ++t) check(i.recv_indices[ro + t] >= R[k].first && i.recv_indices[ro + t] < R[k].second, w + "a received column belongs to another process"); 
      auto& j = I[k]; check(j.recv_counts.size() == p && j.recv_counts[r] == i.send_counts[k], w + "sends another number of entries than process " + std::to_string(k) + " receives");
      if(j.recv_counts.size() == p && j.recv_counts[r] == i.send_counts[k] && j.recv_offsets[r] + j.recv_counts[r] <= j.recv_indices.size()) for(size_t t = 0; t < i.send_counts[k]; ++t) check(i.send_indices[so + t] + lo == j.recv_indices[j.recv_offsets[r] + t], w + "sends other entries than process " + std::to_string(k) + " receives");
      ro += i.recv_counts[k]; so += i.send_counts[k];
    }
    check(ro == i.recv_indices.size() && so == i.send_indices.size(), w + "the counts do not add up to the lists"); check(i.recv_counts[r] == 0 && i.send_counts[r] == 0, w + "exchanges entries with itself"); check(i.comm == MPI_COMM_WORLD, w + "communicator"); check(vol[r] == vol[0], "the processes disagree about the communication volume");
    for(auto* y : {&Y[r], &Z[r]}) { check((int64_t)y->size() == hi - lo, w + "no result"); for(size_t t = 0; t < y->size(); ++t) check(near((*y)[t], want[lo + t]), w + "row " + std::to_string(lo + t) + " of the product is " + std::to_string((*y)[t]) + " and not " + std::to_string(want[lo + t])); }
  }
}
static Ranges cut(int P, int64_t M) { std::vector<int32_t> c; for(int i = 0; i + 1 < P; ++i) c.push_back(ri(0, M)); std::sort(c.begin(), c.end()); Ranges R; int32_t a = 0; for(int i = 0; i < P; ++i) { int32_t b = i + 1 < P ? c[i] : M; R.push_back({a, b}); a = b; } return R; }
void hv::run_all() {
  const int rounds = g_thorough ? 40 : 3;
  for(int q = 0; q < rounds; ++q) for(int P : {1, 2, 3, 4, 5, 7, 8, 13}) for(int it = 0; it < 14; ++it) {
    int64_t n = it < 2 ? it : it == 13 ? ri(30, 60) : ri(1, 20); auto A = rand_mat(n, n, ri(0, 1), it == 13 ? 0.1 : 0.1 + 0.2 * ri(0, 4)); if(it % 3 == 2) { std::vector<Ent> e; for(auto& t : A.e) if(std::abs(t.r - t.c) < 2 || ri(0, 9) == 0) e.push_back(t); A.e = e; }
    auto R = cut(P, n); if(it & 1) one(P, A, nullptr); one(P, A, &R);
  }
}
