#include "sparse.hpp"
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <cstdlib>
#include <fstream>
using namespace hv;
static std::string g_file;
static std::string bytes() { std::ifstream f(g_file, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
template <class M> static void trip(const Mat& A, const M& B, const char* what) {
  bool up = false, lo = false, base = A.idx == 1; for(auto& e : A.e) { up |= e.r < e.c; lo |= e.r > e.c; base |= e.r == 0 || e.c == 0; }
  begin_case(std::string("binary triplets, ") + what + " " + show(A), A.e.size() > 1);
  sparsexx::write_binary_triplet(B, g_file);
  std::string s = bytes(); size_t k = A.e.size();
  check(s.size() == 16 + 16 * k, "length of the file");
  if(up != lo && A.m != A.n) return;     // one triangle of a rectangular matrix stands for nothing
  auto want = A.e; if(up != lo) for(auto& e : A.e) if(e.r != e.c) want.push_back({e.c, e.r, e.v});
  auto R = sparsexx::read_binary_triplet<coo>(g_file);
  check(R.m() == A.m && R.n() == A.n, "shape changed"); check(R.nnz() == (int64_t)want.size(), "entry count changed");
  if(base) check(R.indexing() == A.idx, "index base changed"); 
  if(R.rowind().size() != want.size() || R.colind().size() != want.size() || R.nzval().size() != want.size()) { fail("array lengths"); return; }
  std::vector<Ent> got; for(size_t i = 0; i < want.size(); ++i) got.push_back({R.rowind()[i] - A.idx, R.colind()[i] - A.idx, R.nzval()[i]});
  want = sorted(want); check(got == want, "the entries read are not those written, by rows and columns");
  if(base) { auto S = sparsexx::read_binary_triplet<csr>(g_file); same_shape(S, A.m, A.n, A.idx, "read as CSR"); check(sorted(ents_csr(S, "read as CSR")) == want, "read as CSR: the entries are not those written"); }
}
void hv::run_all() {
  std::string dir = std::getenv("HV_DIR") ? std::getenv("HV_DIR") : "."; g_file = dir + "/triplets.bin";
  std::cout.setstate(std::ios::failbit);
  int k = 0;
  for_mats([&](const Mat& A) {
    if(++k % 3 && A.e.size() > 3 && !g_thorough) return;
    bool sh = k % 2; trip(A, mk_coo(A, sh), "coordinates"); trip(A, mk_csr(A, sh), "CSR");
    Mat T = A; T.e.clear(); for(auto& e : A.e) if(k % 2 ? e.r <= e.c : e.r >= e.c) T.e.push_back(e);
    if(k % 5 == 0) { trip(T, mk_coo(T, !sh), "coordinates, one triangle"); trip(T, mk_csr(T), "CSR, one triangle"); }
  });
  std::cout.clear();
}
