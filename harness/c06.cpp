#include "sparse.hpp"
#include <sparsexx/util/graph.hpp>
namespace sparsexx::detail {
template <typename I> void metis_kway_partitioning(int64_t, int64_t, I*, I*, std::vector<I>&) {}
}
using namespace hv;
void hv::run_all() {
  for_mats([](const Mat& A) {
    for(int sh = 0; sh < 2; ++sh) for(int ob = 0; ob < 2; ++ob) {
      auto B = mk_csr(A, sh);
      auto src = ents_csr(B, "input");
      std::vector<int> rp(1, ob), ci;
      { size_t k = 0; for(int64_t i = 0; i < A.m; ++i) { for(; k < src.size() && src[k].r == i; ++k) if(src[k].c != i) ci.push_back(src[k].c + ob); rp.push_back(ci.size() + ob); } }
      begin_case("adjacency, output base " + std::to_string(ob) + (sh ? ", unsorted rows, " : ", ") + show(A) + " colind=" + show(B.colind()), !ci.empty());
      auto [orp, oci] = sparsexx::extract_adjacency(B, ob);
      check(std::vector<int>(orp.begin(), orp.end()) == rp, "row pointers " + show(orp) + " expected " + show(rp));
      check(std::vector<int>(oci.begin(), oci.end()) == ci, "neighbours " + show(oci) + " expected " + show(ci));
      if(ob == 0) { auto [r2, c2] = sparsexx::extract_adjacency(B); check(r2 == orp && c2 == oci, "default output base is not 0"); }
    }
  });
}
