#include "sparse.hpp"
using namespace hv;
static void base_of(csr& B, int idx) { B.set_indexing(idx); }
void hv::run_all() {
  for_mats([](const Mat& A) {
    for(int sh = 0; sh < 2; ++sh) {
      for(int nb = 0; nb < 3; ++nb) {
        auto B = mk_csr(A, sh); auto rp = B.rowptr(); auto ci = B.colind(); auto nz = B.nzval();
        begin_case("set_indexing(" + std::to_string(nb) + ") " + show(A), nb != A.idx);
        base_of(B, nb);
        check(B.indexing() == nb, "recorded base"); check(B.m() == A.m && B.n() == A.n && B.nnz() == (int64_t)A.e.size(), "shape or count changed");
        check(B.nzval() == nz && B.colind().size() == ci.size() && B.rowptr().size() == rp.size(), "values or lengths changed");
        for(size_t i = 0; i < ci.size(); ++i) check(B.colind()[i] - nb == ci[i] - A.idx, "column index not shifted by the base change");
        for(size_t i = 0; i < rp.size(); ++i) check(B.rowptr()[i] - nb == rp[i] - A.idx, "row pointer not shifted by the base change");
        base_of(B, A.idx); check(B.colind() == ci && B.rowptr() == rp && B.indexing() == A.idx, "changing the base back does not restore the matrix");
      }
      // sorts, with repeated coordinates in every other round
      for(int dup = 0; dup < 2; ++dup) for(int by = 0; by < 2; ++by) {
        auto es = A.e; if(dup) { size_t k = es.size(); for(size_t i = 0; i < k; i += 3) { auto e = es[i]; e.v += 0.5; es.push_back(e); } }
        if(sh) std::shuffle(es.begin(), es.end(), rng());
        auto B = mk_coo(es, A.m, A.n, A.idx);
        begin_case(std::string("sort_by_") + (by ? "col" : "row") + "_index rowind=" + show(B.rowind()) + " colind=" + show(B.colind()), es.size() > 1);
        if(by) B.sort_by_col_index(); else B.sort_by_row_index();
        check(B.m() == A.m && B.n() == A.n && B.nnz() == (int64_t)es.size() && B.indexing() == A.idx, "shape, base or count changed");
        check(B.rowind().size() == es.size() && B.colind().size() == es.size() && B.nzval().size() == es.size(), "array lengths");
        std::vector<Ent> got; for(size_t i = 0; i < es.size(); ++i) got.push_back({B.rowind()[i] - A.idx, B.colind()[i] - A.idx, B.nzval()[i]});
        for(size_t i = 1; i < got.size(); ++i) {
          auto a = by ? std::make_pair(got[i - 1].c, got[i - 1].r) : std::make_pair(got[i - 1].r, got[i - 1].c);
          auto b = by ? std::make_pair(got[i].c, got[i].r) : std::make_pair(got[i].r, got[i].c);
          check(a <= b, "not in lexicographic order");
        }
        std::sort(got.begin(), got.end()); std::sort(es.begin(), es.end());
        check(got == es, "entries lost, repeated or altered");
        check(by ? B.is_sorted_by_col_index() : B.is_sorted_by_row_index(), "is_sorted disagrees");
      }
    }
  });
  for_mats([](const Mat& A) {
    for(int tri = 0; tri < 4; ++tri) for(int sh = 0; sh < 2; ++sh) {
      std::vector<Ent> es; for(auto e : A.e) if(tri == 3 || (tri == 0 && e.r <= e.c) || (tri == 1 && e.r >= e.c) || (tri == 2 && e.r == e.c)) es.push_back(e);
      if(sh) std::shuffle(es.begin(), es.end(), rng());
      auto B = mk_coo(es, A.m, A.n, A.idx);
      bool up = false, lo = false; for(auto& e : es) { up |= e.r < e.c; lo |= e.r > e.c; }
      begin_case("expand_from_triangle base " + std::to_string(A.idx) + " rowind=" + show(B.rowind()) + " colind=" + show(B.colind()), up != lo);
      B.expand_from_triangle();
      auto exp = es; if(up != lo) for(auto& e : es) if(e.r != e.c) exp.push_back({e.c, e.r, e.v});
      check(B.m() == A.m && B.n() == A.n && B.indexing() == A.idx, "shape or base changed");
      check(B.nnz() == (int64_t)exp.size(), "recorded entry count " + std::to_string(B.nnz()) + " expected " + std::to_string(exp.size()));
      check(B.rowind().size() == exp.size() && B.colind().size() == exp.size() && B.nzval().size() == exp.size(), "array lengths differ from the recorded count");
      std::vector<Ent> got; for(size_t i = 0; i < exp.size(); ++i) got.push_back({B.rowind()[i] - A.idx, B.colind()[i] - A.idx, B.nzval()[i]});
      std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
      check(got == exp, "entries are not the originals plus their mirror images");
    }
  }, true);
}
