#include "sparse.hpp"
#include <sparsexx/matrix_types/conversions.hpp>
#include <sparsexx/matrix_types/coo_conversions.hpp>
#include <sparsexx/matrix_types/coo_matrix_ops.hpp>
using namespace hv;
static std::vector<Ent> by_col(const Mat& A) { auto e = A.e; std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.c < b.c; }); return e; }
void hv::run_all() {
  for_mats([](const Mat& A) {
    bool sh = ri(0, 1);
    auto ref = sorted(A.e);
    begin_case("conversions of " + show(A), !A.e.empty());
    {
      csr S = mk_csr(A, sh); coo B(S);
      same_shape(B, A.m, A.n, A.idx, "COO(CSR)");
      check(B.nnz() == (int64_t)A.e.size() && sorted(ents_coo(B, "COO(CSR)")) == ref, "COO(CSR): entries differ: rows " + show(B.rowind()) + " cols " + show(B.colind()) + " vals " + show(B.nzval()));
      csr R(B);
      same_shape(R, A.m, A.n, A.idx, "CSR(COO(CSR))");
      check(sorted(ents_csr(R, "CSR(COO(CSR))")) == ref, "CSR(COO(CSR)): entries differ");
    }
    {
      csc S = mk_csc(A, sh); csr B(S);
      same_shape(B, A.m, A.n, A.idx, "CSR(CSC)");
      check(sorted(ents_csr(B, "CSR(CSC)")) == ref, "CSR(CSC): entries differ: rowptr " + show(B.rowptr()) + " colind " + show(B.colind()) + " vals " + show(B.nzval()));
      check(sorted(ents_csc(S, "CSR(CSC) source")) == ref, "CSR(CSC) changed its source");
    }
    {
      // rows in order, columns inside a row in any order
      auto e = A.e; if(sh) { std::shuffle(e.begin(), e.end(), rng()); std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.r < b.r; }); }
      coo S = mk_coo(e, A.m, A.n, A.idx);
      csr B(S);
      same_shape(B, A.m, A.n, A.idx, "CSR(COO)");
      check(sorted(ents_csr(B, "CSR(COO)")) == ref, "CSR(COO): entries differ: rowptr " + show(B.rowptr()) + " colind " + show(B.colind()) + " vals " + show(B.nzval()));
      coo T = mk_coo(by_col(A), A.m, A.n, A.idx);
      csc D(T);
      same_shape(D, A.m, A.n, A.idx, "CSC(COO)");
      check(sorted(ents_csc(D, "CSC(COO)")) == ref, "CSC(COO): entries differ: colptr " + show(D.colptr()) + " rowind " + show(D.rowind()) + " vals " + show(D.nzval()));
      csr back(D);
      check(sorted(ents_csr(back, "CSR(CSC(COO))")) == ref, "CSR(CSC(COO)): entries differ");
    }
    {
      // unsorted coordinate storage must be rejected (or still give the right matrix)
      coo S = mk_coo(A, true);
      std::vector<Ent> got; bool t1 = throws([&] { csr B(S); got = ents_csr(B, "CSR(unsorted COO)"); });
      check(t1 || sorted(got) == ref, "CSR(unsorted COO) accepted the input and produced a different matrix");
      bool rs = std::is_sorted(S.rowind().begin(), S.rowind().end());
      check(!(rs && t1), "CSR(COO) rejected row-sorted input");
      bool t2 = throws([&] { csc B(S); got = ents_csc(B, "CSC(unsorted COO)"); });
      check(t2 || sorted(got) == ref, "CSC(unsorted COO) accepted the input and produced a different matrix");
      bool cs = std::is_sorted(S.colind().begin(), S.colind().end());
      check(!(cs && t2), "CSC(COO) rejected column-sorted input");
    }
  });
}
