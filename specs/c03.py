from spec import *
NOTE = "gespmbv for CSR and COO: every output element, for all shapes, index bases, block widths and leading dimensions, under real arithmetic (rounding and reassociation are not modelled); loops are summarised exactly, no bound. OpenMP iterations are treated as sequential (each output element is written by one iteration, which the proof shows for CSR). The MKL path is not compiled here."
ASSUME = ["floating-point arithmetic is treated as real arithmetic", "an OpenMP worksharing loop behaves like the sequential loop"]
def run(prog, V):
    for kind in ("csr", "coo"):
        C = V.ctx("gespmbv(%s)" % kind)
        f = V.fn("sparsexx::spblas::gespmbv", lambda f: (kind + "_matrix") in f.type)
        A = sym_compressed(C, V.CSR, "csr") if kind == "csr" else sym_coo(C, V.COO)
        K, LDV, LDAV = iv("K"), iv("LDV"), iv("LDAV")
        al, be = fresh("alpha", "R"), fresh("beta", "R")
        C.assume(ge(K, I0), ge(LDV, A.n), ge(LDAV, A.m), ge(LDV, I1), ge(LDAV, I1))
        v, V0, _ = buffer(C, "V", [LDV, None]); av, AV0, avl = buffer(C, "AV", [LDAV, None])
        C.call(f, [K, al, A.loc, v, LDV, be, av, LDAV])
        r, k, t = iv("r"), iv("k"), iv("t")
        if kind == "csr":
            ax = sum_(t, A.st(r), A.en(r), mul(select(A.val, t), sel(V0, sub(select(A.ind, t), A.ix), k)))
        else:
            ax = sum_(t, I0, A.nnz, ite(eq(sub(select(A.row, t), A.ix), r), mul(select(A.val, t), sel(V0, sub(select(A.col, t), A.ix), k)), num(0, "R")))
        new = sel(C.ex.read(C.st, avl).e, r, k); old = sel(AV0, r, k)
        inb = and_(rng(I0, r, A.m), rng(I0, k, K))
        C.ensure("output block is alpha*A*V + beta*AV", implies(inb, eq(new, add(mul(al, ax), mul(be, old)))))
        C.ensure("nothing outside the output block is written", implies(not_(inb), eq(new, old)))
        V.done(C)
