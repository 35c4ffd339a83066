from spec import *
NOTE = "All obligations generated from the clang AST of extract_diagonal_elements and trace for every well-formed CSR matrix without duplicate entries (any size, base, order within rows); values are reals, integers are mathematical; std:: algorithms are assumed contracts. A replay harness runs the real code on small matrices."
def run(prog, V):
    for what in ("extract_diagonal_elements", "trace"):
        C = V.ctx(what)
        f = V.fn("sparsexx::" + what)
        A = sym_compressed(C, V.CSR, "csr"); no_dups(C, A)
        D, has, w = fn("diag", "R"), fn("hasdiag", "B"), fn("diagpos")
        r, t = iv("r"), iv("t")
        C.axiom(forall([r], and_(implies(has(r), and_(rng(A.st(r), w(r), A.en(r)), eq(select(A.ind, w(r)), add(r, A.ix)), eq(D(r), select(A.val, w(r))))),
                                 implies(not_(has(r)), eq(D(r), num(0, "R")))), [[D(r)]]))
        C.axiom(forall([r, t], implies(and_(not_(has(r)), rng(A.st(r), t, A.en(r))), ne(select(A.ind, t), add(r, A.ix))), [[has(r), select(A.ind, t)]]))
        def tr(k):
            u = iv("u"); return sum_(u, I0, k, D(u))
        C.ex.cand_gens += [cand_arr(D, "R"), cand_scalar(tr, "R"), cand_len([A.m])]
        v = C.call(f, [A.loc])
        if what == "trace": C.ensure("trace is the sum of the stored diagonal values", eq(v, tr(A.m)))
        else:
            C.ensure("one diagonal value per row", eq(v.n, A.m))
            C.ensure("each entry is the stored diagonal value or zero", forall([r], implies(rng(I0, r, A.m), eq(select(v.e, r), D(r)))))
        V.done(C)
