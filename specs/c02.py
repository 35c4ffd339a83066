from spec import *
NOTE = "convert_to_dense for CSR and COO, for all shapes, bases and leading dimensions, under the precondition that no (row, column) position is stored twice; both the written cells and the frame (every other buffer cell unchanged) are postconditions; LD < rows throws before any write. Values are reals."
ASSUME = ["an OpenMP worksharing loop behaves like the sequential loop"]
def run(prog, V):
    for kind in ("csr", "coo"):
        C = V.ctx("convert_to_dense(%s)" % kind)
        f = V.fn("sparsexx::convert_to_dense", lambda f: (kind + "_matrix") in f.type)
        A = sym_compressed(C, V.CSR, "csr") if kind == "csr" else sym_coo(C, V.COO)
        LD = iv("LDAD"); C.assume(ge(LD, I1))
        d, D0, dl = buffer(C, "dense", [LD, None])
        r, c, t, u = iv("r"), iv("c"), iv("t"), iv("u")
        pos = fn("pos")
        if kind == "csr":
            no_dups(C, A); lo, hi = A.st(r), A.en(r); colat = lambda t: sub(select(A.ind, t), A.ix); here = eq(colat(t), c); rowok = rng(I0, r, A.m)
        else:
            C.assume(forall([t, u], implies(and_(rng(I0, t, A.nnz), rng(I0, u, A.nnz), eq(select(A.row, t), select(A.row, u)), eq(select(A.col, t), select(A.col, u))), eq(t, u)), [[select(A.row, t), select(A.row, u)]]))
            lo, hi = I0, A.nnz; here = and_(eq(sub(select(A.row, t), A.ix), r), eq(sub(select(A.col, t), A.ix), c)); rowok = TRUE
        # pos(r,c): the position storing (r,c), or -1
        p = pos(r, c); inr = and_(rng(lo, p, hi), rowok); hp = tm.subst(here, {t: p})
        C.axiom(forall([r, c], or_(eq(p, num(-1)), and_(inr, hp)), [[p]]))
        C.axiom(forall([r, c, t], implies(and_(rng(lo, t, hi), rowok, here), eq(p, t)), [[p, select(A.ind if kind == "csr" else A.row, t)]]))
        def val(a, b, done): return ite(and_(ge(pos(a, b), I0), lt(pos(a, b), done)), select(A.val, pos(a, b)), sel(D0, a, b))
        def cand(ex, L):
            out = []
            cs = counters(ex, L)
            for O in L.outer: cs = cs + counters(ex, O)
            bs = list(cs)
            if kind == "csr": bs += [A.st(x) for x in cs] + [add(A.st(x), y) for x in cs for y in cs if x is not y]
            for l in L.leaves:
                if l.hv.sort == asort(asort("R")):
                    for B in bs:
                        a, b = iv("a"), iv("b")
                        out.append(forall([a, b], eq(sel(l.hv, a, b), val(a, b, B))))
            return out
        C.ex.cand_gens.append(cand)
        nt = len(C.ex.throws)
        C.call(f, [A.loc, d, LD])
        D1 = C.ex.read(C.st, dl).e
        a, b = iv("a"), iv("b")
        C.ensure("returns only when the leading dimension covers the rows", ge(LD, A.m))
        C.ensure("every stored entry is at its position, every other cell is unchanged", eq(sel(D1, a, b), ite(ge(pos(a, b), I0), select(A.val, pos(a, b)), sel(D0, a, b))))
        for s, _ in [(x, 0) for x in C.ex.throws[nt:]]:
            s = s[0] if isinstance(s, tuple) else s
            C.ensure("rejects only a leading dimension smaller than the row count", lt(LD, A.m), st=s)
            C.ensure("nothing is written when rejecting", eq(sel(C.ex.read(s, dl).e, a, b), sel(D0, a, b)), st=s)
        V.done(C)
