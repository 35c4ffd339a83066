from spec import *
NOTE = "extract_adjacency for every CSR matrix with at most one diagonal entry per row, both input bases and any output base: row pointers, and for every output position the exact source position. std::find/copy are assumed contracts."
def run(prog, V):
    C = V.ctx("extract_adjacency")
    f = V.fn("sparsexx::extract_adjacency")
    A = sym_compressed(C, V.CSR, "csr")
    r, t, p, ob = iv("r"), iv("t"), iv("p"), iv("ret_indexing")
    C.assume(rng(num(-1000), ob, num(1000)))
    d = fn("diag")      # position of the diagonal entry of a row, or the end of the row
    C.axiom(forall([r], implies(rng(I0, r, A.m), and_(le(A.st(r), d(r)), le(d(r), A.en(r)), implies(lt(d(r), A.en(r)), eq(sub(select(A.ind, d(r)), A.ix), r)), touch(select(A.ind, d(r))))), [[d(r)]]))
    C.axiom(forall([r, t], implies(and_(rng(I0, r, A.m), rng(A.st(r), t, A.en(r)), ne(t, d(r))), ne(sub(select(A.ind, t), A.ix), r)), [[d(r), select(A.ind, t)]]))
    cnt = fn("cnt")
    C.axiom(forall([r], eq(cnt(r), sub(sub(A.en(r), A.st(r)), ite(lt(d(r), A.en(r)), I1, I0))), [[cnt(r)]]))
    L = row_layout(C, A.m, cnt)
    C.induct("the kept entries of the first rows are among the entries of these rows", r, None, lambda v: le(L.start(v), A.st(v)), hi=A.m, pats=[[L.start(r)]])
    src = row_src(C, L, A.m, lambda r, o: ite(lt(add(A.st(r), o), d(r)), add(A.st(r), o), add(add(A.st(r), o), I1)))
    row_cands(C, A, L, src, ob, [lambda B: sub(A.st(B), L.start(B))])
    def pts(lo, hi):
        for x in tm.walk(lo):
            if x.op == "select" and x.args[0] is A.ptr: yield d(x.args[1])
    C.ex.point_hints = [pts]
    C.ex.read_hints = [lambda i, v: () if v.op == "select" and v.args[0] in (A.ptr, A.ind) else (add(L.start(i), ob),)]
    C.assume(le(add(L.total, ob), num(2**31 - 1)))
    R = C.call(f, [A.loc, ob])
    rp, ci = R.f["0"], R.f["1"]
    C.ensure("array lengths", and_(eq(rp.n, add(A.m, I1)), eq(ci.n, L.total)))
    C.ensure("row pointers count the off-diagonal entries", forall([r], implies(and_(le(I0, r), le(r, A.m)), eq(select(rp.e, r), add(L.start(r), ob)))))
    C.ensure("neighbours in storage order, in the requested base", forall([p], implies(rng(I0, p, L.total), eq(select(ci.e, p), add(sub(select(A.ind, src(p)), A.ix), ob)))))
    V.done(C)
