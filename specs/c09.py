from spec import *
NOTE = "CSR re-basing, both coordinate sorts and the triangle expansion, for every stored matrix: positions, order and values of every entry. std::sort/iota/all_of are assumed contracts; entry counts are assumed to fit the index type. The library has no re-basing for CSC."
def jobs(V): return [("set_indexing", lambda: rebase(V)), ("sort_by_row_index", lambda: sort_(V, "row")), ("sort_by_col_index", lambda: sort_(V, "col")), ] + [("expand_from_triangle " + k, lambda k=k: expand(V, k)) for k in ("lower-left zero", "upper-right zero", "diagonal", "full")]

def rebase(V):
    C = V.ctx("csr_matrix::set_indexing")
    A = sym_compressed(C, V.CSR, "csr"); nb = iv("new_base"); C.assume(or_(eq(nb, I0), eq(nb, I1)))
    C.call(V.fn(V.CSR + "::set_indexing"), [nb], this=A.loc)
    R = C.ex.read(C.st, A.loc); q, r = iv("q"), iv("r")
    C.ensure("base, shape, counts", and_(eq(R.f["indexing_"], nb), eq(R.f["m_"], A.m), eq(R.f["n_"], A.n), eq(R.f["nnz_"], A.nnz), eq(R.f["rowptr_"].n, add(A.m, I1)), eq(R.f["colind_"].n, A.nnz), eq(R.f["nzval_"].n, A.nnz)))
    C.ensure("every column index moves by the base change", forall([q], implies(rng(I0, q, A.nnz), eq(sub(select(R.f["colind_"].e, q), nb), sub(select(A.ind, q), A.ix)))))
    C.ensure("every row pointer moves by the base change", forall([r], implies(and_(le(I0, r), le(r, A.m)), eq(sub(select(R.f["rowptr_"].e, r), nb), sub(select(A.ptr, r), A.ix)))))
    C.ensure("values stay", eq(R.f["nzval_"].e, A.val))
    V.done(C)

def sort_(V, by):
    C = V.ctx("coo_matrix::sort_by_%s_index" % by)
    A = sym_coo(C, V.COO)
    got = []
    C.call(V.fn(V.COO + "::sort_by_%s_index" % by), [], this=A.loc)
    R = C.ex.read(C.st, A.loc); q, p = iv("q"), iv("p")
    pi, pinv = C.ex.last_perm
    row, col, val = (R.f[k].e for k in ("rowind_", "colind_", "nzval_"))
    C.ensure("shape, base, counts", and_(eq(R.f["m_"], A.m), eq(R.f["n_"], A.n), eq(R.f["nnz_"], A.nnz), eq(R.f["indexing_"], A.ix), *[eq(R.f[k].n, A.nnz) for k in ("rowind_", "colind_", "nzval_")]))
    C.ensure("every entry is an entry of the input", forall([q], implies(rng(I0, q, A.nnz), and_(rng(I0, pi(q), A.nnz), eq(select(row, q), select(A.row, pi(q))), eq(select(col, q), select(A.col, pi(q))), eq(select(val, q), select(A.val, pi(q)))))))
    C.ensure("no entry is lost or repeated (the rearrangement is a bijection)", forall([q], implies(and_(rng(I0, q, A.nnz), touch(pi(q), pi(pinv(q)))), and_(rng(I0, pinv(q), A.nnz), eq(pi(pinv(q)), q), eq(pinv(pi(q)), q)))))
    a, b = (row, col) if by == "row" else (col, row)
    C.ensure("lexicographic order", forall([p, q], implies(and_(le(I0, p), lt(p, q), lt(q, A.nnz)), or_(lt(select(a, p), select(a, q)), and_(eq(select(a, p), select(a, q)), le(select(b, p), select(b, q)))))))
    V.done(C)

def expand(V, kind):
    C = V.ctx("coo_matrix::expand_from_triangle, " + kind)
    A = sym_coo(C, V.COO, "A"); q, i = iv("q"), iv("i")
    C.assume(le(mul(num(2), A.nnz), num(2**31 - 1)))
    off = lambda i: ne(select(A.row, i), select(A.col, i))
    L = row_layout(C, A.nnz, lambda i: ite(off(i), I1, I0), name="off")
    src = L.rowat
    C.induct("no more mirrored entries than entries", i, None, lambda v: le(L.start(v), v), hi=A.nnz, pats=[[L.start(i)]])
    # the shape of the pattern: which sides of the diagonal hold entries
    ur, ll = iv("an_upper_entry"), iv("a_lower_entry")
    le_ = lambda i: le(select(A.row, i), select(A.col, i)); ge_ = lambda i: ge(select(A.row, i), select(A.col, i))
    all_ = lambda f: forall([i], implies(rng(I0, i, A.nnz), f(i)))
    some = lambda f, w: and_(rng(I0, w, A.nnz), not_(f(w)))
    tri = kind in ("lower-left zero", "upper-right zero")
    C.assume(all_(le_) if kind in ("lower-left zero", "diagonal") else some(le_, ll), all_(ge_) if kind in ("upper-right zero", "diagonal") else some(ge_, ur))
    C.lemma("mirrored entries come from off-diagonal entries", forall([q], implies(rng(I0, q, L.start(A.nnz)), and_(off(src(q)), eq(L.start(src(q)), q))), [[src(q)]]))
    C.lemma("at most one mirrored entry per entry", implies(touch(L.start(A.nnz)), ge(L.start(A.nnz), I0)))
    def F(old, mir):
        return lambda q, B: ite(lt(q, A.nnz), select(old, q), select(mir, src(sub(q, A.nnz))))
    def cand(ex, Lp):
        out = []
        for B in counters(ex, Lp):
            for l in Lp.leaves:
                if l.hv.sort == "I": out.append(eq(l.hv, add(A.nnz, L.start(B))))
                elif l.hv.sort in (asort("I"), asort("R")):
                    for o, m in ((A.row, A.col), (A.col, A.row)) if l.hv.sort == asort("I") else ((A.val, A.val),):
                        out.append(forall([q], implies(rng(I0, q, A.nnz), eq(select(l.hv, q), select(o, q)))))
                        out.append(forall([q], implies(rng(I0, q, L.start(B)), eq(select(l.hv, add(A.nnz, q)), select(m, src(q)))), [[src(q)]]))
        return out
    C.ex.cand_gens.append(cand)
    C.call(V.fn(V.COO + "::expand_from_triangle"), [], this=A.loc)
    R = C.ex.read(C.st, A.loc)
    row, col, val = (R.f[k].e for k in ("rowind_", "colind_", "nzval_"))
    nn = R.f["nnz_"]
    C.ensure("shape and base stay", and_(eq(R.f["m_"], A.m), eq(R.f["n_"], A.n), eq(R.f["indexing_"], A.ix)))
    C.ensure("the recorded count is the number of stored entries", and_(*[eq(R.f[k].n, nn) for k in ("rowind_", "colind_", "nzval_")]))
    C.ensure("the original entries stay in place", forall([q], implies(rng(I0, q, A.nnz), and_(eq(select(row, q), select(A.row, q)), eq(select(col, q), select(A.col, q)), eq(select(val, q), select(A.val, q))))))
    if not tri: C.ensure("a full or diagonal matrix is left alone", eq(nn, A.nnz))
    else:
        C.ensure("a triangle gains one entry per off-diagonal entry", eq(nn, add(A.nnz, L.start(A.nnz))))
        C.ensure("the added entries are the mirrored off-diagonal entries", forall([q], implies(rng(I0, q, L.start(A.nnz)), and_(eq(select(row, add(A.nnz, q)), select(A.col, src(q))), eq(select(col, add(A.nnz, q)), select(A.row, src(q))), eq(select(val, add(A.nnz, q)), select(A.val, src(q)))))))
    V.done(C)
