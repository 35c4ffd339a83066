from spec import *
NOTE = "extract_submatrix, extract_submatrix_inclrow_exclcol, extract_upper_triangle for every CSR matrix whose rows are in ascending column order (the documented use; the code relies on it), any window inside the matrix, any base. Postconditions give the full result: row pointers, and for every output position the source position. std::partition_point/count_if/copy/accumulate are assumed contracts."
TOP = num(2 ** 31 - 1)
def first_at_least(C, A):
    """lb(row, c): first position of the row whose column is >= c (the rows of A are sorted)"""
    lb = fn("lb"); r, t, c = iv("r"), iv("t"), iv("c")
    C.axiom(forall([r, c], implies(rng(I0, r, A.m), and_(le(A.st(r), lb(r, c)), le(lb(r, c), A.en(r)), touch(select(A.ind, lb(r, c))))), [[lb(r, c)]]))
    C.axiom(forall([r, c, t], implies(and_(rng(I0, r, A.m), rng(A.st(r), t, lb(r, c))), lt(sub(select(A.ind, t), A.ix), c)), [[lb(r, c), select(A.ind, t)]]))
    C.axiom(forall([r, c, t], implies(and_(rng(I0, r, A.m), rng(lb(r, c), t, A.en(r))), ge(sub(select(A.ind, t), A.ix), c)), [[lb(r, c), select(A.ind, t)]]))
    return lb
PR, PT = iv("row"), iv("entry")
def places_at(A, start, rr, lo_, hi_, excl):
    return [add(start(PR), sub(PT, A.st(rr(PR)))), add(start(PR), sub(sub(PT, A.st(rr(PR))), sub(hi_(PR), lo_(PR))))] if excl else [add(start(PR), sub(PT, lo_(PR)))]
def places(A, U, start, M, rr, lo_, hi_, shift, excl):
    """where every entry of a kept row ends up; PR: row of the result, PT: position in A"""
    u = lambda p: and_(eq(select(U.f["colind_"].e, p), sub(select(A.ind, PT), shift)), eq(select(U.f["nzval_"].e, p), select(A.val, PT)))
    at = places_at(A, start, rr, lo_, hi_, excl); row = rng(I0, PR, M)
    if not excl: return [("every entry inside the window is at its place", implies(and_(row, rng(lo_(PR), PT, hi_(PR))), u(at[0])))]
    return [("every entry before the window is at its place", implies(and_(row, rng(A.st(rr(PR)), PT, lo_(PR))), u(at[0]))), ("every entry after the window is at its place", implies(and_(row, rng(hi_(PR), PT, A.en(rr(PR)))), u(at[1])))]
def jobs(V):
    return [(w, lambda w=w: contract(V, w)) for w in ("extract_submatrix", "extract_submatrix_inclrow_exclcol", "extract_upper_triangle")]
def contract(V, what):
    if True:
        C = V.ctx(what)
        f = V.fn("sparsexx::" + what)
        A = sym_compressed(C, V.CSR, "csr"); sorted_in(C, A)
        r, t, c = iv("r"), iv("t"), iv("c")
        rl, ru, cl, cu = iv("row_lo"), iv("row_up"), iv("col_lo"), iv("col_up")
        lb = first_at_least(C, A)
        if what == "extract_upper_triangle":
            M, N, shift = A.m, A.n, I0
            rr = lambda r: r
            lo_, hi_ = (lambda r: lb(r, r)), (lambda r: A.en(r))
        else:
            C.assume(le(I0, rl), le(rl, ru), le(ru, A.m), le(I0, cl), le(cl, cu), le(cu, TOP))
            M = sub(ru, rl); N = sub(cu, cl) if what == "extract_submatrix" else A.n; shift = cl if what == "extract_submatrix" else I0
            rr = lambda r: add(r, rl)
            lo_, hi_ = (lambda r: lb(rr(r), cl)), (lambda r: lb(rr(r), cu))
        excl = what.endswith("exclcol")
        cntf = fn("cnt")
        cdef = (lambda r: sub(sub(A.en(rr(r)), A.st(rr(r))), sub(hi_(r), lo_(r)))) if excl else (lambda r: sub(hi_(r), lo_(r)))
        C.axiom(forall([r], eq(cntf(r), cdef(r)), [[cntf(r)]]))
        L = row_layout(C, M, cntf)
        C.induct("the kept entries of the first rows are among the entries of these rows", r, None, lambda v: le(L.start(v), sub(A.st(rr(v)), A.st(rr(I0)))), hi=M, pats=[[L.start(r)]])
        p = iv("p")
        if excl:
            C.lemma("the excluded columns are a range", forall([r], implies(rng(I0, r, M), le(lo_(r), hi_(r))), [[L.start(r)]]))
            src = row_src(C, L, M, lambda r, o: ite(lt(add(A.st(rr(r)), o), lo_(r)), add(A.st(rr(r)), o), add(add(A.st(rr(r)), o), sub(hi_(r), lo_(r)))))
        else: src = row_src(C, L, M, lambda r, o: add(lo_(r), o))
        ptr = lambda k: add(L.start(k), A.ix)
        def cand(ex, Lp):
            out = []
            cs = counters(ex, Lp)
            for l in Lp.leaves:
                if l.hv.sort == asort("I") or l.hv.sort == asort("R"):
                    for B in cs:
                        for bb in (B, add(B, I1)):
                            if l.hv.sort == asort("I"):
                                out.append(forall([r], implies(rng(I0, r, bb), eq(select(l.hv, r), ptr(r)))))
                                out.append(forall([r], implies(rng(I0, r, bb), eq(select(l.hv, r), cntf(r)))))
                            arr = A.ind if l.hv.sort == asort("I") else A.val
                            out.append(forall([p], implies(rng(I0, p, L.start(B)), eq(select(l.hv, p), select(arr, src(p))))))
                elif l.hv.sort == "I":
                    for B in cs:
                        if B is not l.hv: out += [eq(l.hv, L.start(B)), eq(l.hv, ptr(B))]
            return out
        C.ex.cand_gens.append(cand)
        C.ex.sum_hints += [L.start]
        if excl:       # the predicate is a negation: the engine counts all entries minus the excluded ones
            sin = fn("excluded")
            C.axiom(eq(sin(I0), I0), forall([r], implies(rng(I0, r, M), eq(sin(add(r, I1)), add(sin(r), sub(hi_(r), lo_(r))))), [[sin(r)]]))
            C.ex.sum_hints += [sin, lambda k: add(sin(k), L.start(k))]
        C.ex.cand_to = 2000
        def rd(i, v):
            if v.op == "select" and v.args[0] in (A.ptr, A.ind): return
            yield ptr(i)
            if any(x.op == "msum" for x in tm.walk(v)): yield cntf(i)
        C.ex.read_hints = [rd]
        def pts(lo, hi):
            for x in tm.walk(lo):
                if x.op == "select" and x.args[0] is A.ptr:
                    R = x.args[1]
                    yield from ([lb(R, R)] if what == "extract_upper_triangle" else [lb(R, cl), lb(R, cu)])
        C.ex.point_hints = [pts]
        args = [A.loc]
        if what != "extract_upper_triangle":
            pr = lambda a, b: X.Obj("tuple", {"0": a, "1": b})
            args += [pr(rl, cl), pr(ru, cu)]
        U = C.call(f, args)
        C.ensure("shape and index base", and_(eq(U.f["m_"], M), eq(U.f["n_"], N), eq(U.f["indexing_"], A.ix), eq(U.f["nnz_"], L.total)))
        C.ensure("array lengths", and_(eq(U.f["rowptr_"].n, add(M, I1)), eq(U.f["colind_"].n, L.total), eq(U.f["nzval_"].n, L.total)))
        C.ensure("row pointers count the kept entries", forall([r], implies(and_(le(I0, r), le(r, M)), eq(select(U.f["rowptr_"].e, r), ptr(r)))))
        C.ensure("kept columns in original order", forall([p], implies(rng(I0, p, L.total), eq(select(U.f["colind_"].e, p), sub(select(A.ind, src(p)), shift)))))
        C.ensure("kept values in original order", forall([p], implies(rng(I0, p, L.total), eq(select(U.f["nzval_"].e, p), select(A.val, src(p))))))
        if what != "extract_upper_triangle":
            for nm, g in places(A, U, L.start, M, rr, lo_, hi_, shift, excl):
                C.ensure(nm, implies(touch(*[src(x) for x in places_at(A, L.start, rr, lo_, hi_, excl)]), g))
        V.done(C)
