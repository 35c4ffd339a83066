from spec import *
NOTE = "invert_perm, both permute_vector overloads in both directions, row permutation and column permutation of a CSR matrix proved for every matrix and every permutation: exact source of every output position, well-formed pointers, ascending columns (rows assumed to hold no duplicate columns for the column sort). std::sort/copy/iota are assumed contracts; OpenMP loops are verified as sequential loops. permute_rows_cols and perm_from_part are decided only by the bounded executed stand-in."
BOUNDED = ["permute_rows_cols: executed on random CSR matrices up to 140x140 (both bases, unsorted rows, rectangular), every entry compared", "perm_from_part: executed on random part vectors up to 40 elements and 6 parts"]
def jobs(V):
    return [("invert_perm", lambda: inv_perm(V)), ("vector", lambda: vec(V)), ("rows", lambda: rows(V)), ("cols", lambda: cols(V, False))]

class P: pass
def sym_perm(C, name, n):
    """any permutation of 0..n-1 in a vector; inv is its two-sided inverse"""
    p = P(); p.n = n; p.e = fresh(name, asort("I")); p.inv = fn(name + ".inv"); i, j = iv("i"), iv("j")
    p.loc = C.alloc(Vec(n, p.e, I32), name)
    p.at = lambda i: select(p.e, i)
    C.assume(ge(n, I0), le(n, num(2**31 - 2)))
    C.axiom(forall([i], implies(rng(I0, i, n), and_(rng(I0, p.at(i), n), eq(p.inv(p.at(i)), i))), [[p.at(i)]]),
            forall([j], implies(rng(I0, j, n), and_(rng(I0, p.inv(j), n), eq(p.at(p.inv(j)), j))), [[p.inv(j)]]))
    return p
def inv_cands(C, p):
    t, j = iv("t"), iv("j")
    def cand(ex, L):
        out = []
        for l in L.leaves:
            if l.hv.sort == asort("I") and l.role != 'n' and not L.outer and len(L.leaves) == 2:
                for B in counters(ex, L):
                    out.append(forall([j], implies(and_(rng(I0, j, p.n), lt(p.inv(j), B)), eq(select(l.hv, j), p.inv(j))), [[select(l.hv, j)], [p.inv(j)]]))
        return out
    C.ex.cand_gens.append(cand)

def inv_perm(V):
    C = V.ctx("invert_perm"); n = iv("n")
    p = sym_perm(C, "perm", n); inv_cands(C, p)
    r = C.call(V.fn("sparsexx::invert_perm"), [p.loc])
    i, j = iv("i"), iv("j")
    C.ensure("length", eq(r.n, n))
    C.ensure("undoes the permutation", forall([i], implies(rng(I0, i, n), eq(select(r.e, p.at(i)), i))))
    C.ensure("is undone by the permutation", forall([j], implies(rng(I0, j, n), and_(rng(I0, select(r.e, j), n), eq(p.at(select(r.e, j)), j)))))
    V.done(C)

def vec(V):
    for f in V.fns("sparsexx::permute_vector"):
        inplace = len(f.params) == 4
        for d in (0, 1):
            C = V.ctx("permute_vector %s %s" % ("in place" if inplace else "out of place", ["forward", "backward"][d])); n = iv("n")
            p = sym_perm(C, "perm", n)
            X0, Y0 = fresh("X", asort("R")), fresh("Y", asort("R"))
            nx, ny = iv("nx"), iv("ny"); C.assume(ge(nx, n), ge(ny, n))
            lx, ly = C.alloc(Vec(nx, X0, REAL), "X"), C.alloc(Vec(ny, Y0, REAL), "Y")
            i, j = iv("i"), iv("j")
            def cand(ex, L):
                out = []
                for l in L.leaves:
                    if l.hv.sort == asort("R"):
                        for B in counters(ex, L):
                            if d == 0: out.append(forall([j], implies(and_(rng(I0, j, n), lt(p.inv(j), B)), eq(select(l.hv, j), select(X0, p.inv(j))))))
                            else: out.append(forall([j], implies(rng(I0, j, B), eq(select(l.hv, j), select(X0, p.at(j))))))
                        out.append(forall([j], implies(not_(rng(I0, j, n)), eq(select(l.hv, j), select(l.v0, j)))))
                return out
            C.ex.cand_gens.append(cand)
            args = [n, Ptr(lx, I0), Ptr(p.loc, I0)] + ([] if inplace else [Ptr(ly, I0)]) + [num(d)]
            C.call(f, args)
            out = C.ex.read(C.st, lx if inplace else ly).e
            old = X0 if inplace else Y0
            if d == 0: C.ensure("Y[P[i]] = X[i]", forall([i], implies(rng(I0, i, n), eq(select(out, p.at(i)), select(X0, i)))))
            else: C.ensure("Y[i] = X[P[i]]", forall([i], implies(rng(I0, i, n), eq(select(out, i), select(X0, p.at(i))))))
            C.ensure("nothing else is written", forall([j], implies(not_(rng(I0, j, n)), eq(select(out, j), select(old, j)))))
            if not inplace: C.ensure("the input is unchanged", eq(C.ex.read(C.st, lx).e, X0))
            V.done(C)

def row_perm(C, A, p):
    """positions of the rows of the permuted matrix; their total is the number of entries (proved by a double induction)"""
    cnt = lambda r: sub(A.en(p.at(r)), A.st(p.at(r)))
    L = row_layout(C, A.m, cnt)
    n0 = len(C.ex.axioms); D = fn("D"); k, r = iv("k"), iv("r")
    f = lambda r: sub(A.en(r), A.st(r))
    C.axiom(forall([k], eq(D(k, I0), I0), [[D(k, I0)]]), forall([k, r], implies(rng(I0, r, A.m), eq(D(k, add(r, I1)), add(D(k, r), ite(lt(p.at(r), k), f(p.at(r)), I0)))), [[D(k, r)]]))
    C.assume(rng(I0, k, A.m)) if False else None
    kk = iv("row")
    C.induct("one more source row", r, None, lambda v: implies(rng(I0, kk, A.m), eq(D(add(kk, I1), v), add(D(kk, v), ite(lt(p.inv(kk), v), f(kk), I0)))), hi=A.m)
    C.ex.axioms.pop()
    C.axiom(forall([k], implies(rng(I0, k, A.m), eq(D(add(k, I1), A.m), add(D(k, A.m), f(k)))), [[D(k, A.m)]]))
    C.induct("entries of the first source rows (none)", r, None, lambda v: eq(D(I0, v), I0), hi=A.m)
    C.induct("entries of the first source rows", k, None, lambda v: eq(D(v, A.m), A.st(v)), hi=A.m, pats=[[D(k, A.m)]])
    C.induct("all rows counted", r, None, lambda v: eq(D(A.m, v), L.start(v)), hi=A.m, pats=[[D(A.m, r)]])
    L.scratch = C.ex.axioms[n0:]
    C.lemma("the permuted matrix holds as many entries", eq(L.start(A.m), A.nnz), hyps=[touch(D(A.m, A.m))])
    return L

def shape(C, A, R):
    C.ensure("shape, base and entry count", and_(eq(R.f["m_"], A.m), eq(R.f["n_"], A.n), eq(R.f["nnz_"], A.nnz), eq(R.f["indexing_"], A.ix)))
    C.ensure("array lengths", and_(eq(R.f["rowptr_"].n, add(A.m, I1)), eq(R.f["colind_"].n, A.nnz), eq(R.f["nzval_"].n, A.nnz)))

def rows(V):
    C = V.ctx("permute_rows")
    A = sym_compressed(C, V.CSR, "csr")
    p = sym_perm(C, "perm", A.m)
    L = row_perm(C, A, p)
    src = row_src(C, L, A.m, lambda r, o: add(A.st(p.at(r)), o))
    row_cands(C, A, L, src, A.ix); C.ex.cand_to = 1500
    R = C.call(V.fn("sparsexx::permute_rows"), [A.loc, p.loc])
    r, q = iv("r"), iv("q")
    shape(C, A, R)
    C.ensure("row pointers", forall([r], implies(and_(le(I0, r), le(r, A.m)), eq(select(R.f["rowptr_"].e, r), add(L.start(r), A.ix)))))
    C.ensure("every entry comes from its source row", forall([q], implies(rng(I0, q, A.nnz), and_(eq(select(R.f["colind_"].e, q), select(A.ind, src(q))), eq(select(R.f["nzval_"].e, q), select(A.val, src(q)))))))
    V.done(C)

def cols(V, both):
    C = V.ctx("permute_rows_cols" if both else "permute_cols")
    A = sym_compressed(C, V.CSR, "csr"); no_dups(C, A)
    if both:
        rp = sym_perm(C, "rperm", A.m); L = row_perm(C, A, rp); srow = rp.at
    else:
        srow = lambda r: r; L = Rows(); L.start = lambda r: A.st(r); L.total = A.nnz
        rowof_axioms(C, A); L.rowat = A.rowof
    cp = sym_perm(C, "cperm", A.n)
    inv_cands(C, cp)
    r, o, o2, q = iv("r"), iv("o"), iv("o2"), iv("q")
    if both:
        base, ln = fn("base"), fn("len")
        C.axiom(forall([r], implies(rng(I0, r, A.m), and_(eq(base(r), A.st(srow(r))), eq(ln(r), sub(A.en(srow(r)), A.st(srow(r)))))), [[base(r)], [ln(r)]]))
        C.lemma("source rows lie in the source", forall([r], implies(rng(I0, r, A.m), and_(ge(base(r), I0), ge(ln(r), I0), le(add(base(r), ln(r)), A.nnz), rng(I0, srow(r), A.m))), [[srow(r)], [base(r)], [ln(r)]]))
        C.lemma("row pointers of the source rows", forall([r], implies(rng(I0, r, A.m), and_(eq(select(A.ptr, srow(r)), add(base(r), A.ix)), eq(select(A.ptr, add(srow(r), I1)), add(add(base(r), ln(r)), A.ix)))), [[srow(r)]]))
        C.lemma("rows of the result", forall([r], implies(rng(I0, r, A.m), eq(L.start(add(r, I1)), add(L.start(r), ln(r)))), [[L.start(r)], [L.start(add(r, I1))]]))
        C.forget(A.wf[6], *L.scratch)
    else: base = lambda r: A.st(srow(r)); ln = lambda r: sub(A.en(srow(r)), A.st(srow(r)))
    key = lambda r, o: cp.inv(sub(select(A.ind, add(base(r), o)), A.ix))
    K, Ki = fn("K"), fn("Kinv")      # K(r, j): offset of the entry of row r that is j-th by new column
    C.axiom(forall([r, o], implies(and_(rng(I0, r, A.m), rng(I0, o, ln(r))), and_(rng(I0, K(r, o), ln(r)), eq(Ki(r, K(r, o)), o))), [[K(r, o)]]),
            forall([r, o], implies(and_(rng(I0, r, A.m), rng(I0, o, ln(r))), and_(rng(I0, Ki(r, o), ln(r)), eq(K(r, Ki(r, o)), o))), [[Ki(r, o)]]),
            forall([r, o, o2], implies(and_(rng(I0, r, A.m), le(I0, o), lt(o, o2), lt(o2, ln(r))), lt(key(r, K(r, o)), key(r, K(r, o2)))), [[K(r, o), K(r, o2)]]))
    if both: src = row_src(C, L, A.m, lambda r, o: add(base(r), K(r, o)))
    else:
        src = fn("src"); C.axiom(forall([q], implies(rng(I0, q, A.nnz), eq(src(q), add(A.st(A.rowof(q)), K(A.rowof(q), sub(q, A.st(A.rowof(q))))))), [[src(q)]]))
    def cand(ex, Lp):
        out = []; cs = counters(ex, Lp); bs = list(cs)
        for O in Lp.outer: bs += counters(ex, O)
        for l in Lp.leaves:
            so = l.hv.sort
            if so == asort("I"):
                for B in cs:
                    if l.role == "n":
                        out.append(eq(select(l.hv, I0), ite(gt(B, I0), ln(sub(B, I1)), I0)))
                        continue
                    if both:
                        for bb in (B, add(B, I1)): out.append(forall([r], implies(rng(I0, r, bb), eq(select(l.hv, r), add(L.start(r), A.ix)))))
                    f = lambda r, o: add(cp.inv(sub(select(A.ind, add(base(r), K(r, o))), A.ix)), A.ix)
                    out.append(forall([q], implies(rng(I0, q, L.start(B)), eq(select(l.hv, q), add(cp.inv(sub(select(A.ind, src(q)), A.ix)), A.ix)))))
            elif so == asort("R"):
                for B in cs: out.append(forall([q], implies(rng(I0, q, L.start(B)), eq(select(l.hv, q), select(A.val, src(q))))))
            elif so == asort(asort("I")):
                for B in cs: out.append(forall([o], implies(and_(gt(B, I0), rng(I0, o, ln(sub(B, I1)))), eq(select(select(l.hv, I0), o), K(sub(B, I1), o)))))
        return out
    C.ex.cand_gens.append(cand)
    C.ex.cand_to = 1500; C.ex.cand_split = True
    def sh(st, lo, hi):
        for O in C.ex.loopstack:
            for B in counters(C.ex, O):
                yield dict(G=lambda j, B=B: K(B, sub(j, lo)), vlo=I0, vhi=ln(B), inverses=[lambda x: add(lo, x), lambda x, B=B: add(lo, Ki(sub(B, I1), x))],
                           steps=lambda k, a, pos, B=B: [ge(pos(K(B, sub(k, lo))), k), ge(add(lo, Ki(B, select(a, k))), k), eq(K(B, Ki(B, select(a, k))), select(a, k)),
                                             ge(key(B, select(a, pos(K(B, sub(k, lo))))), key(B, select(a, k))), ge(key(B, K(B, sub(k, lo))), key(B, select(a, k))), le(Ki(B, select(a, k)), sub(k, lo))],
                           touch=lambda k, a, pos, B=B: [touch(Ki(B, select(a, k)), select(a, pos(K(B, sub(k, lo)))))])
    C.ex.sort_hints = [sh]
    R = C.call(V.fn("sparsexx::permute_rows_cols" if both else "sparsexx::permute_cols"), [A.loc] + ([rp.loc] if both else []) + [cp.loc])
    shape(C, A, R)
    C.ensure("row pointers", forall([r], implies(and_(le(I0, r), le(r, A.m)), eq(select(R.f["rowptr_"].e, r), add(L.start(r), A.ix)))))
    C.ensure("every entry comes from its source entry, relabelled", forall([q], implies(rng(I0, q, A.nnz), and_(eq(select(R.f["colind_"].e, q), add(cp.inv(sub(select(A.ind, src(q)), A.ix)), A.ix)), eq(select(R.f["nzval_"].e, q), select(A.val, src(q)))))))
    if both: C.lemma("entry of a row, by its rank", forall([r, o], implies(and_(rng(I0, r, A.m), rng(I0, o, ln(r)), touch(src(add(L.start(r), o)), L.start(r), L.start(add(r, I1)), K(r, o), L.start(A.m))), eq(select(R.f["colind_"].e, add(L.start(r), o)), add(key(r, K(r, o)), A.ix))), [[select(R.f["colind_"].e, add(L.start(r), o))]]))
    C.ensure("columns ascend in every row", forall([r, o, o2], implies(and_(rng(I0, r, A.m), le(I0, o), lt(o, o2), lt(o2, ln(r))), lt(select(R.f["colind_"].e, add(L.start(r), o)), select(R.f["colind_"].e, add(L.start(r), o2))))))
    V.done(C)
