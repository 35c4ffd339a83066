from spec import *
NOTE = "CSC->CSR (counting sort), COO->CSR, COO->CSC and CSR->COO constructors for every valid input of any shape and base: shape, base, pointers, and the exact place of every entry (CSC->CSR: the map from source to output positions is proved injective with an explicit inverse). The COO constructors throw exactly when the input is not sorted."
PROOF_LIMIT = 300
PR = lambda s: (lambda f: s in f.type and "&&" not in f.type)
def jobs(V):
    return [("csr(csc)", lambda: csc_to_csr(V)), ("csr(coo)", lambda: from_coo(V, "csr")), ("csc(coo)", lambda: from_coo(V, "csc")), ("coo(csr)", lambda: csr_to_coo(V))]
def fields(kind, U): return (U.f["rowptr_"], U.f["colind_"]) if kind == "csr" else (U.f["colptr_"], U.f["rowind_"])

def from_coo(V, kind, name=None, build=None):
    """build: another way to the same result, for sorted input (C33)"""
    C = V.ctx(name or "%s(coo)" % kind)
    A = sym_coo(C, V.COO)
    major, minor, nmaj = (A.row, A.col, A.m) if kind == "csr" else (A.col, A.row, A.n)
    r, t = iv("r"), iv("t")
    lb = fn("lb")     # first position whose major index is >= r
    srt = forall([t], implies(and_(le(I0, t), lt(add(t, I1), A.nnz)), le(select(major, t), select(major, add(t, I1)))))
    u = iv("u")
    C.assume(le(add(A.nnz, A.ix), num(2**31 - 1)), lt(A.m, num(2**31 - 2)), lt(A.n, num(2**31 - 2)))
    # lb exists for every sequence; its two halves are exact when the sequence is sorted
    srt2 = forall([t, u], implies(and_(le(I0, t), lt(t, u), lt(u, A.nnz)), le(select(major, t), select(major, u))), [[select(major, t), select(major, u)]])
    S2 = [srt2]
    C.axiom(forall([r], and_(le(I0, lb(r)), le(lb(r), A.nnz), touch(select(major, lb(r)), select(major, sub(lb(r), I1)))), [[lb(r)]]))
    C.axiom(forall([r, t], implies(rng(I0, t, lb(r)), lt(sub(select(major, t), A.ix), r)), [[lb(r), select(major, t)]]))
    C.axiom(forall([r, t], implies(and_(srt2, rng(lb(r), t, A.nnz)), ge(sub(select(major, t), A.ix), r)), [[lb(r), select(major, t)]]))
    def cand(ex, L):
        out = []; cs = counters(ex, L)
        for O in L.outer: cs = cs + counters(ex, O)
        ints = counters(ex, L)
        for l in L.leaves:
            if l.hv.sort == asort("I"):
                for B in cs:
                    out.append(forall([r], implies(and_(le(I0, r), le(r, B)), eq(select(l.hv, r), add(lb(r), A.ix)))))
            elif l.hv.sort == "I":
                for B in cs:
                    if B is l.hv: continue
                    mj = sub(select(major, B), A.ix); mp = sub(select(major, sub(B, I1)), A.ix)
                    out += [le(l.hv, mj), ge(l.hv, mp), implies(gt(B, I0), eq(l.hv, mp)), implies(gt(B, I0), ge(l.hv, mp)), implies(lt(B, A.nnz), le(l.hv, mj)), implies(eq(B, I0), eq(l.hv, I0)), le(l.hv, nmaj),
                            implies(and_(gt(A.nnz, I0), ge(B, A.nnz)), ge(l.hv, sub(select(major, sub(A.nnz, I1)), A.ix)))]
                out += [le(l.hv, nmaj), le(l.hv, A.nnz), implies(gt(A.nnz, I0), ge(l.hv, sub(select(major, sub(A.nnz, I1)), A.ix)))]
        return out
    C.ex.cand_gens.append(cand)
    nt = len(C.ex.throws)
    C.assume(or_(srt2, not_(srt)))     # transitivity of the order (a sorted sequence is ascending for every pair)
    if build: C.assume(srt2, srt)
    U = build(C, A) if build else C.construct(V.CSR if kind == "csr" else V.CSC, lambda f: "coo_matrix" in f.type, [A.loc])
    ptr, ind = fields(kind, U)
    C.ensure("accepts only sorted input", srt)
    C.ensure("shape and base", and_(eq(U.f["m_"], A.m), eq(U.f["n_"], A.n), eq(U.f["nnz_"], A.nnz), eq(U.f["indexing_"], A.ix)))
    C.ensure("array lengths", and_(eq(ptr.n, add(nmaj, I1)), eq(ind.n, A.nnz), eq(U.f["nzval_"].n, A.nnz)))
    C.ensure("pointers", forall([r], implies(and_(le(I0, r), le(r, nmaj)), eq(select(ptr.e, r), add(lb(r), A.ix)))))
    C.ensure("first and last pointer", and_(eq(select(ptr.e, I0), A.ix), eq(select(ptr.e, nmaj), add(A.nnz, A.ix))))
    C.ensure("every entry lies in the segment of its own line", forall([t], implies(rng(I0, t, A.nnz), and_(le(select(ptr.e, sub(select(major, t), A.ix)), add(t, A.ix)), lt(add(t, A.ix), select(ptr.e, add(sub(select(major, t), A.ix), I1)))))))
    C.ensure("indices and values are copied", forall([t], implies(rng(I0, t, A.nnz), and_(eq(select(ind.e, t), select(minor, t)), eq(select(U.f["nzval_"].e, t), select(A.val, t))))))
    for s, _ in C.ex.throws[nt:]:
        C.ensure("throws only on unsorted input", not_(srt), st=s)
    V.done(C)

def csr_to_coo(V):
    C = V.ctx("coo(csr)")
    A = sym_compressed(C, V.CSR, "csr")
    r, t = iv("r"), iv("t")
    C.assume(lt(A.m, num(2**31 - 2)))
    def cand(ex, L):
        out = []; cs = counters(ex, L)
        for l in L.leaves:
            if l.hv.sort == asort("I"):
                for B in cs:
                    out.append(forall([r, t], implies(and_(rng(I0, r, B), rng(A.st(r), t, A.en(r))), eq(select(l.hv, t), add(r, A.ix))), [[select(l.hv, t), select(A.ptr, r)]]))
            elif l.hv.sort == "I":
                for B in cs:
                    if B is not l.hv: out.append(eq(l.hv, A.st(B)))
        return out
    C.ex.cand_gens.append(cand)
    U = C.construct(V.COO, lambda f: "csr_matrix" in f.type, [A.loc])
    C.ensure("shape and base", and_(eq(U.f["m_"], A.m), eq(U.f["n_"], A.n), eq(U.f["nnz_"], A.nnz), eq(U.f["indexing_"], A.ix)))
    C.ensure("array lengths", and_(*[eq(U.f[x].n, A.nnz) for x in ("rowind_", "colind_", "nzval_")]))
    C.ensure("row indices", forall([r, t], implies(and_(rng(I0, r, A.m), rng(A.st(r), t, A.en(r))), eq(select(U.f["rowind_"].e, t), add(r, A.ix)))))
    C.ensure("columns and values are copied", forall([t], implies(rng(I0, t, A.nnz), and_(eq(select(U.f["colind_"].e, t), select(A.ind, t)), eq(select(U.f["nzval_"].e, t), select(A.val, t))))))
    V.done(C)

def csc_to_csr(V):
    C = V.ctx("csr(csc)")
    A = sym_compressed(C, V.CSC, "csc")
    C.assume(lt(A.m, num(2**31 - 2)), lt(A.n, num(2**31 - 2)))
    rowof_axioms(C, A)         # rowof(t): the source line (column of the CSC) of position t
    N = A.m                    # number of output lines
    col = lambda t: sub(select(A.ind, t), A.ix)
    c, t, u, q, k = iv("c"), iv("t"), iv("u"), iv("q"), iv("k")
    cnt, S2, pos = fn("cnt"), fn("S2"), fn("pos")     # cnt(c,t): positions below t with output line c; S2(c,t): with output line below c
    ind1 = lambda f: ite(f, I1, I0)
    C.axiom(forall([c], eq(cnt(c, I0), I0), [[cnt(c, I0)]]), forall([c, t], implies(rng(I0, t, A.nnz), eq(cnt(c, add(t, I1)), add(cnt(c, t), ind1(eq(col(t), c))))), [[cnt(c, t)]]))
    C.axiom(forall([t], eq(S2(I0, t), I0), [[S2(I0, t)]]), forall([c, t], implies(rng(I0, c, N), eq(S2(add(c, I1), t), add(S2(c, t), cnt(c, t)))), [[S2(c, t)]]))
    cc = iv("line")
    C.induct("counts are non-negative", t, None, lambda v: ge(cnt(cc, v), I0), hi=A.nnz)
    C.ex.axioms.pop(); C.axiom(forall([c, t], implies(and_(le(I0, t), le(t, A.nnz)), ge(cnt(c, t), I0)), [[cnt(c, t)]]))
    C.induct("counts grow", u, t, lambda v: implies(le(I0, t), le(cnt(cc, t), cnt(cc, v))), hi=A.nnz)
    C.ex.axioms.pop(); C.axiom(forall([c, t, u], implies(and_(le(I0, t), le(t, u), le(u, A.nnz)), le(cnt(c, t), cnt(c, u))), [[cnt(c, t), cnt(c, u)]]))
    C.ex.array_hints = [lambda *ps: [lambda k: cnt(ps[0], k)] if len(ps) == 1 else []]
    C.induct("prefix counts step", c, None, lambda v: implies(rng(I0, t, A.nnz), eq(S2(v, add(t, I1)), add(S2(v, t), ind1(lt(col(t), v))))), hi=N)
    C.ex.axioms.pop(); C.axiom(forall([c, t], implies(and_(le(I0, c), le(c, N), rng(I0, t, A.nnz)), eq(S2(c, add(t, I1)), add(S2(c, t), ind1(lt(col(t), c))))), [[S2(c, t)]]))
    C.induct("no entry counted for no positions", c, None, lambda v: eq(S2(v, I0), I0), hi=N, pats=[[S2(c, I0)]])
    C.induct("all entries are counted", t, None, lambda v: eq(S2(N, v), v), hi=A.nnz, pats=[[S2(N, t)]])
    S = lambda c: S2(c, A.nnz)
    C.induct("line starts ascend", q, c, lambda v: implies(le(I0, c), le(S(c), S(v))), hi=N)
    C.ex.axioms.pop(); C.axiom(forall([c, q], implies(and_(le(I0, c), le(c, q), le(q, N)), le(S(c), S(q))), [[S(c), S(q)]]))
    # drop the step axiom of S2 at partial t from here on
    C.axiom(forall([t], implies(rng(I0, t, A.nnz), eq(pos(t), add(S(col(t)), cnt(col(t), t)))), [[pos(t)]]))
    C.lemma("lines start after the ones before", forall([c], implies(rng(I0, c, N), eq(S(add(c, I1)), add(S(c), cnt(c, A.nnz)))), [[S(c)]]))
    C.lemma("an entry is counted in its line", forall([t], implies(rng(I0, t, A.nnz), and_(eq(cnt(col(t), add(t, I1)), add(cnt(col(t), t), I1)), le(I0, cnt(col(t), t)), le(cnt(col(t), add(t, I1)), cnt(col(t), A.nnz)))), [[cnt(col(t), t)]]))
    C.lemma("starts lie between zero and the number of entries", forall([c], implies(and_(le(I0, c), le(c, N), touch(S(N), S(I0))), and_(le(I0, S(c)), le(S(c), A.nnz))), [[S(c)]]))
    C.lemma("every entry has its place in its own line", forall([t], implies(rng(I0, t, A.nnz), and_(le(S(col(t)), pos(t)), lt(pos(t), S(add(col(t), I1))), le(I0, pos(t)), lt(pos(t), A.nnz))), [[pos(t)]]))
    C.lemma("different entries have different places", forall([t, u], implies(and_(le(I0, t), lt(t, u), lt(u, A.nnz), touch(cnt(col(t), add(t, I1)), S(add(col(t), I1)), S(add(col(u), I1)))), ne(pos(t), pos(u))), [[pos(t), pos(u)]]))
    r = iv("r")
    def cand(ex, L):
        out = []; cs = counters(ex, L)
        for O in L.outer: cs = cs + counters(ex, O)
        bs = list(cs) + [A.st(x) for x in cs]
        for l in L.leaves:
            if l.hv.sort == asort("I"):
                for B in bs:
                    out.append(forall([r], implies(rng(I0, r, N), eq(select(l.hv, r), add(S(r), cnt(r, B))))))
                    out.append(forall([t], implies(rng(I0, t, B), eq(select(l.hv, pos(t)), A.rowof(t))), [[pos(t)]]))
                for B in counters(ex, L) if not L.outer else []:
                    out.append(forall([r], implies(rng(I0, r, B), eq(select(l.hv, r), S(r)))))
                    out.append(forall([r], implies(and_(rng(I0, r, N), ge(r, B)), eq(select(l.hv, r), cnt(r, A.nnz)))))
                    out.append(forall([r], implies(and_(rng(I0, r, N), ge(r, B)), eq(select(l.hv, r), S(add(r, I1))))))
                out.append(forall([r], implies(ge(r, N), eq(select(l.hv, r), select(l.v0, r)))))
            elif l.hv.sort == asort("R"):
                for B in bs: out.append(forall([t], implies(rng(I0, t, B), eq(select(l.hv, pos(t)), select(A.val, t))), [[pos(t)]]))
            elif l.hv.sort == "I":
                for B in cs:
                    if B is not l.hv: out += [eq(l.hv, S(B)), ge(l.hv, A.st(B)), le(l.hv, A.en(B))]
                out.append(le(l.hv, A.nnz))
        return out
    C.ex.cand_gens.append(cand)
    C.ex.cand_to = 600
    def rd(i, v):     # a pointer read through the line of entry t is the place of entry t
        ts = [x.args[1] for x in tm.walk(i) if x.op == "select" and x.args[0] is A.ind]
        return [pos(ts[0])] if len(ts) == 1 and i is col(ts[0]) else []
    C.ex.read_hints = [rd]
    U = C.construct(V.CSR, lambda f: "csc_matrix" in f.type, [A.loc])
    ptr, ind, val = U.f["rowptr_"], U.f["colind_"], U.f["nzval_"]
    C.ensure("shape and base", and_(eq(U.f["m_"], A.m), eq(U.f["n_"], A.n), eq(U.f["nnz_"], A.nnz), eq(U.f["indexing_"], A.ix)))
    C.ensure("array lengths", and_(eq(ptr.n, add(N, I1)), eq(ind.n, A.nnz), eq(val.n, A.nnz)))
    C.ensure("row pointers", forall([r], implies(and_(le(I0, r), le(r, N)), eq(select(ptr.e, r), add(S(r), A.ix)))))
    C.ensure("every entry is at its place", forall([t], implies(rng(I0, t, A.nnz), and_(eq(select(ind.e, pos(t)), add(A.rowof(t), A.ix)), eq(select(val.e, pos(t)), select(A.val, t))))))
    # the places cover the output: explicit inverse
    at, g = fn("lineat"), fn("kth")
    C.axiom(forall([q], implies(rng(I0, q, A.nnz), and_(rng(I0, at(q), N), le(S(at(q)), q), lt(q, S(add(at(q), I1))))), [[at(q)]]))
    C.axiom(forall([c, k], implies(and_(rng(I0, c, N), rng(I0, k, cnt(c, A.nnz))), and_(rng(I0, g(c, k), A.nnz), gt(cnt(c, add(g(c, k), I1)), k), le(cnt(c, g(c, k)), k), touch(col(g(c, k))))), [[g(c, k)]]))
    src = g(at(q), sub(q, S(at(q))))
    C.ensure("every output place is the place of an entry", forall([q], implies(rng(I0, q, A.nnz), eq(pos(src), q))))
    V.done(C)
