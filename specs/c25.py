from c17 import *
NOTE = "make_csr_hamiltonian_block_ for both index widths and 64- and 128-bit determinants, for every pair of determinant lists, threshold >= 0 and orbital set: row pointers, columns and values of the returned matrix against the ordered list of pairs whose element is above the threshold; pairs with an empty determinant are not stored. matrix_element is used through the contract proved in C14 (zero beyond double excitations) and its operands are checked; the empty ranges are decided on make_csr_hamiltonian_block."
TU = "ham"
ASSUME = ["floating-point values are treated as mathematical reals", "bitset::count is the number of set positions", "the number of stored elements and of determinants fits the index type"]
BOUNDED = []
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]
HARNESS_FLAGS = ["-DOMPI_SKIP_MPICXX"]
def jobs(V): return [("block %d, %s" % (N, t), lambda N=N, t=t: block(V, N, t)) for N in (64, 128) for t in ("int", "long")] + [("ranges %d, %s%s" % (N, t, ", whole matrix" if w else ""), lambda N=N, t=t, w=w: free(V, N, t, w)) for N in (64, 128) for t in ("int", "long") for w in (False, True)]
# the range handling around the generator: an object of the real derived class, its assembly routine replaced by the contract proved above
def free(V, N, ity, whole):
    name = "make_csr_hamiltonian" + ("" if whole else "_block")
    C = hctx(V, "%d-bit %s (%s indices)" % (N, name, ity)); h = H(); h.N, h.S = N, N // 2
    nb, B, bl = wf(C, h, "bra"); nk, K_, kl = (nb, B, bl) if whole else wf(C, h, "ket"); thr = fresh("threshold", "R")
    ty = "macis_sparsexx::csr_matrix<double,%s>" % ity; made = C.ex.fresh_val(("rec", ty), "made"); want = [Ptr(bl, I0), Ptr(bl, nb), Ptr(kl, I0), Ptr(kl, nk), thr]
    def assemble(ex, st, f, vals, this):
        if f.targs[-1] != ity: raise X.Unsupported("index width of the block")
        if ex.dry == 0:
            for i, (a, b) in enumerate(zip(vals, want)):
                ex.oblige(st, "argument %d of the block assembly" % i, eq(a, b) if not isinstance(b, Ptr) else eq(a.off, b.off) if isinstance(a, Ptr) and a.base == b.base else FALSE, kind="pre")
            ex.oblige(st, "block assembly needs non-empty ranges", and_(gt(nb, I0), gt(nk, I0)), kind="pre")
        return made
    C.ex.contracts["macis::DoubleLoopHamiltonianGenerator<%d>::make_csr_hamiltonian_block_" % N] = assemble
    this = C.alloc(rec_obj(C, "macis::DoubleLoopHamiltonianGenerator<%d>" % N, {}), "ham")
    g = V.fn("macis::" + name, lambda f: f.targs and f.targs[0] == ity and str(f.targs[1]) == str(N))
    r = C.call(g, [Ptr(bl, I0), Ptr(bl, nb)] + ([] if whole else [Ptr(kl, I0), Ptr(kl, nk)]) + [this, thr]); F = r.f; x = iv("x"); some = and_(gt(nb, I0), gt(nk, I0)); G = made.f
    for k in ("m_", "n_", "nnz_", "indexing_"): C.ensure("non-empty ranges: the assembled block (%s)" % k, implies(some, eq(F[k], G[k])))
    for k in ("rowptr_", "colind_", "nzval_"): C.ensure("non-empty ranges: the assembled block (%s)" % k, implies(some, and_(eq(F[k].n, G[k].n), forall([x], implies(rng(I0, x, G[k].n), eq(select(F[k].e, x), select(G[k].e, x)))))))
    C.ensure("an empty range: a zero-based matrix of the shape of the ranges without elements", implies(not_(some), and_(eq(F["m_"], nb), eq(F["n_"], nk), eq(F["nnz_"], I0), eq(F["indexing_"], I0), eq(F["colind_"].n, I0), eq(F["nzval_"].n, I0), eq(F["rowptr_"].n, add(nb, I1)), forall([x], implies(rng(I0, x, add(nb, I1)), eq(select(F["rowptr_"].e, x), I0))))))
    V.done(C)
def pairs_layout(C, nb, nk, K):
    """positions of the kept pairs in row-major order: pos(r, c) = start(r) + cnt(r, c)"""
    L = H(); cnt = L.cnt = fn("cnt"); L.col = fn("col"); r, c, d, o, p = (iv(x) for x in "rcdop"); v = iv("v")
    inr = rng(I0, r, nb)
    C.axiom(forall([r], eq(cnt(r, I0), I0), [[cnt(r, I0)]]))
    C.axiom(forall([r, c], implies(rng(I0, c, nk), eq(cnt(r, add(c, I1)), add(cnt(r, c), K(r, c)))), [[K(r, c)], [cnt(r, c), cnt(r, add(c, I1))]]))
    a = iv("a")
    C.induct("ranks of a row ascend", v, a, lambda u: implies(rng(I0, a, add(nk, I1)), le(cnt(r, a), cnt(r, u))), hi=nk); C.ex.axioms.pop()
    C.axiom(forall([r, a, d], implies(and_(le(I0, a), le(a, d), le(d, nk)), le(cnt(r, a), cnt(r, d))), [[cnt(r, a), cnt(r, d)]]))
    C.lemma("ranks are not negative", forall([r, c], implies(and_(rng(I0, c, add(nk, I1)), touch(cnt(r, I0))), ge(cnt(r, c), I0)), [[cnt(r, c)]]))
    C.axiom(forall([r, o], implies(rng(I0, o, cnt(r, nk)), and_(rng(I0, L.col(r, o), nk), eq(cnt(r, L.col(r, o)), o), eq(K(r, L.col(r, o)), I1))), [[L.col(r, o)]]))
    Ro = row_layout(C, nb, lambda r: cnt(r, nk)); L.start, L.row, L.total = Ro.start, Ro.rowat, Ro.total
    C.lemma("a kept column is the one of its rank", forall([r, c], implies(and_(rng(I0, c, nk), eq(K(r, c), I1), touch(cnt(r, add(c, I1)))), and_(lt(cnt(r, c), cnt(r, nk)), eq(L.col(r, cnt(r, c)), c))), [[K(r, c), cnt(r, c)]]))
    L.pos = lambda r, c: add(L.start(r), cnt(r, c))
    L.colat = lambda p: L.col(L.row(p), sub(p, L.start(L.row(p))))
    return L
def setup(V, N, ity, what):
    C = hctx(V, "%d-bit %s (%s indices)" % (N, what, ity)); h = H(); h.N, h.S = N, N // 2
    nb, B, bl = wf(C, h, "bra"); nk, K_, kl = wf(C, h, "ket"); thr = fresh("threshold", "R"); C.assume(ge(thr, R(0)))
    P_ = Pairing(C, h, B, K_); hel, K = fn("element", "R"), fn("kept"); i, j = iv("i"), iv("j")
    far = lambda i, j: gt(diff(h, select(B, i), select(K_, j)), num(4))
    val, eb, ek = fn("stored", "R"), fn("bra.set"), fn("ket.set")
    C.axiom(forall([i, j], eq(val(i, j), ite(far(i, j), R(0), hel(i, j))), [[val(i, j)]]))
    for e, D in ((eb, B), (ek, K_)): C.axiom(forall([i], eq(e(i), bits(select(D, i), N)), [[e(i)]]))
    ab = lambda x: ite(ge(x, R(0)), x, sub(R(0), x))
    # K is 1 exactly for the pairs to be stored
    C.axiom(forall([i, j], eq(K(i, j), ite(and_(ne(eb(i), I0), ne(ek(j), I0), gt(ab(val(i, j)), thr)), I1, I0)), [[K(i, j)]]))
    def elem(ex, st, f, vals, this):
        return val(*P_.match(ex, st, vals[:6], [ex.read(st, v) for v in vals[6:8]]))
    C.ex.contracts["macis::HamiltonianGenerator<%d>::matrix_element" % N] = elem
    h.none = lambda i: eq(eb(i), I0); h.nb, h.nk, h.K, h.val, h.thr = nb, nk, K, val, thr; h.args = [Ptr(bl, I0), Ptr(bl, nb), Ptr(kl, I0), Ptr(kl, nk), thr]
    h.this = C.alloc(rec_obj(C, "macis::DoubleLoopHamiltonianGenerator<%d>" % N, {}), "ham")
    return C, h
def block(V, N, ity):
    C, h = setup(V, N, ity, "make_csr_hamiltonian_block_"); nb, nk, K, val = h.nb, h.nk, h.K, h.val
    L = pairs_layout(C, nb, nk, K); lim = num(2 ** 31 - 1 if ity == "int" else 2 ** 63 - 1); r, c, p = iv("r"), iv("c"), iv("p")
    C.assume(le(L.total, lim), le(nk, lim))
    C.lemma("a kept pair has its place", forall([r, c], implies(and_(rng(I0, r, nb), rng(I0, c, nk), eq(K(r, c), I1)), and_(rng(I0, L.pos(r, c), L.total), eq(L.row(L.pos(r, c)), r), eq(L.col(r, L.cnt(r, c)), c))), [[K(r, c), L.start(r), L.cnt(r, c)]]))
    v, a = iv("v"), iv("a")
    C.induct("a row of an empty determinant keeps nothing", v, I0, lambda u: implies(and_(rng(I0, a, nb), h.none(a)), eq(L.cnt(a, u), I0)), hi=nk); C.ex.axioms.pop()
    C.axiom(forall([a, v], implies(and_(rng(I0, a, nb), h.none(a), rng(I0, v, add(nk, I1))), eq(L.cnt(a, v), I0)), [[L.cnt(a, v)]]))
    def content(col, vals, n): return [forall([p], implies(rng(I0, p, n), eq(select(col, p), L.colat(p))), [[select(col, p)]]) if col is not None else forall([p], implies(rng(I0, p, n), eq(select(vals, p), val(L.row(p), L.colat(p)))), [[select(vals, p)]])]
    def cand(ex, Lp):
        out = []; steps = lambda O: [l.hv for l in O.leaves if l.hv.sort == "I" and l.step == {1}]; mine = steps(Lp); outer = [x for O in Lp.outer for x in steps(O)]
        at = [L.start(i) for i in mine] + [L.pos(i, j) for i in outer for j in mine]
        for l in Lp.leaves:
            if l.hv.sort == "I" and l.hv not in mine:
                out += [eq(l.hv, x) for x in at] + [eq(l.hv, L.cnt(i, j)) for i in outer for j in mine]
            if l.hv.sort == asort("I"):
                for n in at: out += content(l.hv, None, n)
                for b in mine: out.append(forall([r], implies(rng(I0, r, add(b, I1)), eq(select(l.hv, r), L.start(r))), [[select(l.hv, r)]]))
            if l.hv.sort == asort("R"):
                for n in at: out += content(None, l.hv, n)
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 5000
    g = V.fn("macis::DoubleLoopHamiltonianGenerator<%d>::make_csr_hamiltonian_block_" % N, lambda f: f.targs and f.targs[-1] in (ity, {"int": "int32_t", "long": "int64_t"}[ity]))
    R_ = C.call(g, h.args, h.this); post25(C, h, L, R_); V.done(C)
def post25(C, h, L, M):
    nb, nk, K, val = h.nb, h.nk, h.K, h.val; r, c, t = iv("r"), iv("c"), iv("t"); ptr, col, v = M.f["rowptr_"], M.f["colind_"], M.f["nzval_"]
    C.ensure("shape, element count and index base", and_(eq(M.f["m_"], nb), eq(M.f["n_"], nk), eq(M.f["nnz_"], L.total), eq(M.f["indexing_"], I0), eq(ptr.n, add(nb, I1)), eq(col.n, L.total), eq(v.n, L.total)))
    C.ensure("row pointers delimit the kept pairs of each row", forall([r], implies(rng(I0, r, add(nb, I1)), eq(select(ptr.e, r), L.start(r)))))
    kept = and_(rng(I0, r, nb), rng(I0, c, nk), eq(K(r, c), I1), touch(L.start(r), L.cnt(r, c), L.cnt(r, add(c, I1)), L.cnt(r, nk), L.start(add(r, I1)))); p = L.pos(r, c)
    for what, f in (("in its row", rng(L.start(r), p, L.start(add(r, I1)))), ("with its column", eq(select(col.e, p), c)), ("with its value", eq(select(v.e, p), val(r, c)))): C.ensure("every significant pair is stored " + what, forall([r, c], implies(kept, f)))
    C.ensure("every stored element is a significant pair", forall([r, t], implies(and_(rng(I0, r, nb), rng(L.start(r), t, L.start(add(r, I1))), touch(L.row(t))), and_(rng(I0, select(col.e, t), nk), eq(K(r, select(col.e, t)), I1), eq(select(v.e, t), val(r, select(col.e, t)))))))
    C.ensure("ascending columns", forall([r, t], implies(and_(rng(I0, r, nb), rng(L.start(r), t, sub(L.start(add(r, I1)), I1)), touch(L.row(t), L.row(add(t, I1)), L.start(L.row(t)), L.start(add(L.row(t), I1)))), lt(select(col.e, t), select(col.e, add(t, I1))))))
