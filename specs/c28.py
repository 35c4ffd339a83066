from spec import *
TU = "solver"
NOTE = "davidson and p_davidson over a ghost history of operator applications, for any matrix, guess, number of rows, subspace limit and number of steps: column j of the basis is the j-th vector the operator was applied to and column j of the images its image, the Ritz step sees all of them, the residual that is tested is that of the first Ritz pair, summed over all processes, and the returned pair is that one; gram_schmidt / p_gram_schmidt leave the new vector orthogonal to every old one and of norm one; the projected problem is summed over all processes, solved once and sent whole to all; diagonal_guess / p_diagonal_guess; serial_ and parallel_selected_ci_diag; selected_ci_diag; SparseMatrixOperator"
ASSUME = ["exact real arithmetic (orthogonality and the recurrence of the images are exact)", "the operator is linear (C01, C09, C27)", "contracts of BLAS gemm / dot / nrm2 / scal, lapack::syev, MPI_Allreduce / Allgatherv / Bcast", "extract_diagonal_elements (C05), row ranges of the distributed matrix (C08), make_dist_csr_hamiltonian (C25)", "at least one row per process and a subspace limit of at least 1 in the proof of the solvers; old vectors orthonormal in that of Gram-Schmidt", "clocks and logging have no effect"]
BOUNDED = ["rounding: residual and norm of the returned vector recomputed from the matrix, up to 30 rows and 4 simulated processes", "processes without rows in the distributed solver: up to 12 rows"]
PROOF_LIMIT = 240
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lspdlog", "-lfmt", "-llapackpp", "-lblaspp", "-lopenblas"]; HARNESS_FLAGS = ["-std=c++17", "-DOMPI_SKIP_MPICXX", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
def jobs(V): return [("serial", lambda: run_(V, False)), ("distributed", lambda: run_(V, True))] + [(nm + (" distributed" if m else " serial"), lambda g=g, m=m: g(V, m)) for nm, g in (("orthogonalisation", gs_), ("rayleigh-ritz", rr_)) for m in (False, True)] + [("guess serial", lambda: guess(V, False)), ("guess distributed", lambda: guess(V, True)), ("selected-CI serial", lambda: sci(V, False)), ("selected-CI distributed", lambda: sci(V, True))] + [("selected-CI %d" % n, lambda n=n: top(V, n)) for n in (64, 128)] + [("operator serial", lambda: oper(V, False)), ("operator distributed", lambda: oper(V, True))]
def spd(C):
    C.ex.externs = dict(C.ex.externs, **{"spdlog::" + x: lambda ex, st, fr, args, node: Opaque("logger") for x in ("get", "null_logger_mt", "stdout_color_mt")})
def run_(V, mpi):
    """ghost history: the j-th application of the operator took the vector vs(j) to as_(j); the Ritz step in dimension d gave the coefficients co(d) and values ri(d);
    vc(d) = sum_j co(d)_j vs(j), ac(d) = sum_j co(d)_j as_(j) = A vc(d) by linearity; n2(d) is the squared norm of ac(d) - ri(d)_0 vc(d)"""
    C = V.ctx("p_davidson" if mpi else "davidson"); C.ex.autoview = True; C.ex.unroll_max = 0; k, j, r, u = iv("k"), iv("j"), iv("r"), iv("u"); n, mm, tol = iv("rows"), iv("max_m"), fresh("tol", "R"); C.assume(ge(n, I0), ge(mm, I1), lt(n, num(2 ** 31)), lt(mm, num(2 ** 31))); ZR = num(0, "R")
    C.assume(ge(n, I1))
    vs, as_ = fn("vector", "R"), fn("operator applied to vector", "R"); co, ri = fn("Ritz coefficient", "R"), fn("Ritz value", "R"); vc, ac = fn("Ritz vector", "R"), fn("operator applied to the Ritz vector", "R"); n2 = fn("squared norm of the residual", "R"); part = fn("own part of the squared norm", "R"); nrm = fn("norm of the residual", "R")
    cnt = C.alloc(I0, "applications"); X0 = fresh("guess", asort("R")); xl = C.alloc(Vec(n, X0, REAL), "X"); dl = C.alloc(Vec(n, fresh("diagonal", asort("R")), REAL), "D"); ol = C.alloc(Obj("macis::SparseMatrixOperator", {}), "op"); comm = C.alloc(Opaque("comm"), "comm")
    pre = lambda ex, st, nm, g: None if ex.dry else ex.oblige(st, nm, g, kind="pre")
    S = {}; lim = mm if mpi else ite(lt(n, mm), n, mm); C.ex.shapes = [(n, add(lim, I1))]
    def cell(ex, st, P):
        """element (row, column) of a basis array, or row of X"""
        if not ex.dry: import blas; blas.resolve(ex, st, P.base, P.off)
        v = ex.read(st, P.base); c = v.view.coords(P.off) if v.view is not None and hasattr(v.view, "strides") and len(v.view.strides) == 2 else None
        return v, c
    def column(ex, st, P, nm):
        v, c = cell(ex, st, P)
        if c is None:
            if ex.dry: return v, I0
            raise Unsupported("%s: not a column of the basis" % nm)
        pre(ex, st, nm + ": starts at the top of a column inside the array", and_(eq(c[0], I0), le(I0, c[1]), or_(eq(n, I0), lt(c[1], v.view.exts[1])), eq(v.view.exts[0], n))); return v, c[1]
    def put(ex, st, P, f):
        """column := f(row), rows < n"""
        v, c = cell(ex, st, P); p0, p1 = fresh("p", "I"), fresh("p", "I"); e = ite(and_(eq(p1, c[1]), rng(I0, p0, n)), f(p0), select(select(v.e, p0), p1)); ex.write(st, P.base, Vec(v.n, lam(p0, lam(p1, e)), v.ty, v.view))
    def havoc(ex, st, P):
        v = ex.read(st, P.base); ex.write(st, P.base, Vec(v.n, X.tmap(lambda a: fresh("dry", a.sort), v.e), v.ty, v.view))
    el = lambda v, r, c: select(select(v.e, r), c)
    def op(ex, st, f, vals, this):
        m, al, P, ldv, be, Q, lda = [ex.rv(st, v) for v in vals]; d = ex.read(st, cnt)
        pre(ex, st, "the operator is applied to one vector, without scaling", and_(eq(m, I1), eq(al, num(1, "R")), eq(be, ZR))); v, c = column(ex, st, P, "operator argument"); w, c2 = column(ex, st, Q, "operator result")
        pre(ex, st, "vector number d is column d, and so is its image", and_(eq(c, d), eq(c2, d), TRUE if P.base != Q.base else FALSE)); S["V"], S["AV"] = P.base, Q.base
        if ex.dry: havoc(ex, st, Q)
        else:
            if not ex.dry: st.fact(forall([r], implies(rng(I0, r, n), eq(vs(d, r), el(v, r, d))), [[vs(d, r)], [select(v.e, r)]]))
            put(ex, st, Q, lambda p: as_(d, p))
        ex.write(st, cnt, add(d, I1)); return X.VOID
    def basis(ex, st, P, d, f, nm):
        v, c = column(ex, st, P, nm); pre(ex, st, nm + ": starts at the first column", eq(c, I0)); pre(ex, st, nm + ": holds the first d columns", forall([r, j], implies(and_(rng(I0, r, n), rng(I0, j, d)), eq(el(v, r, j), f(j, r)))))
    def ritz(ex, st, f, vals, this):
        N, K, P, ldx, Q, ldax, W, Cc, ldc = [ex.rv(st, v) for v in vals[:9]]; d = ex.read(st, cnt); pre(ex, st, "Ritz: all vectors so far", and_(eq(N, n), eq(K, d), ge(ldx, n), eq(ldax, ldx), eq(ldc, K)))
        if not ex.dry: basis(ex, st, P, d, vs, "Ritz basis"); basis(ex, st, Q, d, as_, "Ritz images")
        w, c = ex.read(st, W.base), ex.read(st, Cc.base); pre(ex, st, "Ritz: values and coefficients fit", and_(eq(W.off, I0), eq(Cc.off, I0), le(K, w.n), le(mul(K, K), c.n))); a, b = fresh("values", asort("R")), fresh("coefficients", asort("R"))
        st.fact(forall([j], implies(rng(I0, j, d), eq(select(a, j), ri(d, j))), [[select(a, j)]])); st.fact(forall([j], implies(rng(I0, j, d), eq(select(b, j), co(d, j))), [[select(b, j)]])); ex.write(st, W.base, Vec(w.n, a, REAL)); ex.write(st, Cc.base, Vec(c.n, b, REAL)); return X.VOID
    import blas
    def gemm(ex, st, fr, args, node):
        pre(ex, st, "gemm: column-major, no transposition", TRUE if [blas.enum_name(a) for a in args[:3]] == ["ColMajor", "NoTrans", "NoTrans"] else FALSE); m, o, K, al, P, lda, Q, ldb, be, Y, ldc = [ex.rv(st, ex.ev(st, fr, a)) for a in args[3:]]; d = ex.read(st, cnt)
        pre(ex, st, "gemm: one combination of all vectors", and_(eq(m, n), eq(o, I1), eq(K, d), ge(lda, n), ge(ldb, K), ge(ldc, n), eq(al, num(1, "R")))); c = ex.read(st, Q.base); img = P.base == S.get("AV")
        if not ex.dry:
            basis(ex, st, P, d, as_ if img else vs, "gemm basis"); pre(ex, st, "gemm: the first Ritz vector's coefficients", and_(eq(Q.off, I0), forall([j], implies(rng(I0, j, d), eq(select(c.e, j), co(d, j))))))
        f = (lambda r: ac(d, r)) if img else (lambda r: vc(d, r))
        y = ex.read(st, Y.base)
        if Y.base == xl or Y.base == xl.root:
            pre(ex, st, "gemm: into the result, replacing it", and_(eq(Y.off, I0), eq(be, ZR))); e = fresh("X", asort("R")); st.fact(forall([r], implies(rng(I0, r, n), eq(select(e, r), f(r))), [[select(e, r)]])); ex.write(st, Y.base, Vec(y.n, e, REAL))
        elif ex.dry: havoc(ex, st, Y)
        else:
            v, cc = column(ex, st, Y, "gemm result"); put(ex, st, Y, lambda p: tm.add(f(p), tm.mul(be, el(v, p, cc))))
        return X.VOID
    def isres(ex, st, P, N, inc, nm):
        d = ex.read(st, cnt); v, c = column(ex, st, P, nm)
        if not ex.dry: pre(ex, st, nm + ": the residual of the first Ritz pair", and_(eq(N, n), eq(inc, I1), forall([r], implies(rng(I0, r, n), eq(el(v, r, c), tm.sub(ac(d, r), tm.mul(ri(d, I0), vc(d, r))))))))
        return d
    def dot(ex, st, fr, args, node):
        N, P, i1, Q, i2 = [ex.rv(st, ex.ev(st, fr, a)) for a in args]; d = isres(ex, st, P, N, i1, "own part of the norm"); pre(ex, st, "the vector with itself", and_(TRUE if P.base == Q.base else FALSE, eq(P.off, Q.off), eq(i1, i2))); return part(d)
    def nrm2(ex, st, fr, args, node):
        N, P, i1 = [ex.rv(st, ex.ev(st, fr, a)) for a in args]; return nrm(isres(ex, st, P, N, i1, "norm"))
    def reduce(ex, st, f, vals, this):
        x = ex.rv(st, vals[0]); d = ex.read(st, cnt); pre(ex, st, "the sum of all processes' parts", and_(eq(x, part(d)), is_op(ex, st, vals[1], "sum"))); return n2(d)
    def sqrt(ex, st, fr, args, node):
        x = ex.rv(st, ex.ev(st, fr, args[0])); d = ex.read(st, cnt); pre(ex, st, "root of the squared norm", eq(x, n2(d))); return nrm(d)
    def gs(ex, st, f, vals, this):
        N, K, P, ldv, Q = [ex.rv(st, v) for v in vals[:5]]; d = ex.read(st, cnt); pre(ex, st, "orthogonalised against all vectors so far", and_(eq(N, n), eq(K, d), ge(ldv, n)))
        if ex.dry: havoc(ex, st, Q); return X.VOID
        basis(ex, st, P, d, vs, "orthogonalisation"); v, c = column(ex, st, Q, "new vector"); pre(ex, st, "the new vector is column d", and_(eq(c, d), TRUE if P.base == Q.base else FALSE)); h = fn("orthogonalised", "R"); put(ex, st, Q, lambda p: h(p)); return X.VOID
    C.ex.contracts.update({q: op for q in OPS}); C.ex.contracts.update({"macis::p_rayleigh_ritz": ritz, "macis_lobpcgxx::rayleigh_ritz": ritz, "macis::p_gram_schmidt": gs, "macis::gram_schmidt": gs, "macis::allreduce": reduce})
    spd(C); C.ex.externs = dict(C.ex.externs, gemm=gemm, dot=dot, nrm2=nrm2, sqrt=sqrt, MPI_Comm_rank=intout(iv("rank")), MPI_Comm_size=intout(iv("size")))
    def cand(ex, L):
        out = [not_(l.hv) for l in L.leaves if l.hv.sort == "B"]; ints = [l.hv for l in L.leaves if l.hv.sort == "I"]; gd = [l.hv for l in L.leaves if l.cell[0] == cnt.root]; A2 = asort(asort("R")); roots = {S[x].root if isinstance(S.get(x), Loc) else S.get(x): f for x, f in (("V", vs), ("AV", as_))}
        for d in gd:
            out += [ge(d, I1)] + [eq(d, c) for c in ints if c is not d] + [le(d, mm)]
            out.append(forall([u], implies(and_(le(num(2), u), le(u, d)), ge(nrm(u), tol)), [[nrm(u)]]))
            for l in L.leaves:
                if l.hv.sort == A2 and l.cell[0] in roots: f = roots[l.cell[0]]; out.append(forall([r, j], implies(and_(rng(I0, r, n), rng(I0, j, d)), eq(select(select(l.hv, r), j), f(j, r))), [[select(select(l.hv, r), j)], [f(j, r)]]))
        return out
    C.ex.cand_gens.append(cand); nt = len(C.ex.throws); f = V.fn("macis::p_davidson" if mpi else "macis::davidson")
    Rv = C.call(f, [n, mm, ol, Ptr(dl, I0), tol, Ptr(xl, I0)] + ([comm] if mpi else [])); E = Rv.f["1"]; d = C.ex.read(C.st, cnt); x = C.ex.read(C.st, xl)
    C.ensure("the eigenvalue is the lowest Ritz value of the last step", eq(E, ri(d, I0))); C.ensure("the vector is its Ritz vector", forall([r], implies(rng(I0, r, n), eq(select(x.e, r), vc(d, r))))); C.ensure("the residual of the returned pair is below the tolerance", lt(nrm(d), tol)); C.ensure("the subspace stays within its limit", le(d, mm))
    for s, _ in C.ex.throws[nt:]: d = C.ex.read(s, cnt); C.ensure("gives up only if no step converged", forall([u], implies(and_(le(num(2), u), le(u, d)), ge(nrm(u), tol))), st=s)
    V.done(C)
def is_op(ex, st, v, nm):
    v = ex.rv(st, v); return TRUE if isinstance(v, Ptr) and "ompi_mpi_op_" + nm in repr(v) else FALSE
def gs_(V, mpi):
    """one new vector against K old ones that are orthonormal. t counts the versions of the new vector: w(t, j) is its inner product with old vector j, nn(t) its squared norm"""
    C = V.ctx("p_gram_schmidt" if mpi else "gram_schmidt"); k, j = iv("k"), iv("j"); n, K, ldv = iv("rows"), iv("K"), iv("LDV"); C.assume(ge(n, I0 if mpi else I1), ge(K, I0), ge(ldv, n), lt(K, num(2 ** 31))); w, pw, nn, pn, vn = fn("inner product", "R"), fn("own part of inner product", "R"), fn("squared norm", "R"), fn("own part of squared norm", "R"), fn("element", "R"); root = fn("root", "R"); ZR, ONE = num(0, "R"), num(1, "R")
    t = C.alloc(I0, "version"); old = Ptr(C.alloc(Vec(None, fresh("old", asort("R")), REAL), "V_old"), I0); N0 = fresh("new", asort("R")); new = C.alloc(Vec(n, N0, REAL), "V_new"); comm = C.alloc(Opaque("comm"), "comm"); pre = lambda ex, st, nm, g: None if ex.dry else ex.oblige(st, nm, g, kind="pre")
    x = fresh("x", "R"); C.axiom(forall([x], implies(ge(x, ZR), and_(ge(root(x), ZR), eq(tm.mul(root(x), root(x)), x), implies(gt(x, ZR), gt(root(x), ZR)))), [[root(x)]])); C.axiom(forall([x], implies(ne(x, ZR), eq(tm.mul(tm.inv(x), x), ONE)), [[tm.inv(x)]]))
    isnew = lambda ex, v: and_(TRUE if v.base == new else FALSE, eq(v.off, I0)); isold = lambda v: and_(TRUE if v.base == old.base else FALSE, eq(v.off, I0))
    import blas
    def cur(ex, st, T): return forall([k], implies(rng(I0, k, n), eq(select(ex.read(st, new).e, k), vn(T, k))))
    def step(ex, st):
        T = ex.read(st, t); T1 = add(T, I1); e = fresh("V_new", asort("R")); st.fact(forall([k], implies(rng(I0, k, n), eq(select(e, k), vn(T1, k))), [[select(e, k)]])); ex.write(st, new, Vec(n, e, REAL)); ex.write(st, t, T1); return T, T1
    C.assume(forall([k], implies(rng(I0, k, n), eq(select(N0, k), vn(I0, k))), [[select(N0, k)]]))
    def gemm(ex, st, fr, args, node):
        en = [blas.enum_name(a) for a in args[:3]]; m, o, q, al, P, lda, Q, ldb, be, Y, ldc = [ex.rv(st, ex.ev(st, fr, a)) for a in args[3:]]; T = ex.read(st, t)
        if en == ["ColMajor", "ConjTrans", "NoTrans"]:
            y = ex.read(st, Y.base); pre(ex, st, "inner products of all old vectors with the new one", and_(eq(m, K), eq(o, I1), eq(q, n), eq(al, ONE), isold(P), eq(lda, ldv), isnew(ex, Q), ge(ldb, n), eq(be, ZR), eq(Y.off, I0), le(K, y.n), ge(ldc, K), cur(ex, st, T))); e = fresh("inner", asort("R")); f = pw if mpi else w; st.fact(forall([j], implies(rng(I0, j, K), eq(select(e, j), f(T, j))), [[select(e, j)]])); ex.write(st, Y.base, Vec(y.n, e, REAL))
        else:
            c = ex.read(st, Q.base); pre(ex, st, "the combination is taken off the new vector", and_(TRUE if en == ["ColMajor", "NoTrans", "NoTrans"] else FALSE, eq(m, n), eq(o, I1), eq(q, K), eq(al, num(-1, "R")), isold(P), eq(lda, ldv), eq(Q.off, I0), ge(ldb, K), le(K, c.n), eq(be, ONE), isnew(ex, Y), ge(ldc, n), cur(ex, st, T)))
            T, T1 = step(ex, st); st.fact(forall([j], implies(rng(I0, j, K), eq(w(T1, j), tm.sub(w(T, j), select(c.e, j)))), [[w(T1, j)]])); st.fact(ge(nn(T1), ZR))
        return X.VOID
    def reduce(ex, st, f, vals, this):
        T = ex.read(st, t)
        if len(vals) == 4:
            b = ex.rv(st, vals[0]); y = ex.read(st, b.base); pre(ex, st, "inner products are summed over the processes", and_(eq(b.off, I0), eq(ex.rv(st, vals[1]), K), is_op(ex, st, vals[2], "sum"), forall([j], implies(rng(I0, j, K), eq(select(y.e, j), pw(T, j)))))); e = fresh("inner", asort("R")); st.fact(forall([j], implies(rng(I0, j, K), eq(select(e, j), w(T, j))), [[select(e, j)]])); ex.write(st, b.base, Vec(y.n, e, REAL)); return X.VOID
        pre(ex, st, "the squared norm is summed over the processes", and_(eq(ex.rv(st, vals[0]), pn(T)), is_op(ex, st, vals[1], "sum"))); return nn(T)
    def dot(ex, st, fr, args, node):
        N, P, i1, Q, i2 = [ex.rv(st, ex.ev(st, fr, a)) for a in args]; T = ex.read(st, t); pre(ex, st, "norm of the new vector", and_(eq(N, n), isnew(ex, P), isnew(ex, Q), eq(i1, I1), eq(i2, I1), cur(ex, st, T))); return pn(T)
    def nrm2(ex, st, fr, args, node):
        N, P, i1 = [ex.rv(st, ex.ev(st, fr, a)) for a in args]; T = ex.read(st, t); pre(ex, st, "norm of the new vector", and_(eq(N, n), isnew(ex, P), eq(i1, I1), cur(ex, st, T))); return root(nn(T))
    def scal(ex, st, fr, args, node):
        N, a, P, i1 = [ex.rv(st, ex.ev(st, fr, z)) for z in args]; T = ex.read(st, t); pre(ex, st, "the new vector is scaled", and_(eq(N, n), isnew(ex, P), eq(i1, I1), cur(ex, st, T))); T, T1 = step(ex, st); st.fact(forall([j], implies(rng(I0, j, K), eq(w(T1, j), tm.mul(a, w(T, j)))), [[w(T1, j)]])); q = fresh("norm after scaling", "R"); st.fact(eq(q, tm.mul(a, root(nn(T))))); st.fact(eq(nn(T1), tm.mul(q, q))); S["q"] = q; S["a"], S["T"] = a, T; return X.VOID
    S = {}; C.ex.contracts["macis::allreduce"] = reduce; C.ex.externs = dict(C.ex.externs, gemm=gemm, dot=dot, nrm2=nrm2, scal=scal, sqrt=lambda ex, st, fr, args, node: root(ex.rv(st, ex.ev(st, fr, args[0]))))
    C.call(V.fn("macis::p_gram_schmidt" if mpi else "macis::gram_schmidt"), [n, K, old, ldv, Ptr(new, I0)] + ([comm] if mpi else [])); T = C.ex.read(C.st, t); C.assume(gt(nn(S["T"]), ZR))
    C.ensure("the returned vector is the last version", cur(C.ex, C.st, T)); C.ensure("orthogonal to every old vector", forall([j], implies(rng(I0, j, K), eq(w(T, j), ZR)))); C.ensure("scaled by the reciprocal of its norm", eq(S["q"], ONE)); C.ensure("of norm one", eq(nn(T), ONE)); V.done(C)
def rr_(V, mpi):
    """the projected problem: versions of C: 1 own part of the inner products, 2 their sum, 3 eigenvectors; of W: 3 eigenvalues"""
    C = V.ctx("p_rayleigh_ritz" if mpi else "rayleigh_ritz"); k = iv("k"); n, K, lx, la, ldc, p = iv("rows"), iv("K"), iv("LDX"), iv("LDAX"), iv("LDC"), iv("rank"); C.assume(ge(n, I0), ge(K, I1), ge(lx, n), ge(la, n), ge(p, I0), eq(ldc, K), lt(K, num(2 ** 15))); ZR, ONE = num(0, "R"), num(1, "R"); KK = iv("K*K"); C.assume(eq(KK, mul(K, K)))
    x, ax = [Ptr(C.alloc(Vec(None, fresh(z, asort("R")), REAL), z), I0) for z in ("X", "AX")]; nC = iv("nC"); C.assume(ge(nC, KK)); c, w = C.alloc(Vec(nC, fresh("C", asort("R")), REAL), "C"), C.alloc(Vec(K, fresh("W", asort("R")), REAL), "W"); comm = C.alloc(Opaque("comm"), "comm"); val, ev = fn("matrix"), fn("eigenvalue", "R"); val = fn("projected matrix", "R"); pre = lambda ex, st, nm, g: None if ex.dry else ex.oblige(st, nm, g, kind="pre")
    has = lambda ex, st, T: forall([k], implies(rng(I0, k, KK), eq(select(ex.read(st, c).e, k), val(num(T), k)))); hasw = lambda ex, st: forall([k], implies(rng(I0, k, K), eq(select(ex.read(st, w).e, k), ev(k))))
    isc = lambda b: and_(TRUE if b.base == c else FALSE, eq(b.off, I0)); isw = lambda b: and_(TRUE if b.base == w else FALSE, eq(b.off, I0))
    def setc(ex, st, T): e = fresh("C", asort("R")); st.fact(forall([k], implies(rng(I0, k, KK), eq(select(e, k), val(num(T), k))), [[select(e, k)]])); ex.write(st, c, Vec(nC, e, REAL))
    def setw(ex, st): e = fresh("W", asort("R")); st.fact(forall([k], implies(rng(I0, k, K), eq(select(e, k), ev(k))), [[select(e, k)]])); ex.write(st, w, Vec(K, e, REAL))
    import blas
    def gemm(ex, st, fr, args, node):
        en = [blas.enum_name(a) for a in args[:3]]; m, o, q, al, P, lda, Q, ldb, be, Y, l3 = [ex.rv(st, ex.ev(st, fr, a)) for a in args[3:]]
        pre(ex, st, "inner products of the basis with its images", and_(TRUE if en in (["ColMajor", "ConjTrans", "NoTrans"], ["ColMajor", "Trans", "NoTrans"]) else FALSE, eq(m, K), eq(o, K), eq(q, n), eq(al, ONE), eq(be, ZR), TRUE if P.base == x.base and Q.base == ax.base else FALSE, eq(P.off, I0), eq(Q.off, I0), eq(lda, lx), eq(ldb, la), isc(Y), eq(l3, K))); setc(ex, st, 1 if mpi else 2); return X.VOID
    def reduce(ex, st, f, vals, this):
        b = ex.rv(st, vals[0]); pre(ex, st, "the whole matrix is summed over the processes", and_(isc(b), eq(ex.rv(st, vals[1]), KK), is_op(ex, st, vals[2], "sum"), has(ex, st, 1))); setc(ex, st, 2); return X.VOID
    def syev(ex, st, fr, args, node):
        en = [blas.enum_name(a) for a in args[:2]]; N, a, l, b = [ex.rv(st, ex.ev(st, fr, z)) for z in args[2:]]; pre(ex, st, "eigenvectors of the whole projected matrix", and_(TRUE if en[0] == "Vec" and en[1] in ("Lower", "Upper") else FALSE, eq(N, K), isc(a), eq(l, K), isw(b), has(ex, st, 2))); setc(ex, st, 3); setw(ex, st); return I0
    def bcast(ex, st, fr, args, node):
        b, cc, _, root = [ex.rv(st, ex.ev(st, fr, a)) for a in args[:4]]
        if b.base == w: pre(ex, st, "all eigenvalues are sent by the process that has them", and_(eq(b.off, I0), eq(cc, K), eq(root, I0), implies(eq(p, root), hasw(ex, st)))); setw(ex, st)
        else: pre(ex, st, "all eigenvectors are sent by the process that has them", and_(isc(b), eq(cc, KK), eq(root, I0), implies(eq(p, root), has(ex, st, 3)))); setc(ex, st, 3)
        return I0
    C.ex.contracts["macis::allreduce"] = reduce; C.ex.externs = dict(C.ex.externs, gemm=gemm, syev=syev, MPI_Bcast=bcast, MPI_Comm_rank=intout(p)); nt = len(C.ex.throws)
    C.call(V.fn("macis::p_rayleigh_ritz" if mpi else "macis_lobpcgxx::rayleigh_ritz"), [n, K, x, lx, ax, la, Ptr(w, I0), Ptr(c, I0), ldc] + ([comm] if mpi else []))
    C.ensure("every process has the eigenvectors of the projected operator", has(C.ex, C.st, 3)); C.ensure("every process has its eigenvalues", hasw(C.ex, C.st)); C.ensure("no failure", TRUE if len(C.ex.throws) == nt else FALSE); V.done(C)
def intout(v):
    def h(ex, st, fr, args, node):
        p = ex.rv(st, ex.ev(st, fr, args[1])); ex.write(st, p.base if p.off is None else p.base.i(p.off), v); return I0
    return h
OPS = ["macis::SparseMatrixOperator<%s>::operator_action" % t for t in ("macis_sparsexx::csr_matrix<double, int>", "macis_sparsexx::dist_sparse_matrix<macis_sparsexx::csr_matrix<double, int>>")]
SCSR = "macis_sparsexx::csr_matrix<double, int>"; SDIST = "macis_sparsexx::dist_sparse_matrix<%s>" % SCSR
def setting(C, mpi):
    """a square matrix of M rows with diagonal dg; distributed: process p of P has the rows [lo(p), hi(p)) (what the constructors give, C08) and its own tile. extract_diagonal_elements: proved under C05"""
    q = SM(); i, r = iv("i"), iv("r"); q.M = iv("M"); q.dg = fn("diagonal", "R"); C.assume(ge(q.M, I1), lt(q.M, num(2 ** 31)))
    if mpi:
        q.P, q.me = iv("P"), iv("me"); C.assume(ge(q.P, I1), rng(I0, q.me, q.P), lt(q.P, num(2 ** 31))); q.lo, q.hi = fresh("lo", asort("I")), fresh("hi", asort("I")); P = q.P
        C.assume(eq(select(q.lo, I0), I0), eq(select(q.hi, sub(P, I1)), q.M), forall([i], implies(rng(I0, i, P), le(select(q.lo, i), select(q.hi, i))), [[select(q.lo, i)], [select(q.hi, i)]]), forall([i], implies(and_(rng(I0, i, P), lt(add(i, I1), P)), eq(select(q.hi, i), select(q.lo, add(i, I1)))), [[select(q.hi, i)]]))
        C.assume(forall([i], implies(rng(I0, i, P), and_(le(I0, select(q.lo, i)), le(select(q.hi, i), q.M))), [[select(q.lo, i)], [select(q.hi, i)]]))      # proved for every tiling under C08
        q.first, q.n = select(q.lo, q.me), sub(select(q.hi, q.me), select(q.lo, q.me)); q.D = sym_compressed(C, SCSR, "csr", "diagonal tile"); C.assume(eq(q.D.m, q.n), eq(q.D.n, q.n))
        q.comm = X.Opaque("comm"); q.A = C.alloc(rec_obj(C, SDIST, {"comm_": q.comm, "comm_size_": P, "comm_rank_": q.me, "global_m_": q.M, "global_n_": q.M, "dist_row_extents_": Vec(P, Obj("tuple", {"0": q.lo, "1": q.hi}), ("rec", "std::pair<int, int>")), "diagonal_tile_": Ptr(q.D.loc, None), "off_diagonal_tile_": Ptr(None, None, TRUE)}), "H")
    else: q.first, q.n = I0, q.M; q.D = sym_compressed(C, SCSR, "csr", "H"); C.assume(eq(q.D.m, q.M), eq(q.D.n, q.M)); q.A = q.D.loc
    q.pre = lambda ex, st, nm, g: None if ex.dry else ex.oblige(st, nm, g, kind="pre")
    def diag(ex, st, f, vals, this):
        q.pre(ex, st, "the diagonal of the own rows", TRUE if isinstance(vals[0], Loc) and vals[0].root == q.D.loc.root and tuple(vals[0].path) == tuple(q.D.loc.path) else FALSE); e = fresh("diag", asort("R")); st.fact(forall([r], implies(rng(I0, r, q.n), eq(select(e, r), q.dg(add(q.first, r)))), [[select(e, r)]] + ([] if mpi else [[q.dg(r)]]))); return Vec(q.n, e, REAL)
    C.ex.contracts["macis_sparsexx::extract_diagonal_elements"] = diag; spd(C); return q
def guess(V, mpi):
    """mi: the row of the first smallest diagonal element"""
    C = V.ctx("p_diagonal_guess" if mpi else "diagonal_guess"); q = setting(C, mpi); k, r = iv("k"), iv("r"); mi = iv("mi"); n, ZR, ONE = q.n, num(0, "R"), num(1, "R")
    C.assume(rng(I0, mi, q.M), forall([k], implies(rng(I0, k, q.M), le(q.dg(mi), q.dg(k))), [[q.dg(k)]]), forall([k], implies(rng(I0, k, mi), lt(q.dg(mi), q.dg(k))), [[q.dg(k)]]), touch(q.dg(mi)))
    X0 = fresh("X", asort("R")); xl = C.alloc(Vec(n, X0, REAL), "X")
    if mpi:
        rs = fn("first row"); P = q.P; C.axiom(forall([k], and_(implies(rng(I0, k, P), eq(rs(k), select(q.lo, k))), implies(eq(k, P), eq(rs(k), q.M))), [[rs(k)]])); C.axiom(touch(rs(P), rs(q.me), rs(add(q.me, I1)), select(q.hi, q.me), rs(I0)))
        def gather(ex, st, fr, args, node):
            vs = [ex.rv(st, ex.ev(st, fr, a)) for a in args]; b, c, t1, R, cn, ds, t2, com = vs; vb, vR, vc, vd = [ex.read(st, x.base) for x in (b, R, cn, ds)]
            import c27
            q.pre(ex, st, "all diagonals are gathered: own part", and_(eq(b.off, I0), eq(c, n), forall([r], implies(rng(I0, r, n), eq(select(vb.e, r), q.dg(add(q.first, r))))), TRUE if c27.mpi_name(ex, st, t1) == c27.mpi_name(ex, st, t2) == "ompi_mpi_double" and com.ty == "comm" else FALSE))
            q.pre(ex, st, "all diagonals are gathered: part of every process", forall([k], implies(rng(I0, k, P), and_(eq(select(vc.e, add(cn.off, k)), sub(select(q.hi, k), select(q.lo, k))), eq(add(R.off, select(vd.e, add(ds.off, k))), select(q.lo, k)), le(select(q.hi, k), vR.n)))))
            e = fresh("gathered", asort("R")); st.fact(forall([k], implies(rng(I0, k, q.M), eq(select(e, k), q.dg(k))), [[select(e, k)], [q.dg(k)]])); ex.write(st, R.base, Vec(vR.n, e, REAL)); return I0
        C.ex.externs = dict(C.ex.externs, MPI_Allgatherv=gather, MPI_Comm_rank=intout(q.me), MPI_Comm_size=intout(P))
        C.ex.cand_gens += [cand_arr(rs), cand_arr(lambda k: sub(select(q.hi, k), select(q.lo, k))), cand_arr(lambda k: ZR, "R")]
        def cand(ex, L):
            out = []
            for l in L.leaves:
                if l.hv.sort == asort("I"): out += [forall([k], implies(and_(le(I0, k), le(k, g)), eq(select(l.hv, k), rs(k))), [[select(l.hv, k)]]) for g in [x.hv for x in L.leaves if x.hv.sort == "I"]]
            return out
        C.ex.cand_gens.append(cand)
    nt = len(C.ex.throws); C.call(V.fn("macis::p_diagonal_guess" if mpi else "macis::diagonal_guess"), [n, q.A, Ptr(xl, I0)]); x = C.ex.read(C.st, xl)
    C.ensure("one where the own row is the smallest diagonal element's, nowhere else", forall([r], implies(rng(I0, r, n), eq(select(x.e, r), ite(eq(add(q.first, r), mi), ONE, ZR if mpi else select(X0, r)))))); C.ensure("no failure", TRUE if len(C.ex.throws) == nt else FALSE); V.done(C)
def sci(V, mpi):
    """the diagonalisation around the solver: what the solver is started with and what is handed back. mx(k): largest magnitude among the first k coefficients"""
    C = V.ctx("parallel_selected_ci_diag" if mpi else "serial_selected_ci_diag"); q = setting(C, mpi); k, r = iv("k"), iv("r"); n, ZR, ONE = q.n, num(0, "R"), num(1, "R"); mm, tol = iv("max_m"), fresh("tol", "R"); n0, c0 = iv("size before"), fresh("coefficients", asort("R")); C.assume(ge(n0, I0), ge(mm, I0))
    cx, mx, gs, res, E = fn("passed coefficient", "R"), fn("largest magnitude", "R"), fn("guess", "R"), fn("eigenvector", "R"), fresh("E", "R"); C.axiom(forall([r], implies(ge(r, I0), eq(cx(r), ite(lt(r, n0), select(c0, r), ZR))), [[cx(r)], [select(c0, r)]])); ab = lambda x: ite(lt(x, ZR), tm.neg(x), x); xl = C.alloc(Vec(n0, c0, REAL), "C"); inf = fn("largest over all processes", "R"); ro = lambda x: tm.toreal(x)
    a = iv("largest"); bound = tm.mul(ONE, tm.inv(ro(q.M)))
    C.axiom(eq(mx(I0), ZR), forall([k], implies(rng(I0, k, n), eq(mx(add(k, I1)), ite(lt(mx(k), ab(cx(k))), ab(cx(k)), mx(k)))), [[mx(k), cx(k)], [mx(add(k, I1))]]))
    if mpi: gmax = fresh("largest magnitude of all processes", "R"); use = gt(gmax, bound)
    else: C.assume(rng(I0, a, n), forall([r], implies(rng(I0, r, n), le(ab(cx(r)), ab(cx(a)))), [[cx(r)]]), touch(cx(a))); C.induct("largest of all is the largest magnitude", k, I0, lambda k: and_(le(mx(k), ab(cx(a))), le(ZR, mx(k)), implies(lt(a, k), ge(mx(k), ab(cx(a))))), hi=n, pats=[[mx(k)]]); use = gt(ab(cx(a)), bound)
    cnt = C.alloc(I0, "solver runs"); isA = lambda ex, x: TRUE if isinstance(x, Loc) and x.root == q.A.root and tuple(x.path) == tuple(q.A.path) else FALSE
    vec = lambda ex, st, P: (ex.read(st, P.base), and_(TRUE if P.base == xl or P.base.root == xl.root else FALSE, eq(P.off, I0)))
    def reduce(ex, st, f, vals, this): q.pre(ex, st, "largest coefficient over all processes", and_(eq(ex.rv(st, vals[0]), mx(n)), is_op(ex, st, vals[1], "max"))); return gmax
    def g(ex, st, f, vals, this):
        N, P = ex.rv(st, vals[0]), ex.rv(st, vals[2]); x, ok = vec(ex, st, P); q.pre(ex, st, "guess: for the own rows of this matrix", and_(eq(N, n), isA(ex, vals[1]), ok, forall([r], implies(rng(I0, r, n), eq(select(x.e, r), cx(r)))))); e = fresh("guess", asort("R")); st.fact(forall([r], implies(rng(I0, r, n), eq(select(e, r), gs(r))), [[select(e, r)]])); ex.write(st, P.base, Vec(x.n, e, REAL)); return X.VOID
    def mkop(ex, st, f, vals, this): q.pre(ex, st, "the operator of this matrix", isA(ex, vals[0])); ex.write(st, this, Obj(ex.read(st, this).ty, {"m_matrix_": X.Opaque("the matrix")})); return X.VOID
    def solve(ex, st, f, vals, this):
        N, m, _, D, tl, P = [ex.rv(st, v) for v in vals[:6]]; x, ok = vec(ex, st, P); d = ex.read(st, D.base); o = ex.rv(st, vals[2])
        q.pre(ex, st, "solver: own rows, the subspace limit and tolerance asked for, this operator", and_(eq(N, n), eq(m, mm), eq(tl, tol), ok, eq(x.n, n), TRUE if isinstance(o, Obj) and getattr(o.f.get("m_matrix_"), "ty", "") == "the matrix" else FALSE, TRUE if not mpi or ex.rv(st, vals[6]).ty == "comm" else FALSE)); q.pre(ex, st, "solver: the diagonal of the own rows", and_(eq(D.off, I0), forall([r], implies(rng(I0, r, n), eq(select(d.e, r), q.dg(add(q.first, r)))))))
        q.pre(ex, st, "solver: starts from the passed vector if that is large enough on some process, from the guess otherwise", forall([r], implies(rng(I0, r, n), eq(select(x.e, r), ite(use, cx(r), gs(r)))))); e = fresh("eigenvector", asort("R")); st.fact(forall([r], implies(rng(I0, r, n), eq(select(e, r), res(r))), [[select(e, r)]])); ex.write(st, P.base, Vec(x.n, e, REAL)); ex.write(st, cnt, add(ex.read(st, cnt), I1)); return Obj("tuple", {"0": fresh("niter", "I"), "1": E, "first": I0, "second": E})
    C.ex.contracts.update({"macis::allreduce": reduce, "macis::p_diagonal_guess": g, "macis::diagonal_guess": g, "macis::p_davidson": solve, "macis::davidson": solve}); C.ex.contracts.update({op.replace("operator_action", "SparseMatrixOperator"): mkop for op in OPS})
    C.ex.externs = dict(C.ex.externs, MPI_Barrier=lambda ex, st, fr, args, node: I0); C.ex.cand_gens += [cand_scalar(mx, "R")]; nt = len(C.ex.throws)
    v = C.call(V.fn("macis::parallel_selected_ci_diag" if mpi else "macis::serial_selected_ci_diag"), [q.A, mm, tol, xl] + ([C.alloc(q.comm, "comm")] if mpi else [])); x = C.ex.read(C.st, xl)
    C.ensure("the solver's energy", eq(v, E)); C.ensure("the solver ran once", eq(C.ex.read(C.st, cnt), I1)); C.ensure("the own rows of the solver's vector", and_(eq(x.n, n), forall([r], implies(rng(I0, r, n), eq(select(x.e, r), res(r)))))); C.ensure("no failure but the solver's", TRUE if len(C.ex.throws) == nt else FALSE); V.done(C)
def top(V, N):
    """selected_ci_diag: the Hamiltonian of the given determinants with the given threshold, solved with the given settings"""
    C = V.ctx("selected_ci_diag<%d>" % N); spd(C); k = iv("k"); q = SM(); q.pre = lambda ex, st, nm, g: None if ex.dry else ex.oblige(st, nm, g, kind="pre"); nd, mm, tol, thr, E = iv("determinants"), iv("max_m"), fresh("tol", "R"), fresh("threshold", "R"), fresh("E", "R"); C.assume(ge(nd, I0)); W = lambda nm: fresh(nm, asort(("BV", N)))
    f = V.fn("macis::selected_ci_diag", lambda f: f.targs[0] == str(N))
    dl = C.alloc(Vec(nd, fresh("dets", asort(("BV", N))), ("bits", N)), "dets"); gen = C.alloc(Opaque("generator"), "generator"); H = X.Opaque("the Hamiltonian"); n0 = iv("size before"); C.assume(ge(n0, I0)); xl = C.alloc(Vec(n0, fresh("C", asort("R")), REAL), "C"); comm = C.alloc(Opaque("comm"), "comm"); cnt = C.alloc(I0, "solver runs"); res, n = fresh("eigenvector", asort("R")), iv("own rows"); M = iv("M"); C.assume(ge(n, I0), ge(M, I1))
    def make(ex, st, f, vals, this):
        c, b, e, g, t = [vals[0], ex.rv(st, vals[1]), ex.rv(st, vals[2]), vals[3], ex.rv(st, vals[4])]; q.pre(ex, st, "the Hamiltonian of all given determinants, with the given elements and threshold", and_(TRUE if ex.rv(st, c).ty == "comm" and b.base.root == dl.root and e.base.root == dl.root and isinstance(g, Loc) and g.root == gen.root else FALSE, eq(b.off, I0), eq(e.off, nd), eq(t, thr)))
        return rec_obj(C, SDIST, {"comm_": H, "comm_size_": iv("P"), "comm_rank_": iv("me"), "global_m_": M, "global_n_": M, "dist_row_extents_": Vec(iv("P"), Obj("tuple", {"0": fresh("lo", asort("I")), "1": fresh("hi", asort("I"))}), ("rec", "std::pair<int, int>")), "diagonal_tile_": Ptr(None, None, TRUE), "off_diagonal_tile_": Ptr(None, None, TRUE)})
    def solve(ex, st, f, vals, this):
        h, m, t, c = [ex.rv(st, v) for v in vals[:3]] + [vals[3]]; q.pre(ex, st, "solved: this Hamiltonian, the given subspace limit and tolerance, the given coefficients", and_(TRUE if isinstance(h, Obj) and getattr(h.f.get("comm_"), "ty", "") == "the Hamiltonian" and isinstance(c, Loc) and c.root == xl.root and ex.rv(st, vals[4]).ty == "comm" else FALSE, eq(m, mm), eq(t, tol), eq(ex.read(st, cnt), I0))); ex.write(st, xl, Vec(n, res, REAL)); ex.write(st, cnt, I1); return E
    C.ex.contracts.update({"macis::make_dist_csr_hamiltonian": make, "macis::parallel_selected_ci_diag": solve, "macis::allreduce": lambda ex, st, f, vals, this: fresh("reduced", getattr(ex.rv(st, vals[0]), "sort", "R")), "macis::comm_size": lambda ex, st, f, vals, this: iv("world")})
    C.ex.externs = dict(C.ex.externs, MPI_Barrier=lambda ex, st, fr, args, node: I0); nt = len(C.ex.throws)
    v = C.call(f, [Ptr(dl, I0), Ptr(dl, nd), gen, thr, mm, tol, xl, comm, FALSE]); x = C.ex.read(C.st, xl)
    C.ensure("the solver's energy", eq(v, E)); C.ensure("the solver's own rows", and_(eq(x.n, n), eq(x.e, res))); C.ensure("no failure but the solver's", TRUE if len(C.ex.throws) == nt else FALSE); V.done(C)
def oper(V, mpi):
    """the operator given to the solver is the matrix product (gespmbv: C01; pgespmv with the exchange of this matrix: C09, C27)"""
    C = V.ctx("SparseMatrixOperator" + (" distributed" if mpi else " serial")); q = setting(C, mpi); name = OPS[1 if mpi else 0]; cls = name.rsplit("::", 1)[0]; al, be, m, lv, la = fresh("alpha", "R"), fresh("beta", "R"), iv("m"), iv("LDV"), iv("LDAV"); C.assume(ge(m, I1))
    v, w = C.alloc(Vec(None, fresh("V", asort("R")), REAL), "V"), C.alloc(Vec(None, fresh("AV", asort("R")), REAL), "AV"); n = C.alloc(I0, "products"); isA = lambda x: TRUE if isinstance(x, Loc) and x.root == q.A.root and tuple(x.path) == tuple(q.A.path) else FALSE; at = lambda p, l: and_(TRUE if isinstance(p, Ptr) and p.base == l else FALSE, eq(p.off, I0))
    def info(ex, st, f, vals, this): q.pre(ex, st, "the exchange of this matrix", isA(vals[0])); return rec_obj(C, "macis_sparsexx::spblas::spmv_info<int>", {"comm": X.Opaque("exchange of the matrix")})
    def pg(ex, st, f, vals, this):
        a, x, b, y = [ex.rv(st, vals[i]) for i in (0, 2, 3, 4)]; q.pre(ex, st, "product of the distributed matrix with its exchange", and_(eq(a, al), isA(vals[1]), at(x, v), eq(b, be), at(y, w), TRUE if getattr(ex.rv(st, vals[5]).f["comm"], "ty", "") == "exchange of the matrix" else FALSE)); ex.write(st, n, add(ex.read(st, n), I1)); return X.VOID
    def ge_(ex, st, f, vals, this):
        kk, a, x, lx, b, y, ly = [ex.rv(st, vals[i]) for i in (0, 1, 3, 4, 5, 6, 7)]; q.pre(ex, st, "product of the matrix with the block of vectors", and_(eq(kk, m), eq(a, al), isA(vals[2]), at(x, v), eq(lx, lv), eq(b, be), at(y, w), eq(ly, la))); ex.write(st, n, add(ex.read(st, n), I1)); return X.VOID
    C.ex.contracts.update({"macis_sparsexx::spblas::generate_spmv_comm_info": info, "macis_sparsexx::spblas::pgespmv": pg, "macis_sparsexx::spblas::gespmbv": ge_}); o = C.alloc(C.ex.fresh_val(("rec", cls), "op"), "op")
    get = lambda nm: next(f for f in C.ex.prog.byqual.get(nm, []) if f.body is not None); C.call(get(cls + "::SparseMatrixOperator"), [q.A], this=o); C.call(get(name), [I1 if mpi else m, al, Ptr(v, I0), lv, be, Ptr(w, I0), la], this=o); C.ensure("one product", eq(C.ex.read(C.st, n), I1)); V.done(C)
