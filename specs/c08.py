from spec import *
from exec import Ptr, Obj, Vec
TU = "dist"
NOTE = "dist_sparse_matrix: both ways to choose the row ranges, both constructors from a matrix, the copy constructor and the accessors, for every number of processes, every process, every shape, every index base and every tiling (empty ranges included). The constructors from a matrix are proved against the contracts of extract_submatrix and extract_submatrix_inclrow_exclcol, which are proved here and under C04 for every window."
ASSUME = ["MPI_Comm_size and MPI_Comm_rank return the same number of processes and a rank below it on every call", "std::make_shared copies its argument into a new object", "the rows of the matrix are in ascending column order (as under C04)"]
CSR = "sparsexx::csr_matrix<double, int32_t, std::allocator<double>>"
DIST = "sparsexx::dist_sparse_matrix<%s>" % CSR
TOP = num(2 ** 31 - 1)
def comm(C, me=None, P=None):
    """an arbitrary process of an arbitrary communicator"""
    P = P or iv("processes"); me = me or iv("me"); C.assume(le(I1, P), rng(I0, me, P), lt(P, TOP))
    def out(x):
        def h(ex, st, fr, args, n):
            p = ex.ev(st, fr, args[1]); ex.write(st, p.base, x); return I0
        return h
    C.ex.externs.update({"MPI_Comm_rank": out(me), "MPI_Comm_size": out(P)})
    return me, P
def ctor(C, npar, second=None):
    def pred(f):
        ts = [p["type"]["qualType"] for p in f.params]
        return len(ts) == npar and (second is None or second in ts[1])
    return lambda *vals: C.construct(DIST, pred, list(vals))
def extents(o):
    v = o.f["dist_row_extents_"]; return v.n, v.e.f["first"] if "first" in v.e.f else v.e.f["0"], v.e.f["second"] if "second" in v.e.f else v.e.f["1"]
def tiling(n, lo, hi, P, M):
    r = iv("r")
    return [("one range per process", eq(n, P)), ("the first range begins at the first row", eq(select(lo, I0), I0)), ("the last range ends after the last row", eq(select(hi, sub(P, I1)), M)),
            ("ranges are ordered", forall([r], implies(rng(I0, r, P), le(select(lo, r), select(hi, r))))), ("every range begins where the one before ends", forall([r], implies(and_(le(I0, r), lt(add(r, I1), P)), eq(select(lo, add(r, I1)), select(hi, r)))))]
def default(V):
    C = V.ctx("default distribution"); me, P = comm(C); M, N = iv("M"), iv("N"); C.assume(rng(I0, M, TOP), rng(I0, N, TOP)); r = iv("r")
    q, rem = tm.idiv(M, P), tm.imod(M, P); step = fn("share")
    C.axiom(eq(step(I0), I0), forall([r], implies(le(I0, r), eq(step(add(r, I1)), add(step(r), q))), [[step(r)]]))
    C.induct("a share is a multiple of the quotient", r, I0, lambda v: eq(step(v), mul(v, q)), pats=[[step(r)]])
    C.ex.cand_gens += [cand_arr(step), cand_arr(lambda r: step(add(r, I1))), cand_scalar(step, offs=(0, 1, -1))]
    mk = ctor(C, 3, "size_type"); D = mk(X.Opaque("comm"), M, N); n, lo, hi = extents(D)
    C.ensure("shape", and_(eq(D.f["global_m_"], M), eq(D.f["global_n_"], N), eq(D.f["comm_rank_"], me), eq(D.f["comm_size_"], P)))
    for nm, g in tiling(n, lo, hi, P, M): C.ensure(nm, implies(touch(step(P), step(I0), step(sub(P, I1))), g))
    comm(C, P=P); D2 = mk(X.Opaque("comm"), M, N); n2, lo2, hi2 = extents(D2)
    C.ensure("every process computes the same ranges", and_(eq(n, n2), forall([r], implies(rng(I0, r, P), and_(eq(select(lo, r), select(lo2, r)), eq(select(hi, r), select(hi2, r)))))))
    V.done(C)
def checked(L, lo, hi, P):
    """what a loop over the given ranges has checked so far"""
    r, out = iv("r"), []
    for l in L.leaves:
        if l.hv.sort == "I": out += [forall([r], implies(rng(I0, r, l.hv), le(select(lo, r), select(hi, r))))] + [forall([r], implies(and_(le(I0, r), lt(r, sub(l.hv, num(k))), lt(add(r, I1), P)), eq(select(lo, add(r, I1)), select(hi, r)))) for k in (0, 1)]
    return out
def custom(V):
    C = V.ctx("custom distribution"); me, P = comm(C); M, N = iv("M"), iv("N"); C.assume(rng(I0, M, TOP), rng(I0, N, TOP)); r = iv("r")
    n = iv("n"); C.assume(le(I0, n), lt(n, TOP)); lo, hi = fresh("lo", asort("I")), fresh("hi", asort("I")); I32_ = ("int", 32, True)
    C.assume(forall([r], and_(rng(num(-2**31), select(lo, r), num(2**31))), [[select(lo, r)]]), forall([r], and_(rng(num(-2**31), select(hi, r), num(2**31))), [[select(hi, r)]]))
    want = tiling(n, lo, hi, P, M); t0 = want[:3]
    C.ex.cand_gens.append(lambda ex, L: checked(L, lo, hi, P))
    loc = C.alloc(Vec(n, Obj("tuple", {"0": lo, "1": hi}), ("rec", "std::pair<int, int>")), "row_tiles"); nt = len(C.ex.throws)
    D = ctor(C, 4)(X.Opaque("comm"), M, N, loc); n1, lo1, hi1 = extents(D)
    for nm, g in want: C.ensure("accepted only if " + nm, g)
    C.ensure("the accepted ranges are kept", and_(eq(n1, n), eq(D.f["global_m_"], M), eq(D.f["global_n_"], N), eq(D.f["comm_rank_"], me), eq(D.f["comm_size_"], P), forall([r], implies(rng(I0, r, n), and_(eq(select(lo1, r), select(lo, r)), eq(select(hi1, r), select(hi, r)))))))
    for s, _ in C.ex.throws[nt:]: C.ensure("rejected only if it is not a distribution", not_(and_(*[g for _, g in want])), st=s)
    V.done(C)
def window(C, A, lb, made):
    """contracts of the two extractions, as proved under C04 (sorted rows)"""
    from c04 import places, PR, PT
    def contract(what):
        excl = what.endswith("exclcol")
        def h(ex, st, f, vals, this):
            a = vals[0]; a = ex.read(st, a) if isinstance(a, X.Loc) else a; lo, up = (ex.rv(st, v) for v in vals[1:3])
            rl, cl, ru, cu = lo.f["0"], lo.f["1"], up.f["0"], up.f["1"]; r = iv("r")
            ex.oblige(st, what + ": the matrix and a window inside its rows", and_(*[eq(a.f[k], A.fields[k]) for k in ("m_", "n_", "nnz_", "indexing_")], *[eq(a.f[k].e, A.fields[k].e) for k in ("rowptr_", "colind_", "nzval_")], le(I0, rl), le(rl, ru), le(ru, A.m), le(I0, cl), le(cl, cu), le(cu, TOP)))
            M = sub(ru, rl); rr = lambda r: add(r, rl); lo_, hi_ = (lambda r: lb(rr(r), cl)), (lambda r: lb(rr(r), cu)); start, cnt = fn("start"), fn("kept")
            w = lambda r: sub(hi_(r), lo_(r)); st.fact(forall([r], eq(cnt(r), sub(sub(A.en(rr(r)), A.st(rr(r))), w(r)) if excl else w(r)), [[cnt(r)]])); st.fact(eq(start(I0), I0)); st.fact(forall([r], implies(rng(I0, r, M), and_(le(I0, cnt(r)), eq(start(add(r, I1)), add(start(r), cnt(r))))), [[start(r)]]))
            N = start(M); d = {g: ex.fresh_val(ct.parse(X.ty_of(fd)), g) for fd in ex.fields(CSR) for g in [fd["name"]]}
            d.update({"m_": M, "n_": A.n if excl else sub(cu, cl), "indexing_": A.ix, "nnz_": N, "rowptr_": Vec(add(M, I1), fresh("tile.rowptr", asort("I")), I32), "colind_": Vec(N, fresh("tile.colind", asort("I")), I32), "nzval_": Vec(N, fresh("tile.nzval", asort("R")), REAL)})
            U = Obj(CSR, d); st.fact(forall([r], implies(and_(le(I0, r), le(r, M)), eq(select(d["rowptr_"].e, r), add(start(r), A.ix))), [[select(d["rowptr_"].e, r)]]))
            a, q = iv("a"), iv("q"); st.fact(forall([a, q], implies(and_(le(I0, a), le(a, q), le(q, M)), le(start(a), start(q))), [[start(a), start(q)]])); st.fact(le(I0, N)); st.fact(forall([a], implies(rng(I0, a, N), rng(A.ix, add(select(d["colind_"].e, a), I0 if excl else cl), add(A.n, A.ix))), [[select(d["colind_"].e, a)]]))
            for nm, g in places(A, U, start, M, rr, lo_, hi_, I0 if excl else cl, excl): st.fact(forall([PR, PT], g, [[start(PR), select(A.ind, PT)]]))
            made.append((what, U, start, (rl, cl, ru, cu))); return U
        return h
    C.ex.contracts.update({"sparsexx::" + w: contract(w) for w in ("extract_submatrix", "extract_submatrix_inclrow_exclcol")})
def tiles(V, rows):
    from c04 import first_at_least, PR, PT
    C = V.ctx("tiles of a matrix" + (", given ranges" if rows else "")); me, P = comm(C); A = sym_compressed(C, CSR, "csr"); sorted_in(C, A); lb = first_at_least(C, A); A.fields = dict(C.ex.read(C.st, A.loc).f); made = []; window(C, A, lb, made); r = iv("r")
    C.assume(lt(A.m, TOP), lt(A.n, TOP)); lo, hi = fresh("lo", asort("I")), fresh("hi", asort("I")); key = [k for k in C.ex.prog.byqual if k.startswith(DIST) and k.endswith("::dist_sparse_matrix")]
    rl, ru = select(lo, me), select(hi, me)
    def base(ex, st, f, vals, this):
        """the constructors without a matrix: any distribution that tiles the rows (proved above)"""
        if len(f.params) != (4 if rows else 3) or "size_type" not in f.params[1]["type"]["qualType"] and "size_t" not in f.params[1]["type"]["qualType"]: return NotImplemented
        v = [ex.rv(st, x) for x in vals]; ex.oblige(st, "the distribution of the rows of the matrix", and_(eq(v[1], A.m), eq(v[2], A.n), *([eq(v[3].n, n), TRUE if v[3].e.f["0"] is lo and v[3].e.f["1"] is hi else FALSE] if rows else [])))
        o = ex.read(st, this); d = dict(o.f); d.update({"comm_": v[0], "comm_size_": P, "comm_rank_": me, "global_m_": v[1], "global_n_": v[2], "dist_row_extents_": Vec(P, Obj("tuple", {"0": lo, "1": hi}), o.f["dist_row_extents_"].ty), "diagonal_tile_": Ptr(None, None, TRUE), "off_diagonal_tile_": Ptr(None, None, TRUE)})
        ex.write(st, this, Obj(o.ty, d))
        for nm, g in tiling(P, lo, hi, P, A.m): st.fact(g)
        st.fact(and_(le(I0, rl), le(rl, ru), le(ru, A.m)))       # proved below for every tiling
    n = iv("n"); C.ex.contracts[key[0]] = base; args = [C.alloc(Vec(n, Obj("tuple", {"0": lo, "1": hi}), ("rec", "std::pair<int, int>")), "row_tiles")] if rows else []
    mk = ctor(C, 3 if rows else 2, "csr_matrix"); D = mk(X.Opaque("comm"), A.loc, *args); n1, lo1, hi1 = extents(D)
    C.ensure("the distribution is kept", and_(eq(n1, P), TRUE if lo1 is lo and hi1 is hi else FALSE, eq(D.f["global_m_"], A.m), eq(D.f["global_n_"], A.n), eq(D.f["comm_rank_"], me)))
    ok = len(made) == 2 and {m[0] for m in made} == {"extract_submatrix", "extract_submatrix_inclrow_exclcol"}; C.ensure("two tiles", TRUE if ok else FALSE)
    if not ok: V.done(C); return
    s = {w: st for w, _, st, _ in made}; sd, so = s["extract_submatrix"], s["extract_submatrix_inclrow_exclcol"]; d, o = (C.ex.read(C.st, D.f[k].base) for k in ("diagonal_tile_", "off_diagonal_tile_")); M = sub(ru, rl); R = add(PR, rl)
    for nm, t, st in (("diagonal", d, sd), ("off-diagonal", o, so)):
        C.ensure(nm + " tile: the local rows, base 0", and_(eq(t.f["m_"], M), eq(t.f["indexing_"], I0), eq(t.f["nnz_"], st(M)), eq(t.f["rowptr_"].n, add(M, I1)), eq(t.f["colind_"].n, st(M)), eq(t.f["nzval_"].n, st(M))))
        C.ensure(nm + " tile: row pointers count the entries of the rows before", forall([r], implies(and_(le(I0, r), le(r, M), touch(st(r))), eq(select(t.f["rowptr_"].e, r), st(r)))))
    C.ensure("columns of the tiles", and_(eq(d.f["n_"], M), eq(o.f["n_"], A.n)))
    col = sub(select(A.ind, PT), A.ix); row, ent = rng(I0, PR, M), rng(A.st(R), PT, A.en(R)); mine = rng(rl, col, ru); first, second = lb(R, rl), lb(R, ru); seen = touch(sd(PR), so(PR), sd(add(PR, I1)), so(add(PR, I1)), first, second, select(A.ind, PT), A.st(R))
    at = lambda t, p, c: and_(le(select(t.f["rowptr_"].e, PR), p), lt(p, select(t.f["rowptr_"].e, add(PR, I1))), eq(select(t.f["colind_"].e, p), c), eq(select(t.f["nzval_"].e, p), select(A.val, PT)))
    D_, O_ = (lambda p: add(sd(PR), p)), (lambda p: add(so(PR), p))
    C.ensure("an entry in a local column is in the diagonal tile, in order", implies(and_(row, ent, mine, seen), at(d, D_(sub(PT, first)), sub(col, rl))))
    C.ensure("an entry left of the local columns is in the off-diagonal tile, in order", implies(and_(row, ent, lt(col, rl), seen), at(o, O_(sub(PT, A.st(R))), col)))
    C.ensure("an entry right of the local columns is in the off-diagonal tile, in order", implies(and_(row, ent, le(ru, col), seen), at(o, O_(sub(sub(PT, A.st(R)), sub(second, first))), col)))
    C.ensure("the tiles hold no other entries", implies(and_(row, seen), eq(add(sub(sd(add(PR, I1)), sd(PR)), sub(so(add(PR, I1)), so(PR))), sub(A.en(R), A.st(R)))))
    V.done(C)
def cover(V):
    """consequences of a tiling: every range lies inside the matrix, every row is in exactly one range"""
    C = V.ctx("a tiling assigns every row once"); me, P = comm(C); M = iv("M"); C.assume(le(I0, M)); lo, hi = fresh("lo", asort("I")), fresh("hi", asort("I")); r, u, x = iv("r"), iv("u"), iv("x")
    for nm, g in tiling(P, lo, hi, P, M): C.assume(g)
    C.induct("ranges begin at or after the first row, and ascend", r, I0, lambda v: and_(le(I0, select(lo, v)), le(select(lo, v), select(hi, v))), hi=sub(P, I1), pats=[[select(lo, r)]])
    C.induct("ranges end at or before the last row", r, I0, lambda v: le(select(hi, sub(sub(P, I1), v)), M), hi=sub(P, I1)); C.ex.axioms.pop(); C.axiom(forall([r], implies(rng(I0, r, P), le(select(hi, r), M)), [[select(hi, r)]]))
    C.ensure("every range lies inside the matrix", implies(rng(I0, r, P), and_(le(I0, select(lo, r)), le(select(lo, r), select(hi, r)), le(select(hi, r), M))))
    C.induct("rows up to the end of a range are in one of the ranges up to it", u, I0, lambda v: implies(rng(I0, x, select(hi, v)), exists([r], and_(le(I0, r), le(r, v), le(select(lo, r), x), lt(x, select(hi, r))))), hi=sub(P, I1)); C.ex.axioms.pop()
    last = sub(P, I1); C.axiom(implies(rng(I0, x, select(hi, last)), exists([r], and_(le(I0, r), le(r, last), le(select(lo, r), x), lt(x, select(hi, r))))))
    C.ensure("every row is in a range", implies(rng(I0, x, M), exists([r], and_(rng(I0, r, P), le(select(lo, r), x), lt(x, select(hi, r))))))
    C.induct("later ranges begin after earlier ones", u, add(r, I1), lambda v: implies(le(I0, r), le(select(hi, r), select(lo, v))), hi=sub(P, I1)); C.ex.axioms.pop(); C.axiom(forall([r, u], implies(and_(le(I0, r), lt(r, u), lt(u, P)), le(select(hi, r), select(lo, u))), [[select(hi, r), select(lo, u)]]))
    C.ensure("no row is in two ranges", implies(and_(le(I0, r), lt(r, u), lt(u, P), touch(select(hi, r), select(lo, u))), not_(and_(rng(select(lo, r), x, select(hi, r)), rng(select(lo, u), x, select(hi, u))))))
    V.done(C)
def copy(V, d, o):
    """copy of a distributed matrix with or without tiles, and the accessors"""
    C = V.ctx("copy%s%s" % (", diagonal tile" if d else "", ", off-diagonal tile" if o else "")); me, P = comm(C); M, N = iv("M"), iv("N"); C.assume(rng(I0, M, TOP), rng(I0, N, TOP)); lo, hi = fresh("lo", asort("I")), fresh("hi", asort("I")); r = iv("r")
    for nm, g in tiling(P, lo, hi, P, M): C.assume(g)
    tile = {k: sym_compressed(C, CSR, "csr", k) for k in ("d", "o")}; com = X.Opaque("comm"); ptr = lambda k, b: Ptr(tile[k].loc, None) if b else Ptr(None, None, TRUE)
    A = C.alloc(rec_obj(C, DIST, {"comm_": com, "comm_size_": P, "comm_rank_": me, "global_m_": M, "global_n_": N, "dist_row_extents_": Vec(P, Obj("tuple", {"0": lo, "1": hi}), ("rec", "std::pair<int, int>")), "diagonal_tile_": ptr("d", d), "off_diagonal_tile_": ptr("o", o)}), "other")
    C.ex.cand_gens.append(lambda ex, L: checked(L, lo, hi, P)); nt = len(C.ex.throws)
    B = C.construct(DIST, lambda f: len(f.params) == 1 and "const" in f.params[0]["type"]["qualType"], [A]); n1, lo1, hi1 = extents(B)
    for s, _ in C.ex.throws[nt:]: C.ensure("no exception", FALSE, st=s)
    C.ensure("the copy has the same distribution", and_(eq(n1, P), eq(B.f["global_m_"], M), eq(B.f["global_n_"], N), eq(B.f["comm_rank_"], me), eq(B.f["comm_size_"], P), TRUE if B.f["comm_"] is com else FALSE, forall([r], implies(rng(I0, r, P), and_(eq(select(lo1, r), select(lo, r)), eq(select(hi1, r), select(hi, r)))))))
    for k, b, nm in (("d", d, "diagonal_tile_"), ("o", o, "off_diagonal_tile_")):
        p = B.f[nm]
        if not b: C.ensure(nm + ": none", p.null); continue
        t = C.ex.read(C.st, p.base) if p.base is not None else None; s = C.ex.read(C.st, tile[k].loc)
        C.ensure(nm + ": present, its own copy", and_(not_(p.null), TRUE if p.base is not None and p.base.root != tile[k].loc.root else FALSE))
        if t is not None: C.ensure(nm + ": the same entries", and_(*[eq(t.f[g], s.f[g]) for g in ("m_", "n_", "nnz_", "indexing_")], *[eq(t.f[g].n, s.f[g].n) for g in ("rowptr_", "colind_", "nzval_")], *[forall([r], eq(select(t.f[g].e, r), select(s.f[g].e, r))) for g in ("rowptr_", "colind_", "nzval_")]))
    L = C.alloc(B, "copy"); call = lambda nm, *a: C.call(next(f for f in C.ex.prog.fns.values() if f.name == nm and f.body is not None and f.record is not None and X.canon_rec(f.record.get("_qual", "")) == X.canon_rec(DIST)), list(a), L)
    u = iv("rank"); C.assume(rng(I0, u, P)); x = call("row_bounds", u)
    C.ensure("accessors", and_(eq(x.f["0"], select(lo, u)), eq(x.f["1"], select(hi, u)), eq(call("row_extent", u), sub(select(hi, u), select(lo, u))), eq(call("local_row_extent"), sub(select(hi, me), select(lo, me))), eq(call("local_row_start"), select(lo, me)), eq(call("m"), M), eq(call("n"), N), eq(call("nnz"), add(tile["d"].nnz if d else I0, tile["o"].nnz if o else I0))))
    V.done(C)
def extract(V, w):
    import c04
    c04.contract(V, w)
def jobs(V): return [*[(w, lambda w=w: extract(V, w)) for w in ("extract_submatrix", "extract_submatrix_inclrow_exclcol")], ("default", lambda: default(V)), ("custom", lambda: custom(V)), ("tiles", lambda: tiles(V, False)), ("tiles, given ranges", lambda: tiles(V, True)), ("cover", lambda: cover(V)), *[("copy %d%d" % (d, o), lambda d=d, o=o: copy(V, d, o)) for d in (0, 1) for o in (0, 1)]]
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]; HARNESS_FLAGS = ["-DOMPI_SKIP_MPICXX"]
