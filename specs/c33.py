from spec import *
from c01 import from_coo
TU = "triplet"
HARNESS_FLAGS = []
NOTE = "write_binary_triplet of coordinate and CSR matrices and read_binary_triplet_as_coo for every valid matrix: the writers run against a ghost file (the blocks written, in order, with their sizes), and the reader runs against a file of that layout; every read must ask for the block that lies there. Reading as CSR is proved to be the CSR form of the coordinate matrix read. The reader's sort is inlined, its triangle expansion is used by contract (C09)."
ASSUME = ["std::ofstream / std::ifstream: what is read from a file is what was written to it, in order (every write and read succeeds once the file is open)", "expand_from_triangle: contract of C09 (proved there)"]
def width(n):
    """size of the number whose bytes are passed: (char*)&x"""
    while n.get("kind") in ("CStyleCastExpr", "ImplicitCastExpr", "ParenExpr", "CXXReinterpretCastExpr", "CXXStaticCastExpr"): n = X.rx(n)[0]
    if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
        t = X.ct.parse(X.ty_of(X.rx(n)[0])); return t[1] // 8 if t[0] == "int" else 8 if t[0] == "real" else -1
    return -1
class File:
    def __init__(s, C, blocks=None):
        s.C, s.blocks, s.pos, s.way = C, blocks or [], 0, []
        def open_(ex, st, fr, args, way): s.way.append(way); return X.Opaque("fstream." + way)
        q = lambda v: lambda ex, st, fr, args, n: v
        C.ex.externs.update({"fstream.open": open_, "fstream.o.write": s.write, "fstream.i.read": s.read, **{"fstream.%s.%s" % (w, m): q(FALSE if m == "fail" else TRUE if m in ("bool", "good", "is_open") else X.VOID) for w in "oi" for m in ("bool", "good", "is_open", "fail", "close", "flush")}})
    def vals(s, ex, st, fr, args):
        if ex.dry: raise Unsupported("file access in a loop")
        p, n = ex.ev(st, fr, args[0]), ex.as_int(ex.ev(st, fr, args[1])); v = None if not isinstance(p, Ptr) or p.base is None else ex.read(st, p.base)
        t = width(args[0])
        if v is None or not (isinstance(v, T) and p.off is None or isinstance(v, Vec) and p.off is I0): raise Unsupported("file access through an unknown pointer")
        return p, n, v, t
    def write(s, ex, st, fr, args, n):
        p, b, v, t = s.vals(ex, st, fr, args)
        if isinstance(v, T): ex.oblige(st, "write: the bytes of the number", eq(b, num(t))); s.blocks.append((b, v, None))
        else: w = 8 if ex.leaf_sort(v.ty) == "R" else 4; ex.oblige(st, "write: inside the buffer", and_(le(I0, b), le(b, mul(num(w), v.n)))); s.blocks.append((b, v.e, w))
        return X.VOID
    def read(s, ex, st, fr, args, n):
        p, b, v, t = s.vals(ex, st, fr, args)
        if s.pos >= len(s.blocks): ex.oblige(st, "read: there is something left in the file", FALSE); raise Unsupported("read past the end")
        wb, w, kind = s.blocks[s.pos]; s.pos += 1; ex.oblige(st, "read: asks for the block that was written (same size)", eq(b, wb))
        if isinstance(v, T):
            ex.oblige(st, "read: asks for the block that was written (a number of that size)", and_(TRUE if kind is None else FALSE, eq(b, num(t)))); ex.write(st, p.base, w if kind is None else fresh("read", "I")); return X.VOID
        mine = 8 if ex.leaf_sort(v.ty) == "R" else 4; ex.oblige(st, "read: asks for the block that was written (same kind)", TRUE if kind == mine and w.sort == v.e.sort else FALSE); ex.oblige(st, "read: inside the buffer", and_(le(I0, b), le(b, mul(num(mine), v.n))))
        a = fresh("read", v.e.sort); t = iv("t")
        if w is not None and w.sort == a.sort: st.fact(forall([t], implies(rng(I0, mul(num(mine), t), b), eq(select(a, t), select(w, t))), [[select(a, t)]]))
        ex.write(st, p.base, Vec(v.n, a, v.ty)); return X.VOID
def layout(C, F, A, rows, col, val):
    """the file layout both sides agree on"""
    B = F.blocks; t = iv("t"); E = C.ensure; ok = len(B) == 6 and [k for _, _, k in B] == [None, None, None, 4, 4, 8]
    E("blocks of the file: rows, columns, count, row indices, column indices, values", TRUE if ok else FALSE)
    if not ok: return
    E("shape and count", and_(*[and_(eq(b, num(z)), eq(v, x)) for (b, v, _), z, x in zip(B, (4, 4, 8), (A.m, A.n, A.nnz))])); E("length of the lists", and_(*[eq(b, mul(num(z), A.nnz)) for (b, _, _), z in zip(B[3:], (4, 4, 8))]))
    for nm, (_, v, _), f in zip(("row indices", "column indices", "values"), B[3:], (rows, col, val)): E(nm, forall([t], implies(and_(rng(I0, t, A.nnz), touch(f(t))), eq(select(v, t), f(t)))))
def w_coo(V):
    C = V.ctx("write_binary_triplet, coordinates"); A = sym_coo(C, V.COO); F = File(C); C.call(writer(V, "coo"), [A.loc, X.Opaque("string")])
    layout(C, F, A, lambda t: select(A.row, t), lambda t: select(A.col, t), lambda t: select(A.val, t)); R = C.ex.read(C.st, A.loc); V.done(C)
def w_csr(V):
    C = V.ctx("write_binary_triplet, CSR"); A = sym_compressed(C, V.CSR, "csr"); F = File(C); q, r, t = iv("q"), iv("r"), iv("t"); C.assume(lt(A.m, num(2 ** 31 - 1)))
    ro = fn("rowOf"); st_ = lambda r: sub(select(A.ptr, r), A.ix)
    C.axiom(forall([t], implies(rng(I0, t, A.nnz), and_(rng(I0, ro(t), A.m), le(st_(ro(t)), t), lt(t, st_(add(ro(t), I1))))), [[ro(t)]]), forall([r, t], implies(and_(rng(I0, r, A.m), rng(st_(r), t, st_(add(r, I1)))), eq(ro(t), r)), [[select(A.ptr, r), ro(t)]]))
    C.ex.cand_gens.append(lambda ex, L: [f for B in counters(ex, L) for l in L.leaves for f in ([forall([t], implies(rng(I0, t, st_(B)), eq(select(l.hv, t), add(ro(t), A.ix))), [[select(l.hv, t)], [ro(t)]])] if l.hv.sort == asort("I") else [eq(l.hv, st_(B))] if l.hv.sort == "I" and l.hv is not B else [])])
    C.call(writer(V, "csr"), [A.loc, X.Opaque("string")]); layout(C, F, A, lambda t: add(ro(t), A.ix), lambda t: select(A.ind, t), lambda t: select(A.val, t)); V.done(C)
def writer(V, k): return V.fn("sparsexx::write_binary_triplet", lambda f: k + "_matrix" in str(f.targs))
def reader(V):
    C = V.ctx("read_binary_triplet_as_coo"); A = sym_coo(C, V.COO, "file"); q, p, t = iv("q"), iv("p"), iv("t"); n2 = iv("expanded.nnz"); C.assume(le(A.nnz, num(2 ** 30)), rng(A.nnz, n2, num(2 ** 31 - 1))); B4, B8 = num(4), num(8)
    File(C, [(B4, A.m, None), (B4, A.n, None), (B8, A.nnz, None), (mul(B4, A.nnz), A.row, 4), (mul(B4, A.nnz), A.col, 4), (mul(B8, A.nnz), A.val, 8)])
    z = iv("first"); C.assume(or_(eq(A.ix, I1), and_(rng(I0, z, A.nnz), or_(eq(select(A.row, z), I0), eq(select(A.col, z), I0)))))
    X3 = [fresh("expanded." + k, s) for k, s in (("row", asort("I")), ("col", asort("I")), ("val", asort("R")))]; calls = []
    def expand(ex, st, f, vals, this):
        R = ex.read(st, this); calls.append(R.f); O = ex.oblige; ks = ("rowind_", "colind_", "nzval_"); v = lambda k: R.f[k]
        if not ex.dry:
            O(st, "expand_from_triangle: the matrix is the one in the file: shape and count", and_(eq(v("m_"), A.m), eq(v("n_"), A.n), eq(v("nnz_"), A.nnz), *[eq(v(k).n, A.nnz) for k in ks]))
            for k, w in zip(ks, (A.row, A.col, A.val)): O(st, "expand_from_triangle: the matrix is the one in the file: " + k, forall([t], implies(rng(I0, t, A.nnz), eq(select(v(k).e, t), select(w, t)))))
        ex.write(st, this, X.Obj(R.ty, {**R.f, "nnz_": n2, **{k: Vec(n2, a, v(k).ty) for k, a in zip(ks, X3)}})); return X.VOID
    C.assume(*[forall([t], implies(rng(I0, t, A.nnz), eq(select(x, t), select(w, t))), [[select(x, t)]]) for x, w in zip(X3, (A.row, A.col, A.val))], *[forall([t], implies(rng(I0, t, n2), ge(select(x, t), A.ix)), [[select(x, t)]]) for x in X3[:2]])
    C.ex.cand_gens.append(lambda ex, L: [f for l in L.leaves if l.hv.sort == "B" for f in [implies(l.hv, eq(A.ix, I0)), implies(not_(l.hv), eq(A.ix, I1))] + [implies(lt(z, B), or_(l.hv, eq(A.ix, I1))) for B in counters(ex, L)]])
    C.ex.contracts[V.COO.replace(", ", ",") + "::expand_from_triangle"] = expand; C.ex.contracts[V.COO + "::expand_from_triangle"] = expand
    R = C.call(V.fn("sparsexx::read_binary_triplet_as_coo"), [X.Opaque("string")]); R = C.ex.read(C.st, R) if isinstance(R, Loc) else R; pi, pinv = C.ex.last_perm; row, col, val = (R.f[k].e for k in ("rowind_", "colind_", "nzval_")); E = C.ensure
    E("the triangle is expanded once", TRUE if len(calls) == 1 else FALSE)
    E("shape and counts", and_(eq(R.f["m_"], A.m), eq(R.f["n_"], A.n), eq(R.f["nnz_"], n2), *[eq(R.f[k].n, n2) for k in ("rowind_", "colind_", "nzval_")])); E("the index base is that of the matrix written", implies(touch(*[select(c[k].e, z) for c in calls for k in ("rowind_", "colind_")], pinv(z), pi(pinv(z)), select(row, pinv(z)), select(col, pinv(z))), eq(R.f["indexing_"], A.ix)))
    E("every entry is an entry of the file (or the mirror image of one)", forall([q], implies(rng(I0, q, n2), and_(rng(I0, pi(q), n2), *[eq(select(a, q), select(b, pi(q))) for a, b in zip((row, col, val), X3)]))))
    E("no entry is lost or repeated (the rearrangement is a bijection)", forall([q], implies(and_(rng(I0, q, n2), touch(pi(q), pi(pinv(q)))), and_(rng(I0, pinv(q), n2), eq(pi(pinv(q)), q), eq(pinv(pi(q)), q)))))
    E("by rows, then by columns", forall([p, q], implies(and_(le(I0, p), lt(p, q), lt(q, n2)), or_(lt(select(row, p), select(row, q)), and_(eq(select(row, p), select(row, q)), le(select(col, p), select(col, q)))))))
    V.done(C)
def as_csr(V):
    """read_binary_triplet of a CSR matrix: the CSR form (C01) of what read_binary_triplet_as_coo returns (sorted: proved above)"""
    def build(C, A):
        n = []
        def rd(ex, st, f, vals, this): n.append(1); return ex.read(st, A.loc)
        C.ex.contracts["sparsexx::read_binary_triplet_as_coo"] = rd; U = C.call(V.fn("sparsexx::read_binary_triplet", lambda f: "csr_matrix" in str(f.targs)), [X.Opaque("string")]); C.ensure("the file is read once", TRUE if len(n) == 1 else FALSE)
        return C.ex.read(C.st, U) if isinstance(U, Loc) else U
    from_coo(V, "csr", "read_binary_triplet, CSR", build)
def jobs(V): return [("write_binary_triplet, coordinates", lambda: w_coo(V)), ("write_binary_triplet, CSR", lambda: w_csr(V)), ("read_binary_triplet_as_coo", lambda: reader(V)), ("read_binary_triplet, CSR", lambda: as_csr(V))]
