from c08 import *
TU = "dist"
NOTE = "generate_spmv_comm_info and pgespmv for every number of processes, every tiling of the rows (empty ones included), every pattern of remote columns (none included) and an arbitrary process of the communicator. Messages are contracts: a receive is an obligation on source, tag, type, count and room; a send is an obligation that its buffer holds, at the call and still when its request is waited for, exactly what the receiving process's contract says it receives; a buffer has its content only after MPI_Waitall. That the local and the remote part of a row add up to the row of the serial product is a lemma over the tiles as they are placed under C08."
ASSUME = ["MPI: Allgather delivers what every process passed; a receive delivers the message that the process it names sends with the same tag, in order; every process runs the same code, so what another process sends is what the contract says with that process's rank (proved for an arbitrary rank)", "the off-diagonal tile has base 0 and no column among the local rows, the diagonal tile has local columns (both proved under C08 for the constructors); gespmbv computes alpha A v + beta y (proved under C03)", "std::set lists the distinct elements in ascending order", "the total number of entries sent fits size_t; one message's number of entries fits int (at most the number of columns of the other process's rows)", "sums over the reals; communication_volume is not under contract"]
from builtins_ import set_facts
class G: pass
def setting(V, name, prove=False):
    """an arbitrary process of an arbitrary row distribution; u(r, .): the remote columns of process r in ascending order, b(r, i): how many of them lie below the rows of process i"""
    C = V.ctx(name); q = G(); q.C = C; ex = C.ex; me, P = comm(C); q.me, q.P = me, P; N = q.N = iv("N"); C.assume(rng(I0, N, TOP)); r, i, k, l = (iv(x) for x in "rikl")
    lo, hi = q.lo, q.hi = fresh("lo", asort("I")), fresh("hi", asort("I"))
    for nm, g in tiling(P, lo, hi, P, N): C.assume(g)
    q.u, q.nu, q.b = fn("remoteColumn"), fn("remoteColumns"), fn("remoteBefore"); u, nu, b = q.u, q.nu, q.b
    q.cnt = fn("needs"); bound = lambda i: ite(lt(i, P), select(lo, i), N); C.axiom(forall([r, i], eq(q.cnt(r, i), sub(b(r, add(i, I1)), b(r, i))), [[q.cnt(r, i)]]))
    proc, owner, nth = rng(I0, r, P), rng(I0, i, P), rng(I0, k, nu(r))
    C.axiom(forall([r], implies(proc, le(I0, nu(r))), [[nu(r)]]), forall([r, k, l], implies(and_(proc, le(I0, k), lt(k, l), lt(l, nu(r))), lt(u(r, k), u(r, l))), [[u(r, k), u(r, l)]]))
    C.axiom(forall([r, k], implies(and_(proc, nth), and_(rng(I0, u(r, k), N), not_(rng(select(lo, r), u(r, k), select(hi, r))))), [[u(r, k)]]))
    C.axiom(forall([r, i], implies(and_(proc, le(I0, i), le(i, P)), and_(le(I0, b(r, i)), le(b(r, i), nu(r)))), [[b(r, i)]]))
    C.axiom(forall([r, i], implies(proc, and_(le(I0, select(lo, r)), le(select(lo, r), select(hi, r)), le(select(hi, r), N))), [[select(lo, r)], [select(hi, r)]]))       # proved for every tiling under C08
    d0 = forall([r, i, k], implies(and_(proc, le(I0, i), le(i, P), nth), eq(lt(k, b(r, i)), lt(u(r, k), bound(i)))), [[b(r, i), u(r, k)]])     # what b(r, i) is
    def derived(nm, vs, f, pats, *see):
        if prove: C.lemma(nm, implies(touch(*see) if see else TRUE, f), use=False, timeout=10000)
        C.axiom(forall(vs, f, pats))
    if prove:
        w, c, n = iv("bound"), iv("c"), iv("n"); th = lambda c, n: and_(le(I0, c), le(c, n), forall([k], implies(rng(I0, k, n), eq(lt(k, c), lt(u(me, k), w))), [[u(me, k)]]))
        C.lemma("the columns below a bound come first (base)", th(I0, I0), use=False); C.lemma("the columns below a bound come first (step)", implies(and_(le(I0, n), lt(n, nu(me)), th(c, n), touch(u(me, n))), th(ite(lt(u(me, n), w), add(n, I1), c), add(n, I1))), use=False)
        C.axiom(d0); C.lemma("columns are at least their number (base)", implies(and_(proc, lt(I0, nu(r)), touch(u(r, I0))), le(I0, u(r, I0))), use=False); C.lemma("columns are at least their number (step)", implies(and_(proc, le(I0, k), lt(add(k, I1), nu(r)), le(k, u(r, k)), touch(u(r, add(k, I1)))), le(add(k, I1), u(r, add(k, I1)))), use=False)
        C.axiom(forall([r, k], implies(and_(proc, nth), le(k, u(r, k))), [[u(r, k)]]))
    derived("no more remote columns than columns", [r], implies(proc, and_(le(I0, nu(r)), le(nu(r), N))), [[nu(r)]], u(r, sub(nu(r), I1)))
    derived("nothing before the first process, all before the end", [r], implies(proc, and_(eq(b(r, I0), I0), eq(b(r, P), nu(r)))), [[nu(r)]], u(r, I0), u(r, sub(nu(r), I1)), b(r, I0), b(r, P), u(r, b(r, P)))
    derived("columns before the rows of a process", [r, i, k], implies(and_(proc, owner, nth), eq(lt(k, b(r, i)), lt(u(r, k), select(lo, i)))), [[b(r, i), u(r, k)]], b(r, i))
    derived("columns up to the rows of a process", [r, i, k], implies(and_(proc, owner, nth), eq(lt(k, b(r, add(i, I1))), lt(u(r, k), select(hi, i)))), [[b(r, add(i, I1)), u(r, k)]], b(r, add(i, I1)))
    derived("columns owned by a process", [r, i], implies(and_(proc, owner), and_(le(I0, q.cnt(r, i)), le(q.cnt(r, i), nu(r)), le(b(r, i), b(r, add(i, I1))))), [[q.cnt(r, i)]], b(r, add(i, I1)), b(r, i), u(r, b(r, add(i, I1))), select(lo, i), select(hi, i))
    derived("a process needs nothing from itself", [r], implies(proc, eq(q.cnt(r, r), I0)), [[q.cnt(r, r)]], q.cnt(r, r), b(r, r), b(r, add(r, I1)), u(r, b(r, r)))
    C.axiom(touch(nu(me), b(me, P), q.cnt(me, me)))
    q.posted, q.sent, q.nr, q.ns = (C.alloc(x, "ghost_" + y) for x, y in ((Vec(P, tm.lam(k, I0), ("int", 8, True)), "posted"), (Vec(P, tm.lam(k, I0), ("int", 8, True)), "sent"), (I0, "receives"), (I0, "sends")))
    return q
def matrix(q, tile, D=None):
    C = q.C
    if tile:
        O = sym_compressed(C, CSR, "csr", "off"); C.assume(eq(O.ix, I0), eq(O.n, q.N), eq(O.m, sub(select(q.hi, q.me), select(q.lo, q.me)))); k, t = iv("k"), iv("t")
        q.O = O; a = O.ind; C.axiom(eq(q.nu(q.me), tm.app("setcount", [a, I0, O.nnz], "I")), forall([k], eq(q.u(q.me, k), tm.app("setlist", [a, I0, O.nnz, k], "I")), [[q.u(q.me, k)], [tm.app("setlist", [a, I0, O.nnz, k], "I")]]))
    else: C.axiom(eq(q.nu(q.me), I0))
    d = {"comm_": X.Opaque("comm"), "comm_size_": q.P, "comm_rank_": q.me, "global_m_": q.N, "global_n_": q.N, "dist_row_extents_": Vec(q.P, Obj("tuple", {"0": q.lo, "1": q.hi}), ("rec", "std::pair<int, int>")), "diagonal_tile_": Ptr(D.loc, None) if D else Ptr(None, None, TRUE), "off_diagonal_tile_": Ptr(q.O.loc, None) if tile else Ptr(None, None, TRUE)}
    return C.alloc(rec_obj(C, DIST, d), "A")
def content(ex, st, p):
    """what a message buffer holds: entry k, how many entries there are room for"""
    V = ex.read(st, p.base); return (lambda k: ex.vec_read(st, V, add(p.off, k))), sub(V.n, p.off)
def mpi_name(ex, st, x):
    """name of a predefined MPI datatype"""
    if isinstance(x, Ptr) and isinstance(x.base, Loc): x = ex.read(st, x.base)
    return str(getattr(x, "ty", ""))
def messages(q, recv, msg, dtype, row=None):
    """contracts of the point-to-point messages. recv(st, source, buffer, count): obligations on a receive; msg(dest, k): entry k of the message to dest, and how many entries it has"""
    C, P, me = q.C, q.P, q.me; ex = C.ex; k = iv("k"); q.tag = None
    def head(ex, st, vs, what, ids):
        tag = vs[4]; q.tag = q.tag if q.tag is not None else tag
        ex.oblige(st, what + ": another process of the communicator, the tag of all messages, the communicator of the matrix", and_(rng(I0, vs[3], P), ne(vs[3], me), eq(tag, q.tag), TRUE if vs[5].ty == "comm" and mpi_name(ex, st, vs[2]) == dtype else FALSE))
        if row: row(ex, st, what, vs[3], vs[0])
    def irecv(ex, st, fr, args, n):
        vs = [ex.ev(st, fr, a) for a in args]; src, c, buf = vs[3], vs[1], vs[0]; po = ex.read(st, q.posted); nr = ex.read(st, q.nr)
        if not ex.dry:
            head(ex, st, vs, "MPI_Irecv", nr); ex.oblige(st, "MPI_Irecv: one receive for every process that sends", and_(eq(select(po.e, src), I0), lt(I0, c)))
            _, room = content(ex, st, buf); ex.oblige(st, "MPI_Irecv: room for the message", le(c, room))
            recv(ex, st, src, buf, c)
        elif row: row(ex, st, "MPI_Irecv", src, buf)
        ex.write(st, q.posted, Vec(P, store(po.e, src, I1), po.ty)); ex.write(st, vs[6].base, nr); ex.write(st, q.nr, add(nr, I1)); return I0
    def isend(ex, st, fr, args, n):
        vs = [ex.ev(st, fr, a) for a in args]; dst, c, buf = vs[3], vs[1], vs[0]; se = ex.read(st, q.sent); ns = ex.read(st, q.ns)
        if not ex.dry:
            head(ex, st, vs, "MPI_Isend", ns); ex.oblige(st, "MPI_Isend: one message to a process", and_(eq(select(se.e, dst), I0), lt(I0, c)))
            at, room = content(ex, st, buf); want, cnt = msg(dst); ex.oblige(st, "MPI_Isend: as many entries as the other process receives", and_(eq(c, cnt), le(c, room)))
            ex.oblige(st, "MPI_Isend: the entries the other process needs, in its order", implies(rng(I0, k, c), eq(at(k), want(k))))
        elif row: row(ex, st, "MPI_Isend", dst, buf)
        ex.write(st, q.sent, Vec(P, store(se.e, dst, I1), se.ty)); ex.write(st, vs[6].base, sub(sub(I0, ns), I1)); ex.write(st, q.ns, add(ns, I1)); return I0
    ex.externs.update({"MPI_Irecv": irecv, "MPI_Isend": isend})
def waits(q, received, sends, kept):
    """MPI_Waitall for all receives, or for all sends: received(st) writes what arrived; sends(i): whether there is a message to i; kept(st): the messages are still in their buffers"""
    C, P, me = q.C, q.P, q.me; ex = C.ex; t, i = iv("t"), iv("i"); q.waited = []
    def wait(ex, st, fr, args, n):
        vs = [ex.ev(st, fr, a) for a in args]; c, buf = vs[0], vs[1]; V = ex.read(st, buf.base); nr, ns = ex.read(st, q.nr), ex.read(st, q.ns); at = lambda t: ex.vec_read(st, V, add(buf.off, t))
        R = and_(eq(c, nr), forall([t], implies(rng(I0, t, nr), eq(at(t), t)))); S = and_(eq(c, ns), forall([t], implies(rng(I0, t, ns), eq(at(t), sub(num(-1), t)))))
        if ex.dry: received(ex, st, True); ex.write(st, q.nr, iv("nr")); ex.write(st, q.ns, iv("ns")); return I0
        left = [w for w in ("receives", "sends") if w not in q.waited]; which = next((w for w in left if ex.known(st, R if w == "receives" else S, 4000)), None)
        if which is None: ex.oblige(st, "MPI_Waitall: all requests of the %s" % (left or ["receives"])[0], R if left[:1] != ["sends"] else S); which = (left or ["receives"])[0]
        q.waited.append(which); po, se = ex.read(st, q.posted), ex.read(st, q.sent)
        if which == "receives":
            ex.oblige(st, "a receive is posted for every process that sends", forall([i], implies(rng(I0, i, P), eq(eq(select(po.e, i), I1), q.expects(i))), [[select(po.e, i)]])); ex.oblige(st, "a receive is posted for a process that sends", implies(and_(rng(I0, i, P), touch(select(po.e, i), q.cnt(i, me), q.cnt(me, i)), q.expects(i)), eq(select(po.e, i), I1)))
            received(ex, st, False); ex.write(st, q.nr, I0)
        else:
            ex.oblige(st, "a message is sent to every process that expects one", implies(and_(rng(I0, i, P), touch(select(se.e, i), q.cnt(i, me), q.cnt(me, i)), sends(i)), eq(select(se.e, i), I1))); kept(ex, st); ex.write(st, q.ns, I0)
        return I0
    ex.externs["MPI_Waitall"] = wait
def ghosts(q, L):
    """invariants of loops that post messages: who has been served, and the numbers of the requests"""
    cnt, me, P = q.cnt, q.me, q.P; t = iv("t"); one = lambda c: ite(c, I1, I0); out = []; ghost = {q.nr.root, q.ns.root}; B0 = [l.hv for l in L.leaves if l.hv.sort == "I" and l.role != "n" and l.cell[0] not in ghost]; ids = [l.hv for l in L.leaves if l.cell[0] in ghost]
    for l in L.leaves:
        x = l.hv; g = l.cell[0] in (q.posted.root, q.sent.root); own = [y.hv for y in L.leaves if y.role == "n" and y.hv.sort == "I" and y.cell == l.cell]
        if x.sort == asort("I"):
            if g: out += [h for B in B0 for h in [forall([t], implies(rng(I0, t, B), eq(select(x, t), one(lt(I0, f)))), [[select(x, t)]]) for f in (cnt(me, t), cnt(t, me))] + [forall([t], implies(rng(B, t, P), eq(select(x, t), I0)), [[select(x, t)]])]]
            elif ids: out += [forall([t], implies(rng(I0, t, B), eq(select(x, t), f)), [[select(x, t)]]) for B in own for f in (t, sub(num(-1), t))]
        elif x.sort == "I" and l.role == "n": out += [eq(x, y) for y in ids if x is not y]
    return B0, [l for l in L.leaves if l.cell[0] not in (q.posted.root, q.sent.root, *ghost)], out
def done(q):
    C = q.C; C.ensure("no request is left outstanding", and_(eq(C.ex.read(C.st, q.nr), I0), eq(C.ex.read(C.st, q.ns), I0), TRUE if set(q.waited) == {"receives", "sends"} else FALSE))
def plan(V, tile):
    q = setting(V, "communication plan" + ("" if tile else ", no remote columns")); C, me, P = q.C, q.me, q.P; ex = C.ex; A = matrix(q, tile); u, nu, b, cnt = q.u, q.nu, q.b, q.cnt; i, j, k, t = (iv(x) for x in "ijkt")
    give = fn("gives"); C.axiom(forall([i], eq(give(i), cnt(i, me)), [[give(i)], [cnt(i, me)]])); W = row_layout(C, P, give, name="send"); sv = row_src(C, W, P, lambda r, o: u(r, add(b(r, me), o)), "sent"); C.assume(lt(W.total, num(2 ** 63)))
    q.expects = lambda i: lt(I0, cnt(i, me)); q.rows = {}
    def gather(ex, st, fr, args, n):
        vs = [ex.ev(st, fr, a) for a in args]; src, c, dst = vs[0], vs[1], vs[3]; at, room = content(ex, st, src)
        if not ex.dry:
            D = ex.read(st, dst.base); ex.oblige(st, "MPI_Allgather: one count per process, room for all", and_(eq(c, P), eq(vs[4], P), le(P, room), eq(dst.off, I0), le(mul(P, P), D.n), TRUE if vs[6].ty == "comm" and all("uint64" in mpi_name(ex, st, v) for v in (vs[2], vs[5])) else FALSE)); ex.oblige(st, "MPI_Allgather: what this process needs from every process", implies(rng(I0, i, P), eq(at(i), cnt(me, i))))
        D = ex.read(st, dst.base); a = fresh("gathered", asort("I")); g = lambda r, j: select(a, add(j, mul(r, P)))
        st.fact(forall([i], implies(rng(I0, i, P), and_(eq(g(i, me), cnt(i, me)), rng(I0, add(me, mul(i, P)), mul(P, P)))), [[g(i, me)], [cnt(i, me)]])); st.fact(forall([i], implies(rng(I0, i, P), and_(eq(g(me, i), cnt(me, i)), rng(I0, add(i, mul(me, P)), mul(P, P)))), [[g(me, i)]]))
        st.fact(forall([t], le(I0, select(a, t)), [[select(a, t)]])); ex.write(st, dst.base, Vec(D.n, a, D.ty)); return I0
    ex.externs["MPI_Allgather"] = gather
    def row(ex, st, kind, proc, buf):
        """the list of process proc in a list of lists"""
        q.rows[kind] = buf.base.root; p = buf.base.path
        if not ex.dry: ex.oblige(st, kind + ": the list of that process", and_(eq(p[0][1], proc), eq(buf.off, I0)) if len(p) == 1 and p[0][0] == "i" else FALSE)
    def lists(ex, st, kind): l = Loc(q.rows[kind]); return l, ex.read(st, l)
    messages(q, lambda ex, st, src, buf, c: ex.oblige(st, "MPI_Irecv: as many entries as that process needs", eq(c, cnt(src, me))), lambda d: ((lambda k: u(me, add(b(me, d), k))), cnt(me, d)), "ompi_mpi_int", row)
    def received(ex, st, dry):
        if "MPI_Irecv" not in q.rows: return
        l, V = lists(ex, st, "MPI_Irecv"); inner = V.e; a = fresh("arrived", inner.e.sort)
        st.fact(forall([i, k], implies(and_(rng(I0, i, P), rng(I0, k, cnt(i, me))), eq(sel(a, i, k), u(i, add(b(i, me), k)))), [[sel(a, i, k)]]))
        ex.write(st, l, Vec(V.n, Vec(inner.n, a, inner.ty), V.ty))
    def kept(ex, st):
        if "MPI_Isend" not in q.rows: return
        l, V = lists(ex, st, "MPI_Isend"); ex.oblige(st, "the messages are unchanged until they are sent", implies(and_(rng(I0, i, P), rng(I0, k, cnt(me, i))), and_(lt(i, V.n), lt(k, select(V.e.n, i)), eq(sel(V.e.e, i, k), u(me, add(b(me, i), k))))))
    waits(q, received, lambda i: lt(I0, cnt(me, i)), kept)
    def cand(ex, L):
        B0, ls, out = ghosts(q, L)
        for l in ls:
            x = l.hv
            if x.sort == asort(asort("I")): out += [forall([j, k], implies(and_(rng(I0, j, B), rng(I0, k, cnt(me, j))), eq(sel(x, j, k), u(me, add(b(me, j), k)))), [[sel(x, j, k)]]) for B in B0]
            elif x.sort == asort("I"):
                for B in B0:
                    out += [forall([t], implies(rng(I0, t, B), eq(select(x, t), f)), [[select(x, t)]]) for f in (cnt(me, t), cnt(t, me), sub(sv(t), select(lo, me)))] + [forall([t], implies(rng(B, t, P), eq(select(x, t), I0)), [[select(x, t)]])]
                    out += [forall([t], implies(rng(I0, t, B), eq(select(x, t), f)), [[select(x, t)]]) for f in (W.start(t), b(me, t))]
                    out += [forall([t], implies(rng(I0, t, W.start(B)), eq(select(x, t), sv(t))), [[select(x, t)]]), forall([t], implies(rng(I0, t, b(me, B)), eq(select(x, t), u(me, t))), [[select(x, t)]]), forall([t], implies(and_(le(B, t), lt(t, W.total)), eq(select(x, t), sv(t))), [[select(x, t)]])]
            elif x.sort == "I": out += [f for B in B0 if B is not x for f in (eq(x, b(me, B)), eq(x, W.start(B)))]
        return out
    ex.cand_gens.append(cand); ex.cand_to = 3000; ex.sum_hints += [W.start, lambda j: b(me, j)]; lo = q.lo
    info = C.call(V.fn("sparsexx::spblas::generate_spmv_comm_info"), [A]); info = ex.read(C.st, info) if isinstance(info, Loc) else info; f = info.f; S, R = f["send_indices"], f["recv_indices"]; E = C.ensure
    E("what is received is each remote column once, ascending", and_(eq(R.n, nu(me)), forall([t], implies(rng(I0, t, nu(me)), eq(select(R.e, t), u(me, t))), [[select(R.e, t)], [u(me, t)]])))
    E("what is received is grouped by owner", implies(and_(rng(I0, i, P), rng(b(me, i), t, b(me, add(i, I1))), touch(u(me, t), nu(me), q.cnt(me, i))), and_(rng(I0, t, nu(me)), rng(select(lo, i), u(me, t), select(q.hi, i)))))
    for nm, c, o, cn, of, in (("received", "recv_counts", "recv_offsets", lambda i: cnt(me, i), lambda i: b(me, i)), ("sent", "send_counts", "send_offsets", lambda i: cnt(i, me), W.start)):
        E("counts of what is %s from or to every process" % nm, and_(eq(f[c].n, P), forall([i], implies(rng(I0, i, P), eq(select(f[c].e, i), cn(i))), [[select(f[c].e, i)]])))
        E("offsets of what is %s" % nm, and_(eq(f[o].n, P), forall([i], implies(rng(I0, i, P), eq(select(f[o].e, i), of(i))), [[select(f[o].e, i)]])))
    E("what is sent: as many entries as are needed", eq(S.n, W.total)); E("what is sent to a process is what it receives, in its order, as local rows", implies(and_(rng(I0, i, P), rng(I0, k, cnt(i, me)), touch(W.start(i), W.start(add(i, I1)), give(i), cnt(i, me), sv(add(W.start(i), k)))), and_(lt(add(W.start(i), k), W.total), eq(select(S.e, add(W.start(i), k)), sub(u(i, add(b(i, me), k)), select(lo, me))))))
    E("what is sent are local rows", implies(and_(rng(I0, i, P), rng(I0, k, cnt(i, me)), touch(cnt(i, me), nu(i), u(i, add(b(i, me), k)), b(i, me), b(i, add(me, I1)))), rng(select(lo, me), u(i, add(b(i, me), k)), select(q.hi, me))))
    E("the plan is for the communicator of the matrix", TRUE if f["comm"].ty == "comm" else FALSE)
    done(q); V.done(C)
def product(V, tile):
    q = setting(V, "distributed product" + ("" if tile else ", no remote columns")); C, me, P, N = q.C, q.me, q.P, q.N; ex = C.ex; u, nu, b, cnt, lo, hi = q.u, q.nu, q.b, q.cnt, q.lo, q.hi; i, j, k, t, r = (iv(x) for x in "ijktr"); x = fn("x", "R"); al, be = fresh("alpha", "R"), fresh("beta", "R")
    D = sym_compressed(C, CSR, "csr", "diag"); n0 = sub(select(hi, me), select(lo, me)); C.assume(eq(D.m, n0), eq(D.n, n0)); A = matrix(q, tile, D)
    if tile:
        for g in set_facts(lambda k: u(me, k), nu(me), q.O.ind, I0, q.O.nnz): C.axiom(g)
    W = fn("sendOffset"); tot = iv("sent"); sv = fn("sentRow"); mc = fn("needed"); C.assume(rng(I0, tot, num(2 ** 62)), rng(I0, nu(me), TOP))
    C.axiom(forall([i], implies(rng(I0, i, P), and_(le(I0, W(i)), le(add(W(i), cnt(i, me)), tot))), [[W(i)]]), forall([i, k], implies(and_(rng(I0, i, P), rng(I0, k, cnt(i, me))), and_(eq(add(sv(add(W(i), k)), select(lo, me)), mc(i, k)), rng(I0, sv(add(W(i), k)), n0))), [[mc(i, k)]]), forall([i, k], eq(mc(i, k), u(i, add(b(i, me), k))), [[mc(i, k)]]), forall([t], implies(rng(I0, t, tot), rng(I0, sv(t), n0)), [[sv(t)]]))
    size = ("int", 64, False); vec = lambda n, f, ty=I32: Vec(n, tm.lam(t, f(t)), ty)
    nm = [f for f in ex.prog.recs if f.endswith("spmv_info<int>")] if hasattr(ex.prog, "recs") else ["sparsexx::spblas::spmv_info<int>"]
    info = C.alloc(rec_obj(C, nm[0], {"comm": X.Opaque("comm"), "send_indices": vec(tot, sv), "recv_indices": vec(nu(me), lambda t: u(me, t)), "send_offsets": vec(P, W, size), "recv_offsets": vec(P, lambda t: b(me, t), size), "send_counts": vec(P, lambda t: cnt(t, me), size), "recv_counts": vec(P, lambda t: cnt(me, t), size)}), "info")
    nv, na = iv("V.n"), iv("AV.n"); C.assume(le(n0, nv), le(n0, na)); X0, Y0 = fresh("V", asort("R")), fresh("AV", asort("R")); lx, ly = C.alloc(Vec(nv, X0, REAL), "V"), C.alloc(Vec(na, Y0, REAL), "AV"); C.assume(forall([k], implies(rng(I0, k, n0), eq(select(X0, k), x(add(k, select(lo, me))))), [[select(X0, k)]]))
    SD, SO = fn("localPart", "R"), fn("remotePart", "R"); q.calls = []
    def gespmbv(ex, st, f, vals, this):
        """contract of gespmbv (C03) for one vector: y <- alpha A v + beta y; the vector holds the entries of x at the columns of the matrix"""
        K, a, m_, v, ldv, bt, y, ldy = [ex.rv(st, w) if not isinstance(w, (Ptr, Loc)) else w for w in vals]; root = m_.root if isinstance(m_, Loc) else None
        which = "local" if root == D.loc.root else "remote" if tile and root == q.O.loc.root else None
        if which is None: raise Unsupported("product with an unknown matrix")
        M, S, off = (D, SD, select(lo, me)) if which == "local" else (q.O, SO, I0); at, room = content(ex, st, v); Y = ex.read(st, y.base)
        if not ex.dry:
            ex.oblige(st, "gespmbv: one vector, leading dimensions, room", and_(eq(K, I1), le(M.n, ldv), le(M.m, ldy), le(M.n, room), le(add(y.off, M.m), Y.n)))
            ex.oblige(st, "gespmbv: the vector holds the entries of the %s columns" % which, implies(and_(rng(I0, t, M.nnz), touch(select(M.ind, t))), eq(at(sub(select(M.ind, t), M.ix)), x(add(off, sub(select(M.ind, t), M.ix))))))
        q.calls.append(which); new = fresh("AV", asort("R")); st.fact(forall([r], eq(select(new, r), ite(rng(y.off, r, add(y.off, M.m)), add(mul(a, S(sub(r, y.off))), mul(bt, select(Y.e, r))), select(Y.e, r))), [[select(new, r)]]))
        ex.write(st, y.base, Vec(Y.n, new, Y.ty)); return X.VOID
    ex.contracts["sparsexx::spblas::gespmbv"] = gespmbv
    q.expects = lambda i: lt(I0, cnt(me, i)); q.buf = None
    def recv(ex, st, src, buf, c): ex.oblige(st, "MPI_Irecv: as many entries as are needed from that process, to the place of their columns", and_(eq(c, cnt(me, src)), eq(buf.off, b(me, src))))
    def row(ex, st, what, proc, buf):
        if what == "MPI_Irecv": q.buf = buf.base
        else: q.out = buf.base
    messages(q, recv, lambda d: ((lambda k: x(mc(d, k))), cnt(d, me)), "ompi_mpi_double", row)
    def received(ex, st, dry):
        if q.buf is None: return
        Bv = ex.read(st, q.buf); a = fresh("arrived", asort("R")); st.fact(forall([k], implies(rng(I0, k, nu(me)), eq(select(a, k), x(u(me, k)))), [[select(a, k)]])); ex.write(st, q.buf, Vec(Bv.n, a, Bv.ty))
    q.out = None
    def kept(ex, st):
        if q.out is None: return
        at, room = content(ex, st, Ptr(q.out, I0)); ex.oblige(st, "the messages are unchanged until they are sent", implies(and_(rng(I0, i, P), rng(I0, k, cnt(i, me)), touch(W(i), mc(i, k))), and_(lt(add(W(i), k), room), eq(at(add(W(i), k)), x(mc(i, k))))))
    waits(q, received, lambda i: lt(I0, cnt(i, me)), kept)
    def cand(ex, L):
        B0, ls, out = ghosts(q, L)
        for l in ls:
            if l.hv.sort == asort("R"): out += [h for B in B0 for h in (forall([j], implies(rng(I0, j, B), eq(select(l.hv, u(me, j)), x(u(me, j)))), [[u(me, j)]]), forall([j], implies(rng(I0, j, B), eq(select(l.hv, j), x(add(sv(j), select(lo, me)))))))]
        return out
    ex.cand_gens.append(cand); ex.cand_to = 3000
    C.call(V.fn("sparsexx::spblas::pgespmv"), [al, A, Ptr(lx, I0), be, Ptr(ly, I0), info])
    Y = C.ex.read(C.st, ly).e; mine = rng(I0, r, n0)
    C.ensure("local rows of the result", implies(and_(mine, touch(select(Y, r))), eq(select(Y, r), add(mul(be, select(Y0, r)), mul(al, add(SD(r), SO(r) if tile else num(0, "R")))))))
    C.ensure("nothing else is written", implies(and_(not_(mine), touch(select(Y, r))), eq(select(Y, r), select(Y0, r)))); C.ensure("the vector is unchanged", eq(C.ex.read(C.st, lx).e, X0))
    C.ensure("both tiles are applied once", TRUE if sorted(q.calls) == (["local", "remote"] if tile else ["local"]) else FALSE)
    done(q); V.done(C)
def owners(V):
    q = setting(V, "remote columns by owner", True); q.C.ensure("columns of different processes are different lists", implies(touch(q.nu(q.me)), le(I0, q.nu(q.me)))); V.done(q.C)
def serial(V):
    """the two tiles of a row (as placed under C08) contribute what the row contributes to the serial product"""
    C = V.ctx("the tiles of a row make up the serial product"); A = sym_compressed(C, CSR, "csr"); D, O = sym_compressed(C, CSR, "csr", "diag"), sym_compressed(C, CSR, "csr", "off"); x = fn("x", "R"); R, PR, f0, f1, lo = (iv(z) for z in ("row", "localrow", "first", "second", "lo")); t, p, v = (iv(z) for z in "tpv"); st, en = A.st(R), A.en(R); sd, so, ed, eo = D.st(PR), O.st(PR), D.en(PR), O.en(PR)
    C.assume(rng(I0, R, A.m), rng(I0, PR, D.m), eq(D.m, O.m), eq(D.ix, I0), eq(O.ix, I0), le(st, f0), le(f0, f1), le(f1, en), eq(sub(ed, sd), sub(f1, f0)), eq(sub(eo, so), sub(sub(en, st), sub(f1, f0))))
    col = lambda t: sub(select(A.ind, t), A.ix); same = lambda M, p, t, off: and_(eq(add(select(M.ind, p), off), col(t)), eq(select(M.val, p), select(A.val, t)))
    C.assume(forall([t], implies(rng(f0, t, f1), same(D, add(sd, sub(t, f0)), t, lo)), [[select(A.ind, t)]]), forall([t], implies(rng(st, t, f0), same(O, add(so, sub(t, st)), t, I0)), [[select(A.ind, t)]]), forall([t], implies(rng(f1, t, en), same(O, add(so, sub(sub(t, st), sub(f1, f0))), t, I0)), [[select(A.ind, t)]]))
    part = lambda M, off, a, b: sum_(t, a, b, mul(select(M.val, t), x(add(off, select(M.ind, t))))); row = lambda a, b: sum_(t, a, b, mul(select(A.val, t), x(col(t))))
    steps = (("left of the local columns", st, f0, O, I0, so, st), ("in the local columns", f0, f1, D, lo, sd, f0), ("right of the local columns", f1, en, O, I0, add(so, sub(f0, st)), f1))
    for nm, a, z, M, off, at, base in steps:
        P_ = lambda v: eq(row(a, v), part(M, off, at, add(at, sub(v, base)))); C.lemma("entries %s (base)" % nm, P_(a), use=False); C.lemma("entries %s (step)" % nm, implies(and_(rng(a, v, z), P_(v), touch(select(A.ind, v))), P_(add(v, I1))), use=False); C.axiom(P_(z))
    def split(nm, f, a, m, z): Q = lambda v: eq(f(a, v), add(f(a, m), f(m, v))); C.lemma(nm + " (base)", Q(m), use=False); C.lemma(nm + " (step)", implies(and_(rng(m, v, z), Q(v)), Q(add(v, I1))), use=False); C.axiom(Q(z))
    om = add(so, sub(f0, st)); off_ = lambda a, b: part(O, I0, a, b); split("entries up to the end of the local columns", row, st, f0, f1); split("entries of the row", row, st, f1, en); split("remote entries", off_, so, om, eo)
    C.ensure("local part and remote part add up to the row of the serial product", eq(add(part(D, lo, sd, ed), part(O, I0, so, eo)), row(st, en)))
    V.done(C)
def jobs(V): return [("serial product", lambda: serial(V)), ("remote columns", lambda: owners(V)), ("plan", lambda: plan(V, True)), ("plan without remote columns", lambda: plan(V, False)), ("product", lambda: product(V, True)), ("product without remote columns", lambda: product(V, False))]
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]; HARNESS_FLAGS = ["-DOMPI_SKIP_MPICXX"]
