from spec import *
from c22 import sctx
TU = "search"
W = (64, 128)
NOTE = "asci_search for one process: from any list of contributions the result holds the search determinants in order, preceded by reached determinants only, none twice, none of them a search determinant, all with a non-zero score; if they fit everything reached is there, otherwise the list is full and what is left out scores no more than anything kept (through std::partition, nth_element, erase and the contracts of accumulation and keep-only-largest). asci_iter for any number of processes: the search is handed the leading determinants by coefficient with their own coefficients, the space it returns is diagonalised, and the coefficients gathered from the processes are the whole eigenvector in order. asci_refine and asci_grow over a ghost history of diagonalisations, for any number of iterations and processes: each step starts from the energy, determinants and coefficients of the last diagonalisation, and those of the last one are returned; growth asks for min(max(ntdets_min, size * grow_factor), ntdets_max) determinants and, when rotating, forms density matrices of the current wavefunction, rotates both integral tensors once in place, broadcasts them completely, regenerates the intermediates and rediagonalises in them; refinement keeps the size and returns at the first step whose energy changes by less than the tolerance"
ASSUME = ["exact real arithmetic", "contracts of asci_contributions_standard (C31), sort_and_accumulate_asci_pairs / keep_only_largest_copy_asci_pairs / reorder_ci_on_coeff (C22), form_rdms (C18), generate_integral_intermediates (C16), two_ / four_index_transform (C20)", "selected_ci_diag returns an eigenpair, each process its own rows (external iterative solver)", "MPI_Allgather / MPI_Bcast / lapack::syev contracts", "world_size == 1 in the proof of asci_search", "clocks and logging have no effect", "wavefunctions smaller than 2^31 determinants in growth, 2^62 in a step"]
BOUNDED = ["asci_search on several processes (constrained search, distributed quickselect, gathering of the kept strings): compared with an enumeration of all excitations, up to 6 orbitals and 4 simulated processes", "energy of the returned wavefunction recomputed as an expectation value after one step, growth and refinement, 1 to 3 simulated processes"]
PROOF_LIMIT = 240
HARNESS_SRC = ["$REPO/src/macis/transform.cxx"]; HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lspdlog", "-lfmt", "-llapackpp", "-lblaspp", "-lopenblas"]; HARNESS_FLAGS = ["-std=c++17", "-DOMPI_SKIP_MPICXX", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
def jobs(V): return [("search %d" % N, lambda N=N: search(V, N)) for N in W] + [("iteration %d" % N, lambda N=N: iteration(V, N)) for N in W] + [("refinement %d" % N, lambda N=N: refine(V, N)) for N in W] + [("growth %d" % N, lambda N=N: grow(V, N)) for N in W]
def search(V, N):
    C = sctx(V, "asci_search<%d>" % N, N); BV = ("BV", N); ty = ("bitset", N); pty = ("rec", "macis::asci_contrib<std::bitset<%d>>" % N); k, r, u, x = iv("k"), iv("r"), iv("u"), fresh("x", BV); ZR = num(0, "R"); abs_ = lambda x: ite(lt(x, ZR), tm.neg(x), x)
    nd, nmax, no, nC = iv("ncdets"), iv("ndets_max"), iv("norb"), iv("nC"); C.assume(ge(nd, I0), le(nd, nmax), le(nd, nC), ge(no, I1)); D, co = fresh("dets", asort(BV)), fresh("C", asort("R")); nl = iv("nlist"); lo = iv("first"); C.assume(ge(lo, I0), le(add(lo, nd), nl))
    ld = C.alloc(Vec(nl, D, ty), "wfn"); lc = C.alloc(Vec(nC, co, REAL), "C"); E0 = fresh("E_ASCI", "R"); det_ = lambda c: select(D, add(lo, c))
    st_ = rec_obj(C, "macis::ASCISettings", {}); P = {n: Ptr(C.alloc(Vec(None, fresh(n, asort("R")), REAL), n), I0) for n in ("T_pq", "G_red", "V_red", "G_pqrs", "V_pqrs")}; lh = C.alloc(Obj("macis::HamiltonianGenerator<%d>" % N, {}), "ham"); comm = C.alloc(Opaque("comm"), "comm")
    reached, score, isD, wD = fn("reached", "B"), fn("score", "R"), fn("is a search determinant", "B"), fn("position among the search determinants")
    n0, S0, R0 = iv("n0"), fresh("S0", asort(BV)), fresh("R0", asort("R")); C.assume(ge(n0, I0), forall([k], implies(rng(I0, k, n0), reached(select(S0, k))), [[select(S0, k)]]))
    pl0 = fn("contribution of"); C.axiom(forall([x], implies(reached(x), and_(rng(I0, pl0(x), n0), eq(select(S0, pl0(x)), x))), [[reached(x)]]))
    C.axiom(forall([x], implies(isD(x), and_(rng(I0, wD(x), nd), eq(det_(wD(x)), x))), [[isD(x)]])); C.assume(forall([k], implies(rng(lo, k, add(lo, nd)), isD(select(D, k))), [[select(D, k)]]))
    vec = lambda n, S, R: Vec(n, Obj(pty, {"state": S, "rv": R}), pty); V.q = []
    same = lambda ex, st, v, l: TRUE if ex.rv(st, v) == l else FALSE
    def contributions(ex, st, f, vals, this):
        if not ex.dry:
            for v, w, nm in ((vals[1], lo, "first search determinant"), (vals[2], add(lo, nd), "last search determinant")): v = ex.rv(st, v); ex.oblige(st, nm, eq(v.off, w) if v.base == ld else FALSE, kind="pre")
            ex.oblige(st, "energy", eq(ex.rv(st, vals[3]), E0), kind="pre"); ex.oblige(st, "coefficients", TRUE if vals[4] == lc else FALSE, kind="pre"); ex.oblige(st, "orbitals", eq(ex.rv(st, vals[5]), no), kind="pre")
            for v, n in zip(vals[6:11], P): v = ex.rv(st, v); ex.oblige(st, "integrals " + n, eq(v.off, I0) if v.base == P[n].base else FALSE, kind="pre")
        return vec(n0, S0, R0)
    def accumulate(ex, st, f, vals, this):
        v = ex.read(st, vals[0]); n1, S1, R1, pl = fresh("n1", "I"), fresh("S1", asort(BV)), fresh("R1", asort("R")), fn("accumulated at")
        if not ex.dry: ex.oblige(st, "all contributions are accumulated", and_(eq(v.n, n0), forall([k], implies(rng(I0, k, n0), and_(eq(select(v.e.f["state"], k), select(S0, k)), eq(select(v.e.f["rv"], k), select(R0, k)))))), kind="pre")
        st.fact(ge(n1, I0)); st.fact(forall([k], implies(rng(I0, k, n1), and_(reached(select(S1, k)), eq(select(R1, k), score(select(S1, k))), eq(pl(select(S1, k)), k))), [[select(S1, k)]])); st.fact(forall([x], implies(reached(x), and_(rng(I0, pl(x), n1), eq(select(S1, pl(x)), x))), [[reached(x)]]))
        C.a = (n1, S1, R1, pl); ex.write(st, vals[0], vec(n1, S1, R1))
    def largest(ex, st, f, vals, this):
        v = ex.read(st, vals[0]); S2, R2 = fresh("S2", asort(BV)), fresh("R2", asort("R")); n3, S3, R3, src, to = fresh("n3", "I"), fresh("S3", asort(BV)), fresh("R3", asort("R")), fn("kept from"), fn("kept at"); inS = v.e.f["state"]; inR = v.e.f["rv"]
        for a, b in ((S2, inS), (R2, inR)): st.fact(forall([k], implies(rng(I0, k, v.n), eq(select(a, k), select(b, k))), [[select(a, k)]]))
        st.fact(ge(n3, I0)); st.fact(forall([r], implies(rng(I0, r, n3), and_(rng(I0, src(r), v.n), eq(select(S3, r), select(S2, src(r))), eq(select(R3, r), select(R2, src(r))), eq(to(src(r)), r))), [[select(S3, r)], [select(R3, r)]]))
        st.fact(forall([k], implies(rng(I0, k, v.n), and_(rng(I0, to(k), n3), eq(select(S3, to(k)), select(S2, k)), ge(select(R3, to(k)), select(R2, k)))), [[select(S2, k)], [to(k)]]))
        st.fact(forall([r, u], implies(and_(rng(I0, r, n3), rng(I0, u, n3), eq(select(S3, r), select(S3, u))), eq(r, u)), [[select(S3, r), select(S3, u)]]))
        C.k = (v.n, S2, R2, n3, S3, R3, src, to); ex.write(st, vals[0], vec(n3, S3, R3))
    C.ex.contracts.update({"macis::asci_contributions_standard": contributions, "macis::sort_and_accumulate_asci_pairs": accumulate, "macis::keep_only_largest_copy_asci_pairs": largest, "macis::comm_size": lambda ex, st, f, vals, this: I1, "macis::comm_rank": lambda ex, st, f, vals, this: I0, "macis::allreduce": lambda ex, st, f, vals, this: ex.rv(st, vals[0]), "macis::to_gib": lambda ex, st, f, vals, this: fresh("GiB", "R")})
    C.ex.externs = dict(C.ex.externs, **{"spdlog::get": lambda ex, st, fr, args, node: Opaque("logger"), **{"spdlog::" + x: lambda ex, st, fr, args, node: Opaque("logger") for x in ("null_logger_mt", "stdout_color_mt")}, "MPI_Barrier": lambda ex, st, fr, args, node: I0})
    perms = []
    def hook(ex, st, base, old, new, lo, hi):
        if not ex.dry: perms.append((new, ex.last_perm))
    C.ex.perm_hooks = [hook]
    Rs = C.call(V.fn("macis::asci_search", lambda f: f.targs[0] == str(N)), [st_, nmax, Ptr(ld, lo), Ptr(ld, add(lo, nd)), E0, lc, no] + list(P.values()) + [lh, comm])
    m = sub(Rs.n, nd); out = lambda r: select(Rs.e, r); K = sub(nmax, nd); inm = rng(I0, r, m)
    C.ensure("the search determinants are kept, in order", and_(ge(m, I0), forall([k], implies(rng(I0, k, nd), eq(out(add(m, k)), det_(k))))))
    C.ensure("no more determinants than asked for", le(Rs.n, nmax))
    (o1, p1), (o2, p2) = perms; cut = C.ex.last_mid; n1, S1, R1, pl1 = C.a; n2, S2, R2, n3, S3, R3, src, to = C.k; (f1, g1), (f2, g2) = p1, p2
    sp, rp = o1.f["state"], o1.f["rv"]; sq, rq = o2.f["state"], o2.f["rv"]
    neg = lambda t: lt(select(R3, t), ZR)
    C.lemma("the combined list: contributions, then search determinants", and_(eq(n2, add(n1, nd)), forall([k], implies(rng(I0, k, n1), and_(eq(select(S2, k), select(S1, k)), eq(select(R2, k), tm.neg(abs_(score(select(S1, k)))))))), forall([k], implies(rng(I0, k, nd), and_(eq(select(S2, add(n1, k)), det_(k)), ge(select(R2, add(n1, k)), ZR))))))
    C.lemma("its second part", forall([k], implies(and_(rng(n1, k, n2), touch(det_(sub(k, n1)), select(S2, k), select(R2, k))), and_(isD(select(S2, k)), ge(select(R2, k), ZR)))), use=False); C.axiom(forall([k], implies(rng(n1, k, n2), and_(isD(select(S2, k)), ge(select(R2, k), ZR))), [[select(S2, k)]]))
    C.lemma("what survives is new and has a score", forall([r], implies(and_(rng(I0, r, n3), neg(r), touch(src(r), wD(select(S3, r)), to(add(n1, wD(select(S3, r)))))), and_(reached(select(S3, r)), not_(isD(select(S3, r))), eq(select(R3, r), tm.neg(abs_(score(select(S3, r))))), ne(score(select(S3, r)), ZR)))), use=False)
    new = lambda y: and_(reached(y), not_(isD(y)), ne(score(y), ZR)); mag = lambda y: abs_(score(y))
    C.axiom(forall([r], implies(and_(rng(I0, r, n3), neg(r)), and_(new(select(S3, r)), eq(select(R3, r), tm.neg(mag(select(S3, r)))))), [[select(R3, r)], [select(S3, r)]]))
    t1 = lambda r: f1(r); t2 = lambda r: f1(f2(r)); big = gt(cut, K)     # where an element of the result stood in the combined list
    C.ensure("how many determinants are new", eq(m, ite(big, K, cut)))
    for nm, h, t, pr in (("all", not_(big), t1, lambda r: touch(select(sp, r), select(rp, r))), ("cut", big, t2, lambda r: touch(select(sp, f2(r)), select(rp, f2(r)), select(sq, r), select(rq, r)))):
        z = lambda f: implies(h, f)
        C.lemma("elements of the result (%s)" % nm, forall([r], implies(and_(h, inm, pr(r), touch(t(r))), and_(rng(I0, t(r), n3), neg(t(r)), eq(out(r), select(S3, t(r)))))), use=False); C.axiom(forall([r], implies(and_(h, inm), and_(rng(I0, t(r), n3), neg(t(r)), eq(out(r), select(S3, t(r))))), [[t(r)]]))
        C.ensure("new determinants are reached, not search determinants, and have a score (%s)" % nm, forall([r], implies(and_(h, inm, touch(t(r), select(S3, t(r)))), new(out(r)))))
        C.ensure("no new determinant is listed twice (%s)" % nm, forall([r, u], implies(and_(h, inm, rng(I0, u, m), eq(out(r), out(u)), touch(t(r), t(u))), eq(r, u))))
    at = lambda x: to(pl1(x)); q1 = lambda x: g1(at(x)); q2 = lambda x: g2(q1(x)); tx = touch(pl1(x), at(x), src(at(x)), select(S2, src(at(x))), wD(x))
    C.lemma("a reached determinant survives", forall([x], implies(and_(new(x), tx, touch(select(S1, pl1(x)), select(S2, pl1(x)), select(S3, at(x)), select(R3, at(x)), select(S1, src(at(x))))), and_(rng(I0, at(x), n3), eq(select(S3, at(x)), x), neg(at(x))))), use=False); C.axiom(forall([x], implies(new(x), and_(rng(I0, at(x), n3), eq(select(S3, at(x)), x), neg(at(x)))), [[at(x)]]))
    C.lemma("and is sorted into the front", forall([x], implies(and_(new(x), touch(at(x), q1(x), f1(q1(x)), select(sp, q1(x)), select(rp, q1(x)))), and_(rng(I0, q1(x), cut), eq(select(sp, q1(x)), x)))), use=False); C.axiom(forall([x], implies(new(x), and_(rng(I0, q1(x), cut), eq(select(sp, q1(x)), x), eq(select(rp, q1(x)), tm.neg(mag(x))))), [[q1(x)]]))
    C.ensure("everything that fits is kept", forall([x], implies(and_(not_(big), new(x), touch(q1(x))), and_(rng(I0, q1(x), m), eq(out(q1(x)), x)))))
    C.ensure("what is left out scores no more than anything kept", forall([x, r], implies(and_(big, new(x), inm, touch(q1(x), q2(x), f2(q2(x)), select(sq, q2(x)), select(rq, q2(x)), select(rq, r), select(sq, r), f2(r), t2(r), select(S3, t2(r)), select(R3, t2(r)), select(sp, f2(r)), select(rp, f2(r)))), or_(and_(rng(I0, q2(x), m), eq(out(q2(x)), x)), ge(mag(out(r)), mag(x))))))
    V.done(C)
def collectives(C, pre, Pn, p, cur):
    """MPI contracts for a vector distributed over the processes: cur(ex, st) gives its length and contents"""
    k = iv("k")
    def gather(ex, st, fr, args, node):
        n, at = cur(ex, st); loc = tm.idiv(n, Pn); b, c, _, o, c2 = [ex.rv(st, ex.ev(st, fr, a)) for a in args[:5]]; s, d = ex.read(st, b.base), ex.read(st, o.base); pre(ex, st, "MPI_Allgather: counts", and_(eq(c, c2), ge(c, I0))); pre(ex, st, "MPI_Allgather: buffers", and_(le(add(b.off, c), s.n), le(add(o.off, mul(Pn, c)), d.n)))
        pre(ex, st, "every process gives its own part of the eigenvector", and_(eq(c, loc), forall([k], implies(rng(I0, k, c), eq(select(s.e, add(b.off, k)), at(add(mul(p, loc), k)))))))
        e = fresh("gathered", asort("R")); st.fact(forall([k], eq(select(e, k), ite(rng(o.off, k, add(o.off, mul(Pn, c))), at(sub(k, o.off)), select(d.e, k))), [[select(e, k)]])); ex.write(st, o.base, Vec(d.n, e, d.ty)); return I0
    def bcast(ex, st, fr, args, node):
        n, at = cur(ex, st); b, c, _, root = [ex.rv(st, ex.ev(st, fr, a)) for a in args[:4]]; d = ex.read(st, b.base); done = mul(Pn, tm.idiv(n, Pn)); pre(ex, st, "MPI_Bcast: buffer", and_(ge(c, I0), le(add(b.off, c), d.n), rng(I0, root, Pn)))
        pre(ex, st, "the root sends the end of the eigenvector", implies(eq(p, root), and_(eq(root, sub(Pn, I1)), forall([k], implies(rng(I0, k, c), eq(select(d.e, add(b.off, k)), at(add(done, k))))))))
        e = fresh("sent", asort("R")); st.fact(forall([k], eq(select(e, k), ite(rng(b.off, k, add(b.off, c)), at(add(done, sub(k, b.off))), select(d.e, k))), [[select(e, k)]])); ex.write(st, b.base, Vec(d.n, e, d.ty)); return I0
    C.ex.externs = dict(C.ex.externs, MPI_Allgather=gather, MPI_Bcast=bcast)
def own(n, Pn, p):
    """rows of process p: first row, number (the last process takes the rest)"""
    loc = tm.idiv(n, Pn); return mul(p, loc), add(loc, ite(eq(p, sub(Pn, I1)), sub(n, mul(Pn, loc)), I0))
def iteration(V, N):
    """one step: the search gets the leading determinants with their own coefficients, the new space is diagonalised, the coefficients are assembled"""
    C = V.ctx("asci_iter<%d>" % N); BV = ("BV", N); ty = ("bitset", N); k, r, u = iv("k"), iv("r"), iv("u"); Pn, p = iv("processes"), iv("rank"); C.assume(ge(Pn, I1), rng(I0, p, Pn)); ZR = num(0, "R"); abs_ = lambda x: ite(lt(x, ZR), tm.neg(x), x)
    n0, W0, X0, no, nmax, E0, E1 = iv("n"), fresh("wfn", asort(BV)), fresh("X", asort("R")), iv("norb"), iv("ndets_max"), fresh("E0", "R"), fresh("E1", "R"); nkeep = iv("ncdets_max"); C.assume(ge(n0, I1), lt(n0, num(2 ** 62)), ge(nkeep, I1), ge(nmax, I0)); n1, W1, G = iv("n1"), fresh("new wfn", asort(BV)), fresh("eigenvector", asort("R")); C.assume(ge(n1, I0))
    tol, res, sub_, het = fresh("ci_matel_tol", "R"), fresh("ci_res_tol", "R"), iv("ci_max_subspace"), fresh("h_el_tol", "R"); pi, pinv = fn("order"), fn("order inverse")
    st_ = rec_obj(C, "macis::ASCISettings", {"ncdets_max": nkeep, "h_el_tol": het}); ms = rec_obj(C, "macis::MCSCFSettings", {"ci_matel_tol": tol, "ci_res_tol": res, "ci_max_subspace": sub_}); lh = C.alloc(Obj("macis::HamiltonianGenerator<%d>" % N, {}), "ham"); comm = C.alloc(Opaque("comm"), "comm")
    P = {n: Ptr(C.alloc(Vec(None, fresh(n, asort("R")), REAL), n), I0) for n in ("T", "G_red", "V_red", "G", "V")}; cls = "macis::HamiltonianGenerator<%d>::" % N
    for n in P: C.ex.contracts[cls + n] = lambda ex, st, f, vals, this, n=n: P[n]
    pre = lambda ex, st, nm, g: None if ex.dry else ex.oblige(st, nm, g, kind="pre")
    def reorder(ex, st, f, vals, this):
        v, x = ex.read(st, vals[0]), ex.read(st, vals[1]); D, Q = fresh("sorted", asort(BV)), fresh("sortedX", asort("R")); pre(ex, st, "one coefficient per determinant", eq(v.n, x.n))
        st.fact(forall([k], implies(rng(I0, k, n0), and_(rng(I0, pi(k), n0), eq(select(D, k), select(W0, pi(k))), eq(select(Q, k), select(X0, pi(k))))), [[select(D, k)], [select(Q, k)]])); st.fact(forall([k, u], implies(and_(le(I0, k), le(k, u), lt(u, n0)), ge(abs_(select(Q, k)), abs_(select(Q, u)))), [[select(Q, k), select(Q, u)]])); st.fact(forall([k], implies(rng(I0, k, n0), and_(rng(I0, pinv(k), n0), eq(pi(pinv(k)), k))), [[pinv(k)]]))
        pre(ex, st, "the wavefunction is sorted", and_(eq(v.n, n0), forall([k], implies(rng(I0, k, n0), and_(eq(select(v.e, k), select(W0, k)), eq(select(x.e, k), select(X0, k)))))))
        ex.write(st, vals[0], Vec(n0, D, ty)); ex.write(st, vals[1], Vec(n0, Q, REAL))
    one = eq(n0, I1); perm = lambda k: ite(one, k, pi(k)); m = ite(lt(nkeep, n0), nkeep, n0)
    def search_(ex, st, f, vals, this):
        if not ex.dry:
            s, b, e = [ex.rv(st, v) for v in (vals[0], vals[2], vals[3])]; v, x = ex.read(st, b.base), ex.read(st, vals[5]); ok = TRUE if b.base == e.base else FALSE
            pre(ex, st, "search settings", and_(eq(s.f["h_el_tol"], het), eq(s.f["ncdets_max"], nkeep))); pre(ex, st, "size asked for", eq(ex.rv(st, vals[1]), nmax)); pre(ex, st, "reference energy", eq(ex.rv(st, vals[4]), E0)); pre(ex, st, "orbitals", eq(ex.rv(st, vals[6]), no))
            pre(ex, st, "search determinants: the first ones, as many as the settings allow", and_(ok, eq(b.off, I0), eq(e.off, m), le(m, v.n))); pre(ex, st, "a coefficient for every search determinant", le(m, x.n))
            pre(ex, st, "search determinants and their coefficients belong together", forall([k], implies(rng(I0, k, m), and_(eq(select(v.e, k), select(W0, perm(k))), eq(select(x.e, k), select(X0, perm(k)))))))
            pre(ex, st, "no determinant left out has a larger coefficient", forall([k, u], implies(and_(rng(I0, k, m), rng(m, u, n0), touch(select(x.e, u))), ge(abs_(select(x.e, k)), abs_(select(X0, perm(u)))))))
            for v, n in zip(vals[7:12], P): v = ex.rv(st, v); pre(ex, st, "integrals " + n, eq(v.off, I0) if v.base == P[n].base else FALSE)
            pre(ex, st, "the Hamiltonian", TRUE if vals[12] == lh else FALSE); ex.searched = getattr(ex, "searched", 0) + 1
        return Vec(n1, W1, ty)
    first, nl = own(n1, Pn, p); at = lambda k: select(G, k)
    def diag(ex, st, f, vals, this):
        if not ex.dry:
            b, e = [ex.rv(st, v) for v in vals[:2]]; v = ex.read(st, b.base); pre(ex, st, "diagonalised in the space the search returned", and_(TRUE if b.base == e.base else FALSE, eq(b.off, I0), eq(e.off, n1), eq(v.n, n1), forall([k], implies(rng(I0, k, n1), eq(select(v.e, k), select(W1, k))))))
            pre(ex, st, "the Hamiltonian", TRUE if vals[2] == lh else FALSE); pre(ex, st, "threshold", eq(ex.rv(st, vals[3]), tol)); pre(ex, st, "subspace", eq(ex.rv(st, vals[4]), sub_)); pre(ex, st, "residual", eq(ex.rv(st, vals[5]), res))
        x = fresh("Xlocal", asort("R")); st.fact(forall([k], implies(rng(I0, k, nl), eq(select(x, k), at(add(first, k)))), [[select(x, k)]])); ex.write(st, vals[6], Vec(nl, x, REAL)); return E1
    C.ex.contracts.update({"macis::reorder_ci_on_coeff": reorder, "macis::asci_search": search_, "macis::selected_ci_diag": diag, "macis::comm_size": lambda ex, st, f, vals, this: Pn, "macis::comm_rank": lambda ex, st, f, vals, this: p})
    collectives(C, pre, Pn, p, lambda ex, st: (n1, at))
    Rv = C.call(V.fn("macis::asci_iter", lambda f: f.targs[0] == str(N)), [st_, ms, nmax, E0, Vec(n0, W0, ty), Vec(n0, X0, REAL), lh, no, comm])
    E, wv, xv = [Rv.f[z] for z in "012"]
    C.ensure("the energy of the diagonalisation", eq(E, E1)); C.ensure("the determinants of the search", and_(eq(wv.n, n1), forall([k], implies(rng(I0, k, n1), eq(select(wv.e, k), select(W1, k)))))); C.ensure("one coefficient per determinant", eq(xv.n, n1)); C.ensure("the whole eigenvector, in order", forall([k], implies(rng(I0, k, n1), eq(select(xv.e, k), at(k)))))
    C.ensure("the search is carried out", TRUE if getattr(C.ex, "searched", 0) else FALSE); V.done(C)
class Run: pass
def loop_setting(V, N, name, mpi=False):
    """ghost history of a run: the d-th diagonalisation gave energy en(d) and coefficients xs(d) on the determinants ws(d) (ns(d) of them); d is a ghost cell"""
    C = V.ctx(name); q = Run(); BV = ("BV", N); q.ty = ("bitset", N); q.en, q.xs, q.ws, q.ns = fn("energy", "R"), fn("coefficients", asort("R")), fn("determinants", asort(BV)), fn("size"); k, d = iv("k"), iv("d"); q.P, q.p = iv("processes"), iv("rank"); C.assume(ge(q.P, I1), rng(I0, q.p, q.P)) ; q.no = iv("norb"); C.assume(ge(q.no, I1), le(q.no, num(64)))
    C.axiom(forall([d], and_(ge(q.ns(d), I0), lt(q.ns(d), num(2 ** 31))), [[q.ns(d)]]))
    q.d = C.alloc(I0, "diagonalisations"); q.rot = C.alloc(I0, "rotations")
    q.ham = C.alloc(Obj("macis::HamiltonianGenerator<%d>" % N, {}), "ham"); q.comm = C.alloc(Opaque("comm"), "comm"); q.tol, q.res, q.sub = fresh("ci_matel_tol", "R"), fresh("ci_res_tol", "R"), iv("ci_max_subspace"); q.ms = rec_obj(C, "macis::MCSCFSettings", {"ci_matel_tol": q.tol, "ci_res_tol": q.res, "ci_max_subspace": q.sub})
    q.het = fresh("h_el_tol", "R"); pre = q.pre = lambda ex, st, nm, g: None if ex.dry else ex.oblige(st, nm, g, kind="pre")
    q.same = lambda v, n, e: and_(eq(v.n, n), forall([k], implies(rng(I0, k, n), eq(select(v.e, k), select(e, k)))))
    q.asked = []
    def it(ex, st, f, vals, this):
        s, m, nm, e0, w, x, h, no, _ = [ex.rv(st, v) if i not in (6, 8) else v for i, v in enumerate(vals)]; d = ex.read(st, q.d)
        if not ex.dry:
            pre(ex, st, "settings are passed on", and_(eq(s.f["h_el_tol"], q.het), eq(m.f["ci_matel_tol"], q.tol), eq(m.f["ci_res_tol"], q.res), eq(m.f["ci_max_subspace"], q.sub))); pre(ex, st, "the step starts from the energy of the current wavefunction", eq(e0, q.en(d))); pre(ex, st, "and from its determinants", q.same(w, q.ns(d), q.ws(d))); pre(ex, st, "and from its coefficients", q.same(x, q.ns(d), q.xs(d))); pre(ex, st, "orbitals", eq(no, q.no)); pre(ex, st, "the Hamiltonian", TRUE if h == q.ham else FALSE)
            pre(ex, st, "the number of determinants asked for", q.want(ex, st, d, nm))
        d1 = add(d, I1); ex.write(st, q.d, d1); st.fact(rng(I0, q.ns(d1), num(2 ** 31))); return Obj("tuple", {"0": q.en(d1), "1": Vec(q.ns(d1), q.ws(d1), q.ty), "2": Vec(q.ns(d1), q.xs(d1), REAL)})
    C.ex.contracts.update({"macis::asci_iter": it, "macis::comm_size": lambda ex, st, f, vals, this: q.P, "macis::comm_rank": lambda ex, st, f, vals, this: q.p})
    C.ex.externs = dict(C.ex.externs, **{"spdlog::" + x: lambda ex, st, fr, args, node: Opaque("logger") for x in ("get", "null_logger_mt", "stdout_color_mt")})
    def cand(ex, L):
        out = [not_(l.hv) for l in L.leaves if l.hv.sort == "B"]; ints = [l.hv for l in L.leaves if l.hv.sort == "I"]; gd = [l.hv for l in L.leaves if l.cell[0] is q.d or l.cell[0] == q.d.root]
        for dd in gd:
            out += [ge(dd, I0)] + [le(dd, c) for c in ints if c is not dd] + [eq(dd, c) for c in ints if c is not dd] + [eq(add(dd, I1), c) for c in ints if c is not dd]
            for l in L.leaves:
                h = l.hv
                if h.sort == "R": out.append(eq(h, q.en(dd)))
                elif h.sort == "I" and h is not dd: out.append(eq(h, q.ns(dd)))
                elif h.sort == asort(BV): out += [eq(h, q.ws(dd)), forall([k], implies(rng(I0, k, q.ns(dd)), eq(select(h, k), select(q.ws(dd), k))), [[select(h, k)]])]
                elif h.sort == asort("R"): out += [eq(h, q.xs(dd)), forall([k], implies(rng(I0, k, q.ns(dd)), eq(select(h, k), select(q.xs(dd), k))), [[select(h, k)]])]
            out += q.extra(dd, L)
        return out
    q.extra = lambda dd, L: []; C.ex.cand_gens.append(cand); C.ex.unroll_max = 0
    q.init = lambda: (q.en(I0), Vec(q.ns(I0), q.ws(I0), q.ty), Vec(q.ns(I0), q.xs(I0), REAL))
    def final(Rv):
        d = C.ex.read(C.st, q.d); C.ensure("the energy belongs to the returned wavefunction", eq(Rv.f["0"], q.en(d))); C.ensure("the determinants of the last diagonalisation", q.same(Rv.f["1"], q.ns(d), q.ws(d))); C.ensure("the coefficients of the last diagonalisation", q.same(Rv.f["2"], q.ns(d), q.xs(d))); return d
    q.final = final
    return C, q
def refine(V, N):
    C, q = loop_setting(V, N, "asci_refine<%d>" % N); mx, tol = iv("max_refine_iter"), fresh("refine_energy_tol", "R"); C.assume(ge(mx, I0)); abs_ = lambda x: ite(lt(x, num(0, "R")), tm.neg(x), x)
    st_ = rec_obj(C, "macis::ASCISettings", {"h_el_tol": q.het, "max_refine_iter": mx, "refine_energy_tol": tol}); q.want = lambda ex, st, d, nm: eq(nm, q.ns(I0)); r = iv("r"); u = iv("u"); diff = lambda d: abs_(tm.sub(q.en(d), q.en(sub(d, I1))))
    q.extra = lambda dd, L: [eq(q.ns(dd), q.ns(I0)), forall([u], implies(and_(le(I1, u), le(u, dd)), ge(diff(u), tol)), [[q.en(u)]])] + [f for b in (l.hv for l in L.leaves if l.hv.sort == "B") for f in (implies(b, and_(ge(dd, I1), lt(diff(dd), tol))), implies(not_(b), forall([u], implies(and_(le(I1, u), le(u, dd)), ge(diff(u), tol)), [[q.en(u)]])), forall([u], implies(and_(le(I1, u), lt(u, dd)), ge(diff(u), tol)), [[q.en(u)]]))]
    nt = len(C.ex.throws); Rv = C.call(V.fn("macis::asci_refine", lambda f: f.targs[0] == str(N)), [st_, q.ms, *q.init(), q.ham, q.no, q.comm]); d = q.final(Rv)
    C.ensure("the number of determinants is kept", eq(Rv.f["1"].n, q.ns(I0))); C.ensure("at most the allowed number of steps", and_(ge(d, I1), le(d, mx))); C.ensure("the last step changed the energy by less than the tolerance", lt(diff(d), tol)); C.ensure("no earlier step did", forall([u], implies(and_(le(I1, u), lt(u, d)), ge(diff(u), tol))))
    for s, _ in C.ex.throws[nt:]: d = C.ex.read(s, q.d); C.ensure("gives up only if the number of determinants changed or the energy did not settle", or_(ne(q.ns(d), q.ns(I0)), and_(eq(d, mx), forall([u], implies(and_(le(I1, u), le(u, d)), ge(diff(u), tol))))), st=s)
    V.done(C)
def grow(V, N):
    """wavefunction growth: every step starts from the last diagonalisation's energy, determinants and coefficients; after an orbital rotation the integrals agree on all processes and the rediagonalisation's energy is the one returned"""
    C, q = loop_setting(V, N, "asci_grow<%d>" % N); lo, hi, gf, rs, rot = iv("ntdets_min"), iv("ntdets_max"), iv("grow_factor"), iv("rot_size_start"), fresh("grow_with_rot", "B"); C.assume(*[rng(I0, x, num(2 ** 31)) for x in (lo, hi, gf, rs)]); k = iv("k"); pre = q.pre; no2 = mul(q.no, q.no); C.assume(rng(I0, q.ns(I0), num(2 ** 31)))
    st_ = rec_obj(C, "macis::ASCISettings", {"h_el_tol": q.het, "ntdets_min": lo, "ntdets_max": hi, "grow_factor": gf, "grow_with_rot": rot, "rot_size_start": rs}); mx = lambda a, b: ite(lt(a, b), b, a); mn = lambda a, b: ite(lt(b, a), b, a)
    want = lambda d: mn(mx(lo, mul(q.ns(d), gf)), hi); q.want = lambda ex, st, d, nm: and_(eq(nm, want(d)), le(nm, hi))
    P = {n: Ptr(C.alloc(Vec(None, fresh(n, asort("R")), REAL), n), I0) for n in ("T", "V")}; cls = "macis::HamiltonianGenerator<%d>::" % N; ver = {n: C.alloc(I0, "version of " + n) for n in ("T", "V", "derived")}
    for n in P: C.ex.contracts[cls + n] = lambda ex, st, f, vals, this, n=n: P[n]
    C.ex.write(C.st, q.ham, Obj("macis::HamiltonianGenerator<%d>" % N, {"V_pqrs_": Obj("macis_Kokkos::mdspan<double, macis_Kokkos::dextents<unsigned long, 4>>", dict({"p_": P["V"]}, **{"e%d_" % i: q.no for i in range(4)}))}))
    R1, U = fn("density matrix", asort("R")), fn("natural orbitals", asort("R"))
    def buf(ex, st, v):
        v = ex.rv(st, v); return v
    def rdms(ex, st, fr, args, node):
        d = ex.read(st, q.d); v = [ex.rv(st, ex.ev(st, fr, x)) for x in args]
        if not ex.dry:
            for b in v[:4]: pre(ex, st, "density matrices of the current determinants", q.same(ex.read(st, b.base), q.ns(d), q.ws(d)))
            pre(ex, st, "from the first to the last", and_(eq(v[0].off, I0), eq(v[2].off, I0), eq(v[1].off, q.ns(d)), eq(v[3].off, q.ns(d)))); pre(ex, st, "and of their coefficients", and_(eq(v[4].off, I0), q.same(ex.read(st, v[4].base), q.ns(d), q.xs(d))))
            for b, e in ((v[5], 2), (v[6], 4)):
                w = ex.read(st, b.f["p_"].base); pre(ex, st, "density matrix buffers start at zero and have one extent per index", and_(eq(b.f["p_"].off, I0), *[eq(b.f["e%d_" % i], q.no) for i in range(e)], eq(w.n, no2 if e == 2 else mul(no2, no2)), forall([k], implies(rng(I0, k, w.n), eq(select(w.e, k), num(0, "R"))))))
        b = v[5].f["p_"].base; w = ex.read(st, b); ex.write(st, b, Vec(w.n, R1(d), w.ty)); b = v[6].f["p_"].base; w = ex.read(st, b); ex.write(st, b, Vec(w.n, fresh("pair density", asort("R")), w.ty)); return X.VOID
    def syev(ex, st, fr, args, node):
        _, _, n, a, ld, w = [ex.rv(st, ex.ev(st, fr, x)) for x in args]; d = ex.read(st, q.d); m = ex.read(st, a.base); l = ex.read(st, w.base)
        pre(ex, st, "natural orbitals: eigenvectors of minus the density matrix (descending occupation)", and_(eq(n, q.no), eq(ld, q.no), eq(a.off, I0), eq(w.off, I0), ge(l.n, q.no), eq(m.n, no2), forall([k], implies(rng(I0, k, no2), eq(select(m.e, k), tm.neg(select(R1(d), k)))))))
        ex.write(st, a.base, Vec(m.n, U(d), m.ty)); ex.write(st, w.base, Vec(l.n, fresh("occupations", asort("R")), l.ty)); return I0
    def transform(nm):
        def c(ex, st, fr, args, node):
            n, m, x, lx, c_, lc, y, ly = [ex.rv(st, ex.ev(st, fr, v)) for v in args]; d = ex.read(st, q.d); u = ex.read(st, c_.base)
            pre(ex, st, "integrals %s are rotated in place into natural orbitals" % nm, and_(*[eq(z, q.no) for z in (n, m, lx, lc, ly)], eq(c_.off, I0), TRUE if x.base == y.base == P[nm].base else FALSE, eq(x.off, I0), eq(y.off, I0), eq(u.n, no2), forall([k], implies(rng(I0, k, no2), eq(select(u.e, k), select(U(d), k))))))
            pre(ex, st, "integrals %s are rotated once" % nm, eq(ex.read(st, ver[nm]), ex.read(st, q.rot))); ex.write(st, ver[nm], add(ex.read(st, q.rot), I1)); return X.VOID
        return c
    def bc(ex, st, f, vals, this):
        b, c, root, _ = [ex.rv(st, v) for v in vals]; nm = next((x for x in P if P[x].base == b.base), None)
        if nm is None: raise Unsupported("broadcast of something else")
        r1 = add(ex.read(st, q.rot), I1); pre(ex, st, "rotated integrals %s are sent, all of them" % nm, and_(eq(b.off, I0), eq(c, no2 if nm == "T" else mul(no2, no2)), eq(root, I0), implies(eq(q.p, I0), eq(ex.read(st, ver[nm]), r1)))); ex.write(st, ver[nm], r1); return X.VOID
    def derive(ex, st, f, vals, this):
        v = ex.rv(st, vals[0]); r1 = add(ex.read(st, q.rot), I1); pre(ex, st, "intermediates come from the rotated integrals", and_(eq(ex.read(st, ver["V"]), r1), TRUE if v.f["p_"].base == P["V"].base else FALSE)); ex.write(st, ver["derived"], r1); return X.VOID
    def diag(ex, st, f, vals, this):
        d = ex.read(st, q.d); r1 = add(ex.read(st, q.rot), I1); d1 = add(d, I1)
        if not ex.dry:
            b, e = [ex.rv(st, v) for v in vals[:2]]; v = ex.read(st, b.base); pre(ex, st, "rediagonalised in the current space", and_(TRUE if b.base == e.base else FALSE, eq(b.off, I0), eq(e.off, q.ns(d)), q.same(v, q.ns(d), q.ws(d))))
            pre(ex, st, "settings of the rediagonalisation", and_(TRUE if vals[2] == q.ham else FALSE, eq(ex.rv(st, vals[3]), q.tol), eq(ex.rv(st, vals[4]), q.sub), eq(ex.rv(st, vals[5]), q.res)))
            for x in ver: pre(ex, st, "every process has the rotated integrals (%s)" % x, eq(ex.read(st, ver[x]), r1))
        first, nl = own(q.ns(d), q.P, q.p); x = fresh("Xlocal", asort("R")); st.fact(forall([k], implies(rng(I0, k, nl), eq(select(x, k), select(q.xs(d1), add(first, k)))), [[select(x, k)]])); st.fact(eq(q.ns(d1), q.ns(d))); st.fact(eq(q.ws(d1), q.ws(d)))
        ex.write(st, vals[6], Vec(nl, x, REAL)); ex.write(st, q.d, d1); ex.write(st, q.rot, r1); return q.en(d1)
    collectives(C, pre, q.P, q.p, lambda ex, st: (q.ns(ex.read(st, q.d)), lambda k: select(q.xs(ex.read(st, q.d)), k)))
    C.ex.externs = dict(C.ex.externs, **{cls + "form_rdms": rdms, "syev": syev, "two_index_transform": transform("T"), "four_index_transform": transform("V")}); C.ex.contracts.update({"macis::bcast": bc, cls + "generate_integral_intermediates": derive, "macis::selected_ci_diag": diag})
    ghosts_ = [q.rot, *ver.values()]
    def extra(dd, L):
        g = [l.hv for l in L.leaves if l.cell[0] in [x.root for x in ghosts_]]; return [eq(a, b) for a in g for b in g if a is not b] + [ge(a, I0) for a in g] + [rng(I0, q.ns(dd), num(2 ** 31))]
    q.extra = extra
    nt = len(C.ex.throws); Rv = C.call(V.fn("macis::asci_grow", lambda f: f.targs[0] == str(N)), [st_, q.ms, *q.init(), q.ham, q.no, q.comm]); d = q.final(Rv)
    C.ensure("the wavefunction reached its target size", ge(Rv.f["1"].n, hi)); C.ensure("all integrals are in the same orbitals", and_(*[eq(C.ex.read(C.st, x), C.ex.read(C.st, q.rot)) for x in ver.values()]))
    for s, _ in C.ex.throws[nt:]: d = C.ex.read(s, q.d); C.ensure("gives up only if a step returned fewer determinants than it was asked for", lt(q.ns(d), want(sub(d, I1))), st=s)
    V.done(C)
