from orb import *
from c18 import fi_elem, fa_elem, q_elem, F_elem, el, frame
from c19 import vectors, nparams
NOTE = "MP2 amplitudes and density, the approximate diagonal Hessian (three-block, single-vector and from-integrals forms), the preconditioned step and the one-index-transformed Hamiltonian, for every orbital partition and leading dimension. orb_orb_hessian_contract is checked by the replay harness only."
TU = "orb"
HARNESS_SRC = ["$REPO/src/macis/" + k for k in ("moller_plesset.cxx", "orbital_hessian.cxx", "orbital_steps.cxx", "fock_matrices.cxx", "orbital_energies.cxx", "orbital_rotation_utilities.cxx")]
HARNESS_LIBS = ["-llapackpp", "-lblaspp", "-lopenblas"]
ASSUME = ["floating-point values are treated as mathematical reals", "input and output buffers do not overlap", "no denominator vanishes (division is total in the logic)"]
def jobs(V): return [("MP2 amplitudes", lambda: t2(V)), ("MP2 density", lambda: rdm(V)), ("one-index transform", lambda: oneidx(V)), ("diagonal Hessian", lambda: hess(V, 0)), ("diagonal Hessian (vector)", lambda: hess(V, 1)), ("diagonal Hessian from integrals", lambda: hess2(V)), ("preconditioned step", lambda: step(V))]
def t2_elem(V, eps, nc, i, j, a, b):
    return mul(sel(V, i, add(a, nc), j, add(b, nc)), tm.inv(sub(sub(add(eps(i), eps(j)), eps(add(a, nc))), eps(add(b, nc)))))
def vec(C, name):
    e = fresh(name, asort("R")); l = C.alloc(Vec(None, e, REAL), name)
    return Ptr(l, I0), e, l
def t2(V):
    C = V.ctx("mp2_t2"); nc, nv = dims(C, "nocc", "nvir"); lv = ld(C, "LDV", add(nc, nv))
    v, V0, _ = ten4(C, "V", lv); e, E, _ = vec(C, "eps"); t, T0, tl = buffer(C, "T2", [nc, nc, nv, None])
    C.call(F(V, "mp2_t2"), [named(C, "NumCanonicalOccupied", nc), named(C, "NumCanonicalVirtual", nv), v, lv, e, t])
    x = [iv(k) for k in "ijab"]
    frame(C, tl, T0, and_(rng(I0, x[0], nc), rng(I0, x[1], nc), rng(I0, x[2], nv), rng(I0, x[3], nv)), t2_elem(V0, lambda p: sel(E, p), nc, *x), x); V.done(C)
def rdm(V):
    C = V.ctx("mp2_1rdm"); nc, nv = dims(C, "nocc", "nvir"); no = iv("norb"); C.assume(le(add(nc, nv), no)); C.ex.autoview = True
    lt_, lv, l1 = ld(C, "LDT", no), ld(C, "LDV", no), ld(C, "LDD", no)
    t, T0, _ = mat(C, "T", lt_); v, V0, _ = ten4(C, "V", lv); d, D0, dl = mat(C, "D", l1)
    C.call(F(V, "mp2_1rdm"), [named(C, "NumOrbital", no), named(C, "NumCanonicalOccupied", nc), named(C, "NumCanonicalVirtual", nv), t, lt_, v, lv, d, l1])
    A = lambda *x: t2_elem(V0, lambda p: fi_elem(T0, V0, nc, p, p), nc, *x)
    i, j, k, a, b, p, q = [iv(z) for z in "ijkabpq"]
    O, W = (I0, nc), (I0, nv)
    oo = sub(ite(eq(p, q), R(2), R(0)), mul(R(2), ssum([(k, *O), (a, *W), (b, *W)], mul(A(p, k, a, b), sub(mul(R(2), A(q, k, a, b)), A(q, k, b, a))))))
    pv, qv = sub(p, nc), sub(q, nc)
    vv = mul(R(2), ssum([(i, *O), (j, *O), (a, *W)], mul(A(i, j, a, pv), sub(mul(R(2), A(i, j, a, qv)), A(i, j, qv, a)))))
    ino, inv_ = and_(rng(I0, p, nc), rng(I0, q, nc)), and_(rng(nc, p, add(nc, nv)), rng(nc, q, add(nc, nv)))
    D1 = C.ex.read(C.st, dl).e
    C.ensure("occupied block off the diagonal", implies(and_(ino, not_(eq(p, q))), eq(sel(D1, p, q), oo)))
    C.ensure("occupied diagonal", implies(rng(I0, p, nc), eq(sel(D1, p, p), tm.subst(oo, {q: p}))))
    C.ensure("virtual block", implies(inv_, eq(sel(D1, p, q), vv)))
    C.ensure("nothing else is written", implies(not_(or_(ino, inv_)), eq(sel(D1, p, q), sel(D0, p, q)))); V.done(C)
def oneidx(V):
    C = V.ctx("one_index_transformed_hamiltonian"); no, = dims(C, "norb")
    lt_, lv, lx, l1, l2 = ld(C, "LDT", no), ld(C, "LDV", no), ld(C, "LDX", no), ld(C, "LDTx", no), ld(C, "LDVx", no)
    t, T0, _ = mat(C, "T", lt_); v, V0, _ = ten4(C, "V", lv); x, X0, _ = mat(C, "X", lx); tx, A0, al = mat(C, "Tx", l1); vx, B0, bl = ten4(C, "Vx", l2)
    C.call(F(V, "one_index_transformed_hamiltonian"), [named(C, "NumOrbital", no), t, lt_, v, lv, x, lx, tx, l1, vx, l2])
    o, p, q, r, s = [iv(k) for k in "opqrs"]; n = lambda *y: and_(*[rng(I0, k, no) for k in y])
    frame(C, al, A0, n(p, q), sum_(o, I0, no, add(mul(sel(X0, p, o), sel(T0, o, q)), mul(sel(X0, q, o), sel(T0, p, o)))), (p, q))
    w = sum_(o, I0, no, add(add(mul(sel(X0, p, o), sel(V0, o, q, r, s)), mul(sel(X0, q, o), sel(V0, p, o, r, s))), add(mul(sel(X0, r, o), sel(V0, p, q, o, s)), mul(sel(X0, s, o), sel(V0, p, q, r, o)))))
    frame(C, bl, B0, n(p, q, r, s), w, (p, q, r, s)); V.done(C)
def h_elem(ni, na, fi, fa, d, f):
    n1 = add(ni, na); g = lambda p: add(fi(p, p), fa(p, p))
    return [lambda a, i: mul(R(4), sub(g(add(a, n1)), g(i))),
            lambda a, i: sub(mul(mul(R(2), d(i, i)), g(add(a, n1))), mul(R(2), f(add(i, ni), add(i, ni)))),
            lambda a, i: sub(add(mul(mul(R(2), d(a, a)), g(i)), mul(R(4), sub(g(add(a, ni)), g(i)))), mul(R(2), f(add(a, ni), add(a, ni))))]
def check_blocks(C, segs, els, x0, w):
    a, i = iv("a"), iv("i")
    for k, s in enumerate(segs):
        inb = and_(rng(I0, a, s[0]), rng(I0, i, s[1])); g = els[k](C.st)(a, i)
        C.ensure("block %d of the diagonal Hessian" % k, implies(inb, eq(g, w[k](a, i))))
        C.ensure("nothing outside block %d is written" % k, implies(not_(inb), eq(g, x0[k](a, i))))
def hess(V, lin):
    C = V.ctx("approx_diag_hessian" + ("(vector)" if lin else "")); ni, na, nv, no, segs = split3(C)
    li, la, l1, lf = ld(C, "LDFi", no), ld(C, "LDFa", no), ld(C, "LDD", na), ld(C, "LDF", add(ni, na))
    args, els = vectors(C, segs, lin); x0 = [e(C.st) for e in els]
    fi, A, _ = mat(C, "Fi", li); fa, B, _ = mat(C, "Fa", la); d, D, _ = mat(C, "D", l1); f, G, _ = mat(C, "F", lf)
    C.call(F(V, "approx_diag_hessian", lambda f: len(f.params) == (12 if lin else 14) and f.targs is None or not f.targs and len(f.params) == (12 if lin else 14)), N3(C, ni, na, nv) + [fi, li, fa, la, d, l1, f, lf] + args)
    check_blocks(C, segs, els, x0, h_elem(ni, na, el(A), el(B), el(D), el(G))); V.done(C)
def hess2(V):
    C = V.ctx("approx_diag_hessian from integrals"); ni, na, nv, tot, segs = split3(C); C.ex.autoview = True
    no = iv("norb"); C.assume(eq(no, tot))
    lt_, lv, l1, l2 = ld(C, "LDT", no), ld(C, "LDV", no), ld(C, "LDD1", na), ld(C, "LDD2", na)
    args, els = vectors(C, segs, 1); x0 = [e(C.st) for e in els]
    t, T0, _ = mat(C, "T", lt_); v, V0, _ = ten4(C, "V", lv); d, D, _ = mat(C, "D", l1); d2, D2, _ = ten4(C, "D2", l2)
    f = F(V, "approx_diag_hessian", lambda f: len(f.params) == 13)
    C.call(f, [named(C, "NumOrbital", no)] + N3(C, ni, na, nv) + [t, lt_, v, lv, d, l1, d2, l2] + args)
    fi = lambda p, q: fi_elem(T0, V0, ni, p, q); fa = lambda p, q: fa_elem(D, V0, ni, na, p, q)
    check_blocks(C, segs, els, x0, h_elem(ni, na, fi, fa, el(D), lambda r, c: F_elem(ni, na, fi, fa, el(D), lambda a, p: q_elem(D2, V0, ni, na, a, p), r, c))); V.done(C)
def step(V):
    C = V.ctx("precond_cg_orbital_step"); ni, na, nv, no, segs = split3(C)
    li, la, l1, lf = ld(C, "LDFi", no), ld(C, "LDFa", no), ld(C, "LDD", na), ld(C, "LDF", add(ni, na))
    fi, A, _ = mat(C, "Fi", li); fa, B, _ = mat(C, "Fa", la); d, D, _ = mat(C, "D", l1); f, G, _ = mat(C, "F", lf)
    og, O0, _ = vec(C, "OG"); k, K0, kl = vec(C, "K")
    sz = add(mul(nv, add(na, ni)), mul(na, ni)); H = fresh("H", asort("R")); got = []
    def ctr(ex, st, g, vals, this):
        if len(g.params) != 12: return NotImplemented
        h = vals[11]; got.append(1)
        for x, y in zip(vals[3:11], (fi, li, fa, la, d, l1, f, lf)):
            C.ensure("the Hessian is formed from the step's own arguments", TRUE if isinstance(y, Ptr) and isinstance(x, Ptr) and x.base == y.base and x.off is y.off else FALSE if isinstance(y, Ptr) else eq(x, y), st=st)
        for x, y in zip(vals[:3], (ni, na, nv)): C.ensure("orbital split", eq(x.f["value_"] if isinstance(x, Obj) else ex.read(st, x).f["value_"], y), st=st)
        v = ex.read(st, h.base)
        C.ensure("the Hessian buffer is large enough", and_(eq(h.off, I0), ge(v.n, sz)), st=st)
        p = iv("p"); ex.write(st, h.base, Vec(v.n, tm.lam(p, ite(rng(I0, p, sz), select(H, p), select(v.e, p))), v.ty))
        return X.VOID
    C.ex.contracts["macis::approx_diag_hessian"] = ctr
    C.call(F(V, "precond_cg_orbital_step"), [named(C, "NumOrbital", no)] + N3(C, ni, na, nv) + [fi, li, fa, la, f, lf, d, l1, og, k])
    C.ensure("the approximate Hessian is used", TRUE if got else FALSE)
    p = iv("p")
    frame(C, kl, K0, rng(I0, p, sz), sub(R(0), mul(sel(O0, p), tm.inv(sel(H, p)))), (p,)); V.done(C)
