from ham import *
NOTE = "single_orbital_en(s), both forms of the single, same-spin and opposite-spin double updates, and the lemma that each update equals the full diagonal of the excited determinant, for every determinant, orbital pair or quadruple and integral set whose Coulomb integrals are symmetric, V(i,i,j,j) = V(j,j,i,i), as real integrals are (the full diagonal and the orbital energies read that matrix in opposite orders). Orbital lists are the ascending index lists of C10; the full diagonal is the contract of matrix_element_diag proved in C14."
TU = "ham"
ASSUME = ["floating-point values are treated as mathematical reals"]
BOUNDED = []
def jobs(V):
    r = []
    for N in (64, 128):
        r += [("orbital energy %d" % N, lambda N=N: en(V, N)), ("orbital energies %d" % N, lambda N=N: ens(V, N))]
        r += [("%s %s %d" % (w, form, N), lambda w=w, form=form, N=N: upd(V, N, w, form)) for w in ("single", "ss_double", "os_double") for form in ("lists", "energies")]
        r += [("lemma %s %d" % (w, N), lambda w=w, N=N: lem(V, N, w)) for w in ("single", "ss_double", "os_double")]
    return r
def setup(V, name, N):
    C = hctx(V, name); h = ham(C, N, opaque=("G2_red", "V2_red"))
    h.g = lambda p, q: sel(h.G2_red, p, q); h.w = lambda p, q: sel(h.V2_red, p, q); h.t = lambda p: sel(h.T0, p, p)
    p, q = iv("p"), iv("q"); h.sym = forall([p, q], eq(h.w(p, q), h.w(q, p)), [[h.w(p, q)]])
    return C, h
def en_f(h, x, S, O):
    """orbital energy from summation operators over the same-spin and the other-spin occupation"""
    return add(sub(add(h.t(x), S(lambda q: add(h.g(x, q), h.g(q, x)))), h.g(x, x)), O(lambda q: h.w(x, q)))
def orb(C, h, name):
    x = iv(name); C.assume(rng(I0, x, h.no)); return x
def en(V, N):
    C, h = setup(V, "%d-bit single_orbital_en" % N, N); A, *a = occ(C, h, "same"); B, *b = occ(C, h, "other"); x = orb(C, h, "orb")
    r = C.call(M(V, h, "single_orbital_en"), [x, C.alloc(A, "A"), C.alloc(B, "B")], h.this)
    C.ensure("the energy of the orbital", eq(r, en_f(h, x, lambda f: lsum(*a, f), lambda f: lsum(*b, f)))); V.done(C)
def ens(V, N):
    C, h = setup(V, "%d-bit single_orbital_ens" % N, N); A, *a = occ(C, h, "same"); B, *b = occ(C, h, "other"); n = iv("n"); C.assume(rng(I0, n, add(h.no, I1)))
    r = C.call(M(V, h, "single_orbital_ens"), [n, C.alloc(A, "A"), C.alloc(B, "B")], h.this)
    x = iv("x")
    C.ensure("one energy per orbital", eq(r.n, n))
    C.ensure("the value single_orbital_en gives", implies(rng(I0, x, n), eq(select(r.e, x), en_f(h, x, lambda f: lsum(*a, f), lambda f: lsum(*b, f))))); V.done(C)
def formula(h, w, h0, e, o, v):
    """the update from the orbital energies e of the holes and particles"""
    s = add(h0, *[]) if False else h0
    for x in v: s = add(s, e[x])
    for x in o: s = sub(s, e[x])
    g2 = lambda p, q: add(h.g(p, q), h.g(q, p))
    if w == "single": return sub(s, g2(v[0], o[0]))
    if w == "ss_double":
        s = add(add(s, g2(o[0], o[1])), g2(v[0], v[1]))
        for p in v:
            for q in o: s = sub(s, g2(p, q))
        return s
    s = add(add(s, h.w(o[0], o[1])), h.w(v[0], v[1]))
    s = sub(sub(s, g2(v[0], o[0])), g2(v[1], o[1]))
    return sub(sub(s, h.w(v[0], o[1])), h.w(o[0], v[1]))
def upd(V, N, w, form):
    C, h = setup(V, "%d-bit fast_diag_%s (%s)" % (N, w, form), N); k = 1 if w == "single" else 2
    o = [orb(C, h, "o%d" % i) for i in range(k)]; v = [orb(C, h, "v%d" % i) for i in range(k)]; h0 = fresh("Hii", "R"); A, *a = occ(C, h, "same"); B, *b = occ(C, h, "other")
    if form == "energies":
        e = {x: fresh("en", "R") for x in o + v}; args = [e[x] for x in o + v]
    else:
        sa, sb = (lambda f: lsum(*a, f)), (lambda f: lsum(*b, f)); flip = w == "os_double"
        e = {x: en_f(h, x, *((sb, sa) if flip and i % 2 else (sa, sb))) for l in (o, v) for i, x in enumerate(l)}; args = [C.alloc(A, "A"), C.alloc(B, "B")]
    r = C.call(M(V, h, "fast_diag_" + w, lambda f: len(f.params) == len(args) + 2 * k + 1 and ("vector" in f.type) == (form == "lists")), args + o + v + [h0], h.this)
    C.ensure("the update formula", eq(r, formula(h, w, h0, e, o, v))); V.done(C)
def lem(V, N, w):
    C, h = setup(V, "%d-bit lemma: %s update = full diagonal" % (N, w), N); S = h.S; n = num(S)
    A, B = det(C, S, "first"), det(C, S, "second"); k = iv("k")
    for D in (A, B): C.assume(forall([k], implies(ge(k, h.no), not_(select(D, k))), [[select(D, k)]]))
    m = 1 if w == "single" else 2
    o = [orb(C, h, "o%d" % i) for i in range(m)]; v = [orb(C, h, "v%d" % i) for i in range(m)]
    on = [A, B] if w == "os_double" else [A, A]          # the spin each excitation acts on
    for i in range(m): C.assume(select(on[i], o[i]), not_(select(on[i], v[i])))
    if w == "ss_double": C.assume(ne(o[0], o[1]), ne(v[0], v[1]))
    ch = {0: [], 1: []}
    for i in range(m): ch[1 if on[i] is B else 0] += [(-1, o[i]), (1, v[i])]
    dets = []
    for s, D in ((0, A), (1, B)):
        D1 = D
        for _, x in ch[s]: D1 = store(D1, x, not_(select(D, x)))
        D2 = fresh("excited", asort("B")); C.assume(forall([k], eq(select(D2, k), select(D1, k)), [[select(D2, k)]])); dets.append((D, D2, ch[s]))
    def dl(s, f):
        r = R(0)
        for sg, x in ch[s]: r = add(r, f(x)) if sg > 0 else sub(r, f(x))
        return r
    pre = list(C.pre)
    def stage(what, facts, prove):
        """a lemma proved from the named facts alone; its conclusion is returned"""
        C2 = hctx(V, "%d-bit %s: %s" % (N, w, what)); C2.assume(*pre); C2.axiom(*facts); r = prove(C2); V.done(C2); return r
    def same_upto(what, lhs, rhs, facts=()):
        def go(C2):
            b = iv("b"); C2.induct(what, b, None, lambda u: eq(lhs(u), rhs(u)), hi=n); return eq(lhs(n), rhs(n))
        return stage(what, facts, go)
    def one(s, f, what, facts=()):
        D, D1, _ = dets[s]
        if not ch[s]: return same_upto("same occupation, same sum: " + what, lambda u: setsum(D1, u, f), lambda u: setsum(D, u, f), facts)
        def pt(k):
            r = R(0)
            for sg, x in ch[s]: r = add(r, mul(R(sg), ite(eq(k, x), f(x), R(0))))
            return r
        e1 = same_upto("shifted sum: " + what, lambda u: setsum(D1, u, f), lambda u: add(setsum(D, u, f), sum_(k, I0, u, pt(k))), facts)
        return stage("shift: " + what, [e1], lambda C2: (C2.lemma("shift: " + what, c := eq(setsum(D1, n, f), add(setsum(D, n, f), dl(s, f)))), c)[1])
    def two(s, t, f, what):
        """sum over the excited pairs of f(p, q), p from spin s and q from spin t"""
        Ds, Ds1, _ = dets[s]; Dt, Dt1, _ = dets[t]; F = fn("inner", "R"); q = iv("q")
        any_ = fresh("any", "I"); one(s, lambda p: f(p, any_), what + " (inner, any column)")
        # the inner lemma holds for every q (`any` is unconstrained); F names its right-hand side
        G1 = forall([q], eq(F(q), setsum(Ds1, n, lambda p: f(p, q))), [[F(q)]]); G0 = lambda q: eq(F(q), add(setsum(Ds, n, lambda p: f(p, q)), dl(s, lambda p: f(p, q))))
        dbl = lambda X, Y, u: sum_(q, I0, u, ite(select(Y, q), setsum(X, n, lambda p: f(p, q)), R(0)))
        e1 = same_upto("inner sums: " + what, lambda u: dbl(Ds1, Dt1, u), lambda u: setsum(Dt1, u, F), [G1])
        e2 = one(t, F, what + " (outer)")
        e3 = same_upto("outer sums: " + what, lambda u: setsum(Dt, u, F), lambda u: add(dbl(Ds, Dt, u), setsum(Dt, u, lambda q: dl(s, lambda p: f(p, q)))), [forall([q], G0(q), [[F(q)]])])
        c = eq(dbl(Ds1, Dt1, n), add(add(dbl(Ds, Dt, n), setsum(Dt, n, lambda q: dl(s, lambda p: f(p, q)))), dl(t, lambda q: add(setsum(Ds, n, lambda p: f(p, q)), dl(s, lambda p: f(p, q))))))
        stage("pair sum: " + what, [e1, e2, e3] + [G0(x) for _, x in ch[t]], lambda C2: C2.lemma("pair sum: " + what, c))
        return c
    D = lambda X, Y: add(add(add(setsum(X, n, h.t), setsum(Y, n, h.t)), add(*[dbl2(Z, Z, n, h.g) for Z in (X, Y)])), dbl2(X, Y, n, h.w))
    facts = [one(s, h.t, "one-electron, spin %d" % s) for s in (0, 1)] + [two(s, s, h.g, "same spin %d" % s) for s in (0, 1)] + [two(0, 1, h.w, "opposite spins")]
    facts += [same_upto("symmetric Coulomb sums", lambda u: setsum(A, u, lambda p: h.w(p, x)), lambda u: setsum(A, u, lambda p: h.w(x, p)), [h.sym]) for x in o + v]
    C.axiom(*facts)
    sa, sb = (lambda f: setsum(A, n, f)), (lambda f: setsum(B, n, f))
    C.axiom(*[eq(h.w(x, y), h.w(y, x)) for x in o + v for y in o + v], *[eq(h.g(x, x), R(0)) for x in o + v])      # G(i,i,i,i) = V(i,i,i,i) - V(i,i,i,i)
    e = {x: en_f(h, x, *((sb, sa) if on[i] is B else (sa, sb))) for l in (o, v) for i, x in enumerate(l)}
    C.ensure("the update equals the diagonal of the excited determinant", eq(formula(h, w, D(A, B), e, o, v), D(dets[0][1], dets[1][1])), timeout=10000); V.done(C)
def dbl2(X, Y, n, f):
    q = iv("q"); return sum_(q, I0, n, ite(select(Y, q), setsum(X, n, lambda p: f(p, q)), R(0)))
