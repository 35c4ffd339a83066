from ham import *
NOTE = "every excitation class of matrix_element, for 64- and 128-bit determinants, every pair of determinants of equal electron counts per spin, every integral set and orbital count; the class is decided from the difference alone. The phase and index helpers, the half words and the index list are used through the contracts of C12, C10 and C13; the intermediates are taken as defined (C16). The virtual dispatch and mdspan are used through stubs/mdspan (column-major addressing)."
TU = "ham"
ASSUME = ["floating-point values are treated as mathematical reals", "bitset::count is the number of set positions"]
BOUNDED = []
CASES = [(2, 0), (0, 2), (1, 1), (1, 0), (0, 1), (0, 0)]      # excitations of the first and of the second spin
def jobs(V):
    r = []
    for N in (64, 128):
        r += [("doubles %d" % N, lambda N=N: m4(V, N)), ("mixed doubles %d" % N, lambda N=N: m22(V, N)), ("singles %d" % N, lambda N=N: m2(V, N)), ("diagonal %d" % N, lambda N=N: diag(V, N)),
              ("beyond doubles %d" % N, lambda N=N: far(V, N)), ("beyond doubles of two determinants %d" % N, lambda N=N: far2(V, N)), ("list sums %d" % N, lambda N=N: lists(V, N))]
        r += [("dispatch %d+%d %d" % (*c, N), lambda c=c, N=N: disp(V, N, *c)) for c in CASES] + [("of two determinants %d+%d %d" % (*c, N), lambda c=c, N=N: whole(V, N, *c)) for c in CASES]
    return r
def r4(h, p): return mul(dphase(p.ket, h.S, p.o, p.v), h.G(p.v[0], p.o[0], p.v[1], p.o[1]))
def r22(h, a, b): return mul(mul(phase(a.ket, h.S, a.v[0], a.o[0]), phase(b.ket, h.S, b.v[0], b.o[0])), sel(h.V0, a.v[0], a.o[0], b.v[0], b.o[0]))
def r2(h, p, A, B):
    v, o = p.v[0], p.o[0]
    return mul(phase(p.ket, h.S, v, o), add(add(sel(h.T0, v, o), lsum(*A, lambda x: h.G(x, x, v, o))), lsum(*B, lambda x: sel(h.V0, x, x, v, o))))
def rdiag(h, A, B):
    one = add(lsum(*A, lambda x: sel(h.T0, x, x)), lsum(*B, lambda x: sel(h.T0, x, x)))
    ss = [mul(HALF, lsum(*L, lambda q: lsum(*L, lambda p: h.G(p, p, q, q)))) for L in (A, B)]
    return add(add(one, add(*ss)), lsum(*B, lambda q: lsum(*A, lambda p: sel(h.V0, p, p, q, q))))
def m4(V, N):
    C = hctx(V, "%d-bit matrix_element_4" % N); h = ham(C, N); p = exc(C, h, 2, "x"); C.pairs.append(p)
    r = C.call(M(V, h, "matrix_element_4"), [p.bra, p.ket, p.ex], h.this)
    C.ensure("phase times the antisymmetrised integral", eq(r, r4(h, p))); V.done(C)
def m22(V, N):
    C = hctx(V, "%d-bit matrix_element_22" % N); h = ham(C, N); a, b = exc(C, h, 1, "a"), exc(C, h, 1, "b"); C.pairs += [a, b]
    r = C.call(M(V, h, "matrix_element_22"), [a.bra, a.ket, a.ex, b.bra, b.ket, b.ex], h.this)
    C.ensure("phases times the integral", eq(r, r22(h, a, b))); V.done(C)
def m2(V, N):
    C = hctx(V, "%d-bit matrix_element_2" % N); h = ham(C, N); p = exc(C, h, 1, "x"); C.pairs.append(p); A, *a = occ(C, h, "same"); B, *b = occ(C, h, "other")
    r = C.call(M(V, h, "matrix_element_2"), [p.bra, p.ket, p.ex, C.alloc(A, "A"), C.alloc(B, "B")], h.this)
    C.ensure("phase times the one-electron integral and the sums over both occupations", eq(r, r2(h, p, a, b))); V.done(C)
def diag(V, N):
    C = hctx(V, "%d-bit matrix_element_diag" % N); h = ham(C, N); A, *a = occ(C, h, "alpha"); B, *b = occ(C, h, "beta")
    r = C.call(M(V, h, "matrix_element_diag"), [C.alloc(A, "A"), C.alloc(B, "B")], h.this)
    C.ensure("sums over both occupations", eq(r, rdiag(h, a, b))); V.done(C)
def rule(h, a, b, A, B):
    if a.n == 2: return r4(h, a)
    if b.n == 2: return r4(h, b)
    if a.n and b.n: return r22(h, a, b)
    if a.n: return r2(h, a, A, B)
    if b.n: return r2(h, b, B, A)
    return rdiag(h, A, B)
def disp(V, N, na, nb):
    C = hctx(V, "%d-bit matrix_element: %d and %d excitations" % (N, na, nb)); h = ham(C, N); a, b = exc(C, h, na, "a"), exc(C, h, nb, "b"); C.pairs += [a, b]
    for p in (a, b): count_is(C, h.S, p)
    A, *al = occ(C, h, "alpha"); B, *bl = occ(C, h, "beta")
    r = C.call(M(V, h, "matrix_element", lambda f: len(f.params) == 8), [a.bra, a.ket, a.ex, b.bra, b.ket, b.ex, C.alloc(A, "A"), C.alloc(B, "B")], h.this)
    C.ensure("the rule of the excitation class", eq(r, rule(h, a, b, al, bl))); V.done(C)
def far(V, N):
    C = hctx(V, "%d-bit matrix_element: beyond doubles" % N); h = ham(C, N); S = h.S
    s = {k: det(C, S, k) for k in ("ba", "ka", "xa", "bb", "kb", "xb")}; k = iv("k")
    cnt = lambda x: sum_(k, I0, num(S), ite(select(x, k), I1, I0))
    C.assume(gt(add(cnt(s["xa"]), cnt(s["xb"])), num(4)))
    A, *al = occ(C, h, "alpha"); B, *bl = occ(C, h, "beta")
    r = C.call(M(V, h, "matrix_element", lambda f: len(f.params) == 8), [s["ba"], s["ka"], s["xa"], s["bb"], s["kb"], s["xb"], C.alloc(A, "A"), C.alloc(B, "B")], h.this)
    C.ensure("zero", eq(r, R(0))); V.done(C)
def full(S, lo, hi):
    k = iv("k"); return tm.lam(k, ite(lt(k, num(S)), select(lo, k), select(hi, sub(k, num(S)))))
def b2i_c(h, dets, lists):
    """contract of bits_to_indices (C10): the set positions in ascending order"""
    def c(ex, st, f, vals, this):
        k = iv("k"); v = vals[0]
        for d, l in zip(dets, lists):
            if ex.known(st, forall([k], implies(rng(I0, k, num(h.S)), eq(select(v, k), select(d, k))))):
                if len(vals) > 1:
                    ex.write(st, vals[1], l); return None
                return l
        raise Unsupported("index list of an unknown set")
    return c
def whole(V, N, na, nb):
    C = hctx(V, "%d-bit matrix_element(bra, ket): %d and %d excitations" % (N, na, nb)); h = ham(C, N); a, b = exc(C, h, na, "a"), exc(C, h, nb, "b"); C.pairs += [a, b]
    for p in (a, b): count_is(C, h.S, p)
    A, *al = occ(C, h, "alpha"); B, *bl = occ(C, h, "beta")
    C.ex.contracts["macis::bits_to_indices"] = b2i_c(h, (a.bra, b.bra), (A, B))
    r = C.call(M(V, h, "matrix_element", lambda f: len(f.params) == 2), [full(h.S, a.bra, b.bra), full(h.S, a.ket, b.ket)], h.this)
    C.ensure("the rule of the excitation class over the occupied orbitals of the bra", eq(r, rule(h, a, b, al, bl))); V.done(C)
def far2(V, N):
    C = hctx(V, "%d-bit matrix_element(bra, ket): beyond doubles" % N); h = ham(C, N); S = h.S
    bra, ket = det(C, N, "bra"), det(C, N, "ket"); k = iv("k")
    diff = lambda lo: sum_(k, I0, num(S), ite(ne(select(bra, add(k, num(lo))), select(ket, add(k, num(lo)))), I1, I0))
    C.assume(gt(add(diff(0), diff(S)), num(4)))
    A, *al = occ(C, h, "alpha")
    C.ex.contracts["macis::bits_to_indices"] = lambda ex, st, f, vals, this: A
    r = C.call(M(V, h, "matrix_element", lambda f: len(f.params) == 2), [bra, ket], h.this)
    C.ensure("zero", eq(r, R(0))); V.done(C)
def lists(V, N):
    """a sum over the ascending index list of a set is the sum over the set, for every summand (ties the orbital lists of the contracts to the determinants)"""
    C = hctx(V, "sums over orbital lists <%d>" % N); h = H(); h.N, h.S, h.no = N, N // 2, iv("norb"); D = det(C, h.S, "det"); k = iv("k")
    C.assume(forall([k], implies(ge(k, h.no), not_(select(D, k))), [[select(D, k)]]))
    Lr, e = list_of(C, h, D, "det"); f = fn("f", "R"); t = iv("t")
    list_sum(C, h, D, Lr, e, f)
    C.ensure("the list sum is the sum over the set", eq(sum_(t, I0, Lr.total, f(select(e, t))), setsum(D, num(h.S), f))); V.done(C)
