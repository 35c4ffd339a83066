from ham import *
NOTE = "rdm_contributions and its four class routines for 64- and 128-bit determinants, every pair of determinants of equal electron counts per spin, every weight and prior matrix contents, with and without a two-particle matrix: every element of both matrices is its prior value plus exactly the terms of the excitation class that address it. form_rdms, for every pair of determinant lists: both matrices gain the weighted contributions of exactly the pairs of non-empty determinants within double excitations whose weight is above the 1e-16 screen; its calls are checked against the contract of rdm_contributions (operands are the half words of one bra, one ket and their difference, and the lists are those of the bra)."
TU = "ham"
ASSUME = ["floating-point values are treated as mathematical reals", "bitset::count is the number of set positions", "the one- and the two-particle matrix do not overlap"]
BOUNDED = []
CASES = [(2, 0), (0, 2), (1, 1), (1, 0), (0, 1), (0, 0)]
def jobs(V):
    r = []
    for N in (64, 128):
        r += [("doubles %d" % N, lambda N=N: r4(V, N)), ("mixed doubles %d" % N, lambda N=N: r22(V, N))]
        for null in (False, True):
            t = " without two-particle matrix" if null else ""
            r += [("singles %d%s" % (N, t), lambda N=N, null=null: r2(V, N, null)), ("diagonal %d%s" % (N, t), lambda N=N, null=null: diag(V, N, null)), ("beyond doubles %d%s" % (N, t), lambda N=N, null=null: far(V, N, null))]
            r += [("dispatch %d+%d %d%s" % (*c, N, t), lambda c=c, N=N, null=null: disp(V, N, *c, null)) for c in CASES]
        r += [("form_rdms %d" % N, lambda N=N: form(V, N, False)), ("form_rdms %d without two-particle matrix" % N, lambda N=N: form(V, N, True))]
    return r
def fns(V, name, S): return V.fn("macis::" + name, lambda f: str(S) in [str(x) for x in f.targs])
def mats(C, N, null):
    h = H(); h.N, h.S = N, N // 2; h.no = iv("norb"); no = h.no; C.assume(ge(no, I1), le(no, num(h.S)))
    p, h.D1, h.l1 = buffer(C, "D1", [no, no]); h.s1 = span(C, span_t(2), p, [no] * 2)
    p, h.D2, h.l2 = buffer(C, "D2", [no] * 4); h.s2 = span(C, span_t(4), X.Ptr(None, I0, null=TRUE) if null else p, [no] * 4); h.null = null
    h.val = fresh("val", "R"); return h
def hit(at, x): return and_(*[eq(a, b) for a, b in zip(at, x)])
def terms(l): return lambda *at: total([ite(hit(at, x), v, R(0)) for x, v in l])
def d4(h, p):
    x = mul(mul(h.val, dphase(p.ket, h.S, p.o, p.v)), HALF); (o1, o2), (v1, v2) = p.o, p.v
    return [((v1, o1, v2, o2), x), ((v2, o1, v1, o2), neg_(x)), ((v1, o2, v2, o1), neg_(x)), ((v2, o2, v1, o1), x)]
def neg_(x): return sub(R(0), x)
def d22(h, a, b):
    x = mul(mul(h.val, mul(phase(a.ket, h.S, a.v[0], a.o[0]), phase(b.ket, h.S, b.v[0], b.o[0]))), HALF)
    return [((a.v[0], a.o[0], b.v[0], b.o[0]), x), ((b.v[0], b.o[0], a.v[0], a.o[0]), x)]
def over(L, f): return lambda *at: sum_(t := iv("t"), I0, L[0], terms(f(select(L[1], t)))(*at))
def plus(*fs): return lambda *at: total([f(*at) for f in fs])
def total(l):
    r = R(0)
    for x in l: r = add(r, x)
    return r
zero = lambda *at: R(0)
def s2(h, p, A, B):
    v, o = p.v[0], p.o[0]; s = phase(p.ket, h.S, v, o); x = mul(mul(h.val, s), HALF)
    two = plus(over(A, lambda q: [((v, o, q, q), x), ((q, q, v, o), x), ((v, q, q, o), neg_(x)), ((q, o, v, q), neg_(x))]), over(B, lambda q: [((v, o, q, q), x), ((q, q, v, o), x)]))
    return terms([((v, o), mul(s, h.val))]), two
def sdiag(h, A, B):
    x = mul(h.val, HALF); one = plus(*[over(L, lambda p: [((p, p), h.val)]) for L in (A, B)])
    def pairs(Lq, Lp, f): return lambda *at: sum_(q := iv("tq"), I0, Lq[0], sum_(p := iv("tp"), I0, Lp[0], terms(f(select(Lp[1], p), select(Lq[1], q)))(*at)))
    ss = [pairs(L, L, lambda p, q: [((p, p, q, q), x), ((p, q, p, q), neg_(x))]) for L in (A, B)]
    return one, plus(*ss, pairs(B, A, lambda p, q: [((p, p, q, q), x), ((q, q, p, p), x)]))
def rule(h, a, b, A, B):
    if a.n == 2: return zero, terms(d4(h, a))
    if b.n == 2: return zero, terms(d4(h, b))
    if a.n and b.n: return zero, terms(d22(h, a, b))
    if a.n: return s2(h, a, A, B)
    if b.n: return s2(h, b, B, A)
    return sdiag(h, A, B)
def post(C, h, one, two):
    if h.null: two = zero
    for nm, l, D, k, f in (("one", h.l1, h.D1, 2, one), ("two", h.l2, h.D2, 4, two)):
        x = [iv("x%d" % i) for i in range(k)]; M = C.ex.read(C.st, l).e
        C.ensure("%s-particle matrix: prior value plus the terms that address the element" % nm, implies(and_(*[rng(I0, i, h.no) for i in x]), eq(sel(M, *x), add(sel(D, *x), f(*x)))))
def r4(V, N):
    C = hctx(V, "%d-bit rdm_contributions_4" % N); h = mats(C, N, False); p = exc(C, h, 2, "x"); C.pairs.append(p)
    C.call(fns(V, "rdm_contributions_4", h.S), [p.bra, p.ket, p.ex, h.val, h.s2]); post(C, h, zero, terms(d4(h, p))); V.done(C)
def r22(V, N):
    C = hctx(V, "%d-bit rdm_contributions_22" % N); h = mats(C, N, False); a, b = exc(C, h, 1, "a"), exc(C, h, 1, "b"); C.pairs += [a, b]
    C.call(fns(V, "rdm_contributions_22", h.S), [a.bra, a.ket, a.ex, b.bra, b.ket, b.ex, h.val, h.s2]); post(C, h, zero, terms(d22(h, a, b))); V.done(C)
def r2(V, N, null):
    C = hctx(V, "%d-bit rdm_contributions_2%s" % (N, " (no two-particle matrix)" * null)); h = mats(C, N, null); p = exc(C, h, 1, "x"); C.pairs.append(p); A, *a = occ(C, h, "same"); B, *b = occ(C, h, "other")
    C.call(fns(V, "rdm_contributions_2", h.S), [p.bra, p.ket, p.ex, C.alloc(A, "A"), C.alloc(B, "B"), h.val, h.s1, h.s2]); post(C, h, *s2(h, p, a, b)); V.done(C)
def diag(V, N, null):
    C = hctx(V, "%d-bit rdm_contributions_diag%s" % (N, " (no two-particle matrix)" * null)); h = mats(C, N, null); A, *a = occ(C, h, "alpha"); B, *b = occ(C, h, "beta")
    C.call(V.fn("macis::rdm_contributions_diag"), [C.alloc(A, "A"), C.alloc(B, "B"), h.val, h.s1, h.s2]); post(C, h, *sdiag(h, a, b)); V.done(C)
def disp(V, N, na, nb, null):
    C = hctx(V, "%d-bit rdm_contributions: %d and %d excitations%s" % (N, na, nb, " (no two-particle matrix)" * null)); h = mats(C, N, null); a, b = exc(C, h, na, "a"), exc(C, h, nb, "b"); C.pairs += [a, b]
    for p in (a, b): count_is(C, h.S, p)
    A, *al = occ(C, h, "alpha"); B, *bl = occ(C, h, "beta")
    C.call(fns(V, "rdm_contributions", h.S), [a.bra, a.ket, a.ex, b.bra, b.ket, b.ex, C.alloc(A, "A"), C.alloc(B, "B"), h.val, h.s1, h.s2])
    post(C, h, *rule(h, a, b, al, bl)); V.done(C)
def far(V, N, null):
    C = hctx(V, "%d-bit rdm_contributions: beyond doubles%s" % (N, " (no two-particle matrix)" * null)); h = mats(C, N, null); S = h.S
    s = {k: det(C, S, k) for k in ("ba", "ka", "xa", "bb", "kb", "xb")}; k = iv("k")
    cnt = lambda x: sum_(k, I0, num(S), ite(select(x, k), I1, I0))
    C.assume(gt(add(cnt(s["xa"]), cnt(s["xb"])), num(4)))
    A, *al = occ(C, h, "alpha"); B, *bl = occ(C, h, "beta")
    C.call(fns(V, "rdm_contributions", S), [s["ba"], s["ka"], s["xa"], s["bb"], s["kb"], s["xb"], C.alloc(A, "A"), C.alloc(B, "B"), h.val, h.s1, h.s2])
    post(C, h, zero, zero); V.done(C)
def wf(C, h, name):
    """a list of determinants"""
    n = iv("n" + name); C.assume(ge(n, I0)); d = fresh(name, asort(asort("B"))); i, k = iv("i"), iv("k")
    C.assume(forall([i, k], implies(or_(lt(k, I0), ge(k, num(h.N))), not_(select(select(d, i), k))), [[select(select(d, i), k)]]))
    l = C.alloc(Vec(n, d, ("bitset", h.N)), name); return n, d, l
def bits(S, n, lo=0):
    k = iv("k"); return sum_(k, I0, num(n), ite(select(S, add(k, num(lo))), I1, I0))
def diff(h, a, b):
    k = iv("k"); return sum_(k, I0, num(h.N), ite(ne(select(a, k), select(b, k)), I1, I0))
def roots(t, d):
    """the positions i of every d[i] in a term"""
    out = []
    for x in tm.walk(t):
        if x.op == "select" and x.args[0] is d and x.args[1] not in out and not str(x.args[1]).startswith("#"): out.append(x.args[1])
    return out
def halves(h, s):
    k = iv("k"); f = lambda lo: (lambda k: and_(rng(I0, k, num(h.S)), select(s, add(k, num(lo)))))
    return f(0), f(h.S)
def is_set(ex, st, v, f):
    k = iv("k"); return ex.known(st, forall([k], implies(rng(I0, k, num(1 << 20)), eq(select(v, k), f(k)))))
class Pairing:
    """contracts of the calls that form_rdms and the CSR build make for bra i and ket j: operands are the halves of det_i, det_j and of their difference; the orbital lists are those of det_i"""
    def __init__(s, C, h, bra, ket):
        s.h, s.bra, s.ket = h, bra, ket; u = next(tm._fresh)
        s.occ_n = lambda S: app("occ_n!%d" % u, [S], "I"); s.occ_e = lambda S: app("occ_e!%d" % u, [S], asort("I"))
        C.ex.contracts["macis::bits_to_indices"] = s.b2i
    def b2i(s, ex, st, f, vals, this):
        r = Vec(s.occ_n(vals[0]), s.occ_e(vals[0]), U32); st.fact(ge(r.n, I0))
        if len(vals) > 1: ex.write(st, vals[1], r); return None
        return r
    def match(s, ex, st, ops, lists):
        ba, ka, xa, bb, kb, xb = ops
        I = roots(ba, s.bra); J = [j for j in roots(ka, s.ket)]
        for i in I:
            for j in J:
                b, k = select(s.bra, i), select(s.ket, j); (fa, fb), (ga, gb) = halves(s.h, b), halves(s.h, k)
                want = [(ba, fa), (ka, ga), (xa, lambda q: ne(fa(q), ga(q))), (bb, fb), (kb, gb), (xb, lambda q: ne(fb(q), gb(q)))]
                if all(is_set(ex, st, v, f) for v, f in want) and lists[0].e is s.occ_e(ba) and lists[1].e is s.occ_e(bb) and lists[0].n is s.occ_n(ba) and lists[1].n is s.occ_n(bb): return i, j
        raise Unsupported("pair routine called on operands that are not the halves of one bra, one ket and their difference")
def form(V, N, null):
    C = hctx(V, "%d-bit form_rdms%s" % (N, " (no two-particle matrix)" * null)); h = mats(C, N, null)
    nb, B, bl = wf(C, h, "bra"); nk, K, kl = wf(C, h, "ket"); w = fresh("C", asort("R")); wl = C.alloc(Vec(None, w, REAL), "C")
    P_ = Pairing(C, h, B, K); c1, c2 = fn("one", "R"), fn("two", "R")
    far = lambda i, j: gt(diff(h, select(B, i), select(K, j)), num(4))
    t1 = lambda i, j, *x: ite(far(i, j), R(0), c1(i, j, *x)); t2 = lambda i, j, *x: ite(far(i, j), R(0), c2(i, j, *x))
    def contrib(ex, st, f, vals, this):
        lists = [ex.read(st, v) for v in vals[6:8]]; i, j = P_.match(ex, st, vals[:6], lists)
        for s, l, k, t in ((vals[9], h.l1, 2, t1), (vals[10], h.l2, 4, t2)):
            p = s.f["p_"]
            if p.base is None: continue
            if p.base != l: raise Unsupported("contribution to an unknown matrix")
            for d in range(k): ex.oblige(st, "matrix extents of the contribution", eq(s.f["e%d_" % d], h.no), kind="pre")
            v = ex.read(st, l); x = [iv("a%d" % d) for d in range(k)]; e = add(sel(v.e, *x), mul(vals[8], t(i, j, *x)))
            for y in reversed(x): e = tm.lam(y, e)
            ex.write(st, l, Vec(v.n, e, v.ty, v.view))
    C.ex.contracts["macis::rdm_contributions"] = contrib
    g = V.fn("macis::DoubleLoopHamiltonianGenerator<%d>::form_rdms" % N)
    this = C.alloc(rec_obj(C, "macis::DoubleLoopHamiltonianGenerator<%d>" % N, {}), "ham")
    C.call(g, [Ptr(bl, I0), Ptr(bl, nb), Ptr(kl, I0), Ptr(kl, nk), Ptr(wl, I0), h.s1, h.s2], this)
    def tot(t): 
        def f(*x):
            i, j = iv("i"), iv("j"); v = mul(select(w, i), select(w, j)); av = ite(ge(v, R(0)), v, sub(R(0), v))
            on = and_(ne(bits(select(B, i), N), I0), ne(bits(select(K, j), N), I0), gt(av, num(Fraction(1e-16), "R")), not_(far(i, j)))
            return sum_(i, I0, nb, sum_(j, I0, nk, ite(on, mul(v, t(i, j, *x)), R(0))))
        return f
    post(C, h, tot(c1), tot(c2)); V.done(C)
