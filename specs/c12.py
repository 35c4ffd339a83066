from c10 import *
NOTE = "the single-excitation sign, the index helpers and the double-excitation sign for widths 32, 64 and 128, for every determinant, orbital pair and connected pair of determinants. A pair of equal orbitals is no excitation and is outside the contract. Determinants are sets of positions; full_mask and the first-set-bit search are used through the contracts that C10 proves at the bit level."
TU = "bits"
ASSUME = ["bitset::count is the number of set positions"]
BOUNDED = []
W = (32, 64, 128)
def jobs(V):
    r = []
    for N in W:
        r += [("single sign %d" % N, lambda N=N: single(V, N)), ("single indices %d" % N, lambda N=N: sidx(V, N)), ("double indices %d" % N, lambda N=N: didx(V, N)), ("double sign %d" % N, lambda N=N: dsign(V, N))]
    return r
def between(S, N, p, q):
    k = iv("k"); lo, hi = ite(lt(p, q), p, q), ite(lt(p, q), q, p)
    return sum_(k, I0, num(N), ite(and_(select(S, k), lt(p, k), lt(k, q)), I1, I0)), sum_(k, I0, num(N), ite(and_(select(S, k), lt(q, k), lt(k, p)), I1, I0))
def phase(S, N, p, q):
    """-1 to the number of electrons strictly between p and q"""
    a, b = between(S, N, p, q)
    sg = lambda c: ite(eq(tm.imod(c, num(2)), I0), num(1, "R"), num(-1, "R"))
    return ite(gt(p, q), sg(b), sg(a))
def full_mask_c(ex, st, f, vals, this):
    N = int(f.targs[0]); i = vals[0]
    ex.oblige(st, "full_mask argument within the width", le(i, num(N)), kind="pre")
    k = iv("k"); return tm.lam(k, rng(I0, k, i))
def setctx(V, name):
    C = ctx(V, name); C.ex.bits = "set"; C.ex.contracts["macis::full_mask"] = full_mask_c; return C
def det(C, N, name):
    S = fresh(name, asort("B")); set_positions(C, S, N); return S
def flip(S, *ks):
    for k in ks: S = store(S, k, not_(select(S, k)))
    return S
def single(V, N):
    C = setctx(V, "single_excitation_sign<%d>" % N); S = det(C, N, "state"); p, q = iv("p"), iv("q")
    C.assume(rng(I0, p, num(N)), rng(I0, q, num(N)), ne(p, q))
    r = C.call(byp(V, "single_excitation_sign", 3, N), [S, p, q])
    C.ensure("minus one to the number of electrons strictly between", eq(r, phase(S, N, p, q)))
    C.ensure("independent of direction", eq(phase(S, N, p, q), phase(S, N, q, p))); V.done(C)
def sign_c(N):
    def c(ex, st, f, vals, this):
        S, p, q = vals
        ex.oblige(st, "orbitals of an excitation are distinct and within the width", and_(rng(I0, p, num(N)), rng(I0, q, num(N)), ne(p, q)), kind="pre")
        return phase(S, N, p, q)
    return c
def pair(C, N, n):
    ket = det(C, N, "ket"); o = [iv("o%d" % i) for i in range(n)]; v = [iv("v%d" % i) for i in range(n)]
    for x in o: C.assume(rng(I0, x, num(N)), select(ket, x))
    for x in v: C.assume(rng(I0, x, num(N)), not_(select(ket, x)))
    for l in (o, v):
        for x, y in zip(l, l[1:]): C.assume(lt(x, y))
    bra = det(C, N, "bra"); ex = det(C, N, "ex"); k = iv("k")
    moved = or_(*[eq(k, x) for x in o + v])
    C.assume(forall([k], eq(select(bra, k), ne(select(ket, k), moved)), [[select(bra, k)], [select(ket, k)]]), forall([k], eq(select(ex, k), moved), [[select(ex, k)]]))
    C.assume(*[select(ex, x) for x in o + v], *[select(bra, x) for x in v], *[not_(select(bra, x)) for x in o])
    C.ex.contracts["macis::ffs"] = ffs_contract([lambda ex: o + v]); C.ex.contracts["macis::single_excitation_sign"] = sign_c(N)
    return bra, ket, ex, o, v
def tup(r): return [r.f[k] for k in sorted(r.f)] if isinstance(r, Obj) else list(r)
def sidx(V, N):
    C = setctx(V, "single_excitation_sign_indices<%d>" % N); bra, ket, ex, o, v = pair(C, N, 1)
    r = tup(C.call(byp(V, "single_excitation_sign_indices", 3, N), [bra, ket, ex]))
    C.ensure("the annihilated orbital", eq(r[0], o[0])); C.ensure("the created orbital", eq(r[1], v[0])); C.ensure("the phase of the excitation", eq(r[2], phase(ket, N, v[0], o[0]))); V.done(C)
def dphase(ket, N, o, v):
    return mul(phase(ket, N, v[0], o[0]), phase(flip(ket, o[0], v[0]), N, v[1], o[1]))
def didx(V, N):
    C = setctx(V, "doubles_sign_indices<%d>" % N); bra, ket, ex, o, v = pair(C, N, 2)
    r = tup(C.call(byp(V, "doubles_sign_indices", 3, N), [bra, ket, ex]))
    for k, (n, w) in enumerate([("first annihilated", o[0]), ("first created", v[0]), ("second annihilated", o[1]), ("second created", v[1])]): C.ensure("the %s orbital" % n, eq(r[k], w))
    C.ensure("the product of the successive single phases", eq(r[4], dphase(ket, N, o, v))); V.done(C)
def dsign(V, N):
    C = setctx(V, "doubles_sign<%d>" % N); bra, ket, ex, o, v = pair(C, N, 2)
    r = C.call(byp(V, "doubles_sign", 3, N), [bra, ket, ex])
    C.ensure("the product of the successive single phases", eq(r, dphase(ket, N, o, v))); V.done(C)
