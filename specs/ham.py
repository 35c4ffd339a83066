"""shared helpers for the Hamiltonian generator (C14-C17, C25)"""
from orb import *
from c10 import ffs_contract, set_positions, ranks
from c12 import det, phase, dphase, flip, setctx
from c13 import half
from fractions import Fraction
U32 = ("int", 32, False)
HALF = num(Fraction(1, 2), "R")
def span(C, ty, p, exts):
    return Obj(ty, dict([("p_", p)] + [("e%d_" % k, exts[k] if k < len(exts) else I1) for k in range(4)]))
def span_t(r): return "macis_Kokkos::mdspan<double, macis_Kokkos::dextents<unsigned long, %d>>" % r
def g_(V): return lambda i, j, k, l: sub(sel(V, i, j, k, l), sel(V, i, l, k, j))
def lams(n, f, lo=None):
    v = [iv("q%d" % k) for k in range(n)]; b = f(*v)
    for x in reversed(v): b = tm.lam(x, b)
    return b
class H: pass
def defs(h):
    """the integral intermediates, as defined (C16 establishes them; nothing else writes them)"""
    G = g_(h.V0); h.G = G
    return {"G_pqrs": (4, G), "G_red": (3, lambda k, i, j: G(k, k, i, j)), "V_red": (3, lambda k, i, j: sel(h.V0, k, k, i, j)),
            "G2_red": (2, lambda i, j: mul(HALF, G(i, i, j, j))), "V2_red": (2, lambda i, j: sel(h.V0, i, i, j, j))}
def ham(C, N=64, cls="macis::HamiltonianGenerator", opaque=()):
    """a generator over norb orbitals whose intermediates match their definitions"""
    h = H(); h.N = N; h.S = N // 2; h.no = iv("norb"); no = h.no; C.assume(ge(no, I1), le(no, num(N // 2)))
    def buf(name, k, e=None):
        e = nested(name, k) if e is None else e
        l = C.alloc(Vec(None, e, REAL, X.View([no] * k)), name)
        return Ptr(l, I0), e, l
    f = {"norb_": no}
    p, h.T0, h.Tl = buf("T", 2); f["T_pq_"] = span(C, span_t(2), p, [no] * 2); h.Tspan = f["T_pq_"]
    p, h.V0, h.Vl = buf("V", 4); f["V_pqrs_"] = span(C, span_t(4), p, [no] * 4); h.Vspan = f["V_pqrs_"]
    for nm, (k, d) in defs(h).items():
        p, e, _ = buf(nm, k, None if nm in opaque else lams(k, d)); h.__dict__[nm] = e; f[nm + "_"] = span(C, span_t(k), p, [no] * k)
    q = "%s<%d>" % (cls, N); h.q = q
    h.obj = rec_obj(C, "macis::HamiltonianGenerator<%d>" % N, f); h.this = C.alloc(h.obj, "ham"); h.f = f
    return h
def M(V, h, name, pred=lambda f: True): return V.fn("macis::HamiltonianGenerator<%d>::%s" % (h.N, name), pred)
def occ(C, h, name):
    """an orbital list"""
    n = iv("n" + name); e = fresh(name, asort("I")); t = iv("t")
    C.assume(ge(n, I0), forall([t], implies(rng(I0, t, n), rng(I0, select(e, t), h.no)), [[select(e, t)]]))
    return Vec(n, e, U32), n, e
def lsum(n, e, f):
    t = iv("t"); return sum_(t, I0, n, f(select(e, t)))
class P: pass
def exc(C, h, n, name):
    """a bra and a ket of the same electron count that differ by n excitations; ket's orbital o_i is annihilated and v_i created"""
    p = P(); p.n = n; S = h.S
    p.ket = det(C, S, name + ".ket"); p.bra = det(C, S, name + ".bra"); p.ex = det(C, S, name + ".ex")
    p.o = [iv("%s.o%d" % (name, i)) for i in range(n)]; p.v = [iv("%s.v%d" % (name, i)) for i in range(n)]
    k = iv("k"); at = h.no
    C.assume(forall([k], implies(ge(k, at), and_(not_(select(p.ket, k)), not_(select(p.bra, k)))), [[select(p.ket, k)], [select(p.bra, k)]]))
    for x in p.o: C.assume(rng(I0, x, at), select(p.ket, x))
    for x in p.v: C.assume(rng(I0, x, at), not_(select(p.ket, x)))
    for l in (p.o, p.v):
        for x, y in zip(l, l[1:]): C.assume(lt(x, y))
    moved = or_(*[eq(k, x) for x in p.o + p.v]) if n else FALSE
    p.moved = lambda k: or_(*[eq(k, x) for x in p.o + p.v]) if n else FALSE
    C.assume(forall([k], eq(select(p.bra, k), ne(select(p.ket, k), moved)), [[select(p.bra, k)], [select(p.ket, k)]]), forall([k], eq(select(p.ex, k), moved), [[select(p.ex, k)]]))
    if n: C.assume(*[select(p.ex, x) for x in p.o + p.v], *[select(p.bra, x) for x in p.v], *[not_(select(p.bra, x)) for x in p.o])
    return p
def count_is(C, S, p):
    """lemma: the difference of n excitations has 2n set bits"""
    k = iv("k"); ind = sum_(k, I0, num(S), ite(select(p.ex, k), I1, I0))
    w = I0
    for x in p.o + p.v: w = add(w, ite(eq(k, x), I1, I0))
    C.lemma("a difference of %d excitations is a sum of %d indicators" % (p.n, 2 * p.n), forall([k], eq(ite(select(p.ex, k), I1, I0), w), [[select(p.ex, k)]]))
    C.induct("count of the difference", iv("b"), None, lambda v: eq(sum_(k, I0, v, ite(select(p.ex, k), I1, I0)), sum_(k, I0, v, w)), hi=num(S))
    o = C.lemma("a difference of %d excitations has %d set positions" % (p.n, 2 * p.n), eq(ind, num(2 * p.n)))
    def hook(ex, st, v, w):
        if w == S and o.status == "proved" and ex.known(st, forall([k], implies(rng(I0, k, num(S)), eq(select(v, k), select(p.ex, k))))): return num(2 * p.n)
    C.ex.count_hooks = tuple(C.ex.count_hooks) + (hook,)
def same(p, vals):
    k = iv("k")
    return forall([k], and_(*[eq(select(a, k), select(b, k)) for a, b in zip(vals, (p.bra, p.ket, p.ex))]))
def sidx_c(pairs):
    """contract of single_excitation_sign_indices (C12)"""
    def c(ex, st, f, vals, this):
        for p in pairs:
            if p.n == 1 and ex.known(st, same(p, vals)):
                return Obj("tuple", {"0": p.o[0], "1": p.v[0], "2": phase(p.ket, int(f.targs[0]), p.v[0], p.o[0])})
        raise Unsupported("single-excitation helper called on operands that are no single excitation")
    return c
def didx_c(pairs):
    """contract of doubles_sign_indices (C12)"""
    def c(ex, st, f, vals, this):
        for p in pairs:
            if p.n == 2 and ex.known(st, same(p, vals)):
                return Obj("tuple", {"0": p.o[0], "1": p.v[0], "2": p.o[1], "3": p.v[1], "4": dphase(p.ket, int(f.targs[0]), p.o, p.v)})
        raise Unsupported("double-excitation helper called on operands that are no double excitation")
    return c
def hctx(V, name, pairs=()):
    C = setctx(V, name); C.ex.unroll_max = 0
    C.ex.contracts["macis::bitset_lo_word"] = half(lambda N: 0); C.ex.contracts["macis::bitset_hi_word"] = half(lambda N: N // 2)
    C.pairs = list(pairs)
    C.ex.contracts["macis::single_excitation_sign_indices"] = sidx_c(C.pairs); C.ex.contracts["macis::doubles_sign_indices"] = didx_c(C.pairs)
    return C
def list_of(C, h, D, name):
    """ascending index list of the set D (contract of bits_to_indices, C10) and the lemma that its sums are sums over D"""
    S = h.S; Lr = ranks(C, D, S, name=name); t, k = iv("t"), iv("k"); e = fresh(name + ".occ", asort("I"))
    C.assume(forall([t], implies(rng(I0, t, Lr.total), and_(eq(select(e, t), Lr.rowat(t)), rng(I0, select(e, t), h.no), select(D, select(e, t)))), [[select(e, t)]]))
    C.lemma("a set position has its place in the list", forall([k], implies(and_(rng(I0, k, num(S)), select(D, k)), and_(rng(I0, Lr.start(k), Lr.total), eq(select(e, Lr.start(k)), k), eq(Lr.start(add(k, I1)), add(Lr.start(k), I1)))), [[Lr.start(k)]]))
    return Lr, e
def list_sum(C, h, D, Lr, e, f, ext=()):
    """lemma: sum over the list = sum over the set, for the summand f (universally in ext)"""
    S = h.S; t, k, b = iv("t"), iv("k"), iv("b")
    up = lambda v: sum_(t, I0, Lr.start(v), f(select(e, t)))
    C.lemma("a set position adds its summand", forall([k], implies(and_(rng(I0, k, num(S)), select(D, k), eq(Lr.start(add(k, I1)), add(Lr.start(k), I1))), eq(sum_(t, I0, add(Lr.start(k), I1), f(select(e, t))), add(up(k), f(k)))), [[Lr.start(k)]]))
    C.lemma("the list sum steps over one position", forall([k], implies(rng(I0, k, num(S)), eq(up(add(k, I1)), add(up(k), ite(select(D, k), f(k), R(0))))), [[Lr.start(k)]]))
    C.induct("partial sums agree", b, None, lambda v: eq(up(v), setsum(D, v, f)), hi=num(S))
    C.lemma("the list sum is the sum over the set", eq(sum_(t, I0, Lr.total, f(select(e, t))), setsum(D, num(S), f)))
def setsum(D, n, f):
    k = iv("k"); return sum_(k, I0, n, ite(select(D, k), f(k), R(0)))
