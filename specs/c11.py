from c12 import *
from c13 import half
import itertools
NOTE = "the occupied/virtual split and the spin-orbital generators for widths 32, 64 and 128, the spin-resolved generators and the CIS/CISD lists for widths 64 and 128: every position of a returned list is described (which electrons moved), every admissible move has its position, and any two positions hold different determinants. bits_to_indices, first-set-bit, half words and width changes are used through the contracts that C10 proves; the split and the generators are used by their callers through the contracts proved here. The active-space (_as) variants are decided by the same contracts. generate_combs and generate_hilbert_space list every combination of the requested weight once; the two-argument reference determinant is proved."
TU = "bits"
ASSUME = ["vector sizes and products of list lengths fit size_t", "std::prev_permutation, started from the descending arrangement, walks through every arrangement of the vector exactly once and then reports the end"]
BOUNDED = ["generate_residues, and canonical_hf_determinant by orbital energies, are only sampled by harness/c11.cpp"]
W = (32, 64, 128)
SPIN = ("generate_singles_spin", "generate_singles_doubles_spin", "generate_singles_spin_as", "generate_singles_doubles_spin_as")
GENS = ("generate_singles", "generate_doubles", "generate_singles_doubles", "generate_singles_as", "generate_singles_doubles_as")
def jobs(V):
    r = []
    for N in W:
        r += [("split %d" % N, lambda N=N: split(V, N)), ("singles %d" % N, lambda N=N: singles(V, N)), ("doubles %d" % N, lambda N=N: doubles(V, N)), ("split in active space %d" % N, lambda N=N: split_as(V, N))] + [("%s %d" % (g, N), lambda N=N, g=g: gens(V, N, g)) for g in GENS]
        if N > 32: r += [("%s %d" % (g, N), lambda N=N, g=g: spin(V, N, g)) for g in SPIN] + [("%s %d%s" % (g, N, t), lambda N=N, g=g, t=t: space(V, N, g, t)) for g in ("cis", "cisd") for t in ("", " (returned)")]
        r += [("reference determinant %d" % N, lambda N=N: hf(V, N))] if N > 32 else []
        r += [("combinations %d" % N, lambda N=N: combs(V, N)), ("hilbert space %d" % N, lambda N=N: hilbert(V, N))] if N > 32 else []
    return r
class Lst: pass
def ads(*xs):
    r = I0
    for x in xs: r = add(r, x)
    return r
def lists(C, S, norb):
    """the set and the unset positions below norb, in order"""
    h = Lst(); h.norb = norb
    k = iv("k")
    h.o = row_layout(C, norb, lambda k: ite(select(S, k), I1, I0), name="occ"); h.v = row_layout(C, norb, lambda k: ite(select(S, k), I0, I1), name="vir")
    C.induct("every orbital is in one of the lists", k, I0, lambda u: eq(add(h.o.start(u), h.v.start(u)), u), hi=norb, pats=[[h.o.start(k)], [h.v.start(k)]])
    h.no, h.nv = h.o.total, h.v.total; q = iv("q")
    for nm, L, m in (("occupied", h.o, lambda x: select(S, x)), ("virtual", h.v, lambda x: not_(select(S, x)))):
        C.lemma("the %s orbitals, in order" % nm, forall([q], implies(rng(I0, q, L.total), and_(rng(I0, L.rowat(q), norb), m(L.rowat(q)), eq(L.start(L.rowat(q)), q))), [[L.rowat(q)]]))
    return h
def state(C, N, norb=None, name="state"):
    S = det(C, N, name); k = iv("k")
    if norb is None: norb = iv("norb")
    C.assume(ge(norb, I0), le(norb, num(N)), forall([k], implies(ge(k, norb), not_(select(S, k))), [[select(S, k)]]))
    return S, norb
def same(ex, st, v, S, what):
    """operand of a contract call is the expected determinant"""
    if ex.dry: return
    k = iv("k"); ex.oblige(st, what, eq(v, S) if v == S else forall([k], eq(select(v, k), select(S, k))), kind="pre")
def split(V, N):
    C = setctx(V, "bitset_to_occ_vir<%d>" % N); C.ex.unroll_max = 0
    S, norb = state(C, N); h = lists(C, S, norb)
    def b2i(ex, st, f, vals, this):
        same(ex, st, vals[0], S, "the state is split into its set positions"); e = fresh("set", asort("I")); q = iv("q")
        st.fact(forall([q], implies(rng(I0, q, h.no), eq(select(e, q), h.o.rowat(q))), [[select(e, q)]]))
        return Vec(h.no, e, ("int", 32, False))
    C.ex.contracts["macis::bits_to_indices"] = b2i
    at = lambda ex: [h.v.rowat(c) for Lp in ex.loopstack for c in counters(ex, Lp)]
    C.ex.contracts["macis::ffs"] = ffs_contract([at])
    def cand(ex, Lp):
        out = []; k, q = iv("k"), iv("q")
        for B in counters(ex, Lp):
            for l in Lp.leaves:
                if l.hv.sort == asort("B"): out.append(forall([k], implies(rng(I0, k, num(N)), eq(select(l.hv, k), and_(not_(select(S, k)), or_(ge(k, norb), ge(h.v.start(k), B))))), [[select(l.hv, k)]]))
                if l.hv.sort == asort("I"): out.append(forall([q], implies(rng(I0, q, B), eq(select(l.hv, q), h.v.rowat(q)))))
        return out
    C.ex.cand_gens.append(cand)
    o, v = (C.alloc(C.vec(n, iv("n0"), ("int", 32, False)), n) for n in ("occ", "vir"))
    C.call(byp(V, "bitset_to_occ_vir", 4, N), [norb, S, o, v])
    for nm, loc, L, m in (("occupied", o, h.o, lambda x: select(S, x)), ("virtual", v, h.v, lambda x: not_(select(S, x)))):
        R = C.ex.read(C.st, loc); q, p, k = iv("q"), iv("p"), iv("k")
        C.ensure("one entry per %s orbital" % nm, eq(R.n, L.total))
        C.ensure("%s entries are %s orbitals" % (nm, nm), forall([q], implies(rng(I0, q, R.n), and_(rng(I0, select(R.e, q), norb), m(select(R.e, q))))))
        C.ensure("every %s orbital is listed" % nm, forall([k], implies(and_(rng(I0, k, norb), m(k), touch(L.start(k), L.start(add(k, I1)), L.rowat(L.start(k)))), and_(rng(I0, L.start(k), R.n), eq(select(R.e, L.start(k)), k)))))
        C.ensure("%s orbitals ascend" % nm, forall([p, q], implies(and_(le(I0, p), lt(p, q), lt(q, R.n), touch(L.start(L.rowat(p)), L.start(L.rowat(q)), L.start(add(L.rowat(q), I1)))), lt(select(R.e, p), select(R.e, q)))))
    V.done(C)
U32 = ("int", 32, False)
def orbs(C, S, N, name, mem):
    """a list of distinct orbitals, all occupied or all virtual"""
    n = iv("n" + name); e = fresh(name, asort("I")); p, q = iv("p"), iv("q")
    C.assume(ge(n, I0), forall([p], implies(rng(I0, p, n), and_(rng(I0, select(e, p), num(N)), mem(select(e, p)))), [[select(e, p)]]),
             forall([p, q], implies(and_(rng(I0, p, n), rng(I0, q, n), eq(select(e, p), select(e, q))), eq(p, q)), [[select(e, p), select(e, q)]]))
    return n, e
def moved(S, k, *ks): return ne(select(S, k), or_(*[eq(k, x) for x in ks]))
def lists2(C, S, N):
    no, oe = orbs(C, S, N, "occ", lambda x: select(S, x)); nv, ve = orbs(C, S, N, "vir", lambda x: not_(select(S, x)))
    p, q = iv("p"), iv("q")
    C.lemma("an occupied orbital is not virtual", forall([p, q], implies(and_(rng(I0, p, no), rng(I0, q, nv)), ne(select(oe, p), select(ve, q))), [[select(oe, p), select(ve, q)]]))
    return no, oe, nv, ve
def bsvec(C, name, N): return C.alloc(Vec(iv("n0"), fresh(name, asort(asort("B"))), ("bitset", N)), name)
def steps(O): return [l.hv for l in O.leaves if l.hv.sort == "I" and l.step == {1} and l.role != "n"]
def pairs(C, no, nv):
    """places of the (virtual, occupied) pairs in the order the loops visit them"""
    h = Lst(); h.L = L = sublayout(C, "by a", 0, lambda: I0, lambda: nv, lambda a: no, lambda: TRUE); h.total = L.total(); h.fa, h.fi = fn("at.a"), fn("at.i"); p, a, i = iv("p"), iv("a"), iv("i")
    for f, d in ((h.fa, L.row(p)), (h.fi, sub(p, L.start(h.fa(p))))): C.axiom(forall([p], eq(f(p), d), [[f(p)]]))
    h.pos = lambda a, i: add(L.start(a), i); inp = rng(I0, p, h.total)
    C.lemma("every place has a virtual and an occupied orbital", forall([p], implies(and_(inp, touch(L.start(add(L.row(p), I1)))), and_(rng(I0, h.fa(p), nv), rng(I0, h.fi(p), no))), [[h.fa(p)]]))
    here = and_(rng(I0, a, nv), rng(L.start(a), p, add(L.start(a), no))); f = and_(rng(I0, p, h.total), eq(h.fa(p), a), eq(h.fi(p), sub(p, L.start(a))))
    C.lemma("the places of a run have its orbitals", forall([a, p], implies(and_(here, touch(L.start(add(a, I1)), h.fa(p), L.start(add(L.row(p), I1)))), f)), use=False); C.axiom(forall([a, p], implies(here, f), [[L.start(a), h.fa(p)]]))
    return h
def single_facts(S, no, oe, nv, ve, h, n, E):
    """the contract of append_singles"""
    a, i, k, p, q = (iv(x) for x in "aikpq"); o, v = (lambda p: select(oe, h.fi(p))), (lambda p: select(ve, h.fa(p))); P_ = h.pos(a, i); here = and_(rng(I0, a, nv), rng(I0, i, no), touch(h.fa(P_)))
    D = lambda p, k: eq(sel(E, p, k), moved(S, k, o(p), v(p))); one = and_(rng(I0, p, n), rng(I0, q, n)); fs = (h.fa, h.fi)
    return [("one entry per pair", eq(n, h.total)),
            ("every entry moves one electron", forall([p, k], implies(rng(I0, p, n), D(p, k)), [[sel(E, p, k)]])),
            ("every move has a place", forall([a, i], implies(here, and_(rng(I0, P_, n), eq(h.fa(P_), a), eq(h.fi(P_), i))), [[h.L.start(a), select(oe, i)]])),
            ("the same electron is moved at one place only", forall([p, q], implies(and_(one, *[eq(f(p), f(q)) for f in fs]), eq(p, q)), [[h.fi(p), h.fi(q)]])),
            ("entries of different electrons differ", forall([p, q], implies(and_(one, *[eq(sel(E, p, x), sel(E, q, x)) for x in (o(p), v(p), o(q), v(q))]), and_(*[eq(f(p), f(q)) for f in fs])), [[h.fi(p), h.fi(q)]]))]
def double_facts(S, no, oe, nv, ve, h, n, E):
    """the contract of append_doubles"""
    p, q, k = iv("p"), iv("q"), iv("k"); a, i, b, j = h.vars; P_ = h.pos(*h.vars); fs = (h.fa, h.fi, h.fb, h.fj)
    t = lambda p: (select(oe, h.fi(p)), select(ve, h.fa(p)), select(oe, h.fj(p)), select(ve, h.fb(p))); one = and_(rng(I0, p, n), rng(I0, q, n))
    here = and_(h.tup, touch(h.L3.start(a, i, b), h.fa(P_), h.fi(P_), h.fb(P_), h.fj(P_)))
    return [("one entry per pair of pairs", eq(n, h.total)),
            ("every entry moves two electrons", forall([p, k], implies(rng(I0, p, n), eq(sel(E, p, k), moved(S, k, *t(p)))), [[sel(E, p, k)]])),
            ("every move has a place", forall([a, i, b, j], implies(here, and_(rng(I0, P_, n), eq(h.fa(P_), a), eq(h.fi(P_), i), eq(h.fb(P_), b), eq(h.fj(P_), j))), [[h.L3.start(a, i, b), select(oe, j)]])),
            ("the same electrons are moved at one place only", forall([p, q], implies(and_(one, *[eq(f(p), f(q)) for f in fs]), eq(p, q)), [[h.fj(p), h.fj(q)]])),
            ("entries of different electrons differ", forall([p, q], implies(and_(one, *[eq(sel(E, p, x), sel(E, q, x)) for x in t(p) + t(q)]), and_(*[eq(f(p), f(q)) for f in fs])), [[h.fj(p), h.fj(q)]]))]
def singles(V, N):
    C = setctx(V, "append_singles<%d>" % N); C.ex.unroll_max = 0; S = det(C, N, "state"); no, oe, nv, ve = lists2(C, S, N)
    h = pairs(C, no, nv); k, p = iv("k"), iv("p"); L = h.L
    def cand(ex, Lp):
        out = []; mine = steps(Lp); outer = [x for O in Lp.outer for x in steps(O)]; at = [L.start(i) for i in mine] + [add(L.start(i), j) for i in outer for j in mine]
        for l in Lp.leaves:
            if l.hv.sort == "I" and l.role == "n": out += [eq(l.hv, x) for x in at]
            if l.hv.sort == asort(asort("B")):
                for n in at: out.append(forall([p, k], implies(rng(I0, p, n), eq(sel(l.hv, p, k), moved(S, k, select(oe, h.fi(p)), select(ve, h.fa(p))))), [[sel(l.hv, p, k)]]))
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 4000
    out = bsvec(C, "singles", N)
    C.call(byp(V, "append_singles", 4, N), [S, C.alloc(Vec(no, oe, U32), "occ"), C.alloc(Vec(nv, ve, U32), "vir"), out])
    R = C.ex.read(C.st, out)
    for nm, f in single_facts(S, no, oe, nv, ve, h, R.n, R.e): C.ensure(nm, f)
    V.done(C)
def sublayout(C, name, np, lo, hi, cnt, dom):
    """one layout per parameter tuple: start(.., lo) = 0, start(.., r+1) = start(.., r) + cnt(.., r); row(.., o) = the r that offset o falls into"""
    S, R_ = fn(name + ".start"), fn(name + ".row"); ps = [iv("a%d" % i) for i in range(np)]; r, o, u, w = iv("r"), iv("o"), iv("u"), iv("w")
    L = Lst(); L.start, L.row = S, R_; L.total = lambda *a: S(*a, hi(*a)); s = lambda x: S(*ps, x); d = dom(*ps); q = lambda vs, f, pats: C.axiom(forall(ps + vs, implies(d, f), pats))
    q([], implies(le(lo(*ps), hi(*ps)), eq(s(lo(*ps)), I0)), [[s(hi(*ps))]]); q([r], implies(eq(r, lo(*ps)), eq(s(r), I0)), [[s(r)]])
    q([r, u], implies(and_(rng(lo(*ps), r, hi(*ps)), eq(u, add(r, I1))), eq(s(u), add(s(r), cnt(*ps, r)))), [[s(r), s(u)]])
    C.lemma("%s: counts are not negative" % name, forall(ps + [r], implies(and_(d, rng(lo(*ps), r, hi(*ps))), ge(cnt(*ps, r), I0)), [[s(r)]]))
    C.induct("%s: starts ascend" % name, u, w, lambda v: implies(and_(d, le(lo(*ps), w), le(w, hi(*ps))), le(s(w), s(v))), hi=hi(*ps)); C.ex.axioms.pop()
    q([w, u], implies(and_(le(lo(*ps), w), le(w, u), le(u, hi(*ps))), le(s(w), s(u))), [[s(w), s(u)]])
    C.lemma("%s: starts are not negative" % name, forall(ps + [r], implies(and_(d, le(lo(*ps), r), le(r, hi(*ps)), touch(s(lo(*ps)))), ge(s(r), I0)), [[s(r)]]))
    q([o], implies(rng(I0, o, L.total(*ps)), and_(rng(lo(*ps), R_(*ps, o), hi(*ps)), le(s(R_(*ps, o)), o), lt(o, s(add(R_(*ps, o), I1))))), [[R_(*ps, o)]])
    return L
def quads(C, no, nv):
    """positions of the tuples (a < b virtual, i < j occupied) in the order the nested loops visit them"""
    h = Lst(); ina = lambda a: rng(I0, a, nv)
    h.L3 = sublayout(C, "by b", 2, lambda a, i: add(a, I1), lambda a, i: nv, lambda a, i, b: sub(sub(no, i), I1), lambda a, i: and_(ina(a), rng(I0, i, no)))
    h.L2 = sublayout(C, "by i", 1, lambda a: I0, lambda a: no, lambda a, i: h.L3.total(a, i), lambda a: ina(a))
    h.L1 = sublayout(C, "by a", 0, lambda: I0, lambda: nv, lambda a: h.L2.total(a), lambda: TRUE); h.total = h.L1.total()
    h.fa, h.fi, h.fb, h.fj = (fn("at." + x) for x in "aibj"); p = iv("p"); a = h.L1.row(p); s1 = sub(p, h.L1.start(h.fa(p))); s2 = sub(s1, h.L2.start(h.fa(p), h.fi(p))); s3 = sub(s2, h.L3.start(h.fa(p), h.fi(p), h.fb(p)))
    defs = [(h.fa, a), (h.fi, h.L2.row(h.fa(p), s1)), (h.fb, h.L3.row(h.fa(p), h.fi(p), s2)), (h.fj, ads(h.fi(p), I1, s3))]
    for f, d in defs: C.axiom(forall([p], eq(f(p), d), [[f(p)]]))
    h.pos = lambda a, i, b, j: ads(h.L1.start(a), h.L2.start(a, i), h.L3.start(a, i, b), sub(sub(j, i), I1))
    inp = rng(I0, p, h.total); a, i, b, j = (iv(x) for x in "aibj"); st = (h.L1.start(a), h.L2.start(a, i), h.L3.start(a, i, b)); P_ = h.pos(a, i, b, j)
    C.lemma("every place has a first virtual", forall([p], implies(inp, rng(I0, h.fa(p), nv)), [[h.fa(p)]]))
    C.lemma("every place has a first occupied", forall([p], implies(and_(inp, touch(h.fa(p))), rng(I0, h.fi(p), no)), [[h.fi(p)]]))
    C.lemma("every place has a second virtual", forall([p], implies(and_(inp, touch(h.fa(p), h.fi(p))), and_(lt(h.fa(p), h.fb(p)), lt(h.fb(p), nv))), [[h.fb(p)]]))
    C.lemma("every place has a second occupied", forall([p], implies(and_(inp, touch(h.fa(p), h.fi(p), h.fb(p))), and_(lt(h.fi(p), h.fj(p)), lt(h.fj(p), no))), [[h.fj(p)]]))
    h.tup = and_(ina(a), rng(I0, i, no), lt(a, b), lt(b, nv), lt(i, j), lt(j, no)); h.vars = (a, i, b, j); v = [a, i, b, p]
    base = ads(*st); here = and_(ina(a), rng(I0, i, no), lt(a, b), lt(b, nv), rng(base, p, add(base, sub(sub(no, i), I1))))
    more = touch(h.L3.start(a, i, add(b, I1)), h.L3.total(a, i), h.L2.start(a, add(i, I1)), h.L2.total(a), h.L1.start(add(a, I1)))
    def lem(nm, f, h_=()):
        C.lemma(nm, forall(v, implies(and_(here, more, touch(*h_)), f)), use=False); C.axiom(forall(v, implies(here, f), [[st[2], h.fa(p)]]))
    lem("a run of places is inside its part", and_(rng(I0, sub(p, add(st[0], st[1])), h.L3.total(a, i)), rng(I0, sub(p, st[0]), h.L2.total(a)), rng(I0, p, h.total)))
    lem("the places of a run have its first virtual", eq(h.fa(p), a), [h.L1.row(p), h.L1.start(add(h.L1.row(p), I1))])
    lem("the places of a run have its first occupied", eq(h.fi(p), i), [h.fa(p), h.fi(p), h.L2.start(a, add(h.fi(p), I1))])
    lem("the places of a run have its second virtual", eq(h.fb(p), b), [h.fa(p), h.fi(p), h.fb(p), h.L3.start(a, i, add(h.fb(p), I1))])
    lem("the places of a run have its second occupied", eq(h.fj(p), add(sub(p, base), add(i, I1))), [h.fa(p), h.fi(p), h.fb(p), h.fj(p)])
    return h
def doubles(V, N):
    C = setctx(V, "append_doubles<%d>" % N); C.ex.unroll_max = 0; S = det(C, N, "state"); no, oe, nv, ve = lists2(C, S, N)
    h = quads(C, no, nv); k, p, q = iv("k"), iv("p"), iv("q")
    t = lambda p: (select(oe, h.fi(p)), select(ve, h.fa(p)), select(oe, h.fj(p)), select(ve, h.fb(p)))
    D = fn("moved", "B"); C.axiom(forall([p, k], eq(D(p, k), moved(S, k, *t(p))), [[D(p, k)]]))
    def cand(ex, Lp):
        out = []; chain = [[x for x in steps(O)] for O in Lp.outer] + [steps(Lp)]; at = []
        for c in itertools.product(*chain):
            if len(c) == 1: at.append(h.L1.start(*c))
            if len(c) == 2: at.append(add(h.L1.start(c[0]), h.L2.start(*c)))
            if len(c) == 3: at.append(ads(h.L1.start(c[0]), h.L2.start(*c[:2]), h.L3.start(*c)))
            if len(c) == 4: at.append(h.pos(*c))
        for l in Lp.leaves:
            if l.hv.sort == "I" and l.role == "n": out += [eq(l.hv, x) for x in at]
            if l.hv.sort == asort(asort("B")):
                for n in at: out.append(forall([p, k], implies(rng(I0, p, n), eq(sel(l.hv, p, k), D(p, k))), [[sel(l.hv, p, k)]]))
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 4000
    out = bsvec(C, "doubles", N)
    C.call(byp(V, "append_doubles", 4, N), [S, C.alloc(Vec(no, oe, U32), "occ"), C.alloc(Vec(nv, ve, U32), "vir"), out])
    R = C.ex.read(C.st, out)
    for nm, f in double_facts(S, no, oe, nv, ve, h, R.n, R.e): C.ensure(nm, f)
    V.done(C)

def split_as(V, N):
    C = setctx(V, "bitset_to_occ_vir_as<%d>" % N); C.ex.unroll_max = 0; S = det(C, N, "state"); m, ae = orbs(C, S, N, "orbs", lambda x: TRUE); norb = iv("norb"); C.assume(ge(norb, m))
    out = []; t, q, p = iv("t"), iv("q"), iv("p")
    for nm, mem in (("occ", lambda x: select(S, x)), ("vir", lambda x: not_(select(S, x)))):
        L = sublayout(C, nm, 0, lambda: I0, lambda: m, lambda t, mem=mem: ite(mem(select(ae, t)), I1, I0), lambda: TRUE); out.append((nm, L, mem))
        C.lemma("the %s members, in order" % nm, forall([q], implies(and_(rng(I0, q, L.total()), touch(L.start(L.row(q)), L.start(add(L.row(q), I1)))), and_(rng(I0, L.row(q), m), mem(select(ae, L.row(q))), eq(L.start(L.row(q)), q))), [[L.row(q)]]))
        f = lambda *x: forall([t], implies(and_(rng(I0, t, m), mem(select(ae, t)), *x), rng(I0, L.start(t), L.total())), [] if x else [[L.start(t)]])
        C.lemma("the %s members have a place" % nm, f(touch(L.start(add(t, I1)))), use=False); C.axiom(f())
    C.induct("every member is in one of the lists", t, I0, lambda u: eq(add(out[0][1].start(u), out[1][1].start(u)), u), hi=m, pats=[[out[0][1].start(t)], [out[1][1].start(t)]])
    def cand(ex, Lp):
        r = []
        for B in steps(Lp) + counters(ex, Lp):
            for l in Lp.leaves:
                for nm, L, mem in out:
                    if l.hv.sort == "I" and l.hv is not B: r.append(eq(l.hv, L.start(B)))
                    if l.hv.sort == asort("I"): r.append(forall([q], implies(rng(I0, q, L.start(B)), eq(select(l.hv, q), select(ae, L.row(q)))), [[select(l.hv, q)]]))
        return r
    C.ex.cand_gens.append(cand)
    o, v = (C.alloc(C.vec(n, iv("n0"), U32), n) for n in ("occ", "vir"))
    C.call(byp(V, "bitset_to_occ_vir_as", 5, N), [norb, S, o, v, C.alloc(Vec(m, ae, U32), "as_orbs")])
    for loc, (nm, L, mem) in zip((o, v), out):
        R = C.ex.read(C.st, loc)
        C.ensure("one entry per %s member" % nm, eq(R.n, L.total()))
        C.ensure("%s entries are members" % nm, forall([q], implies(rng(I0, q, R.n), and_(rng(I0, select(R.e, q), num(N)), mem(select(R.e, q)), eq(select(R.e, q), select(ae, L.row(q)))))))
        C.ensure("every %s member is listed" % nm, forall([t], implies(and_(rng(I0, t, m), mem(select(ae, t)), touch(L.start(t), L.start(add(t, I1)), L.row(L.start(t)), L.start(L.row(L.start(t))), L.start(add(L.row(L.start(t)), I1)))), and_(rng(I0, L.start(t), R.n), eq(select(R.e, L.start(t)), select(ae, t))))))
        C.ensure("no %s member is listed twice" % nm, forall([p, q], implies(and_(rng(I0, p, R.n), rng(I0, q, R.n), eq(select(R.e, p), select(R.e, q))), eq(p, q))))
    V.done(C)

# ---------------------------------------------------------------- callers of the split and of the two generators
def facts(st, l):
    for nm, f in l: st.fact(f)
def listed(st, S, h, lists, dom):
    """contract of the split: the lists of the expected determinant, every orbital of the range in its list"""
    no, oe, nv, ve = lists; k = iv("k")
    for n, e, rk, mem in ((no, oe, h.ro, lambda x: select(S, x)), (nv, ve, h.rv, lambda x: not_(select(S, x)))):
        st.fact(forall([k], implies(and_(dom(k), mem(k)), and_(rng(I0, rk(k), n), eq(select(e, rk(k)), k))), [[rk(k)]])); st.fact(forall([k], implies(rng(I0, k, n), dom(select(e, k))), [[select(e, k)]]))
def veq(ex, st, v, n, e, what):
    if ex.dry: return
    q = iv("q"); same_ = v.e == e
    ex.oblige(st, what, and_(eq(v.n, n), TRUE if same_ else forall([q], implies(rng(I0, q, n), eq(select(v.e, q), select(e, q))))), kind="pre")
def gctx(C, V, S, N, norb, aorb=None):
    """contracts of the split and of append_singles / append_doubles for the determinant S"""
    h = Lst(); h.lists = no, oe, nv, ve = lists2(C, S, N); h.ro, h.rv = fn("rank.occ"), fn("rank.vir"); h.p1, h.p2 = pairs(C, no, nv), quads(C, no, nv)
    h.dom = (lambda k: rng(I0, k, norb)) if aorb is None else aorb[2]
    def split_c(ex, st, f, vals, this):
        same(ex, st, vals[1], S, "the lists are those of the reference")
        if not ex.dry:
            if aorb is None: ex.oblige(st, "orbital count of the reference", eq(vals[0], norb), kind="pre")
            else: veq(ex, st, ex.read(st, vals[4]), aorb[0], aorb[1], "the active orbitals"); ex.oblige(st, "no more members than orbitals", ge(vals[0], aorb[0]), kind="pre")
        ex.write(st, vals[2], Vec(no, oe, U32)); ex.write(st, vals[3], Vec(nv, ve, U32)); listed(st, S, h, h.lists, h.dom)
        return None
    C.ex.contracts["macis::bitset_to_occ_vir" + ("" if aorb is None else "_as")] = split_c
    def app_c(fac, p):
        def c(ex, st, f, vals, this):
            same(ex, st, vals[0], S, "excitations are those of the reference")
            for v, (n, e), w in ((vals[1], (no, oe), "occupied"), (vals[2], (nv, ve), "virtual")): veq(ex, st, ex.read(st, v), n, e, "the %s orbitals of the reference" % w)
            n, e = fresh("n", "I"), fresh("list", asort(asort("B"))); st.fact(ge(n, I0)); facts(st, fac(S, no, oe, nv, ve, p, n, e)); ex.write(st, vals[3], Vec(n, e, ("bitset", N)))
        return c
    C.ex.contracts["macis::append_singles"] = app_c(single_facts, h.p1); C.ex.contracts["macis::append_doubles"] = app_c(double_facts, h.p2)
    return h
def single_moves(C, S, W, n, E):
    """in terms of orbitals: what a list of single excitations holds (W: the witnesses)"""
    o, v, p, q, k = (iv(x) for x in "ovpqk"); fo, fv = W.t; P_ = W.pos(o, v)
    move = and_(W.dom(o), select(S, o), W.dom(v), not_(select(S, v)))
    return [("every entry moves one electron", forall([p, k], implies(rng(I0, p, n), and_(W.dom(fo(p)), W.dom(fv(p)), select(S, fo(p)), not_(select(S, fv(p))), eq(sel(E, p, k), moved(S, k, fo(p), fv(p))))), [[sel(E, p, k)]])),
            ("every move is listed", forall([o, v, k], implies(and_(move, W.touch1(o, v)), and_(rng(I0, P_, n), eq(sel(E, P_, k), moved(S, k, o, v)))), W.pat1(o, v, k))),
            ("each once", forall([p, q], implies(and_(rng(I0, p, n), rng(I0, q, n), *[eq(sel(E, p, x), sel(E, q, x)) for x in (fo(p), fv(p), fo(q), fv(q))]), eq(p, q)), W.patd(p, q)))]
def double_moves(C, S, W, n, E):
    o, v, o2, v2, p, q, k = (iv(x) for x in ("o", "v", "o2", "v2", "p", "q", "k")); t = lambda p: [f(p) for f in W.t]; P_ = W.pos(o, v, o2, v2)
    move = and_(*[x for y in (o, o2) for x in (W.dom(y), select(S, y))], *[x for y in (v, v2) for x in (W.dom(y), not_(select(S, y)))], ne(o, o2), ne(v, v2))
    return [("every entry moves two electrons", forall([p, k], implies(rng(I0, p, n), and_(*[W.dom(x) for x in t(p)], *[f for x in (0, 2) for f in (select(S, t(p)[x]), not_(select(S, t(p)[x + 1])))], ne(t(p)[0], t(p)[2]), ne(t(p)[1], t(p)[3]), eq(sel(E, p, k), moved(S, k, *t(p))))), [[sel(E, p, k)]])),
            ("every move is listed", forall([o, v, o2, v2, k], implies(and_(move, W.touch1(o, v, o2, v2)), and_(rng(I0, P_, n), eq(sel(E, P_, k), moved(S, k, o, v, o2, v2)))), W.pat1(o, v, o2, v2, k))),
            ("each once", forall([p, q], implies(and_(rng(I0, p, n), rng(I0, q, n), *[eq(sel(E, p, x), sel(E, q, x)) for x in t(p) + t(q)]), eq(p, q)), W.patd(p, q)))]
def wit1(h):
    no, oe, nv, ve = h.lists; W = Lst(); H1 = h.p1; W.dom = h.dom; W.t = (lambda p: select(oe, H1.fi(p))), (lambda p: select(ve, H1.fa(p))); W.pos = lambda o, v: H1.pos(h.rv(v), h.ro(o))
    W.touch1 = lambda o, v: touch(H1.L.start(h.rv(v)), select(oe, h.ro(o)), select(ve, h.rv(v)), H1.fa(W.pos(o, v)), H1.fi(W.pos(o, v))); W.pat1 = lambda *a: (); W.patd = lambda p, q: [[H1.fi(p), H1.fi(q)]]
    return W
def wit2(h):
    no, oe, nv, ve = h.lists; W = Lst(); H2 = h.p2; W.dom = h.dom; W.t = (lambda p: select(oe, H2.fi(p))), (lambda p: select(ve, H2.fa(p))), (lambda p: select(oe, H2.fj(p))), (lambda p: select(ve, H2.fb(p)))
    lo, hi = lambda r, a, b: ite(lt(r(a), r(b)), r(a), r(b)), lambda r, a, b: ite(lt(r(a), r(b)), r(b), r(a))
    T_ = lambda o, v, o2, v2: (lo(h.rv, v, v2), lo(h.ro, o, o2), hi(h.rv, v, v2), hi(h.ro, o, o2)); W.pos = lambda *m: H2.pos(*T_(*m))
    def t1(*m):
        a, i, b, j = T_(*m); P_ = H2.pos(a, i, b, j); return touch(H2.L3.start(a, i, b), select(oe, i), select(oe, j), select(ve, a), select(ve, b), H2.fa(P_), H2.fi(P_), H2.fb(P_), H2.fj(P_))
    W.touch1 = t1; W.pat1 = lambda *a: (); W.patd = lambda p, q: [[H2.fj(p), H2.fj(q)]]
    return W
def abstract(dom, k, S):
    """the same contract with its witnesses left open (for callers)"""
    W = Lst(); W.dom = dom; W.t = [fn("el%d" % x) for x in range(2 * k)]; W.pos = fn("at"); W.touch1 = lambda *a: TRUE; W.pat1 = lambda *a: [[W.pos(*a[:-1]), select(S, a[-1])]]; W.patd = lambda p, q: [[W.t[0](p), W.t[0](q)]]
    return W
def gens(V, N, name):
    as_ = name.endswith("_as"); C = setctx(V, "%s<%d>" % (name, N)); C.ex.unroll_max = 0; aorb = None
    if as_:
        S = det(C, N, "state"); m, ae = orbs(C, S, N, "orbs", lambda x: TRUE); norb = iv("norb"); C.assume(ge(norb, m)); pl = fn("place"); aorb = (m, ae, lambda k: and_(rng(I0, pl(k), m), eq(select(ae, pl(k)), k)))
    else: S, norb = state(C, N)
    h = gctx(C, V, S, N, norb, aorb); outs = []
    if "singles" in name: outs.append(("singles", bsvec(C, "singles", N)))
    if "doubles" in name: outs.append(("doubles", bsvec(C, "doubles", N)))
    C.call(byp(V, name, 2 + len(outs) + as_, N), [norb, S] + [l for _, l in outs] + ([C.alloc(Vec(m, ae, U32), "as_orbs")] if as_ else []))
    for w, l in outs:
        R = C.ex.read(C.st, l)
        for nm, f in (single_moves(C, S, wit1(h), R.n, R.e) if w == "singles" else double_moves(C, S, wit2(h), R.n, R.e)): C.ensure("%s: %s" % (w, nm), f)
    V.done(C)

class Half:
    """the lists a spin-orbital generator returns for one half word"""
    def __init__(s, C, S, N, name, lo, dom):
        k = iv("k"); s.S, s.lo, s.H, s.name, s.dom = det(C, N // 2, name), lo, N // 2, name, dom
        C.assume(forall([k], eq(select(s.S, k), and_(rng(I0, k, num(N // 2)), select(S, add(k, num(lo))))), [[select(s.S, k)]]), forall([k], implies(rng(num(lo), k, num(lo + N // 2)), eq(select(S, k), select(s.S, sub(k, num(lo))))), [[select(S, k)]]))
        s.l = {}
        for w, m in (("singles", 1), ("doubles", 2)):
            W = abstract(dom, m, s.S); n, E = iv("n." + name + w), fresh(name + w, asort(asort("B"))); C.assume(ge(n, I0))
            s.l[w] = (W, n, E); C.assume(*[f for _, f in (single_moves if m == 1 else double_moves)(C, s.S, W, n, E)])
            p, k = iv("p"), iv("k"); C.lemma("entries of the %s %s stay in the half word" % (name, w), forall([p, k], implies(and_(rng(I0, p, n), not_(rng(I0, k, num(N // 2))), touch(select(s.S, k))), not_(sel(E, p, k))), [[sel(E, p, k)]]))
def hctx11(V, name, N, as_):
    C = setctx(V, "%s<%d>" % (name, N)); C.ex.unroll_max = 0; S = det(C, N, "state"); norb = iv("norb"); k = iv("k"); h = Lst(); h.S, h.norb, h.C = S, norb, C
    if as_:
        h.m, h.ae = orbs(C, S, N // 2, "orbs", lambda x: TRUE); C.assume(ge(norb, h.m)); pl = fn("place"); h.dom = lambda k: and_(rng(I0, pl(k), h.m), eq(select(h.ae, pl(k)), k), rng(I0, k, num(N // 2)))
    else:
        C.assume(ge(norb, I0), le(norb, num(N // 2)), *[forall([k], implies(rng(add(num(lo), norb), k, num(lo + N // 2)), not_(select(S, k))), [[select(S, k)]]) for lo in (0, N // 2)]); h.dom = lambda k: rng(I0, k, norb)
    h.a, h.b = Half(C, S, N, "alpha", 0, h.dom), Half(C, S, N, "beta", N // 2, h.dom)
    C.ex.contracts["macis::bitset_lo_word"] = lambda ex, st, f, vals, this: (same(ex, st, vals[0], S, "the half words are those of the reference"), h.a.S)[1]
    C.ex.contracts["macis::bitset_hi_word"] = lambda ex, st, f, vals, this: (same(ex, st, vals[0], S, "the half words are those of the reference"), h.b.S)[1]
    C.ex.contracts["macis::expand_bitset"] = lambda ex, st, f, vals, this: vals[0]
    def gen(ws):
        def c(ex, st, f, vals, this):
            x = [y for y in (h.a, h.b) if vals[1] is y.S]
            if int(f.targs[0]) != N // 2 or not x: raise X.Unsupported("generator called on something else than a half word of the reference")
            x = x[0]; outs = vals[2:2 + len(ws)]
            if not ex.dry:
                if as_: veq(ex, st, ex.read(st, vals[2 + len(ws)]), h.m, h.ae, "the active orbitals"); ex.oblige(st, "no more members than orbitals", ge(vals[0], h.m), kind="pre")
                else: ex.oblige(st, "orbital count of the half word", eq(vals[0], norb), kind="pre")
            for w, loc in zip(ws, outs): ex.write(st, loc, Vec(x.l[w][1], x.l[w][2], ("bitset", N // 2)))
            return None
        return c
    for g, ws in (("generate_singles", ("singles",)), ("generate_doubles", ("doubles",)), ("generate_singles_doubles", ("singles", "doubles"))): C.ex.contracts["macis::" + g + "_as" * as_] = gen(ws)
    return C, h
def spin(V, N, name):
    as_ = name.endswith("_as"); C, h = hctx11(V, name, N, as_); S, a, b, H_ = h.S, h.a, h.b, num(N // 2); p, q, k, x, y = (iv(z) for z in "pqkxy")
    (A1, na, Ea), (B1, nb, Eb), (A2, ma, Fa), (B2, mb, Fb) = a.l["singles"], b.l["singles"], a.l["doubles"], b.l["doubles"]; two = "doubles" in name
    up = lambda E, p, k: ite(lt(k, H_), sel(E, p, k), select(S, k)); dn = lambda E, p, k: ite(lt(k, H_), select(S, k), sel(E, p, sub(k, H_)))
    L = sublayout(C, "by alpha", 0, lambda: I0, lambda: na, lambda x: nb, lambda: TRUE); base = add(ma, mb); ra, rb = (lambda p: L.row(sub(p, base))), (lambda p: sub(sub(p, base), L.start(L.row(sub(p, base)))))
    inN = rng(I0, k, num(N)); D1, D2 = fn("single", "B"), fn("double", "B"); fa, fb = fn("of.alpha"), fn("of.beta")
    for f, d in ((fa, ra(p)), (fb, rb(p))): C.axiom(forall([p], eq(f(p), d), [[f(p)]]))
    f = lambda *t_: forall([x, p], implies(and_(rng(I0, x, na), rng(L.start(x), sub(p, base), add(L.start(x), nb)), *t_), and_(rng(I0, sub(p, base), L.total()), eq(fa(p), x), eq(fb(p), sub(sub(p, base), L.start(x))))), [] if t_ else [[L.start(x), fa(p)]])
    C.lemma("the places of a run have its pair", f(touch(L.start(add(x, I1)), fa(p), fb(p), L.start(add(L.row(sub(p, base)), I1)))), use=False); C.axiom(f())
    C.lemma("every mixed place has its pair", forall([p], implies(and_(rng(base, p, add(base, L.total())), touch(L.start(L.row(sub(p, base))), L.start(add(L.row(sub(p, base)), I1)))), and_(rng(I0, fa(p), na), rng(I0, fb(p), nb), eq(p, ads(base, L.start(fa(p)), fb(p))))), [[fa(p)]]))
    C.axiom(forall([p, k], eq(D1(p, k), and_(inN, ite(lt(p, na), up(Ea, p, k), dn(Eb, sub(p, na), k)))), [[D1(p, k)]]))
    C.axiom(forall([p, k], eq(D2(p, k), and_(inN, ite(lt(p, ma), up(Fa, p, k), ite(lt(p, base), dn(Fb, sub(p, ma), k), ite(lt(k, H_), sel(Ea, fa(p), k), sel(Eb, fb(p), sub(k, H_))))))), [[D2(p, k)]]))
    def cand(ex, Lp):
        out = []; mine = steps(Lp); outer = [z for O in Lp.outer for z in steps(O)]; at = [f for i in mine for f in (i, add(i, na), add(i, ma), add(base, L.start(i)))] + [ads(base, L.start(i), j) for i in outer for j in mine]
        for l in Lp.leaves:
            if l.hv.sort == "I" and l.role == "n": out += [eq(l.hv, z) for z in at]
            if l.hv.sort == asort(asort("B")):
                for n in at: out += [forall([p, k], implies(rng(I0, p, n), eq(sel(l.hv, p, k), D(p, k))), [[sel(l.hv, p, k)]]) for D in (D1, D2)]
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 4000
    o1 = bsvec(C, "singles", N); o2 = bsvec(C, "doubles", N)
    g = byp(V, name, 3 + two + as_, N); act = [Vec(h.m, h.ae, U32)] if as_ else []
    if as_ and "&" in g.type.split("(")[1].split(",")[-1]: act = [C.alloc(act[0], "as_orbs")]
    C.call(g, [h.norb, S, o1] + [o2] * two + act)
    R = C.ex.read(C.st, o1)
    for nm, f in spin1(h, N, R.n, R.e): C.ensure("singles: " + nm, f, timeout=10000)
    for nm, f in once(h, N, R.e, [("alpha", I0, na, a.l["singles"], None, None), ("beta", na, R.n, None, b.l["singles"], None)]): C.ensure("singles: " + nm, f, timeout=10000)
    if two:
        R = C.ex.read(C.st, o2)
        for nm, f in spin2(h, N, R.n, R.e, L, fa, fb): C.ensure("doubles: " + nm, f, timeout=10000)
        for nm, f in once(h, N, R.e, [("alpha", I0, ma, a.l["doubles"], None, None), ("beta", ma, base, None, b.l["doubles"], None), ("mixed", base, R.n, a.l["singles"], b.l["singles"], (fa, fb))]): C.ensure("doubles: " + nm, f, timeout=10000)
    V.done(C)
def moves(h, x, w): return x.l[w]
def spin1(h, N, n, E):
    """in terms of spin orbitals: what the spin-resolved singles hold"""
    p, q, k, o, v = (iv(z) for z in "pqkov"); S = h.S; na, nb = h.a.l["singles"][1], h.b.l["singles"][1]; out = [("one entry per alpha and per beta single", eq(n, add(na, nb)))]
    for x, first, cnt in ((h.a, I0, na), (h.b, na, nb)):
        W = x.l["singles"][0]; lo = num(x.lo); (fo, fv) = W.t; r = sub(p, first); P_ = add(first, W.pos(o, v)); up = lambda z: add(z, lo)
        mine = and_(rng(first, p, add(first, cnt)), touch(sel(x.l["singles"][2], r, fo(r)), select(S, up(fo(r))), select(S, up(fv(r))), select(x.S, sub(k, lo))))
        out += [("every %s entry moves one %s electron" % (x.name, x.name), forall([p, k], implies(mine, and_(h.dom(fo(r)), h.dom(fv(r)), select(S, up(fo(r))), not_(select(S, up(fv(r)))))))),
                ("every %s entry is the reference with the electron moved" % x.name, forall([p, k], implies(and_(mine, rng(I0, k, num(N))), eq(sel(E, p, k), moved(S, k, up(fo(r)), up(fv(r))))))),
                ("every %s move is listed" % x.name, forall([o, v, k], implies(and_(rng(I0, k, num(N)), h.dom(o), h.dom(v), select(S, up(o)), not_(select(S, up(v))), touch(W.pos(o, v), select(x.S, o), select(x.S, v), select(x.S, sub(k, lo)), sel(x.l["singles"][2], W.pos(o, v), sub(k, lo)))), and_(rng(first, P_, add(first, cnt)), eq(sel(E, P_, k), moved(S, k, up(o), up(v)))))))]
    return out
def spin2(h, N, n, E, L, fa, fb):
    p, q, k, o, v, o2, v2 = (iv(z) for z in ("p", "q", "k", "o", "v", "o2", "v2")); S = h.S; ma, mb, na, nb = h.a.l["doubles"][1], h.b.l["doubles"][1], h.a.l["singles"][1], h.b.l["singles"][1]; base = add(ma, mb); out = [("one entry per alpha, beta and mixed double", eq(n, add(base, L.total())))]
    for x, first, cnt in ((h.a, I0, ma), (h.b, ma, mb)):
        W = x.l["doubles"][0]; lo = num(x.lo); r = sub(p, first); t = [f(r) for f in W.t]; M_ = (o, v, o2, v2); P_ = add(first, W.pos(*M_)); up = lambda z: add(z, lo)
        mine = and_(rng(first, p, add(first, cnt)), touch(sel(x.l["doubles"][2], r, t[0]), select(x.S, sub(k, lo)), *[select(S, up(z)) for z in t]))
        out += [("every %s entry moves two %s electrons" % (x.name, x.name), forall([p, k], implies(mine, and_(*[h.dom(z) for z in t], ne(t[0], t[2]), ne(t[1], t[3]), *[f for i in (0, 2) for f in (select(S, up(t[i])), not_(select(S, up(t[i + 1]))))])))),
                ("every %s entry is the reference with the electrons moved" % x.name, forall([p, k], implies(and_(mine, rng(I0, k, num(N))), eq(sel(E, p, k), moved(S, k, *[up(z) for z in t]))))),
                ("every %s move is listed" % x.name, forall([*M_, k], implies(and_(rng(I0, k, num(N)), ne(o, o2), ne(v, v2), *[h.dom(z) for z in M_], *[select(S, up(z)) for z in (o, o2)], *[not_(select(S, up(z))) for z in (v, v2)], touch(W.pos(*M_), select(x.S, sub(k, lo)), *[select(x.S, z) for z in M_], sel(x.l["doubles"][2], W.pos(*M_), sub(k, lo)))), and_(rng(first, P_, add(first, cnt)), eq(sel(E, P_, k), moved(S, k, *[up(z) for z in M_]))))))]
    (Wa, _, Ea), (Wb, _, Eb) = h.a.l["singles"], h.b.l["singles"]; H_ = num(N // 2); up = lambda z: add(z, H_)
    ta, tb = [f(fa(p)) for f in Wa.t], [f(fb(p)) for f in Wb.t]; mine = and_(rng(base, p, n), touch(fa(p), fb(p), sel(Ea, fa(p), ta[0]), sel(Eb, fb(p), tb[0]), *[select(S, z) for z in ta], *[select(S, up(z)) for z in tb], select(h.a.S, k), select(h.b.S, sub(k, H_))))
    x, y = Wa.pos(o, v), Wb.pos(o2, v2); P_ = ads(base, L.start(x), y)
    out += [("every mixed entry moves an electron of either spin", forall([p], implies(mine, and_(*[h.dom(z) for z in ta + tb], select(S, ta[0]), not_(select(S, ta[1])), select(S, up(tb[0])), not_(select(S, up(tb[1]))))))),
            ("every mixed entry is the reference with the electrons moved", forall([p, k], implies(and_(mine, rng(I0, k, num(N))), eq(sel(E, p, k), moved(S, k, *ta, *[up(z) for z in tb]))))),
            ("every mixed move is listed", forall([o, v, o2, v2, k], implies(and_(rng(I0, k, num(N)), *[h.dom(z) for z in (o, v, o2, v2)], select(S, o), not_(select(S, v)), select(S, up(o2)), not_(select(S, up(v2))), touch(x, y, L.start(x), L.start(add(x, I1)), fa(P_), fb(P_), select(h.a.S, k), select(h.b.S, sub(k, H_)), *[select(h.a.S, z) for z in (o, v)], *[select(h.b.S, z) for z in (o2, v2)], sel(Ea, x, k), sel(Eb, y, sub(k, H_)))), and_(rng(base, P_, n), eq(sel(E, P_, k), moved(S, k, o, v, up(o2), up(v2)))))))]
    return out
def once(h, N, E, classes):
    """entries that agree in every orbital are one entry; classes: (name, first, end, alpha list, beta list, places in them)"""
    p, q, k = iv("p"), iv("q"), iv("k"); H_ = num(N // 2); out = []
    def at(c, p):
        """the spin orbitals that entry p of class c moves"""
        r = []
        for l, x, f in ((c[3], h.a, 0), (c[4], h.b, 1)):
            if l is not None: r += [add(g(c[5][f](p) if c[5] else sub(p, c[1])), num(x.lo)) for g in l[0].t]
        return r
    for i, c in enumerate(classes):
        for d in classes[i:]:
            xs = at(c, p) + at(d, q); tt = [touch(select(h.S, x)) for x in xs]
            for e, z in ((c, p), (d, q)):
                for l, x, f in ((e[3], h.a, 0), (e[4], h.b, 1)):
                    if l is not None: tt += [touch(sel(l[2], e[5][f](z) if e[5] else sub(z, e[1]), sub(y, num(x.lo)))) for y in xs]
            out.append(("two %s entries of the same orbitals are one" % c[0] if c is d else "%s and %s entries differ" % (c[0], d[0]), forall([p, q], implies(and_(rng(c[1], p, c[2]), rng(d[1], q, d[2]), *tt, *[eq(sel(E, p, x), sel(E, q, x)) for x in xs]), eq(p, q)))))
    return out
def space(V, N, g, t):
    two = g == "cisd"; C = setctx(V, "generate_%s_hilbert_space<%d>%s" % (g, N, t)); C.ex.unroll_max = 0; S = det(C, N, "state"); norb = iv("norb"); n1, n2, E1, E2 = iv("n1"), iv("n2"), fresh("singles", asort(asort("B"))), fresh("doubles", asort(asort("B"))); C.assume(ge(n1, I0), ge(n2, I0), ge(norb, I0))
    def gen(two):
        def c(ex, st, f, vals, this):
            if not ex.dry: ex.oblige(st, "orbital count", eq(vals[0], norb), kind="pre"); same(ex, st, vals[1], S, "excitations of the reference")
            for l, n, E in [(vals[2], n1, E1)] + ([(vals[3], n2, E2)] if two else []): ex.write(st, l, Vec(n, E, ("bitset", N)))
        return c
    C.ex.contracts["macis::generate_singles_spin"] = gen(False); C.ex.contracts["macis::generate_singles_doubles_spin"] = gen(True)
    out = bsvec(C, "dets", N); r = C.call(byp(V, "generate_%s_hilbert_space" % g, 2 if t else 3, N), [norb, S] + ([] if t else [out])); R = r if t else C.ex.read(C.st, out); p, k = iv("p"), iv("k"); s1 = add(I1, n1)
    C.ensure("one entry for the reference and for each excitation", eq(R.n, add(s1, n2) if two else s1)); C.ensure("the reference", forall([k], eq(sel(R.e, I0, k), select(S, k))))
    C.ensure("the singles in order", forall([p, k], implies(rng(I0, p, n1), eq(sel(R.e, add(p, I1), k), sel(E1, p, k)))))
    if two: C.ensure("the doubles in order", forall([p, k], implies(rng(I0, p, n2), eq(sel(R.e, add(p, s1), k), sel(E2, p, k)))))
    V.done(C)
def hf(V, N):
    C = setctx(V, "canonical_hf_determinant<%d>" % N); a, b, k = iv("nalpha"), iv("nbeta"), iv("k"); H_ = num(N // 2)
    C.assume(ge(a, I0), le(a, H_), ge(b, I0), le(b, H_))
    r = C.call(byp(V, "canonical_hf_determinant", 2, N), [a, b])
    C.ensure("the lowest orbitals of each spin are occupied", forall([k], eq(select(r, k), or_(rng(I0, k, a), rng(H_, k, add(H_, b)))))); V.done(C)
def combs(V, N):
    C = setctx(V, "generate_combs<%d>" % N); C.ex.unroll_max = 0; nb, ns = iv("nbits"), iv("nset"); C.assume(ge(nb, I0), le(nb, num(N)), ge(ns, I0), le(ns, nb)); T_ = iv("arrangements"); arr = fn("arrangement", asort("B")); t, k = iv("t"), iv("k")
    C.assume(ge(T_, I1)); C.axiom(forall([k], implies(rng(I0, k, nb), eq(select(arr(I0), k), lt(k, ns))), [[select(arr(I0), k)]]))
    ghost = C.alloc(I0, "step")
    def nxt(ex, st, base, lo, hi):
        v = ex.read(st, base); now = ex.read(st, ghost)
        if not ex.dry: ex.oblige(st, "the whole vector is permuted", and_(eq(lo, I0), eq(hi, nb)), kind="pre"); ex.oblige(st, "permuted from the current arrangement", and_(rng(I0, now, T_), forall([k], implies(rng(I0, k, nb), eq(select(v.e, k), select(arr(now), k))))), kind="pre")
        ex.write(st, ghost, add(now, I1)); ex.write(st, base, Vec(v.n, arr(add(now, I1)), v.ty)); return lt(add(now, I1), T_)
    C.ex.permutations = nxt
    def cand(ex, Lp):
        out = []
        for l in Lp.leaves:
            for B in steps(Lp):
                if l.hv.sort == "I" and l.role == "n": out += [eq(l.hv, B), eq(l.hv, add(B, I1))]
                if l.hv.sort == asort("B"):
                    out += [forall([k], implies(rng(I0, k, nb), eq(select(l.hv, k), select(arr(B), k))), [[select(l.hv, k)]])]
                    for now in [I0] + [add(x, I1) for O in Lp.outer for x in steps(O)]: out.append(forall([k], eq(select(l.hv, k), and_(rng(I0, k, B), rng(I0, k, num(N)), select(arr(now), k))), [[select(l.hv, k)]]))
                if l.hv.sort == asort(asort("B")):
                    for n in (B, add(B, I1)): out.append(forall([t, k], implies(rng(I0, t, n), eq(sel(l.hv, t, k), and_(rng(I0, k, nb), select(arr(t), k)))), [[sel(l.hv, t, k)]]))
                if l.hv.sort == "I" and l.role != "n": out += [lt(l.hv, T_)]
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 3000
    R = C.call(byp(V, "generate_combs", 2, N), [nb, ns])
    C.ensure("one entry per arrangement of the electrons", eq(R.n, T_))
    C.ensure("the orbitals of each arrangement", forall([t, k], implies(rng(I0, t, T_), eq(sel(R.e, t, k), and_(rng(I0, k, nb), select(arr(t), k)))))); V.done(C)
def hilbert(V, N):
    C = setctx(V, "generate_hilbert_space<%d>" % N); C.ex.unroll_max = 0; no, na, nb = iv("norbs"), iv("nalpha"), iv("nbeta"); H_ = num(N // 2); C.assume(ge(no, I0), le(no, H_), ge(na, I0), ge(nb, I0)); p, k, x = iv("p"), iv("k"), iv("x")
    l = {}
    for e in (na, nb):
        n, E = fresh("n", "I"), fresh("combs", asort(asort("B"))); C.assume(ge(n, I0), forall([p, k], implies(and_(rng(I0, p, n), not_(rng(I0, k, no))), not_(sel(E, p, k))), [[sel(E, p, k)]])); l[e] = (n, E)
    def cc(ex, st, f, vals, this):
        if vals[1] not in l: raise X.Unsupported("electron count of the combinations")
        if not ex.dry: ex.oblige(st, "orbital count of the combinations", eq(vals[0], no), kind="pre")
        return Vec(*l[vals[1]], ("bitset", N))
    C.ex.contracts["macis::generate_combs"] = cc
    (A, Ea), (B_, Eb) = l[na], l[nb]; L = sublayout(C, "by alpha", 0, lambda: I0, lambda: A, lambda x: B_, lambda: TRUE); fa, fb = fn("of.alpha"), fn("of.beta")
    for f, d in ((fa, L.row(p)), (fb, sub(p, L.start(fa(p))))): C.axiom(forall([p], eq(f(p), d), [[f(p)]]))
    f = lambda *t_: forall([x, p], implies(and_(rng(I0, x, A), rng(L.start(x), p, add(L.start(x), B_)), *t_), and_(rng(I0, p, L.total()), eq(fa(p), x), eq(fb(p), sub(p, L.start(x))))), [] if t_ else [[L.start(x), fa(p)]])
    C.lemma("the places of a run have their pair", f(touch(L.start(add(x, I1)), fa(p), fb(p), L.start(add(L.row(p), I1)))), use=False); C.axiom(f())
    C.lemma("every place has its pair", forall([p], implies(and_(rng(I0, p, L.total()), touch(L.start(L.row(p)), L.start(add(L.row(p), I1)))), and_(rng(I0, fa(p), A), rng(I0, fb(p), B_))), [[fa(p)]]))
    D = fn("det", "B"); C.axiom(forall([p, k], eq(D(p, k), ite(rng(I0, k, H_), sel(Ea, fa(p), k), and_(rng(H_, k, num(N)), sel(Eb, fb(p), sub(k, H_))))), [[D(p, k)]]))
    def cand(ex, Lp):
        out = []; mine = steps(Lp); outer = [z for O in Lp.outer for z in steps(O)]; at = [L.start(i) for i in mine] + [add(L.start(i), j) for i in outer for j in mine]
        for l in Lp.leaves:
            if l.hv.sort == "I" and l.role == "n": out += [eq(l.hv, z) for z in at]
            if l.hv.sort == asort(asort("B")): out += [forall([p, k], implies(rng(I0, p, n), eq(sel(l.hv, p, k), D(p, k))), [[sel(l.hv, p, k)]]) for n in at]
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 4000
    R = C.call(byp(V, "generate_hilbert_space", 3, N), [no, na, nb]); y = iv("y"); P_ = add(L.start(x), y)
    C.ensure("one entry per pair of combinations", eq(R.n, L.total()))
    C.ensure("every entry joins an alpha and a beta combination", forall([p, k], implies(rng(I0, p, R.n), and_(rng(I0, fa(p), A), rng(I0, fb(p), B_), eq(sel(R.e, p, k), ite(rng(I0, k, H_), sel(Ea, fa(p), k), and_(rng(H_, k, num(N)), sel(Eb, fb(p), sub(k, H_)))))))))
    C.ensure("every pair has one entry", forall([x, y, p], implies(and_(rng(I0, x, A), rng(I0, y, B_), touch(fa(P_), L.start(add(x, I1)), L.start(fa(p)))), and_(rng(I0, P_, R.n), eq(fa(P_), x), eq(fb(P_), y), implies(and_(eq(fa(p), x), eq(fb(p), y)), eq(p, P_)))))); V.done(C)
