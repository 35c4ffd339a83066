from spec import *
from c11 import *
from c12 import byp, setctx, det, full_mask_c
import itertools
TU = "asci"
NOTE = "make_triplet/make_quad, satisfies_constraint, generate_pairs, the single and double excitation sets, the count functions, the histogram and the two list generators, for widths 64 and 128, every determinant, orbital count and constraint of at least three orbitals. A function that classifies by population counts is proved once per class: 0, 1, 2 or at least 3 electrons of the constraint missing, times 0, 1, 2 or at least 3 other electrons above its lowest orbital (16 classes cover all inputs; the cardinalities are tied to the sets by induction). The list generators use the contracts of the set generators, those use the contract of bits_to_indices (C10) and of generate_pairs. That every determinant satisfies exactly one triplet (quad), and exactly one child of a constraint that is broken apart, is proved as lemmas over the definition that satisfies_constraint is proved to implement."
ASSUME = ["the constraint has its lowest orbital C_min in it, lies in [C_min, norb), B is the mask below C_min and O the mask below norb (what make_triplet, make_quad and dist_constraint_general build)", "vector sizes and products of list lengths fit size_t"]
BOUNDED = ["dist_constraint_general (selection, splitting and assignment of constraints to processes) is only sampled by harness/c23.cpp: up to 8 orbitals, 5 processes, 3 levels, at least 3 electrons"]
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]; HARNESS_FLAGS = ["-DOMPI_SKIP_MPICXX"]
W = (64, 128)
def jobs(V):
    r = []
    for N in W:
        r += [("masks %d" % N, lambda N=N: masks(V, N)), ("satisfies %d" % N, lambda N=N: sat_(V, N)), ("pairs %d" % N, lambda N=N: gpairs(V, N))]
        r += [("single sets %d: %s missing, %s above" % (N, m, h), lambda N=N, m=m, h=h: ssets(V, N, m, h)) for m in "0123" for h in "0123"]
        r += [("double sets %d: %s missing, %s above" % (N, m, h), lambda N=N, m=m, h=h: dsets(V, N, m, h)) for m in "0123" for h in "0123"]
        r += [("counts %d: %s missing, %s above" % (N, m, h), lambda N=N, m=m, h=h: counts(V, N, m, h)) for m in "0123" for h in "0123"]
        r += [("partition %d" % N, lambda N=N: parts(V, N))]
        r += [("histogram %d" % N, lambda N=N: hist(V, N)), ("singles list %d" % N, lambda N=N: slist(V, N)), ("doubles list %d" % N, lambda N=N: dlist(V, N))]
    return r
def setting(V, name, N):
    """a determinant and a constraint: the highest electrons are C, whose lowest is m"""
    C = setctx(V, name); C.ex.unroll_max = 0; q = Lst(); q.N = N; q.C_ = C
    q.norb = iv("norb"); C.assume(le(I0, q.norb), le(q.norb, num(N))); k = iv("k")
    q.S, q.T = det(C, N, "det"), det(C, N, "C"); q.m = iv("C_min"); q.c = [q.m, iv("c1"), iv("c2")]
    C.assume(forall([k], implies(select(q.S, k), rng(I0, k, q.norb)), [[select(q.S, k)]]), forall([k], implies(select(q.T, k), and_(le(q.m, k), lt(k, q.norb))), [[select(q.T, k)]]))
    for x in q.c: C.assume(select(q.T, x), rng(I0, x, q.norb))
    for x, y in itertools.combinations(q.c, 2): C.assume(ne(x, y))
    k2 = fresh("k", "I"); q.O = tm.lam(k2, rng(I0, k2, q.norb)); q.B = tm.lam(k2, rng(I0, k2, q.m))
    q.miss = lambda k: and_(select(q.T, k), not_(select(q.S, k))); q.free = lambda k: and_(select(q.S, k), not_(select(q.T, k))); q.high = lambda k: and_(q.free(k), ge(k, q.m)); q.low = lambda k: and_(q.free(k), lt(k, q.m)); q.virt = lambda k: and_(rng(I0, k, q.m), not_(select(q.S, k)))
    q.known = []   # (name, predicate, cardinality)
    def hook(ex, st, v, w):
        x = fresh("x", "I")
        for nm, P, n in q.known:
            if ex.known(st, forall([x], implies(rng(I0, x, num(w)), eq(select(v, x), P(x))))): return n
    C.ex.count_hooks = (hook,)
    return C, q
def ind(P, b): k = iv("k"); return sum_(k, I0, b, ite(P(k), I1, I0))
def card(C, q, name, P, elems, exact):
    """the set P holds the distinct elements; its cardinality (the sum of its indicator) is their number, or at least it"""
    k, b = iv("k"), iv("b"); n_ = num(q.N)
    for x in elems: C.assume(rng(I0, x, n_), P(x))      # (for the constraint itself: its lowest three)
    for x, y in itertools.combinations(elems, 2): C.assume(ne(x, y))
    rest = lambda k: and_(P(k), *[ne(k, x) for x in elems])
    if exact: C.assume(forall([k], implies(P(k), or_(*[eq(k, x) for x in elems])), [[select(q.S, k)], [select(q.T, k)]])); n = num(len(elems))
    else: n = iv("card." + name)
    # proof of the cardinality
    one = lambda x: (lambda k: eq(k, x)); s = lambda b: ind(rest, b)
    ex = [C.ex.axioms, list(C.ex.axioms)]
    C.lemma("%s: an indicator splits" % name, forall([k], eq(ite(P(k), I1, I0), ads(ite(rest(k), I1, I0), *[ite(eq(k, x), I1, I0) for x in elems]))), use=False)
    tot = lambda b: ads(s(b), *[ind(one(x), b) for x in elems])
    C.induct("%s: the count splits" % name, b, None, lambda b: eq(ind(P, b), tot(b)), hi=n_)
    C.induct("%s: a count is not negative" % name, b, None, lambda b: ge(s(b), I0), hi=n_)
    if exact: C.induct("%s: nothing else is counted" % name, b, None, lambda b: eq(s(b), I0), hi=n_)
    C.lemma("%s: %s elements" % (name, len(elems) if exact else "at least %d" % len(elems)), eq(ind(P, n_), num(len(elems))) if exact else ge(ind(P, n_), num(len(elems))), use=False)
    C.ex.axioms[:] = ex[1]
    if not exact: C.assume(ge(n, num(len(elems))))
    q.known.append((name, P, n)); return n
def satisfied(q, S):
    """the constraint on the determinant S(k)"""
    k = iv("k"); return and_(forall([k], implies(select(q.T, k), S(k))), forall([k], implies(and_(S(k), ge(k, q.m)), select(q.T, k))))
def masks(V, N):
    for nm, n in (("make_triplet", 3), ("make_quad", 4)):
        C = setctx(V, "%s<%d>" % (nm, N)); C.ex.unroll_max = 0; x = [iv(c) for c in "ijkl"[:n]]; k = iv("p")
        C.assume(ge(x[-1], I0), lt(x[0], num(N)), *[gt(a, b) for a, b in zip(x, x[1:])])
        R = C.call(byp(V, nm, n, N), x)
        C.ensure("the constraint holds its orbitals", forall([k], eq(select(R.f["C"], k), or_(*[eq(k, y) for y in x]))))
        C.ensure("the mask of the orbitals below", forall([k], eq(select(R.f["B"], k), rng(I0, k, x[-1])))); C.ensure("the lowest orbital", eq(R.f["C_min"], x[-1])); V.done(C)
def sat_(V, N):
    C, q = setting(V, "satisfies_constraint<%d>" % N, N); k, b = iv("k"), iv("b"); n_ = num(N); T, S = (lambda k: select(q.T, k)), (lambda k: select(q.S, k))
    both = lambda k: and_(T(k), S(k))
    C.induct("electrons of the constraint are present or missing", b, None, lambda b: eq(ind(T, b), add(ind(both, b), ind(q.miss, b))), hi=n_)
    def zero(name, P):
        C.induct("%s: counts" % name, b, None, lambda b: and_(ge(ind(P, b), I0), eq(eq(ind(P, b), I0), forall([k], implies(rng(I0, k, b), not_(P(k)))))), hi=n_); C.ex.axioms.pop()
        C.axiom(eq(eq(ind(P, n_), I0), forall([k], implies(rng(I0, k, n_), not_(P(k))))))
    zero("missing", q.miss); up = fn("above", "B"); x = iv("x")
    C.axiom(forall([x], eq(up(x), and_(ne(T(add(x, q.m)), S(add(x, q.m))), lt(add(x, q.m), n_))), [[up(x)]])); zero("above", up)
    q.known += [("present", both, ind(both, n_)), ("constraint", T, ind(T, n_)), ("above", up, ind(up, n_))]
    r = C.call(byp(V, "satisfies_constraint", 3, N), [q.S, q.T, q.m])
    C.ensure("accepts", implies(satisfied(q, S), r)); C.ensure("its electrons are there", implies(r, forall([k], implies(T(k), S(k))))); C.ensure("nothing else above", implies(and_(r), forall([k], implies(and_(S(k), ge(k, q.m), touch(up(sub(k, q.m)))), T(k))))); V.done(C)
def moves1(q):
    """single excitations of the determinant that satisfy the constraint"""
    i, a, k = iv("i"), iv("a"), iv("k"); return i, a, and_(select(q.S, i), rng(I0, a, q.norb), not_(select(q.S, a)), satisfied(q, lambda k: ne(select(q.S, k), or_(eq(k, i), eq(k, a)))))
def cases(C, q, m, h):
    q.mm = [iv("m%d" % x) for x in range(int(m))]; q.hh = [iv("h%d" % x) for x in range(int(h))]
    nm = card(C, q, "missing", q.miss, q.mm, m != "3"); nh = card(C, q, "above", q.high, q.hh, h != "3")
    T, S = (lambda k: select(q.T, k)), (lambda k: select(q.S, k)); both = lambda k: and_(T(k), S(k)); b = iv("b")
    nT = card(C, q, "C", T, q.c, False); C.induct("counts are not negative", b, None, lambda b: ge(ind(both, b), I0), hi=num(q.N)); C.ex.axioms.pop(); C.induct("electrons of the constraint are present or missing", b, None, lambda b: eq(ind(T, b), add(ind(both, b), ind(q.miss, b))), hi=num(q.N)); C.ex.axioms.pop()
    C.assume(ge(sub(nT, nm), I0)); q.nT = nT
    q.nv, q.nlow, q.nfree = ind(q.virt, num(q.N)), ind(q.low, num(q.N)), iv("free"); C.induct("free electrons are above or below", b, None, lambda b: eq(ind(q.free, b), add(ind(q.high, b), ind(q.low, b))), hi=num(q.N)); C.ex.axioms.pop()
    for P in (q.virt, q.low): C.induct("counts are not negative", b, None, lambda b: ge(ind(P, b), I0), hi=num(q.N)); C.ex.axioms.pop()
    q.nv, q.nlow = iv("virtuals"), iv("lower"); C.assume(ge(q.nv, I0), ge(q.nlow, I0)); q.known += [("virtual", q.virt, q.nv), ("lower", q.low, q.nlow), ("free", q.free, add(nh, q.nlow))]
    q.known += [("present", both, sub(nT, nm)), ("nothing", lambda k: FALSE, I0)]
    return nm, nh
def ssets(V, N, m, h):
    C, q = setting(V, "generate_constraint_single_excitations<%d>, %s electrons of the constraint missing, %s others above" % (N, m + "+" * (m == "3"), h + "+" * (h == "3")), N); cases(C, q, m, h)
    r = tup_(C.call(byp(V, "generate_constraint_single_excitations", 4, N), [q.S, q.T, q.O, q.B])); o, v = r; i, a, k = iv("i"), iv("a"), iv("k")
    S = lambda k: select(q.S, k); new = lambda k: ne(S(k), or_(eq(k, i), eq(k, a)))
    C.ensure("first set: occupied", forall([k], implies(select(o, k), S(k)))); C.ensure("second set: virtual", forall([k], implies(select(v, k), and_(rng(I0, k, q.norb), not_(S(k))))))
    pre = and_(rng(I0, i, q.norb), rng(I0, a, q.norb), S(i), not_(S(a))); chosen = and_(select(o, i), select(v, a)); C.assume(pre)
    C.ensure("chosen pairs keep the electrons of the constraint", implies(chosen, forall([k], implies(select(q.T, k), new(k)))))
    C.ensure("chosen pairs leave nothing else above", implies(chosen, forall([k], implies(and_(new(k), ge(k, q.m)), select(q.T, k)))))
    w = [x for x in q.mm + q.hh + q.c] + [i, a]
    at = and_(*[implies(select(q.T, x), new(x)) for x in w], *[implies(and_(new(x), ge(x, q.m)), select(q.T, x)) for x in w])
    C.ensure("every excitation that satisfies the constraint is chosen", implies(at, chosen)); V.done(C)
def tup_(r): return [r.f[k] for k in sorted(r.f)]
def choose2(n): return tm.idiv(mul(n, sub(n, I1)), num(2))
def pair_places(C, n):
    """places of the pairs i < j < n in the order the loops visit them"""
    h = Lst(); h.n = n; h.L = L = sublayout(C, "by i", 0, lambda: I0, lambda: n, lambda i: sub(sub(n, i), I1), lambda: TRUE); h.total = L.total(); h.fi, h.fj = fn("at.i"), fn("at.j"); p, i, j, b = (iv(x) for x in "pijb")
    C.induct("twice the number of pairs below", b, None, lambda v: eq(mul(num(2), L.start(v)), mul(v, sub(sub(add(n, n), v), I1))), hi=n, pats=[[L.start(b)]])
    C.lemma("the number of pairs", eq(choose2(n), h.total))
    for f, d in ((h.fi, L.row(p)), (h.fj, ads(h.fi(p), I1, sub(p, L.start(h.fi(p)))))): C.axiom(forall([p], eq(f(p), d), [[f(p)]]))
    h.pos = lambda i, j: add(L.start(i), sub(sub(j, i), I1))
    C.lemma("every place has a pair", forall([p], implies(and_(rng(I0, p, h.total), touch(L.start(add(L.row(p), I1)))), and_(rng(I0, h.fi(p), h.fj(p)), lt(h.fj(p), n))), [[h.fi(p)]]))
    here = and_(rng(I0, i, n), rng(L.start(i), p, add(L.start(i), sub(sub(n, i), I1)))); f = and_(rng(I0, p, h.total), eq(h.fi(p), i), eq(h.fj(p), ads(i, I1, sub(p, L.start(i)))))
    C.lemma("the places of a run have its pairs", forall([i, p], implies(and_(here, touch(L.start(add(i, I1)), h.fi(p), h.fj(p), L.start(add(L.row(p), I1)))), f)), use=False); C.axiom(forall([i, p], implies(here, f), [[L.start(i), h.fi(p)]]))
    return h
def pair_facts(h, e, n, E, N):
    """contract of generate_pairs: one entry {e[i], e[j]} per pair i < j"""
    p, q, i, j, k = (iv(x) for x in "pqijk"); P_ = h.pos(i, j)
    return [("one entry per pair", eq(n, choose2(h.n))),
            ("every entry holds its two orbitals", forall([p, k], implies(rng(I0, p, n), eq(sel(E, p, k), or_(eq(k, select(e, h.fi(p))), eq(k, select(e, h.fj(p)))))), [[sel(E, p, k)]])),
            ("entries are pairs", forall([p], implies(and_(rng(I0, p, n)), and_(le(I0, h.fi(p)), lt(h.fi(p), h.fj(p)), lt(h.fj(p), h.n))), [[h.fi(p)]])),
            ("every pair has its place", forall([i, j], implies(and_(le(I0, i), lt(i, j), lt(j, h.n), touch(h.fi(P_), h.L.start(i), h.fj(P_))), and_(rng(I0, P_, n), eq(h.fi(P_), i), eq(h.fj(P_), j))), [[h.L.start(i), select(e, j)]])),
            ("a pair has one place", forall([p, q], implies(and_(rng(I0, p, n), rng(I0, q, n), eq(h.fi(p), h.fi(q)), eq(h.fj(p), h.fj(q))), eq(p, q)), [[h.fi(p), h.fi(q)]]))]
def gpairs(V, N):
    C = setctx(V, "generate_pairs<%d>" % N); C.ex.unroll_max = 0; n, e = orbs(C, None, N, "inds", lambda x: TRUE); C.assume(le(n, num(N)))
    h = pair_places(C, n); p, k = iv("p"), iv("k")
    def cand(ex, Lp):
        out = []; mine = steps(Lp); outer = [x for O in Lp.outer for x in steps(O)]; at = [h.L.start(i) for i in mine] + [h.pos(i, j) for i in outer for j in mine]
        for l in Lp.leaves:
            if l.hv.sort == "I" and l.role != "n": out += [eq(l.hv, x) for x in at] + [eq(l.hv, add(o, add(I1, sub(m, x)))) for o in outer for m in mine for x in [I0]]
            if l.hv.sort == asort(asort("B")):
                for m in at:
                    out.append(forall([p, k], implies(rng(I0, p, m), eq(sel(l.hv, p, k), or_(eq(k, select(e, h.fi(p))), eq(k, select(e, h.fj(p)))))), [[sel(l.hv, p, k)]]))
                    out.append(forall([p, k], implies(rng(m, p, h.total), not_(sel(l.hv, p, k))), [[sel(l.hv, p, k)]]))
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 4000; w = C.alloc(Vec(I0, fresh("w", asort(asort("B"))), ("bitset", N)), "w")
    C.call(V.fn("macis::generate_pairs", lambda f: f.targs[0] == str(N)), [C.alloc(Vec(n, e, U32), "inds"), w])
    R = C.ex.read(C.st, w)
    for nm, f in pair_facts(h, e, R.n, R.e, N): C.ensure(nm, f)
    V.done(C)
def listing(C, q):
    """contracts of bits_to_indices (C10) and of generate_pairs for any operand"""
    q.made, q.lists = {}, []
    def b2i(ex, st, f, vals, this):
        v = vals[0]; n = fresh("n", "I"); e, r = fresh("set", asort("I")), fresh("rank", asort("I")); p, p2, k = iv("p"), iv("p2"), iv("k")
        cnt = next((x for x in (h(ex, st, v, q.N) for h in ex.count_hooks) if x is not None), None)
        for x in [le(I0, n), le(n, num(q.N))] + ([] if cnt is None else [eq(n, cnt)]): st.fact(x)
        st.fact(forall([p], implies(rng(I0, p, n), and_(rng(I0, select(e, p), num(q.N)), select(v, select(e, p)), eq(select(r, select(e, p)), p))), [[select(e, p)]]))
        st.fact(forall([k], implies(and_(rng(I0, k, num(q.N)), select(v, k)), and_(rng(I0, select(r, k), n), eq(select(e, select(r, k)), k))), [[select(r, k)]]))
        st.fact(forall([p, p2], implies(and_(le(I0, p), lt(p, p2), lt(p2, n)), lt(select(e, p), select(e, p2))), [[select(e, p), select(e, p2)]]))
        q.made[e] = r; q.lists.append(e); return Vec(n, e, U32)
    C.ex.contracts["macis::bits_to_indices"] = b2i
    def gp(ex, st, f, vals, this):
        if not ex.dry: ex.oblige(st, "the list of pairs is empty", eq(ex.read(st, vals[1]).n, I0), kind="pre")
        l = ex.read(st, vals[0]) if not isinstance(vals[0], Vec) else vals[0]; n = fresh("n", "I"); E = fresh("pairs", asort(asort("B"))); fi, fj, P = fn(fresh("at", "I").args[0]), fn(fresh("at", "I").args[0]), fn(fresh("place", "I").args[0])
        p, i, j, k = (iv(x) for x in "pijk"); st.fact(le(I0, n)); st.fact(eq(n, choose2(l.n)))
        st.fact(forall([p, k], implies(rng(I0, p, n), eq(sel(E, p, k), or_(eq(k, select(l.e, fi(p))), eq(k, select(l.e, fj(p)))))), [[sel(E, p, k)]]))
        st.fact(forall([p], implies(rng(I0, p, n), and_(le(I0, fi(p)), lt(fi(p), fj(p)), lt(fj(p), l.n), eq(P(fi(p), fj(p)), p))), [[fi(p)], [fj(p)]]))
        st.fact(forall([i, j], implies(and_(le(I0, i), lt(i, j), lt(j, l.n)), and_(rng(I0, P(i, j), n), eq(fi(P(i, j)), i), eq(fj(P(i, j)), j))), [[P(i, j)]]))
        q.made[E] = (l.e, fi, fj, P); ex.write(st, vals[1], Vec(n, E, ("bitset", q.N)))
    C.ex.contracts["macis::generate_pairs"] = gp
def pair_list(q, L, one):
    """(first, second orbital of place p; place of the pair x, y) for a list of orbital pairs: from generate_pairs, or one fixed orbital with each of a listed set"""
    if L.e in q.made:
        e, fi, fj, P = q.made[L.e]; r = q.made[e]; R = lambda x: select(r, x)
        return (lambda p: select(e, fi(p))), (lambda p: select(e, fj(p))), (lambda x, y: ite(lt(R(x), R(y)), P(R(x), R(y)), P(R(y), R(x))))
    if one is None or not q.lists: return None
    e = q.lists[-1] if len(q.lists) == 1 else one[1](q.lists); r = q.made[e]; x0 = one[0]
    return (lambda p: x0), (lambda p: select(e, p)), (lambda x, y: ite(eq(x, x0), select(r, y), select(r, x)))
def dsets(V, N, m, h):
    C, q = setting(V, "generate_constraint_double_excitations<%d>, %s electrons of the constraint missing, %s others above" % (N, m + "+" * (m == "3"), h + "+" * (h == "3")), N); cases(C, q, m, h); listing(C, q)
    p, k = iv("p"), iv("k"); S, T = (lambda k: select(q.S, k)), (lambda k: select(q.T, k))
    def cand(ex, Lp):
        out = []
        for l in Lp.leaves:
            if l.hv.sort == asort(asort("B")):
                for x in steps(Lp):
                    for e in q.lists:
                        for z in q.mm[:1] + q.hh[:1]: out.append(forall([p, k], implies(rng(I0, p, x), eq(sel(l.hv, p, k), or_(eq(k, z), eq(k, select(e, p))))), [[sel(l.hv, p, k)]]))
        return out
    C.ex.cand_gens.append(cand)
    O, Vl = tup_(C.call(byp(V, "generate_constraint_double_excitations", 4, N), [q.S, q.T, q.O, q.B]))
    nV = {"0": choose2(q.nv), "1": q.nv, "2": I1, "3": I0}[m]; nO = {"0": choose2(q.nlow), "1": q.nlow, "2": I1, "3": I0}[h]
    C.ensure("number of combinations", eq(mul(O.n, Vl.n), mul(nO, nV)))
    dO = pair_list(q, O, (q.hh[0], lambda l: l[-1]) if h == "1" else None); dV = pair_list(q, Vl, (q.mm[0], lambda l: l[0]) if m == "1" else None)
    i, j, a, b, u, w = (iv(x) for x in "ijabuw")
    new = lambda k: or_(and_(S(k), ne(k, i), ne(k, j)), eq(k, a), eq(k, b))
    at = lambda xs: and_(*[implies(T(x), new(x)) for x in xs], *[implies(and_(new(x), ge(x, q.m)), T(x)) for x in xs])
    w_ = list(q.mm + q.hh + q.c) + [i, j, a, b]; valid = and_(S(i), S(j), ne(i, j), ne(a, b), not_(S(a)), not_(S(b)), *[rng(I0, x, q.norb) for x in (i, j, a, b)])
    if dO is None or dV is None:
        C.ensure("no combination", eq(mul(O.n, Vl.n), I0)); C.ensure("no double excitation satisfies the constraint", implies(valid, not_(at(w_)))); return V.done(C)
    for nm, L, d, mem in (("occupied", O, dO, lambda x: S(x)), ("virtual", Vl, dV, lambda x: and_(not_(S(x)), rng(I0, x, q.norb)))):
        C.ensure("%s entries are pairs" % nm, implies(rng(I0, u, L.n), ne(d[0](u), d[1](u))))
        for t in (0, 1): C.ensure("%s entries hold such orbitals" % nm, implies(rng(I0, u, L.n), mem(d[t](u))))
        C.ensure("%s entries hold their pair" % nm, forall([u, k], implies(and_(rng(I0, u, L.n), rng(I0, k, num(N))), eq(sel(L.e, u, k), or_(eq(k, d[0](u)), eq(k, d[1](u)))))))
        C.ensure("%s pairs are listed once" % nm, forall([u, w], implies(and_(rng(I0, u, L.n), rng(I0, w, L.n), or_(and_(eq(d[0](u), d[0](w)), eq(d[1](u), d[1](w))), and_(eq(d[0](u), d[1](w)), eq(d[1](u), d[0](w))))), eq(u, w))))
    both = and_(rng(I0, u, O.n), rng(I0, w, Vl.n)); nw = lambda k: or_(and_(S(k), ne(k, dO[0](u)), ne(k, dO[1](u))), eq(k, dV[0](w)), eq(k, dV[1](w)))
    C.ensure("combinations keep the electrons of the constraint", forall([u, w, k], implies(and_(both, T(k)), nw(k))))
    C.ensure("combinations leave nothing else above", forall([u, w, k], implies(and_(both, nw(k), ge(k, q.m)), T(k))))
    for nm, L, d, x, y in (("occupied", O, dO, i, j), ("virtual", Vl, dV, a, b)):
        z = d[2](x, y); C.ensure("the %s pair of every double excitation that satisfies the constraint is listed" % nm, implies(and_(valid, at(w_)), and_(rng(I0, z, L.n), or_(and_(eq(d[0](z), x), eq(d[1](z), y)), and_(eq(d[0](z), y), eq(d[1](z), x))))))
    V.done(C)
# ---------------------------------------------------------------- counts
def expected(q, m, h):
    """(single, double) excitations that satisfy the constraint"""
    free = {"0": q.nlow, "1": I1, "2": I0, "3": I0}[h]; v = {"0": q.nv, "1": I1, "2": I0, "3": I0}[m]
    return mul(free, v), mul({"0": choose2(q.nlow), "1": q.nlow, "2": I1, "3": I0}[h], {"0": choose2(q.nv), "1": q.nv, "2": I1, "3": I0}[m])
def counts(V, N, m, h):
    C, q = setting(V, "count_constraint_singles/doubles<%d>, %s electrons of the constraint missing, %s others above" % (N, m + "+" * (m == "3"), h + "+" * (h == "3")), N); cases(C, q, m, h); s, d = expected(q, m, h)
    C.assume(le(q.nv, num(N)), le(q.nlow, num(N)))
    C.ensure("single excitations", eq(C.call(V.fn("macis::count_constraint_singles", lambda f: "bitset<%d>" % N in f.params[0]["type"]["qualType"]), [C.alloc(x, "arg") for x in (q.S, q.T, q.O, q.B)]), s))
    C.ensure("double excitations", eq(C.call(byp(V, "count_constraint_doubles", 4, N), [q.S, q.T, q.O, q.B]), d)); V.done(C)
def hist(V, N):
    C, q = setting(V, "constraint_histogram<%d>" % N, N); ns, nd, a, b = iv("singles"), iv("doubles"), iv("n_os_singles"), iv("n_os_doubles"); ok = fresh("satisfied", "B"); C.assume(*[rng(I0, x, num(2 ** 20)) for x in (ns, nd, a, b)])
    def ctr(what, r):
        def c(ex, st, f, vals, this):
            if not ex.dry:
                for x, y, w in zip(vals, (q.S, q.T, q.O, q.B), ("the determinant", "the constraint", "the orbitals", "the orbitals below the constraint")): same(ex, st, ex.rv(st, x), y, "%s: %s" % (what, w))
            return r
        return c
    C.ex.contracts["macis::count_constraint_singles"] = ctr("counted singles", ns); C.ex.contracts["macis::count_constraint_doubles"] = ctr("counted doubles", nd); C.ex.contracts["macis::ffs"] = ffs_contract([lambda ex: [q.m]])
    def sat(ex, st, f, vals, this):
        if not ex.dry:
            same(ex, st, vals[0], q.S, "tested determinant"); same(ex, st, vals[1], q.T, "tested constraint"); ex.oblige(st, "lowest orbital of the constraint", eq(vals[2], q.m), kind="pre")
        return ok
    C.ex.contracts["macis::satisfies_constraint"] = sat
    r = C.call(V.fn("macis::constraint_histogram", lambda f: f.targs[0] == str(N)), [q.S, a, b, q.T, q.O, q.B])
    C.ensure("determinants reached under the constraint", eq(r, ads(ns, nd, mul(ns, a), ite(ok, ads(a, b, I1), I0)))); V.done(C)
# ---------------------------------------------------------------- lists
def slist(V, N):
    """generate_constraint_singles: determinants moved by one pair of the two sets"""
    C = setctx(V, "generate_constraint_singles<%d>" % N); C.ex.unroll_max = 0; S = det(C, N, "det"); no, oe, nv, ve = lists2(C, S, N); args = [det(C, N, x) for x in ("T", "O", "B")]; k, p, x = iv("k"), iv("p"), iv("x")
    o, v = det(C, N, "o"), det(C, N, "v"); ro, rv = fn("rank.o"), fn("rank.v")
    for s, n, e, r in ((o, no, oe, ro), (v, nv, ve, rv)):
        C.assume(le(n, num(N)), forall([k], implies(select(s, k), and_(rng(I0, k, num(N)), rng(I0, r(k), n), eq(select(e, r(k)), k))), [[r(k)]]), forall([p], implies(rng(I0, p, n), select(s, select(e, p))), [[select(e, p)]]))
    h = pairs(C, nv, no); b = iv("b"); C.induct("places of an orbital", b, None, lambda b: eq(h.L.start(b), mul(b, nv)), hi=no, pats=[[h.L.start(b)]])
    def gen(ex, st, f, vals, this):
        if not ex.dry:
            for y, z, w in zip(vals, [S] + args, ("the determinant", "the constraint", "the orbitals", "the orbitals below the constraint")): same(ex, st, y, z, w)
        return Obj("tuple", {"0": o, "1": v})
    C.ex.contracts["macis::generate_constraint_single_excitations"] = gen
    is_ = lambda ex, st, s, y: s == y or ex.known(st, forall([k], implies(rng(I0, k, num(N)), eq(select(s, k), select(y, k)))))
    def hook(ex, st, s, w):
        for y, n in ((o, no), (v, nv)):
            if is_(ex, st, s, y): return n
    C.ex.count_hooks = (hook,)
    def b2i(ex, st, f, vals, this):
        for y, n, e in ((o, no, oe), (v, nv, ve)):
            if is_(ex, st, vals[0], y): return Vec(n, e, U32)
        raise Unsupported("index list of an unknown set")
    C.ex.contracts["macis::bits_to_indices"] = b2i; C.ex.cand_gens.append(place_cands(h, N, lambda p, k: moved(S, k, select(oe, h.fa(p)), select(ve, h.fi(p))))); C.ex.cand_to = 4000
    w = bsvec(C, "t_singles", N); C.call(byp(V, "generate_constraint_singles", 5, N), [S] + args + [w]); R = C.ex.read(C.st, w)
    C.ensure("one entry per pair", eq(R.n, mul(no, nv)))
    for nm, f in single_facts(S, nv, ve, no, oe, h, R.n, R.e): C.ensure(nm, f)
    C.ensure("every pair of the two sets is an entry", implies(and_(select(o, p), select(v, x), touch(h.fa(h.pos(ro(p), rv(x))))), and_(rng(I0, h.pos(ro(p), rv(x)), R.n), eq(select(oe, h.fa(h.pos(ro(p), rv(x)))), p), eq(select(ve, h.fi(h.pos(ro(p), rv(x)))), x)))); V.done(C)
def place_cands(h, N, D):
    p, k = iv("p"), iv("k"); L = h.L
    def cand(ex, Lp):
        out = []; mine = steps(Lp); outer = [x for O in Lp.outer for x in steps(O)]; at = [L.start(i) for i in mine] + [add(L.start(i), j) for i in outer for j in mine]
        for l in Lp.leaves:
            if l.hv.sort == "I" and l.role == "n": out += [eq(l.hv, x) for x in at]
            if l.hv.sort == asort(asort("B")):
                for n in at: out.append(forall([p, k], implies(rng(I0, p, n), eq(sel(l.hv, p, k), D(p, k))), [[sel(l.hv, p, k)]]))
        return out
    return cand
def dlist(V, N):
    """generate_constraint_doubles: one determinant per entry of the two pair lists"""
    C = setctx(V, "generate_constraint_doubles<%d>" % N); C.ex.unroll_max = 0; S = det(C, N, "det"); args = [det(C, N, x) for x in ("T", "O", "B")]; k, u, w = iv("k"), iv("u"), iv("w")
    nO, nV, EO, EV = iv("nO"), iv("nV"), fresh("O", asort(asort("B"))), fresh("V", asort(asort("B"))); d = [fn("%s%d" % (a, t)) for a in ("occ", "vir") for t in (0, 1)]
    C.assume(ge(nO, I0), ge(nV, I0))
    for n, E, (f, g), mem in ((nO, EO, d[:2], lambda x: select(S, x)), (nV, EV, d[2:], lambda x: not_(select(S, x)))):     # proved in the jobs 'double sets'
        C.assume(forall([u, k], implies(rng(I0, u, n), eq(sel(E, u, k), or_(eq(k, f(u)), eq(k, g(u))))), [[sel(E, u, k)]]), forall([u], implies(rng(I0, u, n), and_(ne(f(u), g(u)), mem(f(u)), mem(g(u)), rng(I0, f(u), num(N)), rng(I0, g(u), num(N)))), [[f(u)], [g(u)]]),
                 forall([u, w], implies(and_(rng(I0, u, n), rng(I0, w, n), or_(and_(eq(f(u), f(w)), eq(g(u), g(w))), and_(eq(f(u), g(w)), eq(g(u), f(w))))), eq(u, w)), [[f(u), f(w)]]))
    h = pairs(C, nV, nO); b = iv("b"); C.induct("places of an occupied pair", b, None, lambda b: eq(h.L.start(b), mul(b, nV)), hi=nO, pats=[[h.L.start(b)]])
    def gen(ex, st, f, vals, this):
        if not ex.dry:
            for y, z, wh in zip(vals, [S] + args, ("the determinant", "the constraint", "the orbitals", "the orbitals below the constraint")): same(ex, st, y, z, wh)
        return Obj("tuple", {"0": Vec(nO, EO, ("bitset", N)), "1": Vec(nV, EV, ("bitset", N))})
    C.ex.contracts["macis::generate_constraint_double_excitations"] = gen; D = lambda p, k: or_(ne(select(S, k), sel(EO, h.fa(p), k)), sel(EV, h.fi(p), k))
    C.ex.cand_gens.append(place_cands(h, N, D)); C.ex.cand_to = 4000; v = bsvec(C, "t_doubles", N)
    C.call(byp(V, "generate_constraint_doubles", 5, N), [S] + args + [v]); R = C.ex.read(C.st, v); p, r = iv("p"), iv("r")
    C.ensure("one entry per combination", eq(R.n, mul(nO, nV)))
    t = lambda p: (d[0](h.fa(p)), d[1](h.fa(p)), d[2](h.fi(p)), d[3](h.fi(p)))
    C.ensure("every entry is a combination", forall([p], implies(rng(I0, p, R.n), and_(rng(I0, h.fa(p), nO), rng(I0, h.fi(p), nV)))))
    C.ensure("every entry moves two electrons", implies(and_(rng(I0, p, R.n), rng(I0, k, num(N))), eq(sel(R.e, p, k), moved(S, k, *t(p)))))
    P_ = h.pos(u, w); C.ensure("every combination has a place", implies(and_(rng(I0, u, nO), rng(I0, w, nV), touch(h.fa(P_), h.fi(P_))), and_(rng(I0, P_, R.n), eq(h.fa(P_), u), eq(h.fi(P_), w))))
    one = and_(rng(I0, p, R.n), rng(I0, r, R.n)); eqs = and_(*[eq(sel(R.e, p, x), sel(R.e, r, x)) for x in t(p) + t(r)])
    C.ensure("equal entries empty the same orbitals", implies(and_(one, eqs), eq(h.fa(p), h.fa(r)))); C.ensure("equal entries fill the same orbitals", implies(and_(one, eqs), eq(h.fi(p), h.fi(r)))); C.ensure("a combination has one place", implies(and_(one, eq(h.fa(p), h.fa(r)), eq(h.fi(p), h.fi(r))), eq(p, r))); V.done(C)
# ---------------------------------------------------------------- the constraints split the determinants
def highest(C, name, P, hi):
    """largest member of a set of orbitals below hi (-1 if there is none)"""
    f = fn("max." + name); b, k = iv("b"), iv("k"); C.axiom(eq(f(I0), num(-1))); C.axiom(forall([b], implies(ge(b, I0), eq(f(add(b, I1)), ite(P(b), b, f(b)))), [[f(add(b, I1))]]))
    u, w = iv("u"), iv("w"); C.induct("largest member: " + name, b, None, lambda v: and_(or_(eq(f(v), num(-1)), and_(rng(I0, f(v), v), P(f(v)))), forall([k], implies(and_(rng(I0, k, v), P(k)), ge(f(v), k)))), hi=hi); C.ex.axioms.pop()
    m = f(hi); C.axiom(or_(eq(m, num(-1)), and_(rng(I0, m, hi), P(m)))); C.axiom(forall([k], implies(and_(rng(I0, k, hi), P(k)), ge(m, k)), [[touchless(P, k)]])); return m
def touchless(P, k):
    t = P(k); return t.args[0] if t.op == "and" else t
def parts(V, N):
    for n, nm in ((3, "triplets"), (4, "quads")):
        C = setctx(V, "%s split the determinants <%d>" % (nm, N)); S, norb = state(C, N, name="det"); k = iv("k"); S_ = lambda k: select(S, k); top = []
        e = [iv("e%d" % t) for t in range(n)]; C.assume(*[and_(S_(x), rng(I0, x, norb)) for x in e], *[ne(x, y) for x, y in itertools.combinations(e, 2)])   # at least n electrons
        for t in range(n): top.append(highest(C, "electron %d" % t, lambda k, old=tuple(top): and_(S_(k), *[ne(k, x) for x in old]), norb))
        sat = lambda xs: and_(*[S_(x) for x in xs], forall([k], implies(and_(S_(k), ge(k, xs[-1])), or_(*[eq(k, x) for x in xs]))))
        for t in range(n): C.lemma("electron %d exists" % t, and_(rng(I0, top[t], norb), S_(top[t]), *[gt(x, top[t]) for x in top[:t][-1:]]))
        C.ensure("a determinant satisfies a constraint", and_(*[gt(x, y) for x, y in zip(top, top[1:])], sat(top)))
        a, b = [iv("a%d" % t) for t in range(n)], [iv("b%d" % t) for t in range(n)]
        C.assume(*[gt(x, y) for l in (a, b) for x, y in zip(l, l[1:])], *[ge(l[-1], I0) for l in (a, b)])
        C.ensure("a determinant satisfies one constraint only", implies(and_(sat(a), sat(b)), and_(*[eq(x, y) for x, y in zip(a, b)]))); V.done(C)
    C, q = setting(V, "a constraint splits by the next electron <%d>" % N, N); k, x, y = iv("k"), iv("x"), iv("y"); S, T = (lambda k: select(q.S, k)), (lambda k: select(q.T, k))
    sat = lambda T, m: and_(forall([k], implies(T(k), S(k))), forall([k], implies(and_(S(k), ge(k, m)), T(k)))); child = lambda x: (lambda k: ne(T(k), eq(k, x)))
    e = iv("e"); C.assume(rng(I0, x, q.m), rng(I0, y, q.m)); nx = highest(C, "electron below the constraint", lambda k: S(k), q.m)
    C.ensure("a determinant of a child satisfies the constraint", implies(sat(child(x), x), sat(T, q.m)))
    C.lemma("an orbital below the constraint is not in it", and_(not_(T(x)), not_(T(y))))
    at = lambda T, m: and_(*[f for k in (x, y) for f in (implies(T(k), S(k)), implies(and_(S(k), ge(k, m)), T(k)))])
    C.ensure("a determinant satisfies one child only", implies(and_(at(child(x), x), at(child(y), y)), eq(x, y)))
    C.ensure("every determinant with another electron satisfies a child", implies(and_(sat(T, q.m), S(e), rng(I0, e, q.m)), and_(rng(I0, nx, q.m), sat(child(nx), nx)))); V.done(C)
