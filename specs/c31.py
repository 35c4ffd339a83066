from ham import *
from c11 import ads
import itertools
TU = "score"
NOTE = "the five expansion routines of the standard search (single excitations of either spin, same-spin doubles of either spin, opposite-spin doubles), the three of the constrained search, and asci_contributions_standard as a whole, for 64- and 128-bit determinants, every determinant, orbital list, integral tensor with any leading dimension, threshold and coefficient. The container is described by counting: for an arbitrary determinant D and an arbitrary property of the score, the number of entries for D whose score has the property grows by exactly the number of (i,a) or (i,j,a,b) combinations that lead to D, reach the threshold and give such a score; so nothing is missing, listed twice or scored differently. Signs, diagonal updates, index lists, the excitation sets of a constraint and the set-bit searches enter through their contracts (C12, C15, C11, C23, C10), with their preconditions as obligations; the sign of a double excitation is shown not to depend on the direction it is asked for. asci_contributions_standard is proved to hand every search determinant's own coefficient, words, lists, orbital energies and diagonal to the five routines, once each"
ASSUME = ["exact real arithmetic", "the pair container does not outgrow pair_size_max in the proof of asci_contributions_standard (pruning runs in the bounded check)", "contracts of single_excitation_sign, doubles_sign (C12), fast_diag_* (C15), bitset_to_occ_vir (C11), single_orbital_ens (C15), matrix_element (C14), generate_constraint_single_excitations / _double_excitations (C23), ffs / fls (C10)", "expand_bitset keeps the set positions (C10)"]
BOUNDED = ["asci_contributions_constraint as a whole (grouping by alpha string, distribution of constraints over processes, accumulation) and pruning in both searches: compared with an enumeration of all single and double excitations, up to 7 orbitals and 4 simulated processes"]
PROOF_LIMIT = 400
W = (64, 128)
def jobs(V):
    r = [("standard search %d" % N, lambda N=N: standard(V, N)) for N in W] + [("counting", lambda: counts(V))] + [("directions %d" % N, lambda N=N: directions(V, N)) for N in (32, 64, 128)]
    for N in W:
        for s, nm in ((0, "alpha"), (N // 2, "beta")): r += [("singles %s %d" % (nm, N), lambda N=N, s=s: singles(V, N, s)), ("doubles %s %d" % (nm, N), lambda N=N, s=s: sdoubles(V, N, s))]
        r += [("opposite spins %d" % N, lambda N=N: odoubles(V, N))]
        r += [("constrained %s %d" % (nm, N), lambda N=N, f=f: f(V, N)) for nm, f in (("singles", csingles), ("doubles", cdoubles), ("opposite spins", codoubles))]
    return r
class Q: pass
ZR, ONE = num(0, "R"), num(1)
def abs_(x): return ite(lt(x, ZR), tm.neg(x), x)
def target(C, N):
    """the multiset of contributions, by counting: an arbitrary determinant and an arbitrary property of the score; how many of the first m entries have both"""
    t = Q(); t.D = fresh("target", asort("B")); t.is_, w = fn("is the target", "B"), fn("differs at"); t.q = fn("score property", "B"); k = iv("k")
    A = fresh("A", asort("B")); d = lambda k: select(t.D, k); set_positions(C, t.D, N)
    C.axiom(forall([A, k], implies(and_(t.is_(A), rng(I0, k, num(N))), eq(select(A, k), d(k))), [[t.is_(A), d(k)], [t.is_(A), select(A, k)]]),
            forall([A], implies(not_(t.is_(A)), and_(rng(I0, w(A), num(N)), ne(select(A, w(A)), d(w(A))))), [[t.is_(A)]]))
    t.hit = lambda A, y: and_(t.is_(A), t.q(y)); t.cnt = c = fn("count"); S, Rr, x, y, n, m = fresh("S", asort(asort("B"))), fresh("R", asort("R")), fresh("x", asort("B")), fresh("y", "R"), iv("n"), iv("m")
    one = lambda A, y: ite(t.hit(A, y), I1, I0); t.one = one
    T = c(store(S, n, x), store(Rr, n, y), m)
    C.axiom(forall([S, Rr, x, y, n, m], implies(and_(le(I0, m), le(m, n)), eq(T, c(S, Rr, m))), [[T]]), forall([S, Rr, x, y, n, m], implies(and_(le(I0, n), eq(m, add(n, I1))), eq(T, add(c(S, Rr, n), one(x, y)))), [[T]]))
    def moved(name, n):
        """is the target a determinant with n flipped positions?  The definition, by position"""
        f, w = fn("target is " + name, "B"), fn("target is no " + name)
        def define(vs, S, pos, hyp, pats):
            k = iv("k"); D = lambda k: ne(select(S, k), or_(*[eq(k, p) for p in pos]))
            C.axiom(forall(vs + [k], implies(and_(hyp, f(*vs), rng(I0, k, num(N))), eq(D(k), d(k))), [[f(*vs), d(k)]]), forall(vs, implies(and_(hyp, not_(f(*vs))), and_(rng(I0, w(*vs), num(N)), ne(D(w(*vs)), d(w(*vs))))), [[f(*vs)]]))
        return f, define
    t.moved = moved
    return t
def pairs_vec(C, N, t):
    """the container so far"""
    ty = ("rec", "macis::asci_contrib<std::bitset<%d>>" % N); n = iv("n"); C.assume(ge(n, I0)); S0, R0 = fresh("states", asort(asort("B"))), fresh("scores", asort("R"))
    l = C.alloc(Vec(n, Obj(ty, {"state": S0, "rv": R0}), ty), "pairs"); return l, t.cnt(S0, R0, n)
def sums(C, name, val, ext=0, lo=lambda *v: I0):
    """running sum of val(*ext, i): defined by base and step"""
    s = fn(name); v = [iv("v%d" % k) for k in range(ext)]; i, u = iv("i"), iv("u")
    b = eq(s(*v, lo(*v)), I0); C.axiom(forall(v, b, [[s(*v, lo(*v))]]) if v else b)
    C.axiom(forall(v + [i, u], implies(and_(eq(u, add(i, I1)), ge(i, lo(*v))), eq(s(*v, u), add(s(*v, i), val(*v, i)))), [[s(*v, i), s(*v, u)]])); return s
def orbs_(C, name, no, mem, N):
    n, e = iv("n." + name), fresh(name, asort("I")); t = iv("t"); C.assume(ge(n, I0), le(n, no), forall([t], implies(rng(I0, t, n), and_(rng(I0, select(e, t), no), mem(select(e, t)))), [[select(e, t)]])); return n, e, C.alloc(Vec(n, e, U32), name)
def sctx(V, name, N):
    C = hctx(V, name); q = Q(); q.N = N; q.H = N // 2; q.words = []; q.t = target(C, N); q.fd, q.sg, q.dsg = fn("updated diagonal", "R"), fn("sign", "R"), fn("sign of a double excitation", "R")
    cls = "macis::HamiltonianGenerator<%d>::" % N
    def fd(w): 
        def c(ex, st, f, vals, this):
            if "vector" in f.type: raise NotImplementedError
            return q.fd(*[ex.rv(st, x) for x in vals])
        return c
    for w in ("single", "ss_double", "os_double"): C.ex.contracts[cls + "fast_diag_" + w] = fd(w)
    def sg(ex, st, f, vals, this):
        S, a, b = [ex.rv(st, x) for x in vals]; n = num(int(f.targs[0])); k = fresh("k", "I")
        for w in q.words:
            if S != w and not ex.dry and ex.known(st, forall([k], implies(rng(I0, k, n), eq(select(S, k), select(w, k))))): S = w; break
        ex.oblige(st, "the excitation moves an electron from an occupied to an empty orbital", and_(ne(a, b), rng(I0, a, n), rng(I0, b, n), not_(select(S, a)), select(S, b)), kind="pre"); return q.sg(S, a, b)
    C.ex.contracts["macis::single_excitation_sign"] = sg; C.ex.contracts["macis::expand_bitset"] = lambda ex, st, f, vals, this: vals[0]
    q.no = iv("norb"); C.assume(ge(q.no, I1), le(q.no, num(q.H))); q.full = det(C, N, "state"); q.c, q.tol, q.root, q.E0 = (fresh(x, "R") for x in ("coeff", "tolerance", "root_diag", "E0"))
    q.ham = C.alloc(Obj("macis::HamiltonianGenerator<%d>" % N, {}), "ham"); q.pairs, q.c0 = pairs_vec(C, N, q.t)
    return C, q
def word(C, q, shift, name):
    """one spin's half of the state"""
    S = det(C, q.H, name); k = iv("k"); C.assume(forall([k], implies(rng(I0, k, num(q.H)), eq(select(S, k), select(q.full, add(k, num(shift))))), [[select(S, k)]])); return S
def ten(C, name, k, no, LD):
    e = nested(name, k); l = C.alloc(Vec(None, e, REAL, X.View([LD] * (k - 1) + [no])), name); return Ptr(l, I0), e
def lds(C, q, *names):
    out = []
    for n in names: x = iv(n); C.assume(ge(x, q.no)); out.append(x)
    return out
def row_(C, name, no): e = fresh(name, asort("R")); return Ptr(C.alloc(Vec(no, e, REAL), name), I0), e
def counting(C, q, levels):
    """candidate invariants: entries counted so far = before + the running sums of the enclosing loops"""
    def chains(mine, outer):
        for cs in itertools.product(*outer, mine):
            if len(cs) <= len(levels): yield ads(*[levels[d](*cs[:d + 1]) for d in range(len(cs))])
    def cand(ex, L):
        out = []; mine = steps_(L); outer = [steps_(O) for O in L.outer]
        st = [l.hv for l in L.leaves if l.hv.sort == asort(asort("B"))]; rv = [l.hv for l in L.leaves if l.hv.sort == asort("R")]; n = [l.hv for l in L.leaves if l.role == "n"]
        for a, b, m in itertools.product(st, rv, n): out += [eq(q.t.cnt(a, b, m), add(q.c0, v)) for v in chains(mine, outer)]
        return out + [ge(m, I0) for m in n]
    C.ex.cand_gens.append(cand); C.ex.cand_to = 4000; C.ex.cand_split = 3
    q.stack = lambda ex: [x for L in ex.loopstack for x in steps_(L)]
def total(C, q, what, cases=((TRUE, ""),)):
    R_ = C.ex.read(C.st, q.pairs); f = eq(q.t.cnt(R_.e.f["state"], R_.e.f["rv"], R_.n), add(q.c0, q.all))
    for c, nm in cases: C.ensure(what + nm, implies(c, f))
def steps_(O): return [l.hv for l in O.leaves if l.hv.sort == "I" and l.step == {1} and l.role != "n"]
def excite(q, ext, h, d): return mul(q.c, tm.rdiv(h, sub(q.E0, d)))
def singles(V, N, shift):
    C, q = sctx(V, "append_singles_asci_contributions<%d, %d>" % (N // 2, shift), N); S = word(C, q, shift, "word"); no = q.no
    nO, o, lo = orbs_(C, "occ", no, lambda x: select(S, x), N); nV, v, lv = orbs_(C, "vir", no, lambda x: not_(select(S, x)), N); nP, p, lp = orbs_(C, "other", no, lambda x: TRUE, N)
    LT, LG, LV = lds(C, q, "LDT", "LDG", "LDV"); T, T_ = ten(C, "T", 2, no, LT); G, G_ = ten(C, "G", 3, no, LG); Vt, V_ = ten(C, "V", 3, no, LV); eps, e_ = row_(C, "eps", no)
    h = lambda i, a: add(add(sel(T_, a, i), lsum(nO, o, lambda x: sel(G_, x, a, i))), lsum(nP, p, lambda x: sel(V_, x, a, i)))
    i, a, x, y = iv("i"), iv("a"), iv("x"), iv("y"); is_, define = q.t.moved("single", 2); define([x, y], q.full, [add(x, num(shift)), add(y, num(shift))], and_(rng(I0, x, num(q.H)), rng(I0, y, num(q.H))), None)
    score = lambda x, y: excite(q, None, mul(h(x, y), q.sg(S, y, x)), q.fd(select(e_, x), select(e_, y), x, y, q.root))
    e1 = fn("one"); O, A = (lambda i: select(o, i)), (lambda a: select(v, a))
    C.axiom(forall([i, a], eq(e1(i, a), ite(and_(ge(abs_(h(O(i), A(a))), q.tol), is_(O(i), A(a)), q.t.q(score(O(i), A(a)))), I1, I0)), [[e1(i, a)]]))
    row = sums(C, "row", e1, 1); tot = sums(C, "all", lambda i: row(i, nV))
    q.all = tot(nO); counting(C, q, [tot, row])
    C.call(V.fn("macis::append_singles_asci_contributions", lambda f: list(f.targs) == [str(N // 2), str(shift)]), [q.c, q.full, S, lo, lv, lp, eps, T, LT, G, LG, Vt, LV, q.tol, q.root, q.E0, q.ham, q.pairs])
    total(C, q, "one entry per single excitation that reaches the threshold"); V.done(C)
def dsign(q, S, cands):
    """contract of doubles_sign (C12; the two directions of an excitation have one sign, see the lemma)"""
    def c(ex, st, f, vals, this):
        if ex.dry: return fresh("sign", "R")
        bra, ket, d = [ex.rv(st, x) for x in vals]; n = num(int(f.targs[0])); k = fresh("k", "I"); same = lambda x, y: x == y or ex.known(st, forall([k], implies(rng(I0, k, n), eq(select(x, k), select(y, k)))))
        occ, vir = [[x for x in l if ex.known(st, and_(rng(I0, x, n), select(d, x)))] for l in cands(ex)]; other = ket if same(bra, S) else bra
        for i, j in itertools.permutations(occ, 2):
            if not ex.known(st, lt(i, j)): continue
            for a, b in itertools.permutations(vir, 2):
                if not ex.known(st, lt(a, b)): continue
                ex.oblige(st, "the determinants differ by the double excitation", and_(select(S, i), select(S, j), not_(select(S, a)), not_(select(S, b)), forall([k], implies(rng(I0, k, n), and_(eq(select(d, k), or_(*[eq(k, x) for x in (i, j, a, b)])), eq(select(other, k), ne(select(S, k), select(d, k))), eq(select(ket if other is bra else bra, k), select(S, k)))))), kind="pre")
                return q.dsg(S, i, j, a, b)
        raise Unsupported("doubles_sign called on operands that are no double excitation")
    return c
def asc(C, n, e):
    t, u = iv("t"), iv("u"); C.assume(forall([t, u], implies(and_(le(I0, t), lt(t, u), lt(u, n)), lt(select(e, t), select(e, u))), [[select(e, t), select(e, u)]]))
def sdoubles(V, N, shift):
    C, q = sctx(V, "append_ss_doubles_asci_contributions<%d, %d>" % (N // 2, shift), N); S = word(C, q, shift, "word"); no = q.no
    nO, o, lo = orbs_(C, "occ", no, lambda x: select(S, x), N); nV, v, lv = orbs_(C, "vir", no, lambda x: not_(select(S, x)), N); nP, p, lp = orbs_(C, "other", no, lambda x: TRUE, N); asc(C, nO, o); asc(C, nV, v)
    LG, = lds(C, q, "LDG"); G, G_ = ten(C, "G", 4, no, LG); eps, e_ = row_(C, "eps", no)
    vs = [iv(x) for x in "xyzw"]; is_, define = q.t.moved("double", 4); define(vs, q.full, [add(x, num(shift)) for x in vs], and_(*[rng(I0, x, num(q.H)) for x in vs]), None)
    h = lambda i, j, a, b: sel(G_, b, j, a, i); E = lambda x: select(e_, x)
    score = lambda i, j, a, b: excite(q, None, mul(q.dsg(S, i, j, a, b), h(i, j, a, b)), q.fd(E(i), E(j), E(a), E(b), i, j, a, b, q.root))
    e1 = fn("one"); ii, aa, jj, bb = (iv(x) for x in ("ii", "aa", "jj", "bb")); at = (select(o, ii), select(o, jj), select(v, aa), select(v, bb))
    C.axiom(forall([ii, aa, jj, bb], eq(e1(ii, aa, jj, bb), ite(and_(ge(abs_(h(*at)), q.tol), is_(*at), q.t.q(score(*at))), I1, I0)), [[e1(ii, aa, jj, bb)]]))
    s4 = sums(C, "b", e1, 3, lambda i, a, j: add(a, I1)); s3 = sums(C, "j", lambda i, a, j: s4(i, a, j, nV), 2, lambda i, a: add(i, I1)); s2 = sums(C, "a", lambda i, a: s3(i, a, nO), 1); s1 = sums(C, "i", lambda i: s2(i, nV))
    q.all = s1(nO); counting(C, q, [s1, s2, s3, s4]); C.ex.summarise = False
    C.ex.contracts["macis::doubles_sign"] = dsign(q, S, lambda ex: ([select(o, c) for c in q.stack(ex)], [select(v, c) for c in q.stack(ex)]))
    C.call(V.fn("macis::append_ss_doubles_asci_contributions", lambda f: list(f.targs) == [str(N // 2), str(shift)]), [q.c, q.full, S, lo, lv, lp, eps, G, LG, q.tol, q.root, q.E0, q.ham, q.pairs])
    total(C, q, "one entry per double excitation that reaches the threshold"); V.done(C)
def odoubles(V, N):
    C, q = sctx(V, "append_os_doubles_asci_contributions<%d>" % (N // 2), N); A, B = word(C, q, 0, "alpha"), word(C, q, N // 2, "beta"); no = q.no
    nO, o, lo = orbs_(C, "occ.a", no, lambda x: select(A, x), N); nV, v, lv = orbs_(C, "vir.a", no, lambda x: not_(select(A, x)), N); mO, oo, mo = orbs_(C, "occ.b", no, lambda x: select(B, x), N); mV, vv, mv = orbs_(C, "vir.b", no, lambda x: not_(select(B, x)), N)
    LV, = lds(C, q, "LDV"); G, V_ = ten(C, "V", 4, no, LV); ea, ea_ = row_(C, "eps.a", no); eb, eb_ = row_(C, "eps.b", no); H = num(q.H)
    vs = [iv(x) for x in "xyzw"]; is_, define = q.t.moved("double", 4); i, j, a, b = vs; define(vs, q.full, [i, a, add(j, H), add(b, H)], and_(*[rng(I0, x, H) for x in vs]), None)
    h = lambda i, j, a, b: sel(V_, a, i, b, j)
    score = lambda i, j, a, b: excite(q, None, mul(mul(q.sg(A, a, i), q.sg(B, b, j)), h(i, j, a, b)), q.fd(select(ea_, i), select(eb_, j), select(ea_, a), select(eb_, b), i, j, a, b, q.root))
    e1 = fn("one"); ii, aa, jj, bb = (iv(x) for x in ("ii", "aa", "jj", "bb")); at = (select(o, ii), select(oo, jj), select(v, aa), select(vv, bb))
    C.axiom(forall([ii, aa, jj, bb], eq(e1(ii, aa, jj, bb), ite(and_(ge(abs_(h(*at)), q.tol), is_(*at), q.t.q(score(*at))), I1, I0)), [[e1(ii, aa, jj, bb)]]))
    s4 = sums(C, "b", e1, 3); s3 = sums(C, "j", lambda i, a, j: s4(i, a, j, mV), 2); s2 = sums(C, "a", lambda i, a: s3(i, a, mO), 1); s1 = sums(C, "i", lambda i: s2(i, nV))
    q.all = s1(nO); counting(C, q, [s1, s2, s3, s4]); C.ex.summarise = False
    C.call(V.fn("macis::append_os_doubles_asci_contributions", lambda f: list(f.targs) == [str(N // 2)]), [q.c, q.full, A, B, lo, mo, lv, mv, ea, eb, G, LV, q.tol, q.root, q.E0, q.ham, q.pairs])
    total(C, q, "one entry per double excitation that reaches the threshold"); V.done(C)
# ---------------------------------------------------------------- the constrained search
def edge(hints, last):
    """contracts of fls and ffs, proved in C10: the last and the first position of a set.  Where the set's edge is a known member it is named by it"""
    def c(ex, st, f, vals, this):
        v = ex.rv(st, vals[0]); N = num(int(f.targs[0])); j = iv("j"); out = (lambda x: x) if last else (lambda x: add(x, I1)); beyond = gt if last else lt
        if not ex.dry:
            for h in hints(ex):
                if ex.known(st, and_(rng(I0, h, N), select(v, h), forall([j], implies(and_(rng(I0, j, N), beyond(j, h)), not_(select(v, j)))))): return out(h)
        k = fresh("edge", "I"); st.fact(forall([j], implies(and_(rng(I0, j, N), select(v, j)), and_(not_(beyond(j, k)), rng(I0, k, N), select(v, k))), [[select(v, j)]])); return out(k)
    return c
def cctx(V, name, N):
    """one alpha string, the strings of the other spin paired with it, and a constraint"""
    C, q = sctx(V, name, N); H = num(q.H); k = iv("k"); q.det, q.os = det(C, N, "det"), det(C, N, "os_det"); q.masks = [det(C, N, x) for x in ("T", "O", "B")]
    C.assume(forall([k], implies(ge(k, q.no), not_(select(q.det, k))), [[select(q.det, k)]]), forall([k], implies(not_(rng(H, k, add(H, q.no))), not_(select(q.os, k))), [[select(q.os, k)]]), forall([k], eq(select(q.full, k), or_(select(q.det, k), select(q.os, k))), [[select(q.full, k)]]))
    return C, q
def called(q, r):
    def gen(ex, st, f, vals, this):
        if not ex.dry:
            for y, z, w in zip(vals, [q.det] + q.masks, ("the determinant", "the constraint", "the orbitals", "the orbitals below the constraint")): same_(ex, st, ex.rv(st, y), z, w)
        return Obj("tuple", r)
    return gen
def same_(ex, st, v, S, what):
    k = iv("k"); ex.oblige(st, what, eq(v, S) if v == S else forall([k], eq(select(v, k), select(S, k))), kind="pre")
def sets(C, q):
    """the two sets of generate_constraint_single_excitations (C23): occupied and virtual; their members in descending order"""
    out = []; k, t, u = iv("k"), iv("t"), iv("u"); N = num(q.N)
    for nm, mem in (("o", lambda x: select(q.det, x)), ("v", lambda x: and_(rng(I0, x, q.no), not_(select(q.det, x))))):
        s = det(C, q.N, nm); n, e, r = iv("n." + nm), fn("member." + nm), fn("place." + nm); out.append((s, n, e, r)); C.assume(rng(I0, n, add(q.no, I1)))
        C.assume(forall([k], implies(select(s, k), and_(mem(k), rng(I0, r(k), n), eq(e(r(k)), k))), [[select(s, k)], [r(k)]]), forall([t], implies(rng(I0, t, n), and_(select(s, e(t)), rng(I0, e(t), q.no), eq(r(e(t)), t))), [[e(t)]]),
                 forall([t, u], implies(and_(le(I0, t), lt(t, u), lt(u, n)), gt(e(t), e(u))), [[e(t), e(u)]]))
    C.ex.contracts["macis::generate_constraint_single_excitations"] = called(q, {"0": out[0][0], "1": out[1][0]})
    C.ex.contracts["macis::fls"] = edge(lambda ex: [e(c) for c in reversed(q.stack(ex)) for _, _, e, _ in out], True)
    def hook(ex, st, v, w):
        for s, n, e, r in out:
            if v == s or ex.known(st, forall([k], implies(rng(I0, k, N), eq(select(v, k), select(s, k))))): return n
    C.ex.count_hooks = (hook,)
    def cand(ex, L):
        return [forall([k], eq(select(l.hv, k), and_(select(s, k), ge(r(k), m))), [[select(l.hv, k)]]) for l in L.leaves if l.hv.sort == asort("B") for m in steps_(L) for s, n, e, r in out]
    C.ex.cand_gens.append(cand); return out
def csingles(V, N):
    C, q = cctx(V, "generate_constraint_singles_contributions_ss<%d>" % N, N); no = q.no; S = q.det; (s, nO, o, _), (s2, nV, v, _) = sets(C, q)
    nP, p, lp = orbs_(C, "same", no, lambda x: TRUE, N); nR, r, lr = orbs_(C, "other", no, lambda x: TRUE, N)
    LT, LG, LV = lds(C, q, "LDT", "LDG", "LDV"); T, T_ = ten(C, "T", 2, no, LT); G, G_ = ten(C, "G", 3, no, LG); Vt, V_ = ten(C, "V", 3, no, LV); eps, e_ = row_(C, "eps", no)
    h = lambda i, a: add(add(sel(T_, a, i), lsum(nP, p, lambda x: sel(G_, x, a, i))), lsum(nR, r, lambda x: sel(V_, x, a, i)))
    i, a, x, y = iv("i"), iv("a"), iv("x"), iv("y"); is_, define = q.t.moved("single", 2); define([x, y], q.full, [x, y], and_(rng(I0, x, num(q.H)), rng(I0, y, num(q.H))), None)
    score = lambda x, y: excite(q, None, mul(h(x, y), q.sg(S, y, x)), q.fd(select(e_, x), select(e_, y), x, y, q.root))
    e1 = fn("one"); C.axiom(forall([i, a], eq(e1(i, a), ite(and_(ge(abs_(mul(q.c, h(o(i), v(a)))), q.tol), is_(o(i), v(a)), q.t.q(score(o(i), v(a)))), I1, I0)), [[e1(i, a)]]))
    row = sums(C, "row", e1, 1); tot = sums(C, "all", lambda i: row(i, nV)); q.all = tot(nO); counting(C, q, [tot, row])
    C.call(V.fn("macis::generate_constraint_singles_contributions_ss", lambda f: f.targs[0] == str(N)), [q.c, S] + q.masks + [q.os, lp, lr, eps, T, LT, G, LG, Vt, LV, q.tol, q.root, q.E0, q.ham, q.pairs])
    empty(C, q, nO, nV, tot, row); total(C, q, "one entry per combination of the two sets that reaches the threshold", any_(nO, nV)); V.done(C)
def any_(n, m): return ((and_(ne(n, I0), ne(m, I0)), ""), (eq(n, I0), " (nothing to move)"), (eq(m, I0), " (nowhere to go)"))
def empty(C, q, nO, nV, tot, row):
    """without second members every row, and so the total, is zero"""
    b = iv("b"); C.induct("no second member, no entry", b, None, lambda b: implies(eq(nV, I0), and_(eq(tot(b), I0), eq(row(b, I0), I0))), hi=nO, pats=[[tot(b)]])
def cdoubles(V, N):
    C, q = cctx(V, "generate_constraint_doubles_contributions_ss<%d>" % N, N); no = q.no; S = q.det; nP, p, lp = orbs_(C, "same", no, lambda x: TRUE, N); nR, r, lr = orbs_(C, "other", no, lambda x: TRUE, N); k, u = iv("k"), iv("u")
    nO, nV, EO, EV = iv("nO"), iv("nV"), fresh("O", asort(asort("B"))), fresh("V", asort(asort("B"))); d = [fn("%s%d" % (a, t)) for a in ("occ", "vir") for t in (0, 1)]; C.assume(rng(I0, nO, num(2 ** 20)), rng(I0, nV, num(2 ** 20)))
    for n, E, (f, g), mem in ((nO, EO, d[:2], lambda x: select(S, x)), (nV, EV, d[2:], lambda x: not_(select(S, x)))):     # contract of generate_constraint_double_excitations (C23)
        C.assume(forall([u, k], implies(rng(I0, u, n), eq(sel(E, u, k), or_(eq(k, f(u)), eq(k, g(u))))), [[sel(E, u, k)]]), forall([u], implies(rng(I0, u, n), and_(lt(f(u), g(u)), mem(f(u)), mem(g(u)), rng(I0, f(u), no), rng(I0, g(u), no))), [[f(u)], [g(u)]]))
    C.ex.contracts["macis::generate_constraint_double_excitations"] = called(q, {"0": Vec(nO, EO, ("bitset", N)), "1": Vec(nV, EV, ("bitset", N))})
    LG, = lds(C, q, "LDG"); G, G_ = ten(C, "G", 4, no, LG); eps, e_ = row_(C, "eps", no); E = lambda x: select(e_, x)
    vs = [iv(x) for x in "xyzw"]; is_, define = q.t.moved("double", 4); define(vs, q.full, vs, and_(*[rng(I0, x, num(q.H)) for x in vs]), None)
    h = lambda i, j, a, b: sel(G_, b, j, a, i); score = lambda i, j, a, b: excite(q, None, mul(q.dsg(S, i, j, a, b), h(i, j, a, b)), q.fd(E(i), E(j), E(a), E(b), i, j, a, b, q.root))
    e1 = fn("one"); ii, aa = iv("ii"), iv("aa"); at = (d[0](ii), d[1](ii), d[2](aa), d[3](aa))
    C.axiom(forall([ii, aa], eq(e1(ii, aa), ite(and_(ge(abs_(mul(q.c, h(*at))), q.tol), is_(*at), q.t.q(score(*at))), I1, I0)), [[e1(ii, aa)]]))
    row = sums(C, "row", e1, 1); tot = sums(C, "all", lambda i: row(i, nV)); q.all = tot(nO); counting(C, q, [tot, row]); C.ex.summarise = False
    for z, nm in enumerate(("ffs", "fls")): C.ex.contracts["macis::" + nm] = edge(lambda ex, z=z: [f(c) for f in d[z::2] for c in q.stack(ex)], bool(z))
    C.ex.contracts["macis::doubles_sign"] = dsign(q, S, lambda ex: ([f(c) for c in q.stack(ex) for f in d[:2]], [f(c) for c in q.stack(ex) for f in d[2:]]))
    C.call(V.fn("macis::generate_constraint_doubles_contributions_ss", lambda f: f.targs[0] == str(N)), [q.c, S] + q.masks + [q.os, lp, lr, eps, G, LG, q.tol, q.root, q.E0, q.ham, q.pairs])
    empty(C, q, nO, nV, tot, row); total(C, q, "one entry per combination of the two lists that reaches the threshold", any_(nO, nV)); V.done(C)
def codoubles(V, N):
    C, q = cctx(V, "generate_constraint_doubles_contributions_os<%d>" % N, N); no = q.no; S = q.det; (s, nO, o, _), (s2, nV, v, _) = sets(C, q); H = num(q.H); B = word_of(C, q, "beta")
    nP, p, lp = orbs_(C, "same", no, lambda x: TRUE, N); mO, oo, mo = orbs_(C, "occ.b", no, lambda x: select(B, x), N); mV, vv, mv = orbs_(C, "vir.b", no, lambda x: not_(select(B, x)), N)
    LV, = lds(C, q, "LDV"); G, V_ = ten(C, "V", 4, no, LV); ea, ea_ = row_(C, "eps.a", no); eb, eb_ = row_(C, "eps.b", no)
    vs = [iv(x) for x in "xyzw"]; is_, define = q.t.moved("double", 4); i, j, a, b = vs; define(vs, q.full, [i, a, add(j, H), add(b, H)], and_(*[rng(I0, x, H) for x in vs]), None)
    h = lambda i, j, a, b: sel(V_, a, i, b, j)
    score = lambda i, j, a, b: excite(q, None, mul(mul(q.sg(S, a, i), q.sg(B, b, j)), h(i, j, a, b)), q.fd(select(ea_, i), select(eb_, j), select(ea_, a), select(eb_, b), i, j, a, b, q.root))
    e1 = fn("one"); ii, aa, jj, bb = (iv(x) for x in ("ii", "aa", "jj", "bb")); at = (o(ii), select(oo, jj), v(aa), select(vv, bb))
    C.axiom(forall([ii, aa, jj, bb], eq(e1(ii, aa, jj, bb), ite(and_(ge(abs_(mul(q.c, h(*at))), q.tol), is_(*at), q.t.q(score(*at))), I1, I0)), [[e1(ii, aa, jj, bb)]]))
    s4 = sums(C, "b", e1, 3); s3 = sums(C, "j", lambda i, a, j: s4(i, a, j, mV), 2); s2_ = sums(C, "a", lambda i, a: s3(i, a, mO), 1); s1 = sums(C, "i", lambda i: s2_(i, nV))
    q.all = s1(nO); counting(C, q, [s1, s2_, s3, s4]); C.ex.summarise = False
    C.call(V.fn("macis::generate_constraint_doubles_contributions_os", lambda f: f.targs[0] == str(N)), [q.c, S] + q.masks + [q.os, lp, mo, mv, ea, eb, G, LV, q.tol, q.root, q.E0, q.ham, q.pairs])
    empty(C, q, nO, nV, s1, s2_); total(C, q, "one entry per combination that reaches the threshold", any_(nO, nV)); V.done(C)
def word_of(C, q, name):
    """the other spin's half of the operand"""
    B = det(C, q.H, name); q.words.append(B); k = iv("k"); C.assume(forall([k], implies(rng(I0, k, num(q.H)), eq(select(B, k), select(q.os, add(k, num(q.H))))), [[select(B, k)]])); return B
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lspdlog", "-lfmt"]; HARNESS_FLAGS = ["-DOMPI_SKIP_MPICXX", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
# ---------------------------------------------------------------- lemmas
def counts(V):
    """the counting axioms of target() follow from the definition of the count"""
    C = V.ctx("how many entries are hits"); c, one = fn("count"), fn("one"); SB, SR = asort(asort("B")), asort("R"); m, n, u = iv("m"), iv("n"), iv("u")
    A, Rr, x, y = fresh("S", SB), fresh("R", SR), fresh("x", asort("B")), fresh("y", "R"); A2, R2 = fresh("S2", SB), fresh("R2", SR); C.assume(eq(A2, store(A, n, x)), eq(R2, store(Rr, n, y)), ge(n, I0))
    for s, r in ((A, Rr), (A2, R2)): C.axiom(eq(c(s, r, I0), I0), forall([m, u], implies(and_(ge(m, I0), eq(u, add(m, I1))), eq(c(s, r, u), add(c(s, r, m), one(select(s, m), select(r, m))))), [[c(s, r, m), c(s, r, u)]]))
    C.induct("entries before the appended one count as before", iv("b"), None, lambda v: eq(c(A2, R2, v), c(A, Rr, v)), hi=n)
    C.ensure("an appended entry counts when it is a hit", eq(c(A2, R2, add(n, I1)), add(c(A, Rr, n), one(x, y)))); V.done(C)
def directions(V, N):
    """a double excitation and its reverse have one sign (the code asks for the sign of the reverse)"""
    C = setctx(V, "double excitation signs in both directions (%d)" % N); S, E = det(C, N, "state"), det(C, N, "excited"); i, j, a, b, k, v = (iv(x) for x in ("i", "j", "a", "b", "k", "v")); NN = num(N)
    C.assume(*[rng(I0, x, NN) for x in (i, j, a, b)], select(S, i), select(S, j), not_(select(S, a)), not_(select(S, b)), lt(i, j), lt(a, b), forall([k], eq(select(E, k), ne(select(S, k), or_(*[eq(k, x) for x in (i, j, a, b)]))), [[select(E, k)], [select(S, k)]]))
    def lemma(nm, X, p, q, plus, minus):
        """electrons of X strictly between p and q (either way round), from those of S"""
        for z, (lo, hi) in enumerate(((p, q), (q, p))):
            f = lambda X, v: sum_(k, I0, v, ite(and_(select(X, k), lt(lo, k), lt(k, hi)), I1, I0)); one = lambda x, v: ite(and_(lt(lo, x), lt(x, hi), lt(x, v)), I1, I0)
            def P(v):
                r = f(S, v)
                for x in plus: r = add(r, one(x, v))
                for x in minus: r = sub(r, one(x, v))
                return eq(f(X, v), r)
            C.lemma("%s, %s (base)" % (nm, z), P(I0), use=False); C.lemma("%s, %s (step)" % (nm, z), implies(and_(rng(I0, v, NN), P(v), touch(select(S, v))), P(add(v, I1))), use=False); C.axiom(P(NN))
    lemma("between the first pair, forwards", S, a, i, (), ()); lemma("between the second pair, forwards", flip(S, i, a), b, j, (a,), (i,)); lemma("between the first pair, backwards", E, i, a, (b,), (j,)); lemma("between the second pair, backwards", flip(E, a, i), j, b, (), ())
    C.ensure("both directions have one sign", eq(dphase(S, N, [i, j], [a, b]), dphase(E, N, [a, b], [i, j]))); V.done(C)
# ---------------------------------------------------------------- the whole search expansion
def standard(V, N):
    """every search determinant's excitations are entered with its own data: the append functions' contracts (above), the index lists (C11), orbital energies (C15) and diagonal elements (C14)"""
    C = hctx(V, "asci_contributions_standard<%d>" % N); q = Q(); q.N, q.H = N, N // 2; H = num(q.H); q.t = target(C, N); k, i = iv("k"), iv("i"); no, nd = iv("norb"), iv("ncdets"); C.assume(rng(I1, no, add(H, I1)), ge(nd, I0)); ty = ("bitset", N)
    D = fresh("dets", asort(asort("B"))); det_ = lambda c: select(D, c); ld = C.alloc(Vec(nd, D, ty), "cdets"); nC, co = iv("nC"), fresh("C", asort("R")); C.assume(ge(nC, nd)); lc = C.alloc(Vec(nC, co, REAL), "C")
    E0, tol, js, pm = fresh("E_ASCI", "R"), fresh("h_el_tol", "R"), fresh("just_singles", "B"), iv("pair_size_max"); C.assume(ge(pm, I0))
    st_ = rec_obj(C, "macis::ASCISettings", {"h_el_tol": tol, "just_singles": js, "pair_size_max": pm}); names = ("T_pq", "G_red", "V_red", "G_pqrs", "V_pqrs"); P = {n: Ptr(C.alloc(Vec(None, fresh(n, asort("R")), REAL), n), I0) for n in names}
    lh = C.alloc(Obj("macis::HamiltonianGenerator<%d>" % N, {}), "ham"); L = {(s, z): (fn("n%s%s" % (z, s)), fn("%s%s" % (z, s), asort("I"))) for s in "ab" for z in ("occ", "vir")}; en = {s: fn("orbital energies " + s, asort("R")) for s in "ab"}; hd = fn("diagonal", "R")
    stack = lambda ex: [x for O in ex.loopstack for x in steps_(O)]
    blind = lambda ex: ex.dry or not stack(ex)      # effects only: nothing is known about the result then
    def which(ex, st): return stack(ex)[-1]
    def word_is(ex, st, v, c, s, what): ex.oblige(st, what, forall([k], implies(rng(I0, k, H), eq(select(v, k), select(det_(c), k if s == "a" else add(k, H))))), kind="pre")
    def is_word(ex, st, v, c, s): return ex.known(st, forall([k], implies(rng(I0, k, H), eq(select(v, k), select(det_(c), k if s == "a" else add(k, H))))))
    def split(ex, st, f, vals, this):
        if blind(ex):
            for l in vals[2:]: ex.write(st, l, Vec(fresh("n", "I"), fresh("e", asort("I")), U32))
            return None
        c = which(ex, st); v = ex.rv(st, vals[1]); s = next((s for s in "ab" if is_word(ex, st, v, c, s)), None)
        ex.oblige(st, "the index lists are those of a word of the current determinant", TRUE if s else FALSE, kind="pre"); ex.oblige(st, "orbitals to list", eq(ex.rv(st, vals[0]), no), kind="pre"); s = s or "a"
        for l, z in zip(vals[2:], ("occ", "vir")): n, e = L[s, z]; st.fact(ge(n(c), I0)); ex.write(st, l, Vec(n(c), e(c), U32))
    C.ex.contracts["macis::bitset_to_occ_vir"] = split
    def lst(ex, st, v, c, s, z, what):
        v = ex.rv(st, v); n, e = L[s, z]; ex.oblige(st, what, and_(eq(v.n, n(c)), forall([k], implies(rng(I0, k, v.n), eq(select(v.e, k), select(e(c), k))))), kind="pre")
    def is_list(ex, st, v, c, s, z): n, e = L[s, z]; return ex.known(st, and_(eq(v.n, n(c)), forall([k], implies(rng(I0, k, v.n), eq(select(v.e, k), select(e(c), k))))))
    def ens(ex, st, f, vals, this):
        e = fresh("e", asort("R"))
        if not blind(ex):
            c = which(ex, st); s = "a" if is_list(ex, st, ex.rv(st, vals[1]), c, "a", "occ") else "b"; o = "b" if s == "a" else "a"; lst(ex, st, vals[1], c, s, "occ", "orbital energies: same-spin electrons"); lst(ex, st, vals[2], c, o, "occ", "orbital energies: other electrons"); ex.oblige(st, "orbital energies: number", eq(ex.rv(st, vals[0]), no), kind="pre"); e = en[s](c)
        return Vec(no, e, REAL)
    def diag(ex, st, f, vals, this):
        if blind(ex): return fresh("d", "R")
        c = which(ex, st)
        for v in vals: v = ex.rv(st, v); ex.oblige(st, "diagonal element of the current determinant", TRUE if v == det_(c) else forall([k], eq(select(v, k), select(det_(c), k))), kind="pre")
        return hd(c)
    cls = "macis::HamiltonianGenerator<%d>::" % N; C.ex.contracts[cls + "single_orbital_ens"] = ens; C.ex.contracts[cls + "matrix_element"] = diag
    part = {x: fn("entries " + x) for x in ("a", "b", "aa", "bb", "ab")}
    def append(shape):
        def c_(ex, st, f, vals, this):
            lp = vals[-1]; ty = ("rec", "macis::asci_contrib<std::bitset<%d>>" % N); S1, R1, n1 = fresh("states", asort(asort("B"))), fresh("scores", asort("R")), fresh("n", "I")
            if not blind(ex):
                c = which(ex, st); two = len(f.targs) > 1; s = "ab"[int(f.targs[1]) // q.H] if two else "a"; o = "b" if s == "a" else "a"; old = ex.read(st, lp); r = lambda v: ex.rv(st, v)
                def real(v, w, what): ex.oblige(st, what, eq(r(v), w), kind="pre")
                def ptr(v, w, what): v = r(v); ex.oblige(st, what, eq(v.off, w.off) if v.base == w.base else FALSE, kind="pre")
                def data(v, s, what): v = r(v); e = ex.read(st, v.base); ex.oblige(st, what, and_(eq(v.off, I0), eq(e.n, no), forall([k], implies(rng(I0, k, no), eq(select(e.e, k), select(en[s](c), k))))), kind="pre")
                real(vals[0], select(co, c), "the determinant's coefficient"); w = r(vals[1]); ex.oblige(st, "the determinant", TRUE if w == det_(c) else forall([k], eq(select(w, k), select(det_(c), k))), kind="pre") if shape != "ab" else None
                if shape != "ab":
                    word_is(ex, st, w if False else r(vals[2]), c, s, "the excited word"); lst(ex, st, vals[3], c, s, "occ", "occupied orbitals"); lst(ex, st, vals[4], c, s, "vir", "virtual orbitals"); lst(ex, st, vals[5], c, o, "occ", "electrons of the other spin"); data(vals[6], s, "orbital energies")
                    tens, key = ((("T_pq", 7), ("G_red", 9), ("V_red", 11)), s) if shape == "s" else ((("G_pqrs", 7),), s + s)
                else:
                    ex.oblige(st, "the determinant", TRUE if w == det_(c) else forall([k], eq(select(w, k), select(det_(c), k))), kind="pre"); word_is(ex, st, r(vals[2]), c, "a", "the alpha word"); word_is(ex, st, r(vals[3]), c, "b", "the beta word")
                    for v, (x, z) in zip(vals[4:8], (("a", "occ"), ("b", "occ"), ("a", "vir"), ("b", "vir"))): lst(ex, st, v, c, x, z, "%s orbitals" % z)
                    data(vals[8], "a", "alpha orbital energies"); data(vals[9], "b", "beta orbital energies"); tens, key = (("V_pqrs", 10),), "ab"
                for nm, p in tens: ptr(vals[p], P[nm], nm); real(vals[p + 1], no, "leading dimension of " + nm)
                h0 = tens[-1][1] + 2; real(vals[h0], tol, "the threshold"); real(vals[h0 + 1], hd(c), "the diagonal element"); real(vals[h0 + 2], E0, "the energy"); ex.oblige(st, "the Hamiltonian", TRUE if vals[h0 + 3] == lh else FALSE, kind="pre")
                st.fact(eq(q.t.cnt(S1, R1, n1), add(q.t.cnt(old.e.f["state"], old.e.f["rv"], old.n), part[key](c))))
            st.fact(ge(n1, I0)); st.fact(le(n1, pm)); ex.write(st, lp, Vec(n1, Obj(ty, {"state": S1, "rv": R1}), ty))
        return c_
    for nm, sh in (("singles", "s"), ("ss_doubles", "ss"), ("os_doubles", "ab")): C.ex.contracts["macis::append_%s_asci_contributions" % nm] = append(sh)
    C.ex.externs = dict(C.ex.externs, **{"spdlog::get": lambda ex, st, fr, args, node: Opaque("logger")})
    C.ex.dead = lambda c: pm in tm.fv(c)      # the container does not outgrow its limit
    S, Rr, n = fresh("S", asort(asort("B"))), fresh("R", asort("R")), iv("n"); C.axiom(forall([S, Rr], eq(q.t.cnt(S, Rr, I0), I0), [[q.t.cnt(S, Rr, I0)]]))
    tot = sums(C, "all", lambda c: add(add(part["a"](c), part["b"](c)), ite(js, I0, add(add(part["aa"](c), part["bb"](c)), part["ab"](c))))); q.c0 = I0; q.all = tot(nd); counting(C, q, [tot])
    R_ = C.call(V.fn("macis::asci_contributions_standard", lambda f: f.targs[0] == str(N)), [st_, Ptr(ld, I0), Ptr(ld, nd), E0, lc, no] + [P[n] for n in names] + [lh])
    C.ensure("the entries of every search determinant, each once", eq(q.t.cnt(R_.e.f["state"], R_.e.f["rv"], R_.n), q.all)); V.done(C)
