from spec import *
from c12 import byp
TU = "asci"
NOTE = "sort_and_accumulate_asci_pairs (iterator and container form), keep_only_largest_copy_asci_pairs and reorder_ci_on_coeff for widths 64 and 128, every list and every sub-range. The loop invariants follow the runs of equal determinants of the sorted list. bitset_less is used through its contract (C10: unsigned comparison of the bit strings)."
ASSUME = ["boost::sort::pdqsort_branchless / std::sort return a permutation in comparator order; std::unique keeps the first of every run of equal neighbours", "scores are exact reals (the order of a floating-point sum is not fixed by the property)"]
W = (64, 128)
def jobs(V): return [("%s %d" % (n, N), lambda f=f, N=N, k=k: f(V, N, k)) for N in W for n, f, k in (*[(nm + e, merge, (k, e != "")) for nm, k in (("accumulate range", "range"), ("accumulate container", "container"), ("keep largest", "largest")) for e in ("", " empty")], ("reorder by coefficient", reorder, None))]

def sctx(V, name, N=None):
    C = V.ctx(name)
    # the unsigned value of a bit string: injective
    C.key = fn("value"); C.ex.contracts["macis::bitset_less"] = lambda ex, st, f, vals, this: lt(C.key(vals[0]), C.key(vals[1]))
    if N: x, y = fresh("x", ("BV", N)), fresh("y", ("BV", N)); C.axiom(forall([x, y], implies(eq(C.key(x), C.key(y)), eq(x, y)), [[C.key(x), C.key(y)]]))
    return C
def merge(V, N, kind):
    kind, empty = kind
    C = sctx(V, {"range": "sort_and_accumulate_asci_pairs(begin, end)", "container": "sort_and_accumulate_asci_pairs(container)", "largest": "keep_only_largest_copy_asci_pairs"}[kind] + "<%d>" % N + (", empty" if empty else ""), N)
    BV = ("BV", N); q, r, i, j, k, u, z = (iv(x) for x in "qrijkuz")
    n, S0, R0 = iv("n"), fresh("states", asort(BV)), fresh("scores", asort("R"))
    lo, hi = (iv("lo"), iv("hi")) if kind == "range" else (I0, n)
    C.assume(le(I0, lo), le(lo, hi), le(hi, n), eq(lo, hi) if empty else lt(lo, hi))
    ty = ("rec", "macis::asci_contrib<std::bitset<%d>>" % N)
    loc = C.alloc(Vec(n, Obj(ty, {"state": S0, "rv": R0}), ty), "pairs")
    S, R = fresh("S", asort(BV)), fresh("R", asort("R")); C.ex.sorted_leaves = [S, R]   # contents after sorting
    F, E, P, M, A = fn("first"), fn("end"), fn("prefix", "R"), fn("most", "R"), fn("at"); s = lambda i: select(S, i); inr = lambda i: rng(lo, i, hi)
    new = lambda i: or_(eq(i, lo), ne(s(i), s(sub(i, I1))))
    def define(f, val, first): C.axiom(forall([i, u], implies(and_(eq(u, add(i, I1)), ge(i, lo)), eq(f(u), val(i))), [[f(i), f(u)]]), eq(f(lo), first))
    define(F, lambda i: ite(new(add(i, I1)), add(i, I1), F(i)), lo)
    define(P, lambda i: add(P(i), select(R, i)), num(0, "R"))
    define(M, lambda i: ite(new(add(i, I1)), select(R, add(i, I1)), ite(lt(M(i), select(R, add(i, I1))), select(R, add(i, I1)), M(i))), select(R, lo))
    define(A, lambda i: ite(or_(new(add(i, I1)), lt(M(i), select(R, add(i, I1)))), add(i, I1), A(i)), lo)
    C.axiom(forall([i, u], implies(and_(eq(u, add(i, I1)), rng(lo, i, hi)), eq(E(i), ite(or_(eq(u, hi), new(u)), u, E(u)))), [[E(i), E(u)]]), implies(lt(lo, hi), eq(E(sub(hi, I1)), hi)))
    # facts of the sorted list
    srt = forall([i, j], implies(and_(le(lo, i), lt(i, j), lt(j, hi)), not_(lt(C.key(s(j)), C.key(s(i))))), [[s(i), s(j)]])
    hints = lambda i: touch(F(i), E(i), F(add(i, I1)), E(add(i, I1)), M(i), M(add(i, I1)), A(i), A(add(i, I1)), s(i))
    def step(name, P_, pats, more=()):
        """induction whose step may look at the next position"""
        C.lemma(name + " (base)", implies(and_(lt(lo, hi), hints(lo), *more), P_(lo)), use=False)
        C.lemma(name + " (step)", implies(and_(le(lo, z), lt(add(z, I1), hi), P_(z), hints(z), *more), P_(add(z, I1))), use=False)
        C.axiom(forall([i], implies(inr(i), P_(i)), pats))
    step("the run of a position starts at or before it, with the same determinant", lambda i: and_(le(lo, F(i)), le(F(i), i), eq(s(F(i)), s(i)), eq(F(F(i)), F(i)), new(F(i))), [[F(i)]])
    step("starting a run", lambda i: implies(new(i), eq(F(i), i)), [[F(i)]])
    # ends
    C.lemma("a run ends behind its positions (last)", implies(and_(lt(lo, hi)), gt(E(sub(hi, I1)), sub(hi, I1))), use=False)
    C.lemma("a run ends behind its positions (step)", implies(and_(le(lo, z), lt(add(z, I1), hi), gt(E(add(z, I1)), add(z, I1)), le(E(add(z, I1)), hi), hints(z)), and_(gt(E(z), z), le(E(z), hi))), use=False)
    C.axiom(forall([i], implies(inr(i), and_(gt(E(i), i), le(E(i), hi))), [[E(i)]]))
    step("all positions of a run have its end", lambda i: eq(E(i), E(F(i))), [[F(i)]])
    C.lemma("the position before a new run is the last of its run", implies(and_(le(lo, z), lt(add(z, I1), hi), new(add(z, I1)), hints(z)), eq(E(F(z)), add(z, I1))), use=False)
    C.axiom(forall([i, u], implies(and_(eq(u, add(i, I1)), ge(i, lo), lt(u, hi), new(u)), eq(E(F(i)), u)), [[F(i), F(u)]]), implies(lt(lo, hi), eq(E(F(sub(hi, I1))), hi)))
    Rd = lambda a, i: select(a, i)
    head = lambda j: eq(F(j), j)
    total = lambda j: sub(P(E(j)), P(j))
    def cand(ex, L):
        out = []; big = kind == "largest"
        for B in counters(ex, L):
            c = F(sub(B, I1))
            for l in L.leaves:
                if l.hv.sort == "I": out.append(eq(l.hv, c))
                if l.hv.sort == asort("R"):
                    out.append(forall([j], implies(not_(rng(lo, j, B)), eq(Rd(l.hv, j), Rd(R, j))), [[Rd(l.hv, j)]]))
                    val = ite(head(j), ite(eq(j, c), M(sub(B, I1)), M(sub(E(j), I1))), Rd(R, j)) if big else ite(head(j), ite(eq(j, c), sub(P(B), P(j)), total(j)), num(0, "R"))
                    out.append(forall([j], implies(rng(lo, j, B), eq(Rd(l.hv, j), val)), [[Rd(l.hv, j)]]))
                if l.hv.sort == asort(BV): out.append(forall([j], eq(Rd(l.hv, j), s(j)), [[Rd(l.hv, j)]]))
        return out
    C.ex.cand_gens.append(cand); C.ex.cand_to = 4000
    if kind == "range": ret = C.call(V.fn("macis::sort_and_accumulate_asci_pairs", lambda f: len(f.params) == 2 and "<%d>" % N in f.targs[0]), [Ptr(loc, lo), Ptr(loc, hi)])
    else: C.call(V.fn("macis::" + ("keep_only_largest_copy_asci_pairs" if kind == "largest" else "sort_and_accumulate_asci_pairs"), lambda f: len(f.params) == 1 and "<%d>" % N in f.targs[0]), [loc])
    O = C.ex.read(C.st, loc); so, ro = O.e.f["state"], O.e.f["rv"]
    out_of = forall([i], implies(not_(inr(i)), and_(eq(select(so, i), select(S0, i)), eq(select(ro, i), select(R0, i)))))
    if empty:
        C.ensure("an empty list stays empty", eq(ret.off, hi) if kind == "range" else eq(O.n, I0)); C.ensure("other elements are untouched", and_(eq(O.n, n), out_of)) if kind == "range" else None; V.done(C); return
    m, H, rank = C.ex.last_unique; pi, pinv = C.ex.last_perm
    at = lambda a, r: select(a, add(lo, r)); R_ = lambda r: rng(I0, r, m)
    if kind == "range": C.ensure("the returned end and the untouched rest", and_(eq(ret.off, add(lo, m)), eq(O.n, n), out_of))
    else: C.ensure("the list shrinks to its distinct determinants", eq(O.n, m))
    C.ensure("the sorted list is a rearrangement of the input", forall([q], implies(inr(q), and_(inr(pi(q)), eq(s(q), select(S0, pi(q))), eq(select(R, q), select(R0, pi(q)))))))
    C.ensure("no contribution is lost or repeated by the rearrangement", forall([q], implies(and_(inr(q), touch(pi(q), pi(pinv(q)))), and_(inr(pinv(q)), eq(pi(pinv(q)), q), eq(pinv(pi(q)), q)))))
    C.lemma("kept elements start runs", forall([r], implies(and_(R_(r), touch(F(H(r)))), eq(F(H(r)), H(r))), [[H(r)]]))
    C.ensure("determinants of the result", forall([r], implies(R_(r), eq(at(so, r), s(H(r))))))
    C.lemma("different runs hold different determinants", forall([i, j], implies(and_(inr(i), inr(j), lt(i, j), head(j), touch(s(sub(j, I1)))), lt(C.key(s(i)), C.key(s(j)))), [[F(i), F(j)]]))
    C.ensure("ascending order, no determinant twice", forall([r, u], implies(and_(R_(r), R_(u), lt(r, u), touch(F(H(r)), F(H(u)), H(r), H(u))), lt(C.key(at(so, r)), C.key(at(so, u))))))
    C.ensure("every determinant of the input is in the result", forall([k], implies(and_(inr(k), touch(pi(pinv(k)), F(pinv(k)), rank(F(pinv(k))), H(rank(F(pinv(k)))))), and_(R_(rank(F(pinv(k)))), eq(at(so, rank(F(pinv(k)))), select(S0, k))))))
    h = iv("h"); C.induct("positions before the end of a run belong to it", q, h, lambda q: implies(and_(inr(h), head(h), lt(q, E(h)), touch(F(q), F(add(q, I1)), E(F(q)))), eq(F(q), h))); C.ex.axioms.pop()
    C.axiom(forall([h, q], implies(and_(inr(h), head(h), le(h, q), lt(q, E(h))), eq(F(q), h)), [[E(h), F(q)]]))
    hyp = lambda *x: and_(R_(r), inr(q), touch(F(H(r)), F(q), F(F(q)), E(H(r)), E(F(q))), *x); inside = and_(le(H(r), q), lt(q, E(H(r))))
    C.ensure("a run holds only contributions with its determinant", forall([r, q], implies(hyp(inside), eq(s(q), s(H(r))))))
    C.lemma("runs of equal determinants coincide", forall([i, j], implies(and_(inr(i), inr(j), head(i), head(j), eq(s(i), s(j))), eq(i, j)), [[F(i), F(j)]]))
    C.lemma("the run of an equal determinant is the same run", forall([r, q], implies(hyp(eq(s(q), s(H(r)))), eq(F(q), H(r)))), use=False)
    C.ensure("a run holds every contribution with its determinant", forall([r, q], implies(hyp(eq(s(q), s(H(r))), eq(F(q), H(r))), inside)))
    if kind != "largest": C.ensure("score: the sum over the run", forall([r], implies(and_(R_(r), touch(F(H(r)))), eq(at(ro, r), total(H(r))))))
    else:
        C.ensure("score: the running maximum of the run", forall([r], implies(and_(R_(r), touch(F(H(r)))), eq(at(ro, r), M(sub(E(H(r)), I1))))))
        step("the maximum is attained in the run", lambda i: and_(le(F(i), A(i)), le(A(i), i), eq(M(i), select(R, A(i)))), [[M(i)]])
        step("the maximum covers the position itself", lambda i: ge(M(i), select(R, i)), [[M(i)]])
        C.induct("no score of the run is larger", i, q, lambda i: implies(and_(inr(q), lt(i, hi), le(F(i), q), touch(F(i), F(q), M(i), F(add(i, I1)), M(add(i, I1)))), ge(M(i), select(R, q)))); C.ex.axioms.pop()
        C.axiom(forall([i, q], implies(and_(inr(q), le(q, i), lt(i, hi), le(F(i), q)), ge(M(i), select(R, q))), [[M(i), select(R, q)]]))
        last = lambda r: sub(E(H(r)), I1)
        C.ensure("score: largest of its determinant", forall([r, q], implies(and_(R_(r), le(H(r), q), lt(q, E(H(r))), touch(F(H(r)), F(q), F(last(r)), M(last(r)))), ge(at(ro, r), select(R, q)))))
        C.ensure("score: one of its determinant's scores", forall([r], implies(and_(R_(r), touch(F(H(r)), F(last(r)), M(last(r)), A(last(r)))), and_(le(H(r), A(last(r))), lt(A(last(r)), E(H(r))), eq(at(ro, r), select(R, A(last(r))))))))
    V.done(C)
def reorder(V, N, kind):
    C = sctx(V, "reorder_ci_on_coeff<%d>" % N); n = iv("n"); D0, C0 = fresh("dets", asort(("BV", N))), fresh("coeffs", asort("R")); C.assume(ge(n, I0)); i, j = iv("i"), iv("j")
    d, c = C.alloc(Vec(n, D0, ("bitset", N)), "dets"), C.alloc(Vec(n, C0, ("real", 64)), "C")
    C.call(V.fn("macis::reorder_ci_on_coeff", lambda f: "<%d>" % N in f.targs[0]), [d, c])
    D, Q = C.ex.read(C.st, d), C.ex.read(C.st, c); pi, pinv = C.ex.last_perm; a = lambda i: ite(ge(select(Q.e, i), num(0, "R")), select(Q.e, i), tm.neg(select(Q.e, i)))
    C.ensure("sizes", and_(eq(D.n, n), eq(Q.n, n)))
    C.ensure("determinants and coefficients move together", forall([i], implies(rng(I0, i, n), and_(rng(I0, pi(i), n), eq(select(D.e, i), select(D0, pi(i))), eq(select(Q.e, i), select(C0, pi(i)))))))
    C.ensure("no entry is lost or repeated", forall([i], implies(and_(rng(I0, i, n), touch(pi(i), pi(pinv(i)))), and_(rng(I0, pinv(i), n), eq(pi(pinv(i)), i), eq(pinv(pi(i)), i)))))
    C.ensure("descending magnitude", forall([i, j], implies(and_(le(I0, i), lt(i, j), lt(j, n)), ge(a(i), a(j)))))
    V.done(C)
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]
HARNESS_FLAGS = ["-DOMPI_SKIP_MPICXX"]
