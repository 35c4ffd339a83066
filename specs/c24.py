from spec import *
from c12 import byp
TU = "asci"
NOTE = "dist_quickselect, leg_partition and total_gather_and_exclusive_scan for every number of processes, every distribution (empty processes included), every k and every strict weak order (given by an uninterpreted key). The loop is proved with ghost bounds lo < hi: what is left on every process is exactly its elements with a key strictly between them, and k counts from lo; every round removes at least one element."
ASSUME = ["MPI: Allgather / Allreduce(SUM) / Allgatherv / Bcast deliver what every process of the communicator passed to the matching call; every process runs the same code, so what another process passes is what the contract of the call says with that process's rank (the contract is proved for an arbitrary rank)", "std::partition, std::nth_element rearrange the range (the number of elements below any bound is kept) and std::max_element returns a maximal element", "the element count over all processes and k fit the types of the code (size_t, int)", "the pseudo-random generator returns values in [1, 2^31-2]"]
KEYS = asort("R"); LESS, SAME = Obj("macis::vc_less", {}), Obj("macis::vc_same", {})

class G: pass
def setting(V, name, prove=False):
    """keys, counting functions and their lemmas, the data of every process"""
    C = V.ctx(name); q = G(); q.C = C; ex = C.ex
    q.key = fn("key", "R"); ex.externs = {"vc_key": lambda ex, st, fr, args, n: q.key(ex.rv(st, ex.ev(st, fr, args[0])))}
    q.lt, q.le = fn("below"), fn("upto")          # (array, begin, end, bound) -> number of elements with key < bound, <= bound
    a = fresh("a", KEYS); b, e, m, t, z = (iv(x) for x in "bemtz"); v, w = fresh("v", "R"), fresh("w", "R"); K = lambda t: q.key(select(a, t))
    q.ax = {}
    def law(nm, f):
        q.ax[nm] = f
        if prove: C.axiom(f)
    lemma = (lambda nm, f: C.lemma(nm, f, use=False)) if prove else (lambda nm, f: None)
    for f, P, nm in ((q.lt, lambda t, v: lt(K(t), v), "below"), (q.le, lambda t, v: le(K(t), v), "upto")):
        law(nm + " step", forall([a, b, e, m, v], implies(and_(eq(m, add(e, I1)), le(b, e)), eq(f(a, b, m, v), add(f(a, b, e, v), ite(P(e, v), I1, I0)))), [[f(a, b, e, v), f(a, b, m, v)]])); law(nm + " empty", forall([a, b, v], eq(f(a, b, b, v), I0), [[f(a, b, b, v)]]))
        def ind(name, P_, pats, hyp=TRUE, more=lambda e: TRUE):
            """induction over the end of the range"""
            lemma("%s, %s (base)" % (nm, name), implies(and_(hyp(b), touch(f(a, b, b, v))), P_(b)))
            lemma("%s, %s (step)" % (nm, name), implies(and_(le(b, z), implies(hyp(z), P_(z)), hyp(add(z, I1)), hyp(z), touch(f(a, b, z, v), f(a, b, add(z, I1), v)), more(z)), P_(add(z, I1))))
        T = lambda e: TRUE
        ind("bounds", lambda e: and_(le(I0, f(a, b, e, v)), le(f(a, b, e, v), sub(e, b))), None, T); law(nm + " bounds", forall([a, b, e, v], implies(le(b, e), and_(le(I0, f(a, b, e, v)), le(f(a, b, e, v), sub(e, b)))), [[f(a, b, e, v)]]))
        lemma("%s, split (base)" % nm, implies(and_(le(b, m), touch(f(a, b, m, v), f(a, m, m, v))), eq(f(a, b, m, v), add(f(a, b, m, v), f(a, m, m, v)))))
        lemma("%s, split (step)" % nm, implies(and_(le(b, m), le(m, z), eq(f(a, b, z, v), add(f(a, b, m, v), f(a, m, z, v))), touch(f(a, b, add(z, I1), v), f(a, m, add(z, I1), v))), eq(f(a, b, add(z, I1), v), add(f(a, b, m, v), f(a, m, add(z, I1), v)))))
        law(nm + " split", forall([a, b, m, e, v], implies(and_(le(b, m), le(m, e)), eq(f(a, b, e, v), add(f(a, b, m, v), f(a, m, e, v)))), [[f(a, b, m, v), f(a, b, e, v)], [f(a, m, e, v), f(a, b, e, v)]]))
        a2 = fresh("a2", KEYS); lemma("%s, equal contents (step)" % nm, implies(and_(le(b, z), eq(f(a, b, z, v), f(a2, b, z, v)), eq(select(a, z), select(a2, z)), touch(f(a, b, add(z, I1), v), f(a2, b, add(z, I1), v))), eq(f(a, b, add(z, I1), v), f(a2, b, add(z, I1), v))))   # used by the facts of a rearrangement
        al = lambda e: forall([t], implies(rng(b, t, e), P(t, v)), [[select(a, t)]]); no = lambda e: forall([t], implies(rng(b, t, e), not_(P(t, v))), [[select(a, t)]])
        miss = lambda e: implies(and_(rng(b, t, e), not_(P(t, v))), lt(f(a, b, e, v), sub(e, b)))
        lemma("%s, one missing (step)" % nm, implies(and_(le(b, z), implies(lt(t, z), miss(z)), touch(f(a, b, z, v), f(a, b, add(z, I1), v))), miss(add(z, I1)))); law(nm + " missing", forall([a, b, e, t, v], miss(e), [[f(a, b, e, v), select(a, t)]]))
        for name, H, val in (("all", al, lambda e: sub(e, b)), ("none", no, lambda e: I0)):
            lemma("%s, %s (base)" % (nm, name), implies(touch(f(a, b, b, v)), eq(f(a, b, b, v), val(b))))
            lemma("%s, %s (step)" % (nm, name), implies(and_(le(b, z), eq(f(a, b, z, v), val(z)), H(add(z, I1)), touch(f(a, b, add(z, I1), v), select(a, z))), eq(f(a, b, add(z, I1), v), val(add(z, I1)))))
            law(nm + " " + name, forall([a, b, e, v], implies(and_(le(b, e), H(e)), eq(f(a, b, e, v), val(e))), [[f(a, b, e, v)]]))
    # below(v) <= upto(v); upto(v) <= below(w) for v < w
    for nm, x, y, h in (("below is part of upto", lambda e: q.lt(a, b, e, v), lambda e: q.le(a, b, e, v), TRUE), ("upto is part of below a higher bound", lambda e: q.le(a, b, e, v), lambda e: q.lt(a, b, e, w), lt(v, w))):
        lemma(nm + " (base)", implies(touch(x(b), y(b)), le(x(b), y(b))))
        lemma(nm + " (step)", implies(and_(h, le(b, z), le(x(z), y(z)), touch(x(add(z, I1)), y(add(z, I1)))), le(x(add(z, I1)), y(add(z, I1)))))
        law(nm, forall([a, b, e, v] + ([w] if h is not TRUE else []), implies(and_(le(b, e), h), le(x(e), y(e))), [[x(e), y(e)]]))
    # an element is counted up to its own key; the position of the k-th element
    L, U = (lambda e: q.lt(a, b, e, v)), (lambda e: q.le(a, b, e, v)); own = lambda e: implies(and_(rng(b, t, e), eq(K(t), v)), lt(L(e), U(e)))
    lemma("an element counts for its own key (step)", implies(and_(le(b, z), implies(lt(t, z), own(z)), touch(L(z), U(z), L(add(z, I1)), U(add(z, I1)))), own(add(z, I1))))
    law("counted", forall([a, b, e, t], implies(rng(b, t, e), lt(q.lt(a, b, e, K(t)), q.le(a, b, e, K(t)))), [[q.lt(a, b, e, K(t))]]))
    top = and_(le(b, m), le(m, e), rng(b, t, m), forall([z], implies(rng(b, z, m), le(K(z), K(t))), [[select(a, z)]]), forall([z], implies(rng(m, z, e), le(K(t), K(z))), [[select(a, z)]])); kt = K(t)
    kth = lambda A, c: implies(top, and_(lt(q.lt(a, b, e, kt), sub(m, b)), le(sub(m, b), q.le(a, b, e, kt))))
    lemma("the largest of the first k is the k-th", implies(touch(*[f(a, x, y, kt) for f in (q.lt, q.le) for x, y in ((b, m), (m, e), (b, e))]), kth(0, 0)))
    q.kth = lambda a_, b_, m_, e_, t_: tm.subst(kth(0, 0), {a: a_, b: b_, m: m_, e: e_, t: t_})
    def perm(ex, st, base, old, new, lo, hi):
        o, n_ = next(X.leaves(old)), next(X.leaves(new))
        q.arrays.append(n_)
        for f in (q.lt, q.le):
            st.fact(forall([v], eq(f(n_, lo, hi, v), f(o, lo, hi, v)), [[f(n_, lo, hi, v)]]))
            st.fact(forall([b, e, v], implies(and_(le(b, e), or_(le(e, lo), le(hi, b))), eq(f(n_, b, e, v), f(o, b, e, v))), [[f(n_, b, e, v)]]))   # unchanged elsewhere
        q.spans.append((n_, lo, hi, ex.perm_mid))
    q.arrays = []; q.spans = []
    ex.perm_hooks = [perm]
    # the processes
    q.P, q.me = iv("processes"), iv("me"); C.assume(le(I1, q.P), rng(I0, q.me, q.P), lt(q.P, num(2 ** 31)))
    ex.contracts.update({"macis::comm_rank": lambda ex, st, f, vals, this: q.me, "macis::comm_size": lambda ex, st, f, vals, this: q.P, **{"macis::mpi_traits<%s>::datatype" % t: lambda *x, t=t: Opaque("mpi " + t) for t in ("double", "unsigned long", "int")}, "macis::mpi_datatype::operator ompi_datatype_t *": lambda ex, st, f, vals, this: ex.rv(st, this)})
    return q
def leg(V):
    q = setting(V, "leg_partition", True); C = q.C; n, lo, hi, t = iv("n"), iv("lo"), iv("hi"), iv("t"); C.assume(le(I0, lo), le(lo, hi), le(hi, n))
    A = fresh("A", KEYS); p = fresh("pivot", "R"); loc = C.alloc(Vec(n, A, ("real", 64)), "data"); v = fresh("v", "R"); Q = fn("any", "B"); C.assume(forall([t], implies(rng(lo, t, hi), Q(select(A, t))), [[select(A, t)]]))     # Q: an arbitrary property of elements
    f = V.fn("macis::leg_partition", lambda f: "macis::vc_less" in f.targs)
    r = C.call(f, [Ptr(loc, lo), Ptr(loc, hi), p, LESS, SAME]); B = C.ex.read(C.st, loc).e
    b, e, g, d = (r.f[str(i)].off for i in range(4)); K = lambda t: q.key(select(B, t))
    C.ensure("the parts tile the range in order", and_(eq(b, lo), le(lo, e), le(e, g), le(g, hi), eq(d, hi)))
    C.ensure("the first part is below the pivot", forall([t], implies(rng(lo, t, e), lt(K(t), q.key(p))))); C.ensure("the middle part equals the pivot", forall([t], implies(rng(e, t, g), eq(K(t), q.key(p))))); C.ensure("the last part is above the pivot", forall([t], implies(rng(g, t, hi), gt(K(t), q.key(p)))))
    C.ensure("other elements are untouched", and_(eq(C.ex.read(C.st, loc).n, n), forall([t], implies(not_(rng(lo, t, hi)), eq(select(B, t), select(A, t))))))
    tt = lambda f: touch(f(B, lo, e, v), f(B, e, hi, v), f(B, lo, hi, v), f(B, lo, g, v), f(B, e, g, v), f(B, g, hi, v), *[f(a, lo, hi, v) for a in q.arrays])
    for nm, f in (("below", q.lt), ("up to", q.le)): C.ensure("the number of elements %s any bound is kept" % nm, implies(tt(f), eq(f(B, lo, hi, v), f(A, lo, hi, v))))
    for nm, h in leg_facts(q, A, B, lo, e, g, hi, q.key(p), v): C.ensure("counts: " + nm, implies(and_(tt(q.lt), tt(q.le)), h))
    C.ensure("every element comes from the range", forall([t], implies(rng(lo, t, hi), Q(select(B, t)))))
    V.done(C)
def leg_facts(q, A, B, lo, e, g, hi, kp, v):
    return [("first part, below", implies(le(v, kp), eq(q.lt(B, lo, e, v), q.lt(A, lo, hi, v)))), ("first part, up to", implies(lt(v, kp), eq(q.le(B, lo, e, v), q.le(A, lo, hi, v)))),
            ("last part, below", implies(lt(kp, v), eq(q.lt(B, g, hi, v), sub(q.lt(A, lo, hi, v), sub(g, lo))))), ("last part, up to", implies(le(kp, v), eq(q.le(B, g, hi, v), sub(q.le(A, lo, hi, v), sub(g, lo))))),
            ("size of the first part", implies(eq(v, kp), eq(sub(e, lo), q.lt(A, lo, hi, v)))), ("size of the first two parts", implies(eq(v, kp), eq(sub(g, lo), q.le(A, lo, hi, v))))]
def gather(V, ty):
    q = setting(V, "total_gather_and_exclusive_scan<%s>" % ty); C = q.C; ex = C.ex; f, S = fn("passed"), fn("passedBefore"); m, u, t, r = (iv(x) for x in "mutr")
    T_ = {"int": ("int", 32, True), "unsigned long": ("int", 64, False)}[ty]; n1, n2 = iv("n1"), iv("n2"); top = num(2 ** (31 if ty == "int" else 64))
    C.axiom(forall([m, u], implies(and_(eq(u, add(m, I1)), le(I0, m)), eq(S(u), add(S(m), f(m)))), [[S(m), S(u)]]), eq(S(I0), I0)); C.assume(forall([m], implies(rng(I0, m, q.P), and_(le(I0, f(m)), lt(f(m), top))), [[f(m)]]), lt(S(q.P), top))
    C.lemma("running sums grow (step)", implies(and_(le(I0, m), lt(m, u), lt(u, q.P), le(S(m), S(u)), touch(S(add(u, I1)), f(u))), le(S(m), S(add(u, I1)))), use=False); C.axiom(forall([m, u], implies(and_(le(I0, m), le(m, u), le(u, q.P)), le(S(m), S(u))), [[S(m), S(u)]]))
    ga, sc = C.alloc(C.vec("gathered", n1, T_), "gather"), C.alloc(C.vec("scan", n2, T_), "scan"); C.assume(le(I0, n1), le(I0, n2))
    ex.externs["MPI_Allgather"] = allgather(q, lambda ex, st, x: f)
    ret = C.call(V.fn("macis::total_gather_and_exclusive_scan", lambda g: ty in g.targs), [f(q.me), ga, sc, Opaque("comm")])
    g, s = ex.read(C.st, ga), ex.read(C.st, sc); a = q.got
    C.lemma("sums of the gathered values (step)", implies(and_(rng(I0, m, q.P), eq(S(m), sum_(t, I0, m, select(a, t))), touch(S(add(m, I1)), f(m), select(a, m))), eq(S(add(m, I1)), sum_(t, I0, add(m, I1), select(a, t)))), use=False)
    C.axiom(forall([m], implies(and_(le(I0, m), le(m, q.P)), eq(S(m), sum_(t, I0, m, select(a, t)))), [[S(m)]]))
    C.ensure("every process contributes one value", and_(eq(g.n, q.P), forall([r], implies(rng(I0, r, q.P), eq(select(g.e, r), f(r)))))); C.ensure("offsets are the sums of the values of the processes before", and_(eq(s.n, q.P), forall([r], implies(and_(rng(I0, r, q.P), touch(S(r))), eq(select(s.e, r), S(r))))))
    C.ensure("the total", implies(touch(S(q.P)), eq(ret, S(q.P))))
    C.ensure("offsets grow, up to the total", forall([r, u], implies(and_(le(I0, r), le(r, u), lt(u, q.P), touch(S(r), S(u), S(q.P))), and_(le(I0, select(s.e, r)), le(select(s.e, r), select(s.e, u)), le(select(s.e, u), ret)))))
    C.ensure("an offset and the size give the next offset", implies(touch(S(q.me), S(add(q.me, I1))), ite(eq(add(q.me, I1), q.P), eq(ret, add(select(s.e, q.me), f(q.me))), eq(select(s.e, add(q.me, I1)), add(select(s.e, q.me), f(q.me)))))); V.done(C)
def allgather(q, which):
    def h(ex, st, fr, args, n):
        vs = [ex.ev(st, fr, a) for a in args]; src, dst = vs[0], vs[3]; x = ex.read(st, src.base); x = ex.vec_read(st, x, src.off) if isinstance(x, Vec) else x
        D = ex.read(st, dst.base); f = which(ex, st, x)
        if not ex.dry: ex.oblige(st, "MPI_Allgather: one value of every process, its own from this one", and_(eq(vs[1], I1), eq(vs[4], I1), le(add(dst.off, q.P), D.n), eq(dst.off, I0), eq(x, f(q.me))) if f else FALSE)
        a = fresh("gathered", D.e.sort); r = iv("r"); st.fact(forall([r], implies(rng(I0, r, q.P), eq(select(a, r), f(r) if f else I0)), [[select(a, r)]])); st.fact(forall([r], implies(le(q.P, r), eq(select(a, r), select(D.e, r))), [[select(a, r)]]))
        q.got = a; ex.write(st, dst.base, Vec(D.n, a, D.ty)); return I0
    return h
def sums(V):
    """sums over the processes: the facts about the exchanged totals and offsets"""
    q = setting(V, "sums over the processes"); C = q.C; P = q.P; r, u, m = iv("r"), iv("u"), iv("m"); v, w = fresh("v", "R"), fresh("w", "R")
    D, N = fn("dataOf", KEYS), fn("sizeOf"); C.axiom(forall([r], le(I0, N(r)), [[N(r)]])); cLt, cLe = lambda r, v: q.lt(D(r), I0, N(r), v), lambda r, v: q.le(D(r), I0, N(r), v)
    PLt, PLe = fn("belowBefore"), fn("uptoBefore"); before = lambda r, lo, hi: sub(PLt(r, hi), PLe(r, lo)); left = lambda r, lo, hi: sub(cLt(r, hi), cLe(r, lo))
    for S, c in ((PLt, cLt), (PLe, cLe)): C.axiom(forall([r, u, v], implies(and_(eq(u, add(r, I1)), le(I0, r)), eq(S(u, v), add(S(r, v), c(r, v)))), [[S(r, v), S(u, v)]]), forall([v], eq(S(I0, v), I0), [[S(I0, v)]]))
    for x in ("below is part of upto", "upto is part of below a higher bound"): C.axiom(q.ax[x])
    tt = lambda r: touch(PLt(r, w), PLe(r, v), PLt(r, v), PLe(r, w))
    at = lambda r: touch(cLt(r, w), cLe(r, v), cLt(r, v))
    C.ensure("offsets of what is left grow (step)", implies(and_(lt(v, w), le(I0, m), le(m, u), lt(u, P), le(before(m, v, w), before(u, v, w)), tt(u), tt(add(u, I1)), at(u)), le(before(m, v, w), before(add(u, I1), v, w))))
    C.ensure("the first offset is zero", implies(tt(I0), eq(before(I0, v, w), I0))); C.ensure("an offset and what is left give the next offset", implies(and_(rng(I0, r, P), tt(r), tt(add(r, I1))), eq(before(add(r, I1), v, w), add(before(r, v, w), left(r, v, w)))))
    C.ensure("totals: below is part of upto (base)", implies(tt(I0), le(PLt(I0, v), PLe(I0, v)))); C.ensure("totals: below is part of upto (step)", implies(and_(rng(I0, r, P), le(PLt(r, v), PLe(r, v)), tt(r), tt(add(r, I1)), at(r)), le(PLt(add(r, I1), v), PLe(add(r, I1), v))))
    C.ensure("totals: upto is part of below a higher bound (step)", implies(and_(lt(v, w), rng(I0, r, P), le(PLe(r, v), PLt(r, w)), tt(r), tt(add(r, I1)), at(r)), le(PLe(add(r, I1), v), PLt(add(r, I1), w))))
    x = fresh("p", "R"); C.ensure("a round leaves fewer elements", implies(and_(lt(PLt(P, x), PLe(P, x)), le(PLe(P, v), PLt(P, x)), le(PLe(P, x), PLt(P, w))), and_(lt(before(P, v, x), before(P, v, w)), lt(before(P, x, w), before(P, v, w)))))
    C.ensure("totals: an element of one process counts (step)", implies(and_(rng(I0, m, P), lt(cLt(m, v), cLe(m, v)), rng(m, r, P), implies(lt(m, r), lt(PLt(r, v), PLe(r, v))), le(PLt(r, v), PLe(r, v)), tt(r), tt(add(r, I1)), at(r)), lt(PLt(add(r, I1), v), PLe(add(r, I1), v))))
    V.done(C)
def select_(V, single):
    q = setting(V, "dist_quickselect, " + ("one process" if single else "several processes")); C = q.C; ex = C.ex; P, me, key = q.P, q.me, q.key
    C.assume(eq(P, I1) if single else lt(I1, P)); n, k0 = iv("n"), iv("k"); A0 = fresh("data", KEYS); r, u, t, m = (iv(x) for x in "rutm"); v, w = fresh("v", "R"), fresh("w", "R")
    # data of all processes and its counts: of process r, of the processes before r, of all
    D, N = fn("dataOf", KEYS), fn("sizeOf"); C.assume(eq(D(me), A0), eq(N(me), n)); kmin, kmax = fresh("kmin", "R"), fresh("kmax", "R")
    C.axiom(forall([r], le(I0, N(r)), [[N(r)]])); C.axiom(forall([r, t], implies(and_(rng(I0, r, P), rng(I0, t, N(r))), and_(lt(kmin, key(select(D(r), t))), lt(key(select(D(r), t)), kmax))), [[key(select(D(r), t))]]))
    C.assume(lt(kmin, kmax)); C.axiom(forall([t], implies(rng(I0, t, n), and_(lt(kmin, key(select(A0, t))), lt(key(select(A0, t)), kmax))), [[select(A0, t)]]))
    cLt, cLe = lambda r, v: q.lt(D(r), I0, N(r), v), lambda r, v: q.le(D(r), I0, N(r), v)
    PLt, PLe = fn("belowBefore"), fn("uptoBefore"); GLt, GLe = lambda v: PLt(P, v), lambda v: PLe(P, v); left = lambda r, lo, hi: sub(cLt(r, hi), cLe(r, lo)); before = lambda r, lo, hi: sub(PLt(r, hi), PLe(r, lo))
    if single: C.axiom(*[forall([v], eq(S(P, v), c(me, v)), [[S(P, v)]]) for S, c in ((PLt, cLt), (PLe, cLe))])
    else: C.axiom(eq(GLe(kmin), I0), eq(cLe(me, kmin), I0)); C.axiom(q.ax["counted"])
    C.axiom(eq(q.lt(A0, I0, n, kmax), n))
    C.assume(le(I1, k0), le(k0, GLt(kmax)), lt(GLt(kmax), num(2 ** 63)), lt(k0, num(2 ** 31)))
    loc = C.alloc(Vec(n, A0, ("real", 64)), "data")
    gh = {x: C.alloc(y, "ghost_" + x) for x, y in (("lo", kmin), ("hi", kmax), ("olo", kmin), ("ohi", kmax), ("pv", fresh("p0", "R")))}; rd = lambda st: [ex.rv(st, gh[x]) for x in ("lo", "hi", "olo", "ohi", "pv")]
    def tgather(ex, st, f, vals, this):
        lo, hi, *_ = rd(st); val = ex.rv(st, vals[0]); ty = ct.parse(f.params[0]["type"]["qualType"]); bits = ct.parse(X.canon(f.params[0]["type"].get("desugaredQualType", "int")) if hasattr(X, "canon") else f.params[0]["type"].get("desugaredQualType", f.params[0]["type"]["qualType"]))
        if not ex.dry: ex.oblige(st, "total_gather: this process passes the number of its elements between the bounds", eq(val, left(me, lo, hi))); ex.oblige(st, "total_gather: bounds in order", lt(lo, hi))
        out = []
        for x, F, nm in ((vals[1], lambda r: left(r, lo, hi), "sizes"), (vals[2], lambda r: before(r, lo, hi), "start")):
            V0 = ex.rv(st, x); a = fresh(nm, asort("I")); st.fact(forall([r], implies(rng(I0, r, P), eq(select(a, r), F(r))), [[select(a, r)]])); out.append(a); ex.write(st, x, Vec(P, a, V0.ty))
        tot = before(P, lo, hi); a = out[1]; at = lambda r: select(a, r)
        st.fact(forall([r, u], implies(and_(le(I0, r), le(r, u), lt(u, P)), le(at(r), at(u))), [[at(r), at(u)]])); st.fact(forall([r], implies(rng(I0, r, P), and_(le(I0, at(r)), le(at(r), tot))), [[at(r)]])); st.fact(eq(at(I0), I0)); st.fact(ite(eq(add(me, I1), P), eq(tot, add(at(me), left(me, lo, hi))), eq(at(add(me, I1)), add(at(me), left(me, lo, hi)))))
        return tot
    ex.contracts["macis::total_gather_and_exclusive_scan"] = tgather
    def leg_(ex, st, f, vals, this):
        b, e, p = vals[:3]; p = ex.rv(st, p); V0 = ex.rv(st, b.base); lo, hi = b.off, e.off
        if not ex.dry: ex.oblige(st, "leg_partition: range, comparators", and_(eq(I0, I0) if (vals[3].ty, vals[4].ty) == (LESS.ty, SAME.ty) else FALSE, le(I0, lo), le(lo, hi), le(hi, V0.n)))
        B, x, y = fresh("parts", KEYS), iv("e_begin"), iv("g_begin"); K = lambda t: key(select(B, t)); st.fact(and_(le(lo, x), le(x, y))); st.fact(le(y, hi))
        for a_, z_, c in ((lo, x, lt), (x, y, eq), (y, hi, gt)): st.fact(forall([t], implies(rng(a_, t, z_), c(K(t), key(p))), [[select(B, t)]]))
        st.fact(forall([t], implies(not_(rng(lo, t, hi)), eq(select(B, t), select(V0.e, t))), [[select(B, t)]]))
        olo, ohi = rd(st)[2:4]; Q = lambda a: forall([t], implies(rng(lo, t, hi), and_(lt(olo, key(select(a, t))), lt(key(select(a, t)), ohi))), [[select(a, t)]])
        st.fact(implies(Q(V0.e), Q(B))) if ex.dry or not ex.known(st, Q(V0.e), 2000) else st.fact(Q(B))
        F = dict(leg_facts(q, V0.e, B, lo, x, y, hi, key(p), v))
        for nm, h in F.items():
            if nm.startswith("size"): st.fact(tm.subst(h, {v: key(p)}))
            else: st.fact(forall([v], h, [[(q.lt if "below" in nm else q.le)(B, *((lo, x) if nm.startswith("first") else (y, hi)), v)]]))
        ex.write(st, b.base, Vec(V0.n, B, V0.ty)); pt = lambda o: Ptr(b.base, o)
        return Obj("tuple", {"0": pt(lo), "1": pt(x), "2": pt(y), "3": pt(hi)})
    ex.contracts["macis::leg_partition"] = leg_
    def reduce_(ex, st, f, vals, this):
        s, d = vals[0], vals[1]; cnt = ex.rv(st, vals[2]); *_, olo, ohi, p = rd(st); src = ex.read(st, s.base)
        if cnt.op != "num": raise Unsupported("allreduce of a variable number of values")
        parts = [(lambda r: left(r, olo, p), lambda: before(P, olo, p)), (lambda r: sub(cLe(r, p), cLt(r, p)), lambda: sub(GLe(p), GLt(p))), (lambda r: left(r, p, ohi), lambda: before(P, p, ohi)), (lambda r: sub(cLe(r, p), cLe(r, olo)), lambda: sub(GLe(p), GLe(olo))), (lambda r: left(r, olo, ohi), lambda: before(P, olo, ohi))]
        st.fact(touch(PLt(P, p), PLe(P, p), PLe(P, olo), PLt(P, ohi), cLt(me, p), cLe(me, p), cLe(me, olo), cLt(me, ohi)))
        for i in range(int(cnt.args[0])):
            x = ex.vec_read(st, src, add(s.off, num(i))); ok = [c for c in parts if ex.dry or ex.known(st, eq(x, c[0](me)), 3000)][:1]
            if not ex.dry: ex.oblige(st, "allreduce: this process passes its count of a part", TRUE if ok else eq(x, parts[i][0](me)) if i < 5 else FALSE)
            D = ex.read(st, d.base); ex.write(st, d.base, ex_store(ex, st, D, add(d.off, num(i)), ok[0][1]() if ok else iv("sum")))
        return X.VOID
    ex.contracts["macis::allreduce"] = reduce_
    def bcast(ex, st, fr, args, nd):
        vs = [ex.ev(st, fr, a) for a in args]; buf, root = vs[0], vs[3]; lo, hi, *_ = rd(st); x = ex.read(st, buf.base); k_ = key(x); B = ex.read(st, loc)
        if not ex.dry:
            ex.oblige(st, "MPI_Bcast: one value, from a process of the communicator, the same root everywhere", and_(eq(vs[1], I1), rng(I0, root, P), TRUE if "double" in str(getattr(vs[2], "ty", "")) else FALSE))
            ex.oblige(st, "MPI_Bcast: the root sends one of the elements between the bounds", implies(eq(root, me), and_(lt(lo, k_), lt(k_, hi))))
            ex.oblige(st, "MPI_Bcast: the root sends one of its elements", implies(and_(eq(root, me), touch(cLt(me, k_), cLe(me, k_))), lt(cLt(me, k_), cLe(me, k_))))
        p = fresh("pivot", "R"); kp = key(p); st.fact(and_(lt(lo, kp), lt(kp, hi))); st.fact(lt(cLt(root, kp), cLe(root, kp))); st.fact(implies(eq(root, me), eq(p, x)))
        ex.write(st, buf.base, p); ex.write(st, gh["olo"], lo); ex.write(st, gh["ohi"], hi); ex.write(st, gh["pv"], kp)
        ex.write(st, gh["hi"], ite(le(k0, GLt(kp)), kp, hi)); ex.write(st, gh["lo"], ite(le(k0, GLe(kp)), lo, kp)); st.fact(lt(GLt(kp), GLe(kp)))
        return I0
    ex.externs["MPI_Bcast"] = bcast
    def gatherv(ex, st, fr, args, nd):
        vs = [ex.ev(st, fr, a) for a in args]; src, cnt, dst, sizes, displ = vs[0], vs[1], vs[3], vs[4], vs[5]; lo, hi, *_ = rd(st); S = ex.read(st, src.base); D = ex.read(st, dst.base); Z, O = ex.read(st, sizes.base), ex.read(st, displ.base); T_ = before(P, lo, hi)
        if not ex.dry:
            ex.oblige(st, "MPI_Allgatherv: this process sends its elements between the bounds", and_(eq(cnt, left(me, lo, hi)), le(I0, src.off), le(add(src.off, cnt), S.n), forall([t], implies(rng(src.off, t, add(src.off, cnt)), and_(lt(lo, key(select(S.e, t))), lt(key(select(S.e, t)), hi))))))
            for f_, g_, nm in ((q.lt, cLt, "below"), (q.le, cLe, "up to")): ex.oblige(st, "MPI_Allgatherv: counts %s any bound of the sent elements" % nm, implies(and_(lt(lo, v), lt(v, hi), touch(f_(S.e, src.off, add(src.off, cnt), v), g_(me, v))), eq(f_(S.e, src.off, add(src.off, cnt), v), sub(g_(me, v), cLe(me, lo)))))
            ex.oblige(st, "MPI_Allgatherv: sizes and offsets of every process", and_(eq(sizes.off, I0), eq(displ.off, I0), eq(dst.off, I0), le(P, Z.n), le(P, O.n), forall([r], implies(rng(I0, r, P), and_(eq(select(Z.e, r), left(r, lo, hi)), eq(select(O.e, r), before(r, lo, hi)))))))
            ex.oblige(st, "MPI_Allgatherv: room for all elements", le(T_, D.n))
        B = fresh("gathered", KEYS); st.fact(forall([t], implies(rng(I0, t, T_), and_(lt(lo, key(select(B, t))), lt(key(select(B, t)), hi))), [[select(B, t)]]))
        for f_, g_ in ((q.lt, GLt), (q.le, GLe)): st.fact(forall([v], implies(and_(lt(lo, v), lt(v, hi)), eq(f_(B, I0, T_, v), sub(g_(v), GLe(lo)))), [[f_(B, I0, T_, v)]]))
        st.fact(forall([t], implies(le(T_, t), eq(select(B, t), select(D.e, t))), [[select(B, t)]])); ex.write(st, dst.base, Vec(D.n, B, D.ty)); return I0
    ex.externs["MPI_Allgatherv"] = gatherv
    def cand(ex, L):
        by = {l.cell[0]: l.hv for l in L.leaves}; g = {x: by.get(gh[x].root, ex.rv(C.st, gh[x])) for x in gh}; A = by.get(loc.root)
        if A is None or gh["lo"].root not in by: return []
        bools = [y for l in L.leaves if l.hv.sort == "B" and l.role != "null" for y in (l.hv, not_(l.hv))]
        lo, hi = g["lo"], g["hi"]; ints = [l.hv for l in L.leaves if l.hv.sort == "I" and l.role != "n"]; out = [and_(lt(lo, hi)), le(add(GLe(lo), I1), k0), le(k0, GLt(hi)), le(kmin, lo), le(hi, kmax)] + bools
        for x in ints:
            out.append(eq(x, sub(k0, GLe(lo))))
            for y in ints:
                if x is y: continue
                out += [eq(sub(y, x), left(me, lo, hi)), and_(le(I0, x), le(x, y), le(y, n)), forall([t], implies(rng(x, t, y), and_(lt(lo, key(select(A, t))), lt(key(select(A, t)), hi))), [[select(A, t)]])]
                for f_, g_ in ((q.lt, cLt), (q.le, cLe)): out.append(forall([v], implies(and_(lt(lo, v), lt(v, hi)), eq(f_(A, x, y, v), sub(g_(me, v), cLe(me, lo)))), [[f_(A, x, y, v)], [g_(me, v)]]))
        return out
    ex.cand_gens.append(cand); ex.cand_to = 4000; ex.unroll_max = 0; ex.cand_split = 3
    ex.last_max = None
    ret = C.call(V.fn("macis::dist_quickselect", lambda f: "macis::vc_less" in f.targs), [Ptr(loc, I0), Ptr(loc, n), k0, Opaque("comm"), LESS, SAME]); kr = key(ret)
    for B, b0, e0, mid in q.spans[-1:]:
        # where the result can stand: the largest of the first k, or position k itself
        kk = add(b0, sub(k0, GLe(rd(C.st)[0]))) if not single else k0; tops = [(kk, sub(kk, I1))] + ([(mid, ex.last_max)] if mid is not None and ex.last_max is not None else []) + ([(kk, ex.last_max)] if ex.last_max is not None else [])
        for m_, t_ in tops: C.st.fact(q.kth(B, b0, m_, e0, t_)); C.st.fact(touch(*[S(B, b0, e0, key(select(B, t_))) for S in (q.lt, q.le)]))
        C.st.fact(touch(*[S(B, b0, e0, kr) for S in (q.lt, q.le)]))
    C.st.fact(touch(GLt(kr), GLe(kr), *[S(A0, I0, n, kr) for S in (q.lt, q.le)]))
    C.ensure("fewer than k elements are below the result", implies(touch(GLt(kr), GLe(kr)), lt(GLt(kr), k0))); C.ensure("at least k elements are up to the result", implies(touch(GLt(kr), GLe(kr)), le(k0, GLe(kr))))
    V.done(C)
def ex_store(ex, st, D, i, x): return Vec(D.n, store(D.e, i, x), D.ty)
def jobs(V): return [("leg_partition", lambda: leg(V)), *[("gather " + t, lambda t=t: gather(V, t)) for t in ("int", "unsigned long")], ("sums over the processes", lambda: sums(V)), *[("select " + ("one" if s else "several"), lambda s=s: select_(V, s)) for s in (True, False)]]
HARNESS_LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]; HARNESS_FLAGS = ["-DOMPI_SKIP_MPICXX"]
