from spec import *
NOTE = "every bit primitive for widths 32, 64, 128, 256 (to_uint128 also 96) over all bit patterns, at the bit-vector level (constant-trip loops are unrolled completely), and the index list by an inductive invariant over the set positions, for any width; first/last set bit on an empty string is outside the contract (the library never asks for it). Further widths: bounded replay only."
TU = "bits"
ASSUME = ["std::bitset<N> is stored as little-endian 64-bit words with zero padding (libstdc++ on this platform): the code under test reinterprets it"]
BOUNDED = ["odd widths (96 bits, truncation to 7 bits, ...) are only sampled by harness/c10.cpp"]
W = (32, 64, 128, 256)
def jobs(V):
    r = []
    for N in W:
        r += [("ffs/fls %d" % N, lambda N=N: scan(V, N)), ("conversions %d" % N, lambda N=N: convert(V, N)), ("masks %d" % N, lambda N=N: masks(V, N)),
              ("widths %d" % N, lambda N=N: widths(V, N)), ("order %d" % N, lambda N=N: order(V, N)), ("bits_to_indices %d" % N, lambda N=N: indices(V, N))]
    return r + [("integer scans", lambda: ints(V)), ("to_uint128", lambda: u128(V))]
def ctx(V, name):
    C = V.ctx(name); C.ex.unroll_max = 300; return C
def BVv(C, name, N): return fresh(name, ("BV", N))
def g(V, q, *targs): return V.fn("macis::" + q, lambda f: list(f.targs) == [str(x) for x in targs] and True)
def byp(V, q, n, N): return V.fn("macis::" + q, lambda f: list(f.targs) == [str(N)] and len(f.params) == n)
def tbit(b, k): return eq(tm.bvext(b, k, k), tm.bvc(1, 1))
def z(n): return tm.bvc(0, n)
def vbit(b, k, N):
    """bit at a bit-vector position"""
    return eq(tm.bvext(tm.bv("lshr", b, k), 0, 0), tm.bvc(1, 1))

def scan(V, N):
    for nm in ("ffs", "fls"):
        C = ctx(V, "%s<%d>" % (nm, N)); S = BVv(C, "S", N)
        C.assume(ne(S, z(N)))
        r = C.call(byp(V, nm, 1, N), [S])
        at = lambda k: and_(tbit(S, k), eq(tm.bvext(S, k - 1, 0), z(k)) if k else TRUE) if nm == "ffs" else and_(tbit(S, k), eq(tm.bvext(S, N - 1, k + 1), z(N - 1 - k)) if k < N - 1 else TRUE)
        off = 1 if nm == "ffs" else 0
        C.ensure("the %s set bit%s" % ("first" if off else "last", ", counted from one" if off else ""), or_(*[and_(at(k), eq(r, num(k + off))) for k in range(N)]), timeout=30000)
        V.done(C)
def convert(V, N):
    for nm in ("fast_to_ullong", "fast_to_ulong"):
        C = ctx(V, "%s<%d>" % (nm, N)); S = BVv(C, "S", N)
        if N > 128: C.assume(eq(tm.bvext(S, N - 1, 64), z(N - 64)))      # the standard conversion throws otherwise
        r = C.call(byp(V, nm, 1, N), [C.alloc(S, "S")])
        r = C.ex.coerce(C.st, r, ("int", 64, False)) if not isinstance(r.sort, tuple) else r
        want = tm.bvext(S, 63, 0) if N >= 64 else tm.bvzext(S, 64)
        if r.sort[1] != 64: r = tm.bvzext(r, 64)
        C.ensure("the low 64 bits", eq(r, want)); V.done(C)
    if N in (64, 128):
        for nm, lo in (("bitset_lo_word", 0), ("bitset_hi_word", N // 2)):
            C = ctx(V, "%s<%d>" % (nm, N)); S = BVv(C, "S", N)
            r = C.call(g(V, nm, N), [S])
            C.ensure("half of the bits", eq(r, tm.bvext(S, lo + N // 2 - 1, lo)), timeout=20000); V.done(C)
def u128(V):
    for N in (32, 64, 96, 128):
        C = ctx(V, "to_uint128<%d>" % N); S = BVv(C, "S", N)
        r = C.call(g(V, "to_uint128", N), [S])
        if not isinstance(r.sort, tuple): r = tm.int2bv(r, 128)
        C.ensure("the numeric value", eq(tm.bvzext(r, 128), tm.bvzext(S, 128)), timeout=20000); V.done(C)
def masks(V, N):
    C = ctx(V, "full_mask<%d>(i)" % N)
    i = fresh("i", ("BV", 64)); C.assume(tm.bv("ule", i, tm.bvc(N, 64)))
    r = C.call(byp(V, "full_mask", 1, N), [i])
    k = fresh("k", ("BV", N)); ii = tm.bvzext(i, N) if N >= 64 else tm.bvext(i, N - 1, 0)
    C.ensure("exactly the bits below i", implies(tm.bv("ult", k, tm.bvc(N, N)), eq(vbit(r, k, N), tm.bv("ult", k, ii))), timeout=30000)
    V.done(C)
    for f in V.fns("macis::full_mask"):
        if f.body is None or len(f.targs) != 2 or f.targs[1] != str(N): continue
        n = int(f.targs[0])
        C = ctx(V, "full_mask<%d,%d>()" % (n, N))
        r = C.call(f, [])
        C.ensure("exactly the low %d bits" % n, eq(r, tm.bvc((1 << n) - 1, N))); V.done(C)
def widths(V, N):
    for nm in ("truncate_bitset", "expand_bitset"):
        for f in V.fns("macis::" + nm):
            if f.body is None or f.targs[1] != str(N): continue
            n = int(f.targs[0])
            C = ctx(V, "%s<%d,%d>" % (nm, n, N)); S = BVv(C, "S", N)
            r = C.call(f, [S])
            C.ensure("the low bits" if n <= N else "the same bits, zeros above", eq(r, tm.bvext(S, n - 1, 0) if n <= N else tm.bvzext(S, n)), timeout=30000); V.done(C)
def order(V, N):
    C = ctx(V, "bitset_less<%d>" % N); x, y = BVv(C, "x", N), BVv(C, "y", N)
    r = C.call(byp(V, "bitset_less", 2, N), [x, y])
    C.ensure("the numeric order of the bit strings", eq(r, tm.bv("ult", x, y)), timeout=60000); V.done(C)
    C = ctx(V, "bitset_less_comparator<%d>" % N); x, y = BVv(C, "x", N), BVv(C, "y", N)
    q = "macis::bitset_less_comparator<%d>" % N
    r = C.call(V.fn(q + "::operator()"), [x, y], this=C.alloc(Obj(q, {}), "cmp"))
    C.ensure("the numeric order of the bit strings", eq(r, tm.bv("ult", x, y)), timeout=60000); V.done(C)
def ints(V):
    for w, T_ in ((32, "unsigned int"), (64, "unsigned long"), (64, "unsigned long long")):
        for nm in ("fls", "clz"):
            C = ctx(V, "%s(%s)" % (nm, T_)); x = fresh("x", ("BV", w)); C.assume(ne(x, z(w)))
            f = V.fn("macis::" + nm, lambda f: f.type.endswith("(%s)" % T_))
            r = C.call(f, [x])
            hi = lambda k: and_(tbit(x, k), eq(tm.bvext(x, w - 1, k + 1), z(w - 1 - k)) if k < w - 1 else TRUE)
            C.ensure("position of the last set bit" if nm == "fls" else "leading zeros", or_(*[and_(hi(k), eq(r, num(k if nm == "fls" else w - 1 - k))) for k in range(w)]), timeout=20000); V.done(C)

def ffs_contract(hints=()):
    """contract of ffs at the level of set positions, proved in `scan`; ghost instances at the hinted positions"""
    def c(ex, st, f, vals, this):
        v = vals[0]; N = int(f.targs[0]); k = fresh("first", "I"); j = iv("j")
        at = lambda j: implies(and_(rng(I0, j, num(N)), select(v, j)), and_(le(I0, k), le(k, j), select(v, k)))
        st.fact(forall([j], at(j), [[select(v, j)]]))
        st.fact(forall([j], implies(and_(rng(I0, j, num(N)), lt(j, k)), not_(select(v, j))), [[select(v, j)]]))
        for h in hints:
            for w in h(ex): st.fact(at(w))
        return add(k, I1)
    return c
def ranks(C, S, N, name="bit"):
    """rank(k) = number of set positions below k, nth(q) = the q-th set position"""
    L = row_layout(C, num(N), lambda k: ite(select(S, k), I1, I0), name=name)
    C.nth, C.rank = L.rowat, L.start
    k = iv("k"); q = iv("q")
    C.lemma("the set positions, in order", forall([q], implies(rng(I0, q, L.total), and_(select(S, L.rowat(q)), eq(L.start(L.rowat(q)), q))), [[L.rowat(q)]]))
    # the rank function counts: induction ties it to the sum that count() denotes
    i = iv("i")
    C.induct("rank counts the set positions below", k, None, lambda v: eq(L.start(v), sum_(i, I0, v, ite(select(S, i), I1, I0))), hi=num(N), pats=[[L.start(k)]])
    return L
def set_positions(C, S, N):
    k = iv("k"); C.assume(forall([k], implies(not_(rng(I0, k, num(N))), not_(select(S, k))), [[select(S, k)]]))
def index_cands(S, N, L, neg=False):
    k, q = iv("k"), iv("q")
    mem = (lambda k: select(S, k)) if not neg else (lambda k: not_(select(S, k)))
    def cand(ex, Lp):
        out = []
        for B in counters(ex, Lp):
            for l in Lp.leaves:
                if l.hv.sort == asort("B"): out.append(forall([k], implies(rng(I0, k, num(N)), eq(select(l.hv, k), and_(mem(k), ge(L.start(k), B)))), [[select(l.hv, k)]]))
                if l.hv.sort == asort("I"): out.append(forall([q], implies(rng(I0, q, B), eq(select(l.hv, q), L.rowat(q)))))
        return out
    return cand
def indices(V, N):
    for nargs in (2, 1):
        C = ctx(V, "bits_to_indices<%d>, %s" % (N, "in place" if nargs == 2 else "returned")); C.ex.bits = "set"; C.ex.unroll_max = 0
        S = fresh("S", asort("B")); set_positions(C, S, N)
        L = ranks(C, S, N)
        C.ex.contracts["macis::ffs"] = ffs_contract([lambda ex: [L.rowat(c) for Lp in ex.loopstack for c in counters(ex, Lp)]])
        C.ex.cand_gens.append(index_cands(S, N, L))
        out = C.alloc(C.vec("indices", iv("n0"), ("int", 32, False)), "indices")
        f = byp(V, "bits_to_indices", nargs, N)
        r = C.call(f, [S, out] if nargs == 2 else [S])
        R = C.ex.read(C.st, out) if nargs == 2 else r
        q, p, k = iv("q"), iv("p"), iv("k")
        C.ensure("one entry per set position", eq(R.n, L.total))
        C.ensure("every entry is a set position", forall([q], implies(rng(I0, q, R.n), and_(rng(I0, select(R.e, q), num(N)), select(S, select(R.e, q))))))
        C.ensure("every set position is listed", forall([k], implies(and_(rng(I0, k, num(N)), select(S, k), touch(L.start(k), L.start(add(k, I1)), L.rowat(L.start(k)))), and_(rng(I0, L.start(k), R.n), eq(select(R.e, L.start(k)), k)))))
        C.ensure("ascending", forall([p, q], implies(and_(le(I0, p), lt(p, q), lt(q, R.n), touch(L.start(L.rowat(p)), L.start(L.rowat(q)), L.start(add(L.rowat(q), I1)))), lt(select(R.e, p), select(R.e, q)))))
        V.done(C)
