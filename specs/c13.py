from c10 import *
from c12 import setctx, det
NOTE = "the encoder and the decoder for widths 64 and 128, every determinant and every string of at most one character per orbital; the round trip (and with it injectivity) follows as a lemma over the two contracts. The half-word extraction is used through the contract that C10 proves at the bit level. The text files built from these strings are checked by the replay harness only."
TU = "bits"
ASSUME = ["std::string is a resizable sequence of characters"]
BOUNDED = ["write_wavefunction / read_wavefunction (iostream formatting) are only sampled by harness/c13.cpp"]
W = (64, 128)
def jobs(V):
    r = []
    for N in W: r += [("encode %d" % N, lambda N=N: encode(V, N)), ("decode %d" % N, lambda N=N: decode(V, N)), ("round trip %d" % N, lambda N=N: trip(V, N))]
    return r
ch = lambda c: num(ord(c))
def enc(S, N, i):
    a, b = select(S, i), select(S, add(i, num(N // 2)))
    return ite(and_(a, b), ch("2"), ite(a, ch("u"), ite(b, ch("d"), ch("0"))))
def dec(s, n, N, k):
    """bit k of the determinant that a string of n characters denotes"""
    c, d = select(s, k), select(s, sub(k, num(N // 2)))
    return or_(and_(rng(I0, k, n), or_(eq(c, ch("2")), eq(c, ch("u")))), and_(rng(num(N // 2), k, add(n, num(N // 2))), or_(eq(d, ch("2")), eq(d, ch("d")))))
def half(lo):
    def c(ex, st, f, vals, this):
        N = int(f.targs[0]); k = iv("k"); return tm.lam(k, and_(rng(I0, k, num(N // 2)), select(vals[0], add(k, num(lo(N))))))
    return c
def sctx(V, name):
    C = setctx(V, name); C.ex.unroll_max = 0
    C.ex.contracts["macis::bitset_lo_word"] = half(lambda N: 0); C.ex.contracts["macis::bitset_hi_word"] = half(lambda N: N // 2); return C
def encode(V, N):
    C = sctx(V, "to_canonical_string<%d>" % N); S = det(C, N, "state")
    C.ex.cand_gens.append(cand_arr(lambda r: enc(S, N, r)))
    r = C.call(byp(V, "to_canonical_string", 1, N), [S])
    i = iv("i")
    C.ensure("one character per spatial orbital", eq(r.n, num(N // 2)))
    C.ensure("the character states the occupation", implies(rng(I0, i, num(N // 2)), eq(select(r.e, i), enc(S, N, i)))); V.done(C)
def decode(V, N):
    C = sctx(V, "from_canonical_string<%d>" % N); s = fresh("str", asort("I")); n = iv("len"); C.assume(rng(I0, n, num(N // 2 + 1)))
    k = iv("k")
    def cand(ex, Lp):
        out = []
        for B in counters(ex, Lp):
            for l in Lp.leaves:
                if l.hv.sort == asort("B"):
                    for o in "ud": out.append(forall([k], eq(select(l.hv, k), and_(rng(I0, k, B), or_(eq(select(s, k), ch("2")), eq(select(s, k), ch(o))))), [[select(l.hv, k)]]))
        return out
    C.ex.cand_gens.append(cand)
    r = C.call(byp(V, "from_canonical_string", 1, N), [Vec(n, s, ("int", 8, True))])
    C.ensure("the bits the characters state", eq(select(r, k), dec(s, n, N, k))); V.done(C)
def trip(V, N):
    C = sctx(V, "decode after encode <%d>" % N); S = det(C, N, "state"); k, i = iv("k"), iv("i")
    e = tm.lam(i, enc(S, N, i))
    C.ensure("parsing the written string returns the determinant", eq(select(S, k), dec(e, num(N // 2), N, k))); V.done(C)
