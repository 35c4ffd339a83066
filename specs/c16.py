from ham import *
NOTE = "generate_integral_intermediates and the constructor for 64- and 128-bit determinants, every orbital count and every (not necessarily symmetric) integral tensor: each of the five intermediates equals its definition at every index, addresses its own storage, and the integrals are unchanged; a tensor in which any one dimension differs from the orbital count only returns by an exception."
TU = "ham"
ASSUME = ["floating-point values are treated as mathematical reals", "mdspan is column-major (stubs/mdspan)"]
BOUNDED = []
def jobs(V): return [("intermediates %d" % N, lambda N=N: gen(V, N)) for N in (64, 128)] + [("constructor %d" % N, lambda N=N: ctor(V, N)) for N in (64, 128)] + [("inconsistent dimensions %d" % N, lambda N=N: bad(V, N)) for N in (64, 128)]
def blank(C, N, exts):
    """a generator whose intermediates are not built yet"""
    h = H(); h.N, h.S = N, N // 2; h.no = iv("norb"); no = h.no; C.assume(ge(no, I1), le(no, num(N // 2)))
    e = nested("V", 4); l = C.alloc(Vec(None, e, REAL, X.View(exts(no))), "V"); h.V0, h.Vl = e, l
    h.Vspan = span(C, span_t(4), Ptr(l, I0), exts(no))
    h.this = C.alloc(rec_obj(C, "macis::HamiltonianGenerator<%d>" % N, {"norb_": no}), "ham"); return h
def gen(V, N):
    C = hctx(V, "%d-bit generate_integral_intermediates" % N); C.ex.autoview = True
    h = blank(C, N, lambda no: [no] * 4)
    C.call(M(V, h, "generate_integral_intermediates"), [h.Vspan], h.this)
    o = C.ex.read(C.st, h.this); C.o = o
    for nm, (k, d) in defs(h).items():
        s = o.f[nm + "_"]; x = [iv("x%d" % i) for i in range(k)]
        data = C.ex.read(C.st, s.f["p_"].base)
        C.ensure("%s addresses its own storage with the orbital count in every dimension" % nm, and_(eq(s.f["p_"].off, I0), eq(data.n, prod([h.no] * k)), *[eq(s.f["e%d_" % i], h.no) for i in range(k)]))
        C.ensure("%s equals its definition" % nm, implies(and_(*[rng(I0, i, h.no) for i in x]), eq(sel(data.e, *x), d(*x))))
    C.ensure("the integrals are unchanged", eq(sel(C.ex.read(C.st, h.Vl).e, *(x := [iv("x%d" % i) for i in range(4)])), sel(h.V0, *x))); V.done(C)
def prod(l):
    r = I1
    for x in l: r = mul(r, x)
    return r
def bad(V, N):
    for d in range(4):
        C = hctx(V, "%d-bit generate_integral_intermediates, dimension %d differs" % (N, d)); C.ex.autoview = True
        x = iv("extent"); C.assume(ge(x, I0))
        h = blank(C, N, lambda no: [x if i == d else no for i in range(4)]); C.assume(ne(x, h.no))
        C.call(M(V, h, "generate_integral_intermediates"), [h.Vspan], h.this)
        C.ensure("only returns by an exception", FALSE); V.done(C)
def ctor(V, N):
    C = hctx(V, "%d-bit constructor" % N); C.ex.autoview = True
    no = iv("norb"); C.assume(ge(no, I1), le(no, num(N // 2)))
    t, v = buffer(C, "T", [no, no]), buffer(C, "V", [no] * 4); seen = []
    C.ex.contracts["macis::HamiltonianGenerator<%d>::generate_integral_intermediates" % N] = lambda ex, st, f, vals, this: seen.append(vals[0])
    o = C.construct("macis::HamiltonianGenerator<%d>" % N, lambda f: len(f.params) == 2, [span(C, span_t(2), t[0], [no] * 2), span(C, span_t(4), v[0], [no] * 4)])
    C.ensure("the orbital count and its powers", and_(eq(o.f["norb_"], no), eq(o.f["norb2_"], mul(no, no)), eq(o.f["norb3_"], mul(mul(no, no), no))))
    C.ensure("the given integrals are the ones in use", TRUE if o.f["T_pq_"].f["p_"].base == t[2] and o.f["V_pqrs_"].f["p_"].base == v[2] and len(seen) == 1 and seen[0].f["p_"].base == v[2] else FALSE); V.done(C)
