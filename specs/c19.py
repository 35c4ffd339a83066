from orb import *
NOTE = "unpacking, packing and the orbital gradient (three-block and single-vector forms) are verified for all orbital splits, vectors and leading dimensions; loops are replaced by their exact effect"
TU = "orb"
HARNESS_LIBS = ["-lopenblas"]
HARNESS_SRC = ["$REPO/src/macis/orbital_rotation_utilities.cxx"]
def jobs(V):
    out = []
    for lin in (0, 1):
        t = " (single vector)" if lin else ""
        out += [("unpack" + t, lambda lin=lin: unpack(V, lin)), ("pack" + t, lambda lin=lin: pack(V, lin, "matrix_to_linear_orb_rot")), ("gradient" + t, lambda lin=lin: pack(V, lin, "fock_to_linear_orb_grad"))]
    return out + [("split", lambda: split(V)), ("pack after unpack", lambda: roundtrip(V))]
def vectors(C, segs, lin):
    """arguments and per-block (contents term, location, index function)"""
    if lin:
        p, e, l = segbuf(C, "lin", segs)
        return [p], [(lambda st, k=k: (lambda a, i: sel(C.ex.read(st, l).e, a, i, num(k)))) for k in range(3)]
    args, els = [], []
    for nm, s in zip(("vi", "va", "ai"), segs):
        p, e, l = buffer(C, nm, s); args.append(p)
        els.append(lambda st, l=l: (lambda a, i: sel(C.ex.read(st, l).e, a, i)))
    return args, els
def blocks(ni, na, nv, r, c):
    """(condition that (r, c) lies in block k, row within block, column within block)"""
    n1 = add(ni, na); n = add(n1, nv)
    return [(and_(rng(n1, r, n), rng(I0, c, ni)), sub(r, n1), c), (and_(rng(n1, r, n), rng(ni, c, n1)), sub(r, n1), sub(c, ni)), (and_(rng(ni, r, n1), rng(I0, c, ni)), sub(r, ni), c)]
def anti(ni, na, nv, x, old, r, c):
    """the matrix after unpacking"""
    t = old
    for k, (b, a, i) in enumerate(blocks(ni, na, nv, r, c)): t = ite(b, x[k](a, i), t)
    for k, (b, a, i) in enumerate(blocks(ni, na, nv, c, r)): t = ite(b, sub(R(0), x[k](a, i)), t)
    return t
def nparams(k): return lambda f: len(f.params) == k
def unpack(V, lin):
    C = V.ctx("linear_orb_rot_to_matrix" + ("(vector)" if lin else "")); ni, na, nv, no, segs = split3(C); lk = ld(C, "LDK", no)
    args, els = vectors(C, segs, lin); k, K0, kl = mat(C, "K", lk)
    x = [e(C.st) for e in els]
    C.call(F(V, "linear_orb_rot_to_matrix", nparams(6 if lin else 8)), N3(C, ni, na, nv) + args + [k, lk])
    K1 = C.ex.read(C.st, kl).e; r, c = iv("r"), iv("c")
    C.assume(ge(r, I0), ge(c, I0))
    C.ensure("every block element is the rotation parameter or its negative, every other element is untouched", eq(sel(K1, r, c), anti(ni, na, nv, x, sel(K0, r, c), r, c)))
    inb = or_(*[b for b, _, _ in blocks(ni, na, nv, r, c)])
    C.ensure("the written blocks are antisymmetric", implies(inb, eq(sel(K1, r, c), sub(R(0), sel(K1, c, r)))))
    for k2, (e0, f) in enumerate(zip(x, els)):
        a, i = iv("a"), iv("i")
        C.ensure("the vector is not modified", eq(e0(a, i), f(C.st)(a, i)))
    V.done(C)
def pack(V, lin, fname):
    C = V.ctx(fname + ("(vector)" if lin else "")); ni, na, nv, no, segs = split3(C); lf = ld(C, "LDF", no)
    args, els = vectors(C, segs, lin); f, F0, fl = mat(C, "F", lf)
    x0 = [e(C.st) for e in els]
    C.call(F(V, fname, nparams(6 if lin else 8)), N3(C, ni, na, nv) + [f, lf] + args)
    a, i = iv("a"), iv("i")
    for k, ((ro, co), s) in enumerate(zip(offs(ni, na), segs)):
        g = els[k](C.st)(a, i); A, B = add(a, ro), add(i, co)
        w = sel(F0, A, B) if fname.startswith("matrix") else mul(R(2), sub(sel(F0, A, B), sel(F0, B, A)))
        inb = and_(rng(I0, a, s[0]), rng(I0, i, s[1]))
        C.ensure("block %d of the vector" % k, implies(inb, eq(g, w)))
        C.ensure("nothing outside block %d is written" % k, implies(not_(inb), eq(g, x0[k](a, i))))
    r, c = iv("r"), iv("c")
    C.ensure("the matrix is not modified", eq(sel(C.ex.read(C.st, fl).e, r, c), sel(F0, r, c))); V.done(C)
def split(V):
    C = V.ctx("split_linear_orb_rot"); ni, na, nv, no, segs = split3(C)
    l = C.alloc(Vec(None, fresh("lin", asort("R")), REAL), "lin"); s = iv("start")
    t = C.call(F(V, "split_linear_orb_rot", lambda f: f.body is not None), N3(C, ni, na, nv) + [C.alloc(Ptr(l, s), "p")])
    for k, b in enumerate((I0, mul(nv, ni), add(mul(nv, ni), mul(nv, na)))): C.ensure("block %d starts after the blocks before it" % k, eq(t.f[str(k)].off, add(s, b)))
    V.done(C)
def roundtrip(V):
    C = V.ctx("matrix_to_linear_orb_rot after linear_orb_rot_to_matrix"); ni, na, nv, no, segs = split3(C); lk = ld(C, "LDK", no)
    args, els = vectors(C, segs, 1); x = [e(C.st) for e in els]; k, K0, kl = mat(C, "K", lk)
    out, els2 = vectors(C, segs, 1)
    C.call(F(V, "linear_orb_rot_to_matrix", nparams(6)), N3(C, ni, na, nv) + args + [k, lk])
    C.call(F(V, "matrix_to_linear_orb_rot", nparams(6)), N3(C, ni, na, nv) + [k, lk] + out)
    a, i = iv("a"), iv("i")
    for k, s in enumerate(segs): C.ensure("block %d of the vector comes back" % k, implies(and_(rng(I0, a, s[0]), rng(I0, i, s[1])), eq(els2[k](C.st)(a, i), x[k](a, i))))
    V.done(C)
