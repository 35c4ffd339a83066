"""Contract of the BLAS calls the library makes, and automatic coordinate views of local work arrays.

A local std::vector<double> whose size is a product of the contract's dimensions is addressed through a column-major
view; the view is chosen at the first access (the first shape under which that access provably stays inside its extents).
Changing the view forgets the contents, so it is always sound; injectivity of a view follows from the bounds that are
proved at every access."""
import itertools
import term as tm
from term import T, TRUE, FALSE, num, fresh, add, sub, mul, ge, le, gt, lt, eq, and_, or_, not_, implies, ite, select, lam, sum_
def _X():
    import exec as X
    return X
class ReView(Exception):
    def __init__(s, level, root, path, view): s.level, s.root, s.path, s.view = level, root, path, view
class LazyView:
    """addressing not chosen yet: flat"""
    def __init__(s, cands): s.cands = cands; s.exts = [None]; s.strides = [()]
    def coords(s, off): return [off]
def prod(xs):
    r = num(1)
    for x in xs: r = mul(r, x)
    return r
def arms(n):
    if n.op == "ite": return arms(n.args[1]) + arms(n.args[2])
    return [n]
def groupings(fs):
    """finest first"""
    if len(fs) == 1: yield [fs]; return
    out = []
    for cut in range(2 ** (len(fs) - 1)):
        g = [[fs[0]]]
        for k in range(1, len(fs)):
            if cut >> (k - 1) & 1: g.append([fs[k]])
            else: g[-1].append(fs[k])
        out.append(g)
    out.sort(key=lambda g: -len(g)); yield from out
def shapes(ex, n):
    X = _X(); seen = set(); out = []
    def put(exts):
        k = tuple(x.uid for x in exts)
        if k in seen: return
        seen.add(k)
        try: out.append(X.View(exts))
        except X.Unsupported: pass
    sizes = arms(n)
    for e in ex.shapes: put(list(e))
    al = []
    for s in sizes:
        p = tm._poly(s)
        if len(p) != 1 or list(p.values()) != [1]: continue
        m = next(iter(p))
        if not 1 <= len(m) <= 4: continue
        for pm in sorted(set(itertools.permutations(m)), key=lambda q: [x.uid for x in q]):
            for g in groupings(list(pm)): al.append([prod(x) for x in g])
    al.sort(key=lambda g: -len(g))
    for e in al: put(e)
    return out
def autovec(ex, v):
    """value of a freshly sized local vector of reals"""
    X = _X()
    if not ex.autoview or v.n is None or v.n.op == "num" or ex.leaf_sort(v.ty) != "R": return v
    c = shapes(ex, v.n)
    return X.Vec(v.n, v.e, v.ty, LazyView(c)) if c else v
def set_view(ex, st, loc, vw):
    X = _X()
    v = ex.read(st, loc)
    s = "R"
    e = v.e
    b = e
    if isinstance(e, T) and e.op == "const":
        x = e
        while x.op == "const": x = x.args[0]
        if x.op in ("num",) or not isinstance(x.sort, tuple):
            for _ in vw.exts: x = tm.constarr(x)
            ne = x
        else: ne = None
    else: ne = None
    if ne is None:
        for _ in vw.exts: s = tm.asort(s)
        ne = fresh("forgotten", s)
    st.store[loc.root] = ex._upd(st, st.store[loc.root], loc.path, X.Vec(v.n, ne, v.ty, vw))
def review(ex, st, loc, vw):
    """apply now, or restart the outermost loop that already sees the vector"""
    for k, s in enumerate(ex.loopstates):
        if loc.root in s.store: raise ReView(k, loc.root, loc.path, vw)
    set_view(ex, st, loc, vw)
def fits(ex, st, v, vw):
    f = le(prod(vw.exts), v.n)
    return f is TRUE or ex.known(st, f, 600)
def resolve(ex, st, loc, off):
    """first access of a lazily viewed vector"""
    X = _X()
    v = ex.read(st, loc)
    if not isinstance(v, X.Vec) or not isinstance(v.view, LazyView) or ex.dry: return v
    for vw in v.view.cands:
        f = X.view_bounds(vw, off)
        if f is FALSE: continue
        if fits(ex, st, v, vw) and (f is TRUE or ex.known(st, f, 300)):
            vw.cands = v.view.cands; review(ex, st, loc, vw); return ex.read(st, loc)
    review(ex, st, loc, None) if False else _flat(ex, st, loc)
    return ex.read(st, loc)
class Flat(LazyView):
    pass
def _flat(ex, st, loc):
    X = _X()
    v = ex.read(st, loc)
    vw = X.View([v.n]) if False else None
    for k, s in enumerate(ex.loopstates):
        if loc.root in s.store: raise ReView(k, loc.root, loc.path, None)
    st.store[loc.root] = ex._upd(st, st.store[loc.root], loc.path, X.Vec(v.n, v.e, v.ty))
def on_review(ex, st, r):
    X = _X()
    loc = X.Loc(r.root, r.path)
    if r.view is None:
        v = ex.read(st, loc); st.store[r.root] = ex._upd(st, st.store[r.root], r.path, X.Vec(v.n, v.e if isinstance(v.view, LazyView) else fresh("forgotten", tm.asort("R")), v.ty))
    else: set_view(ex, st, loc, r.view)

# ------------------------------------------------------------------ gemm
def enum_name(n):
    X = _X()
    while n.get("kind") not in ("DeclRefExpr",) and X.rx(n): n = X.rx(n)[-1]
    return (n.get("referencedDecl") or {}).get("name") if n.get("kind") == "DeclRefExpr" and (n.get("referencedDecl") or {}).get("kind") == "EnumConstantDecl" else None
def mono(t):
    p = tm._poly(t)
    if len(p) != 1 or list(p.values()) != [1]: return None
    m = next(iter(p))
    return tuple(sorted(m, key=lambda x: x.uid))
def block(vw, off, m, n, ldc):
    """coordinates of a m x n column-major block with leading dimension ldc at offset off: list of (kind, lo, len, mult), kind in row/col/fix; None if the view does not describe it"""
    ml = mono(ldc)
    if ml is None: return None
    b = next((k for k in range(1, len(vw.exts)) if tuple(sorted(vw.strides[k], key=lambda x: x.uid)) == ml), None)
    if b is None: return None
    co = vw.coords(off); N = len(vw.exts); out = [None] * N
    def cover(a, size):
        """coords a.. covered by an index running over [0, size)"""
        p = num(1)
        for e in range(a, N):
            if vw.exts[e] is None: break
            p = mul(p, vw.exts[e])
            if e == a and p is not size: pass
            if p is size and all(co[k] is num(0) for k in range(a, e + 1)): return e + 1
        return a + 1
    r = cover(0, m)
    if r > b or (b > 1 and r != b and not (r == 1)): return None
    if r == 1 and b > 1: pass
    mult = num(1)
    for k in range(0, r):
        full = r > 1 or (vw.exts[k] is m and co[k] is num(0))
        out[k] = ("row", co[k], vw.exts[k] if full else m, mult)
        if vw.exts[k] is not None: mult = mul(mult, vw.exts[k])
    for k in range(r, b): out[k] = ("fix", co[k], None, None)
    c = cover(b, n)
    mult = num(1)
    for k in range(b, c):
        full = c > b + 1 or (vw.exts[k] is not None and vw.exts[k] is n and co[k] is num(0))
        out[k] = ("col", co[k], vw.exts[k] if full else n, mult)
        if vw.exts[k] is not None: mult = mul(mult, vw.exts[k])
    for k in range(c, N): out[k] = ("fix", co[k], None, None)
    return out
def block_ok(vw, bl, m, n):
    """the block stays inside the extents (when it is not empty)"""
    f = TRUE
    for k, (kind, lo, ln, mu) in enumerate(bl):
        e = vw.exts[k]
        f = and_(f, ge(lo, num(0)))
        if e is None: continue
        f = and_(f, lt(lo, e) if kind == "fix" else le(add(lo, ln), e))
    return or_(le(m, num(0)), le(n, num(0)), f)
def write_block(ex, st, base, off, m, n, ldc, fn, overwrite, what):
    """C(i,j) := fn(i, j, old) on the m x n block; fn gets the index terms and hypothesis"""
    X = _X()
    v = ex.read(st, base)
    if not isinstance(v, X.Vec): raise X.Unsupported("%s into %r" % (what, v))
    vw = v.view
    if ex.dry:
        ex.write(st, base, X.Vec(v.n, X.tmap(lambda a: fresh("dry", a.sort), v.e), v.ty, vw)); return
    bl = None
    if vw is not None and not isinstance(vw, LazyView):
        bl = block(vw, off, m, n, ldc)
        if bl is not None and not ex.known(st, block_ok(vw, bl, m, n), 1000) and overwrite and getattr(vw, "cands", None): bl = None
    if bl is None:
        cands = getattr(vw, "cands", None)
        if not cands or not overwrite and not isinstance(vw, LazyView): raise X.Unsupported("%s: the output block does not match the addressing of the buffer" % what)
        for c in cands:
            bl = block(c, off, m, n, ldc)
            if bl is None: continue
            if fits(ex, st, v, c) and ex.known(st, block_ok(c, bl, m, n), 600): break
        else: raise X.Unsupported("%s: no addressing of the work array matches the output block" % what)
        c.cands = cands
        review(ex, st, base, c)
        v = ex.read(st, base); vw = v.view
    if not ex.quiet: ex.oblige(st, "%s: the output block stays inside the addressed matrix" % what, block_ok(vw, bl, m, n), kind="bounds")
    ps = [fresh("p", "I") for _ in bl]
    i = j = num(0); c = TRUE
    for p, (kind, lo, ln, mu) in zip(ps, bl):
        if kind == "fix": c = and_(c, eq(p, lo)); continue
        c = and_(c, ge(p, lo), lt(p, add(lo, ln)))
        t = mul(sub(p, lo), mu)
        if kind == "row": i = add(i, t)
        else: j = add(j, t)
    old = v.e
    for p in ps: old = select(old, p)
    s2 = st.copy(); s2.fact(c)
    new = fn(s2, i, j, old)
    e = ite(c, new, old)
    for p in reversed(ps): e = lam(p, e)
    ex.write(st, base, X.Vec(v.n, e, v.ty, vw))
def b_gemm(ex, st, fr, args, n):
    X = _X()
    if len(args) != 14: raise X.Unsupported("gemm with %d arguments" % len(args))
    if enum_name(args[0]) != "ColMajor": raise X.Unsupported("gemm layout")
    oa, ob = enum_name(args[1]), enum_name(args[2])
    if oa is None or ob is None: raise X.Unsupported("gemm operation is not a literal")
    vals = [ex.ev(st, fr, a) for a in args[3:]]
    m, nn, k, al, A, lda, B, ldb, be, Cc, ldc = vals
    m, nn, k, lda, ldb, ldc = [ex.as_int(x) for x in (m, nn, k, lda, ldb, ldc)]
    al, be = X._conv(al, "R"), X._conv(be, "R")
    if be.op != "num": raise X.Unsupported("gemm with a symbolic beta")
    zero = be.args[0] == 0
    if not ex.quiet and not ex.dry:
        for nm, ld, need in (("lda", lda, m if oa == "NoTrans" else k), ("ldb", ldb, k if ob == "NoTrans" else nn), ("ldc", ldc, m)):
            f = and_(ge(ld, need), ge(ld, num(1)))
            if nm == "lda" and False: pass
            ex.oblige(st, "gemm: %s covers the matrix" % nm, or_(le(m, num(0)), le(nn, num(0)), le(k, num(0)), f), kind="pre")
    def elem(s2, P, o):
        if not isinstance(P, X.Ptr) or P.base is None or P.off is None: raise X.Unsupported("gemm operand %r" % (P,))
        off = add(P.off, o)
        if not ex.dry: resolve(ex, s2, P.base, off)
        ex.bounds(s2, P.base, off)
        x = ex.vec_read(s2, ex.read(s2, P.base), off)
        return x if ex.dry else ex.simp_ite(s2, x)
    if not ex.dry and not zero: pass
    for P in (A, B):
        if not isinstance(P, X.Ptr): raise X.Unsupported("gemm operand %r" % (P,))
    def value(s2, i, j, old):
        l = fresh("l", "I")
        s3 = s2.copy(); s3.fact(and_(ge(l, num(0)), lt(l, k)))
        a = elem(s3, A, add(i, mul(l, lda)) if oa == "NoTrans" else add(l, mul(i, lda)))
        b = elem(s3, B, add(l, mul(j, ldb)) if ob == "NoTrans" else add(j, mul(l, ldb)))
        r = mul(al, sum_(l, num(0), k, mul(a, b)))
        return r if zero else add(r, mul(be, old))
    if not isinstance(Cc, X.Ptr) or Cc.base is None: raise X.Unsupported("gemm output %r" % (Cc,))
    write_block(ex, st, Cc.base, Cc.off, m, nn, ldc, value, zero, "gemm")
    return X.VOID
