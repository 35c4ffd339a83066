"""Contract helper layer: symbolic inputs, spec functions, generic candidate invariants."""
import time
import term as tm
from term import T, TRUE, FALSE, num, var, fresh, add, sub, mul, ge, le, gt, lt, eq, ne, and_, or_, not_, implies, ite, select, store, lam, forall, exists, asort, sum_, app
import exec as X
from exec import Exec, State, Loc, Ptr, Vec, Obj, Clo, Opaque, Unsupported
import ctypes_ as ct
import smt

I0, I1 = num(0), num(1)
def rng(lo, x, hi): return and_(le(lo, x), lt(x, hi))
def iv(name): return fresh(name, "I")

def fn(name, sort="I"):
    """uninterpreted spec function"""
    u = name + "!" + str(next(tm._fresh))
    return lambda *a: app(u, list(a), sort)

class Ctx:
    """one contract run: executor + symbolic inputs + obligations"""
    def __init__(self, prog, timeout=3000, **kw):
        self.ex = Exec(prog, timeout=timeout, **kw)
        self.st = State()
        self.pre = []
        for so in ("I", "R"):
            x = fresh("x", so); self.ex.axioms.append(forall([x], eq(app("touch" + so, [x], "I"), I0), [[app("touch" + so, [x], "I")]]))
    def assume(self, *fs):
        for f in fs:
            for g in (f.args if f.op == "and" else (f,)):
                self.st.fact(g); self.pre.append(g)
    def forget(self, *fs):
        """drop hypotheses that are no longer needed (sound: fewer hypotheses)"""
        fs = set(fs)
        self.st.pc = tuple(x for x in self.st.pc if x[1] not in fs)
        self.ex.axioms[:] = [x for x in self.ex.axioms if x not in fs]
    def axiom(self, *fs):
        self.ex.axioms.extend(f for f in fs if f is not TRUE)
    def lemma(self, name, f, hyps=(), timeout=5000, use=True):
        """proved lemma, then available to every query"""
        o = X.Oblig(); o.name = "lemma: " + name; o.fn = self.ex.cur; o.kind = "lemma"
        o.hyps = self.st.facts() + self.ex.axioms + list(hyps); o.goal = f
        r = smt.prove(o.hyps, f, timeout)
        o.status, o.time, o.backend, o.info = r.status, r.time, r.backend, r.info
        self.ex.obls.append(o)
        if use: self.ex.axioms.append(f)
        return r
    def induct(self, name, v, lo, P, hi=None, timeout=5000, pats=(), hyps=()):
        """lemma forall v >= lo (and v <= hi): P(v), by induction on v"""
        b = I0 if lo is None else lo
        base = P(b)
        k = iv("k")
        g = and_(le(b, k), P(k)) if hi is None else and_(le(b, k), lt(k, hi), P(k))
        step = implies(g, P(add(k, I1)))
        if hi is not None: base = implies(le(b, hi), base)
        for nm, f in ((name + " (base)", base), (name + " (step)", forall([k], step))):
            self.lemma(nm, f, hyps, timeout, use=False)
        r = implies(le(b, v) if hi is None else and_(le(b, v), le(v, hi)), P(v))
        self.ex.axioms.append(forall([v], r, pats))
    def alloc(self, val, name): return self.ex.alloc(self.st, val, name)
    def const(self, name, sort="I"): return fresh(name, sort)
    def vec(self, name, n, ety=("int", 32, True), e=None):
        s = self.ex.leaf_sort(ety)
        return Vec(n, e if e is not None else fresh(name, asort(s)), ety)
    def ensure(self, name, f, timeout=None, st=None):
        return self.ex.oblige(st or self.st, name, f, kind="post", timeout=timeout)
    def construct(self, rectype, pred, vals):
        """run the constructor of rectype selected by pred; returns the object"""
        c = X.canon_rec(rectype)
        fs = [f for f in self.ex.prog.fns.values() if f.kind == "CXXConstructorDecl" and f.record is not None and X.canon_rec(f.record.get("_qual", "")) == c and f.body is not None and pred(f)]
        if not fs: raise Unsupported("constructor of %s not found" % rectype)
        d = {}
        for g in self.ex.fields(rectype):
            t = ct.parse(X.ty_of(g)); d[g["name"]] = self.ex.default_val(t) if t[0] != "ref" else None
        loc = self.ex.alloc(self.st, Obj(rectype, d), "obj")
        self.ex.call_fn(self.st, fs[0], vals, loc)
        return self.ex.read(self.st, loc)
    def call(self, f, vals, this=None):
        return self.ex.call_fn(self.st, f, vals, this)

# ------------------------------------------------------------------ candidate invariants
def counters(ex, L, also_outer=True):
    """terms that act as loop positions"""
    r = []
    for l in L.leaves:
        if l.hv.sort == "I": r.append(l.hv)
    return r
def cand_arr(F, esort="I", lo=I0, extra=(), hi=None):
    """forall r in [lo, B): arr[r] == F(r), for every modified array and every counter bound B; once past, frames are covered separately"""
    def g(ex, L):
        out = []
        bounds = []
        for c in counters(ex, L): bounds += [c, add(c, I1)]
        for O in L.outer:
            for c in counters(ex, O):
                bounds += [c, add(c, I1)]
        bounds += list(extra)
        for l in L.leaves:
            if isinstance(l.hv.sort, tuple) and l.hv.sort == asort(esort):
                for B in bounds:
                    r = iv("r")
                    fr = F(r)
                    if fr.sort != esort: continue
                    out.append(forall([r], implies(rng(lo, r, B), eq(select(l.hv, r), fr))))
        return out
    return g
def cand_scalar(F, sort="I", offs=(0,)):
    """x == F(counter)"""
    def g(ex, L):
        out = []
        cs = counters(ex, L)
        for O in L.outer: cs += counters(ex, O)
        for l in L.leaves:
            if l.hv.sort == sort:
                for c in cs:
                    if c is l.hv: continue
                    for o in offs:
                        out.append(eq(l.hv, F(add(c, num(o)))))
        return out
    return g
def cand_frame_above(esort=None):
    """entries at or above a counter still have their value from before the loop"""
    def g(ex, L):
        out = []
        for l in L.leaves:
            if isinstance(l.hv.sort, tuple) and l.hv.sort[0] == "A" and not isinstance(l.hv.sort[1], tuple):
                for c in counters(ex, L):
                    r = iv("r")
                    out.append(forall([r], implies(ge(r, c), eq(select(l.hv, r), select(l.v0, r)))))
                    out.append(forall([r], implies(gt(r, c), eq(select(l.hv, r), select(l.v0, r)))))
        return out
    return g
def cand_len(ns):
    """modified vector lengths equal one of the given terms"""
    def g(ex, L):
        out = []
        for l in L.leaves:
            if l.hv.sort == "I" and l.role == "n":
                for x in ns: out.append(eq(l.hv, x))
        return out
    return g
def cand_fn(f):
    """f(leafterm, counters) -> list of formulas, for every modified leaf"""
    def g(ex, L):
        out = []
        cs = counters(ex, L)
        for O in L.outer: cs += counters(ex, O)
        for l in L.leaves: out += [c for c in f(l, cs) if c is not None]
        return out
    return g

# ------------------------------------------------------------------ sparse matrices
class SM: pass
I32 = ("int", 32, True); REAL = ("real",)
def sym_compressed(C, rectype, kind, name="A", sorted_rows=None):
    """symbolic well-formed CSR (kind='csr') or CSC matrix; returns handle with terms"""
    s = SM()
    ptrn, indn = ("rowptr_", "colind_") if kind == "csr" else ("colptr_", "rowind_")
    s.m, s.n, s.nnz, s.ix = iv(name + ".m"), iv(name + ".n"), iv(name + ".nnz"), iv(name + ".indexing")
    s.ptr, s.ind, s.val = fresh(name + ".ptr", asort("I")), fresh(name + ".ind", asort("I")), fresh(name + ".val", asort("R"))
    s.no, s.ni = (s.m, s.n) if kind == "csr" else (s.n, s.m)
    fields = {"m_": s.m, "n_": s.n, "nnz_": s.nnz, "indexing_": s.ix,
              "nzval_": Vec(s.nnz, s.val, REAL), indn: Vec(s.nnz, s.ind, I32), ptrn: Vec(add(s.no, I1), s.ptr, I32)}
    fs = C.ex.fields(rectype)
    d = {}
    for f in fs:
        if f["name"] in fields: d[f["name"]] = fields[f["name"]]
        else: d[f["name"]] = C.ex.fresh_val(ct.parse(X.ty_of(f)), f["name"])
    s.loc = C.alloc(Obj(rectype, d), name)
    s.st = lambda r: sub(select(s.ptr, r), s.ix)
    s.en = lambda r: sub(select(s.ptr, add(r, I1)), s.ix)
    i, j, t = iv("i"), iv("j"), iv("t")
    s.wf = [ge(s.m, I0), ge(s.n, I0), ge(s.nnz, I0), or_(eq(s.ix, I0), eq(s.ix, I1)),
            eq(select(s.ptr, I0), s.ix), eq(select(s.ptr, s.no), add(s.ix, s.nnz)),
            forall([i, j], implies(and_(le(I0, i), le(i, j), le(j, s.no)), le(select(s.ptr, i), select(s.ptr, j)))),
            forall([t], implies(rng(I0, t, s.nnz), rng(s.ix, select(s.ind, t), add(s.ni, s.ix)))),
            le(add(s.ix, s.nnz), num(2**31 - 1))]        # the last row pointer is an int32 value
    C.assume(*s.wf)
    # every position lies in exactly one row: row-of function (defined for 0<=t<nnz)
    s.rowof = fn(name + ".rowof")
    return s
def rowof_axioms(C, s):
    """definition of rowof: the row containing position t; existence by induction"""
    t, r = iv("t"), iv("r")
    R = s.rowof
    C.axiom(forall([t], implies(rng(I0, t, s.nnz), and_(rng(I0, R(t), s.no), le(s.st(R(t)), t), lt(t, s.en(R(t))))), [[R(t)]]))
def no_dups(C, s):
    r, t, u = iv("r"), iv("t"), iv("u")
    C.assume(forall([r, t, u], implies(and_(rng(I0, r, s.no), rng(s.st(r), t, s.en(r)), rng(s.st(r), u, s.en(r)), eq(select(s.ind, t), select(s.ind, u))), eq(t, u))))
def sorted_in(C, s, strict=False):
    r, t, u = iv("r"), iv("t"), iv("u")
    C.assume(forall([r, t, u], implies(and_(rng(I0, r, s.no), le(s.st(r), t), lt(t, u), lt(u, s.en(r))),
                                       (lt if strict else le)(select(s.ind, t), select(s.ind, u)))))

def rec_obj(C, rectype, fields):
    """record value with the given fields, the others arbitrary"""
    fs = C.ex.fields(rectype)
    if fs is None: raise Unsupported("record %s not found" % rectype)
    return Obj(rectype, {f["name"]: fields[f["name"]] if f["name"] in fields else C.ex.fresh_val(ct.parse(X.ty_of(f)), f["name"]) for f in fs if "name" in f})
def sym_coo(C, rectype, name="A"):
    s = SM()
    s.m, s.n, s.nnz, s.ix = iv(name + ".m"), iv(name + ".n"), iv(name + ".nnz"), iv(name + ".indexing")
    s.row, s.col, s.val = fresh(name + ".row", asort("I")), fresh(name + ".col", asort("I")), fresh(name + ".val", asort("R"))
    s.loc = C.alloc(rec_obj(C, rectype, {"m_": s.m, "n_": s.n, "nnz_": s.nnz, "indexing_": s.ix, "nzval_": Vec(s.nnz, s.val, REAL),
                                         "rowind_": Vec(s.nnz, s.row, I32), "colind_": Vec(s.nnz, s.col, I32)}), name)
    t = iv("t")
    C.assume(ge(s.m, I0), ge(s.n, I0), ge(s.nnz, I0), or_(eq(s.ix, I0), eq(s.ix, I1)),
             forall([t], implies(rng(I0, t, s.nnz), rng(s.ix, select(s.row, t), add(s.ix, s.m))), [[select(s.row, t)]]),
             forall([t], implies(rng(I0, t, s.nnz), rng(s.ix, select(s.col, t), add(s.ix, s.n))), [[select(s.col, t)]]))
    return s
def nested(name, k, sort="R"):
    for _ in range(k): sort = asort(sort)
    return fresh(name, sort)
def buffer(C, name, exts, ety=REAL):
    """raw column-major buffer addressed by coordinates (fastest first); exts[-1] may be None"""
    e = nested(name, len(exts), C.ex.leaf_sort(ety))
    l = C.alloc(Vec(None, e, ety, X.View(exts)), name)
    return Ptr(l, I0), e, l
def sel(a, *idx):
    for i in idx: a = select(a, i)
    return a

class Rows: pass
def row_layout(C, M, cnt, base=I0, name="out"):
    """positions of a row-by-row output: start(r) = base + sum of cnt below r, rowat(p) = the row that position p (from 0) falls into"""
    L = Rows()
    S, R = fn(name + ".start"), fn(name + ".row")
    r, p, q = iv("r"), iv("p"), iv("q")
    C.axiom(eq(S(I0), I0))
    C.axiom(forall([r], implies(rng(I0, r, M), eq(S(add(r, I1)), add(S(r), cnt(r)))), [[S(r)]]))
    L.start, L.rowat, L.total = S, R, S(M)
    C.lemma("every row keeps a non-negative number of entries", forall([r], implies(rng(I0, r, M), ge(cnt(r), I0)), [[S(r)]]))
    a = iv("a")
    # monotone: for fixed lower index, induction on the upper one
    C.induct("row starts ascend", q, a, lambda v: implies(rng(I0, a, add(M, I1)), le(S(a), S(v))), hi=M)
    C.ex.axioms.pop()
    C.axiom(forall([a, q], implies(and_(le(I0, a), le(a, q), le(q, M)), le(S(a), S(q))), [[S(a), S(q)]]))
    C.axiom(forall([p], implies(rng(I0, p, S(M)), and_(rng(I0, R(p), M), le(S(R(p)), p), lt(p, S(add(R(p), I1))))), [[R(p)]]))
    return L
def row_src(C, L, M, f, name="src"):
    """src(p): source of output position p; f(r, o) = source of the o-th entry of output row r"""
    src = fn(name); p, r = iv("p"), iv("r")
    R = L.rowat(p)
    ax = forall([p], implies(rng(I0, p, L.total), eq(src(p), f(R, sub(p, L.start(R))))), [[src(p)]])
    C.axiom(ax)
    C.lemma("source of an entry, by row", forall([r, p], implies(and_(rng(I0, r, M), le(L.start(r), p), lt(p, L.start(add(r, I1)))), eq(src(p), f(r, sub(p, L.start(r))))), [[src(p), L.start(r)]]))
    C.ex.axioms.remove(ax)
    return src
def touch(*xs):
    """trivially true formula that mentions the terms (so that they are available to triggers)"""
    return and_(*[eq(app("touch" + str(x.sort), [x], "I"), I0) for x in xs])

def row_cands(C, A, L, src, base, extra=()):
    """candidates for loops that fill an output row by row: pointers follow L.start (+ base), entries come from src"""
    r, p = iv("r"), iv("p")
    def g(ex, Lp):
        out = []
        cs = counters(ex, Lp)
        for l in Lp.leaves:
            if l.hv.sort in (asort("I"), asort("R")):
                for B in cs:
                    for bb in (B, add(B, I1)):
                        if l.hv.sort == asort("I"): out.append(forall([r], implies(rng(I0, r, bb), eq(select(l.hv, r), add(L.start(r), base)))))
                    arr = A.ind if l.hv.sort == asort("I") else A.val
                    out.append(forall([p], implies(rng(I0, p, L.start(B)), eq(select(l.hv, p), select(arr, src(p))))))
            elif l.hv.sort == "I":
                for B in cs:
                    if B is not l.hv: out += [eq(l.hv, L.start(B)), eq(l.hv, add(L.start(B), base))] + [eq(l.hv, f(B)) for f in extra]
        return out
    C.ex.cand_gens.append(g)
