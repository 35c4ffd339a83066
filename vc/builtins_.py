"""Trusted contracts of the standard library functions the verified code calls."""
import re
import term as tm
from term import T, TRUE, FALSE, num, var, fresh, add, sub, mul, ge, le, gt, lt, eq, ne, and_, or_, not_, implies, ite, select, store, lam, forall, asort, sum_
import ctypes_ as ct

USED = set()     # trusted contracts used in this run

def _X():
    import exec as X
    return X

def _fn(name, sort="I"):
    u = name + "!" + str(next(tm._fresh))
    return lambda *a: tm.app(u, list(a), sort)
def rng(lo, x, hi): return and_(le(lo, x), lt(x, hi))

def bit_test(self, st, b, i):
    i = self.as_int(i); w = b.sort[1]
    if b.sort[0] == "A": return select(b, i)
    if i.op == "num":
        if 0 <= i.args[0] < w: return eq(tm.bvext(b, i.args[0], i.args[0]), tm.bvc(1, 1))
    ib = tm.int2bv(i, w)
    return eq(tm.bvext(tm.bv("lshr", b, ib), 0, 0), tm.bvc(1, 1))
def one(i, w):
    return tm.bv("shl", tm.bvc(1, w), tm.int2bv(i, w))
def bit_set(self, st, b, i, v):
    i = self.as_int(i); w = b.sort[1]
    if b.sort[0] == "A": return store(b, i, v)
    o = one(i, w)
    return ite(v, tm.bv("or", b, o), tm.bv("and", b, tm.bv("not", o)))

def src_elem(self, st, p, off):
    X = _X()
    v = self.read(st, p.base)
    return self.vec_read(st, v, off)
def call_pred(self, st, fr, f, vals):
    s = st.copy()
    self.quiet += 1
    try: r = self.apply(s, fr, f, vals)
    finally: self.quiet -= 1
    return r
def vwrite(self, st, base, newelem):
    X = _X()
    v = self.read(st, base)
    self.write(st, base, X.Vec(v.n, newelem, v.ty, v.view))
def ptr_range(self, st, b, e):
    X = _X()
    if not (isinstance(b, X.Ptr) and isinstance(e, X.Ptr)) or b.base is None or b.base != e.base:
        raise X.Unsupported("iterator range %r %r" % (b, e))
    if b.off is None: raise X.Unsupported("iterator range of object")
    return b.base, b.off, e.off
def oblige_range(self, st, base, lo, hi, what):
    if not self.check_bounds or self.quiet or self.dry: return
    v = self.read(st, base)
    if v.view is not None: return      # checked by map_write / per element
    f = le(lo, hi)
    if f is not TRUE: self.oblige(st, what + ": begin before end", f, kind="bounds")
    if getattr(v, "n", None) is not None:
        f = or_(eq(lo, hi), and_(ge(lo, num(0)), le(hi, v.n)))
        if f is not TRUE: self.oblige(st, what + ": range inside the container", f, kind="bounds")

def map_write(self, st, base, lo, hi, fn):
    """elements [lo,hi) := fn(index) ; others unchanged"""
    X = _X()
    v = self.read(st, base)
    j = fresh("j", "I")
    if v.view is not None: return map_write_view(self, st, base, v, lo, hi, fn)
    new = fn(j)
    old = self.vec_read(st, v, j)
    def mrg(o, x):
        return ite(rng(lo, j, hi), X._conv(x, o.sort), o)
    e = X.tmap2(mrg, old, new)
    vwrite(self, st, base, X.tmap(lambda b: lam(j, b), e))

def map_write_view(self, st, base, v, lo, hi, fn):
    """contiguous range of a strided buffer: part of one column, or whole columns"""
    X = _X()
    vw = v.view
    cl = vw.coords(lo); d = sub(hi, lo); cd = vw.coords(d)
    last = max([k for k in range(len(cd)) if cd[k] is not num(0)] + [0])
    if not all(cd[k] is num(0) for k in range(len(cd)) if k != last) or not all(cl[k] is num(0) for k in range(last)):
        raise X.Unsupported("range write into a strided buffer")
    # coordinates below `last` run over their full extent; coordinate `last` over [cl, cl+cd)
    f = and_(ge(cl[last], num(0)), le(add(cl[last], cd[last]), vw.exts[last]) if vw.exts[last] is not None else TRUE)
    for k in range(last + 1, len(cd)):
        f = and_(f, ge(cl[k], num(0)), lt(cl[k], vw.exts[k]) if vw.exts[k] is not None else TRUE)
    if not self.quiet and not self.dry: self.oblige(st, "range write stays inside the addressed matrix", or_(le(d, num(0)), f), kind="bounds")
    ps = [fresh("p", "I") for _ in cd]
    off = num(0); 
    for k, p in enumerate(ps):
        m = p
        for a in vw.strides[k]: m = mul(m, a)
        off = add(off, m)
    new = fn(off)
    old = v.e
    for p in ps: old = X.t_select(old, p)
    c = rng(cl[last], ps[last], add(cl[last], cd[last]))
    for k in range(last): c = and_(c, rng(num(0), ps[k], vw.exts[k]))
    for k in range(last + 1, len(ps)): c = and_(c, eq(ps[k], cl[k]))
    e = X.tmap2(lambda o, x: ite(c, X._conv(x, o.sort), o), old, new)
    for p in reversed(ps): e = X.t_lam(p, e)
    vwrite(self, st, base, e)

def b_gemm(self, st, fr, args, n):
    import blas
    return blas.b_gemm(self, st, fr, args, n)

def exists_iter(self, st, name): return fresh(name, "I")

def builtin(self, st, fr, name, args, n):
    X = _X()
    if name in self.externs: return self.externs[name](self, st, fr, args, n)      # contracts of functions without a body (MPI)
    f = getattr(__import__("builtins_"), "b_" + (name or "").replace("operator", "op"), None)
    if f is None: raise X.Unsupported("call of %s" % name)
    USED.add("std::" + name)
    return f(self, st, fr, args, n)

def _vals(self, st, fr, args): return [self.ev(st, fr, a) for a in args]

# --- <utility>
def b_move(self, st, fr, args, n):
    if args[0].get("valueCategory") == "lvalue" and len(args) == 1: return self.lv(st, fr, args[0])
    return self.ev(st, fr, args[0])
b_forward = b_as_const = b_move
def b_swap(self, st, fr, args, n):
    a, b = self.lv(st, fr, args[0]), self.lv(st, fr, args[1])
    x, y = self.load(st, a), self.load(st, b)
    self.assign(st, a, y); self.assign(st, b, x)
    return _X().VOID
def b_exchange(self, st, fr, args, n):
    a = self.lv(st, fr, args[0]); x = self.load(st, a)
    self.assign(st, a, self.ev(st, fr, args[1])); return x
def b_make_pair(self, st, fr, args, n):
    return _X().Obj("tuple", {str(i): v for i, v in enumerate(_vals(self, st, fr, args))})
b_make_tuple = b_make_pair
def b_make_shared(self, st, fr, args, n):
    X = _X(); ty = ct.parse(X.ty_of(n))
    if ty[0] != "ptr" or len(args) != 1: raise X.Unsupported("make_shared of %s" % (ty,))
    v = self.ev(st, fr, args[0]); v = self.load(st, v) if isinstance(v, X.Loc) else v
    if not isinstance(v, X.Obj): raise X.Unsupported("make_shared from " + type(v).__name__)
    return X.Ptr(self.alloc(st, v, "shared"), None)
b_make_unique = b_make_shared
def b_tie(self, st, fr, args, n):
    return _X().Obj("tuple", {str(i): self.lv(st, fr, a) for i, a in enumerate(args)})
b_forward_as_tuple = b_tie
def b_get(self, st, fr, args, n):
    c = self.callee(n)
    t = c.get("type", {}).get("qualType", "") + " " + c.get("type", {}).get("desugaredQualType", "")
    m = re.search(r"tuple_element(?:_t)?<(\d+)", t) or re.search(r"__tuple_element_t<(\d+)", t)
    if m is None and "logger" in t and "spdlog::get" in self.externs: return self.externs["spdlog::get"](self, st, fr, args, n)
    if m is None: raise _X().Unsupported("std::get index")
    l = self.lv(st, fr, args[0])
    v = self.read(st, l)
    if isinstance(v, _X().Vec): return l.i(num(int(m.group(1))))
    x = v.f[m.group(1)]
    return x if isinstance(x, _X().Loc) else l.f(m.group(1))
def b_addressof(self, st, fr, args, n):
    return _X().Ptr(self.lv(st, fr, args[0]), None)
def b_ref(self, st, fr, args, n): return _X().Ptr(self.lv(st, fr, args[0]), None)
b_cref = b_ref

# --- numbers
def b_min(self, st, fr, args, n):
    vs = _vals(self, st, fr, args)
    if len(vs) == 1 and isinstance(vs[0], _X().Vec):
        v = vs[0]; r = select(v.e, num(0))
        for i in range(1, v.n.args[0]): r = ite(lt(select(v.e, num(i)), r), select(v.e, num(i)), r)
        return r
    a, b = vs[:2]
    if isinstance(a.sort, tuple): return ite(tm.bv("ult", b, a), b, a)
    return ite(lt(b, a), b, a)
def b_max(self, st, fr, args, n):
    vs = _vals(self, st, fr, args)
    a, b = vs[:2]
    if isinstance(a.sort, tuple): return ite(tm.bv("ult", a, b), b, a)
    return ite(lt(a, b), b, a)
def _bvarg(self, st, fr, a, w):
    v = self.ev(st, fr, a)
    if not isinstance(v.sort, tuple): v = tm.int2bv(v, w)
    return v if v.sort[1] == w else (tm.bvzext(v, w) if v.sort[1] < w else tm.bvext(v, w - 1, 0))
def _bit(v, k): return eq(tm.bvext(v, k, k), tm.bvc(1, 1))
def _ffs(self, st, fr, args, w):
    v = _bvarg(self, st, fr, args[0], w); r = num(0)
    for k in range(w - 1, -1, -1): r = ite(_bit(v, k), num(k + 1), r)
    return r
def _clz(self, st, fr, args, w):
    v = _bvarg(self, st, fr, args[0], w); r = fresh("clz0", "I")     # unspecified for zero
    for k in range(w): r = ite(_bit(v, k), num(w - 1 - k), r)
    return r
def b_ffs(self, st, fr, args, n): return _ffs(self, st, fr, args, 32)
def b_ffsl(self, st, fr, args, n): return _ffs(self, st, fr, args, 64)
b_ffsll = b_ffsl
b___builtin_ffs, b___builtin_ffsl, b___builtin_ffsll = b_ffs, b_ffsl, b_ffsl
def b___builtin_clz(self, st, fr, args, n): return _clz(self, st, fr, args, 32)
def b___builtin_clzl(self, st, fr, args, n): return _clz(self, st, fr, args, 64)
b___builtin_clzll = b___builtin_clzl
def b_abort(self, st, fr, args, n):
    self.oblige(st, "abort() is not reached", FALSE, kind="pre"); st.fact(FALSE); return _X().VOID
def b_abs(self, st, fr, args, n):
    a = self.ev(st, fr, args[0])
    return ite(ge(a, num(0, a.sort)), a, tm.neg(a))
b_fabs = b_labs = b_llabs = b_abs
def b_sqrt(self, st, fr, args, n):
    a = self.ev(st, fr, args[0])
    return tm.app("sqrt", [self.to_real(a)], "R")
def b_pow(self, st, fr, args, n):
    a, b = _vals(self, st, fr, args)
    return tm.app("pow", [self.to_real(a), self.to_real(b)], "R")
def b_conj(self, st, fr, args, n): return self.ev(st, fr, args[0])
b_real = b_conj
def b_isnan(self, st, fr, args, n): return FALSE
def b_infinity(self, st, fr, args, n): return var("+inf", "R")
def b_epsilon(self, st, fr, args, n): return num(tm.Fraction(2.220446049250313e-16), "R")

# --- <iterator>
def b_distance(self, st, fr, args, n):
    a, b = _vals(self, st, fr, args)
    return self.ptrop(st, "-", b, a)
def b_advance(self, st, fr, args, n):
    l = self.lv(st, fr, args[0]); d = self.as_int(self.ev(st, fr, args[1]))
    self.assign(st, l, self.ptrop(st, "+", self.load(st, l), d)); return _X().VOID
def b_next(self, st, fr, args, n):
    p = self.ev(st, fr, args[0]); d = num(1)
    if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr": d = self.as_int(self.ev(st, fr, args[1]))
    return self.ptrop(st, "+", p, d)
def b_prev(self, st, fr, args, n):
    p = self.ev(st, fr, args[0]); d = num(1)
    if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr": d = self.as_int(self.ev(st, fr, args[1]))
    return self.ptrop(st, "-", p, d)
def _cont(self, st, fr, a):
    X = _X()
    l = self.lv(st, fr, a)
    v = self.read(st, l)
    if not isinstance(v, X.Vec): raise X.Unsupported("container %r" % (v,))
    return l, v
def b_begin(self, st, fr, args, n):
    l, v = _cont(self, st, fr, args[0]); return _X().Ptr(l, num(0))
def b_end(self, st, fr, args, n):
    l, v = _cont(self, st, fr, args[0]); return _X().Ptr(l, v.n)
b_cbegin, b_cend = b_begin, b_end
def b_size(self, st, fr, args, n):
    l, v = _cont(self, st, fr, args[0]); return v.n
def b_data(self, st, fr, args, n): return b_begin(self, st, fr, args, n)

# --- execution-policy wrappers: first argument std::execution::par
def _strip_policy(self, args):
    a = args[0]
    t = a.get("type", {}).get("qualType", "")
    if "execution" in t: return args[1:]
    return args

# --- <algorithm>
def b_copy(self, st, fr, args, n):
    X = _X()
    b, e, d = _vals(self, st, fr, args)[:3]
    base, lo, hi = ptr_range(self, st, b, e)
    return copy_to(self, st, base, lo, hi, d, "std::copy")
def copy_to(self, st, base, lo, hi, d, what):
    X = _X()
    oblige_range(self, st, base, lo, hi, what)
    if isinstance(d, X.Clo) or d.base is None: raise X.Unsupported("copy destination")
    ln = sub(hi, lo)
    if d.off is None: raise X.Unsupported("copy to object")
    src = self.read(st, base)
    oblige_range(self, st, d.base, d.off, add(d.off, ln), what + " destination")
    map_write(self, st, d.base, d.off, add(d.off, ln), lambda j: self.vec_read(st, src, add(lo, sub(j, d.off))))
    return X.Ptr(d.base, add(d.off, ln))
def b_copy_n(self, st, fr, args, n):
    b = self.ev(st, fr, args[0]); k = self.as_int(self.ev(st, fr, args[1])); d = self.ev(st, fr, args[2])
    k2 = ite(ge(k, num(0)), k, num(0)) if not self.known(st, ge(k, num(0))) else k
    return copy_to(self, st, b.base, b.off, add(b.off, k2), d, "std::copy_n")
def b_memcpy(self, st, fr, args, n): raise _X().Unsupported("memcpy")
def b_fill_n(self, st, fr, args, n):
    X = _X()
    p, k, v = _vals(self, st, fr, args)
    k = self.as_int(k)
    if not self.known(st, ge(k, num(0))): k = ite(ge(k, num(0)), k, num(0))
    oblige_range(self, st, p.base, p.off, add(p.off, k), "std::fill_n")
    map_write(self, st, p.base, p.off, add(p.off, k), lambda j: v)
    return X.Ptr(p.base, add(p.off, k))
def b_fill(self, st, fr, args, n):
    b, e, v = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, b, e)
    oblige_range(self, st, base, lo, hi, "std::fill")
    map_write(self, st, base, lo, hi, lambda j: v)
    return _X().VOID
def b_iota(self, st, fr, args, n):
    b, e, v = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, b, e)
    map_write(self, st, base, lo, hi, lambda j: add(v, sub(j, lo) if v.sort == "I" else tm.toreal(sub(j, lo))))
    return _X().VOID
def b_transform(self, st, fr, args, n):
    X = _X()
    args = _strip_policy(self, args)
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1])
    src = self.read(st, base)
    if len(vs) == 4:
        d, f = vs[2], vs[3]
        fn = lambda j: call_pred(self, st, fr, f, [self.vec_read(st, src, add(lo, sub(j, d.off)))])
    else:
        b2, d, f = vs[2], vs[3], vs[4]
        src2 = self.read(st, b2.base)
        fn = lambda j: call_pred(self, st, fr, f, [self.vec_read(st, src, add(lo, sub(j, d.off))), self.vec_read(st, src2, add(b2.off, sub(j, d.off)))])
    ln = sub(hi, lo)
    oblige_range(self, st, d.base, d.off, add(d.off, ln), "std::transform destination")
    map_write(self, st, d.base, d.off, add(d.off, ln), fn)
    return X.Ptr(d.base, add(d.off, ln))
def pred_at(self, st, fr, base, f):
    src = self.read(st, base)
    return lambda t: self.as_bool(call_pred(self, st, fr, f, [self.vec_read(st, src, t)]))
def b_count_if(self, st, fr, args, n):
    b, e, f = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, b, e)
    oblige_range(self, st, base, lo, hi, "std::count_if")
    t = fresh("t", "I")
    r = sum_(t, lo, hi, ite(pred_at(self, st, fr, base, f)(t), num(1), num(0)))
    return self.note_sum(st, r)
def b_count(self, st, fr, args, n):
    b, e, v = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, b, e)
    src = self.read(st, base); t = fresh("t", "I")
    return sum_(t, lo, hi, ite(eq(self.vec_read(st, src, t), v), num(1), num(0)))
def b_accumulate(self, st, fr, args, n):
    X = _X()
    vs = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, vs[0], vs[1])
    oblige_range(self, st, base, lo, hi, "std::accumulate")
    init = vs[2]; src = self.read(st, base); t = fresh("t", "I")
    x = self.vec_read(st, src, t)
    if len(vs) == 3:
        if init.sort == "R": x = tm.toreal(x)
        if init.sort == "I" and len(args) >= 3: u_ = fresh("u", "I"); sum_type(self, st, _strip_policy(self, args)[2], src, "std::accumulate", lambda ty: forall([u_], implies(and_(le(lo, u_), le(u_, hi)), and_(ge(add(init, sum_(t, lo, u_, x)), num(-2 ** (ty[1] - 1) if ty[2] else 0)), lt(add(init, sum_(t, lo, u_, x)), num(2 ** (ty[1] - 1 if ty[2] else ty[1])))))))
        return self.note_sum(st, add(init, sum_(t, lo, hi, x)))
    acc = fresh("acc", init.sort)
    r = call_pred(self, st, fr, vs[3], [acc, x])
    d = sub(r, acc)
    if acc in tm.fv(d): raise X.Unsupported("accumulate with general operation")
    return add(init, sum_(t, lo, hi, d))
b_reduce = b_accumulate
def b_inner_product(self, st, fr, args, n):
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1])
    s1 = self.read(st, base); s2 = self.read(st, vs[2].base); t = fresh("t", "I")
    return add(vs[3], sum_(t, lo, hi, mul(self.vec_read(st, s1, t), self.vec_read(st, s2, add(vs[2].off, sub(t, lo))))))
def near(self, st, src, q):
    """mention the elements next to a point (helps quantifier instantiation; trivially true)"""
    X = _X()
    if src.view is None:
        for x in (q, sub(q, num(1))):
            for l in X.leaves(self.vec_read(st, src, x)):
                if isinstance(l, T) and l.sort in ("I", "R"): yield eq(tm.app("touch" + l.sort, [l], "I"), num(0))
def point(self, st, base, r, lo, hi, fs):
    """add the facts about the point r, or replace it by a closed form suggested by the contract (used only when proved)"""
    X = _X(); src = self.read(st, base)
    fs = list(fs) + list(near(self, st, src, r))
    if not self.dry:
        for g in getattr(self, "point_hints", ()):
            for c in g(lo, hi):
                s2 = st.copy()
                for f in fs: s2.fact(f)
                for f in near(self, st, src, c): s2.fact(f)
                if self.known(s2, eq(r, c), 1000):
                    st.fact(and_(le(lo, c), le(c, hi)))
                    return X.Ptr(base, c)
    for f in fs: st.fact(f)
    return X.Ptr(base, r)
def find_gen(self, st, base, lo, hi, P, what):
    oblige_range(self, st, base, lo, hi, what)
    r = fresh("found", "I"); t = fresh("t", "I")
    return point(self, st, base, r, lo, hi, [and_(le(lo, r), le(r, hi)), forall([t], implies(rng(lo, t, r), not_(P(t)))), implies(lt(r, hi), P(r))])
def b_find_if(self, st, fr, args, n):
    b, e, f = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, b, e)
    return find_gen(self, st, base, lo, hi, pred_at(self, st, fr, base, f), "std::find_if")
def b_find(self, st, fr, args, n):
    b, e, v = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, b, e)
    src = self.read(st, base)
    return find_gen(self, st, base, lo, hi, lambda t: eq(self.vec_read(st, src, t), v), "std::find")
def b_partition_point(self, st, fr, args, n):
    X = _X()
    b, e, f = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, b, e)
    P = pred_at(self, st, fr, base, f)
    return part_point(self, st, base, lo, hi, P, "std::partition_point")
def part_point(self, st, base, lo, hi, P, what):
    X = _X()
    oblige_range(self, st, base, lo, hi, what)
    t = fresh("t", "I"); u = fresh("u", "I")
    self.oblige(st, what + ": range is partitioned by the predicate",
                forall([t, u], implies(and_(le(lo, t), lt(t, u), lt(u, hi), P(u)), P(t))), kind="pre")
    r = fresh("pp", "I")
    return point(self, st, base, r, lo, hi, [and_(le(lo, r), le(r, hi)), forall([t], implies(rng(lo, t, r), P(t))), forall([t], implies(rng(r, t, hi), not_(P(t))))])
def b_lower_bound(self, st, fr, args, n):
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1]); src = self.read(st, base); v = vs[2]
    if len(vs) == 3: P = lambda t: self.less(st, self.vec_read(st, src, t), v)
    else: P = lambda t: self.as_bool(call_pred(self, st, fr, vs[3], [self.vec_read(st, src, t), v]))
    return part_point(self, st, base, lo, hi, P, "std::lower_bound")
def b_upper_bound(self, st, fr, args, n):
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1]); src = self.read(st, base); v = vs[2]
    if len(vs) == 3: P = lambda t: not_(self.less(st, v, self.vec_read(st, src, t)))
    else: P = lambda t: not_(self.as_bool(call_pred(self, st, fr, vs[3], [v, self.vec_read(st, src, t)])))
    return part_point(self, st, base, lo, hi, P, "std::upper_bound")
def _simp_under(self, st, hyps, t):
    """resolve the conversions (conditional terms) of t that are settled by the hypotheses"""
    import smt
    for _ in range(6):
        m = {}
        for x in tm.walk(t):
            if x.op != "ite": continue
            c = x.args[0]
            if c in m or any(y.op == "var" and str(y.args[0])[0] == "#" for y in tm.walk(c)): continue
            hy = st.facts() + self.axioms + hyps
            if smt.prove(hy, c, 300).status == "proved": m[c] = TRUE
            elif smt.prove(hy, not_(c), 300).status == "proved": m[c] = FALSE
        if not m: return t
        t = tm.replace(t, m)
    return t
def _decide_all(self, st, lo, hi, P):
    """truth value of: P holds on [lo, hi); outside closed-form loop bodies it is named, so that a failing element can be named too"""
    t = fresh("t", "I"); P0 = P
    def P(x): return _simp_under(self, st, [rng(lo, x, hi)], P0(x))
    f = forall([t], implies(rng(lo, t, hi), P(t)))
    if self.in_summ or f in (TRUE, FALSE): return f
    b, w = fresh("all", "B"), fresh("witness", "I")
    st.fact(implies(b, f)); st.fact(or_(b, and_(rng(lo, w, hi), not_(P(w)))))
    return b
def b_all_of(self, st, fr, args, n):
    b, e, f = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, b, e); P = pred_at(self, st, fr, base, f)
    return _decide_all(self, st, lo, hi, P)
def b_any_of(self, st, fr, args, n):
    b, e, f = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, b, e); P = pred_at(self, st, fr, base, f)
    return not_(_decide_all(self, st, lo, hi, lambda t: not_(P(t))))
def b_none_of(self, st, fr, args, n): return not_(b_any_of(self, st, fr, args, n))
def b_is_sorted(self, st, fr, args, n):
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1]); src = self.read(st, base); t = fresh("t", "I")
    x, y = self.vec_read(st, src, t), self.vec_read(st, src, add(t, num(1)))
    c = self.less(st, y, x) if len(vs) == 2 else self.as_bool(call_pred(self, st, fr, vs[2], [y, x]))
    return forall([t], implies(and_(le(lo, t), lt(add(t, num(1)), hi)), not_(c)))
_permc = [0]
def permute_fact(self, st, base, lo, hi, tag="perm"):
    """elements [lo,hi) := some permutation of themselves; returns (old tree, new tree, pi)"""
    X = _X()
    v = self.read(st, base)
    _permc[0] += 1
    f, g = "%s!%d" % (tag, _permc[0]), "%sinv!%d" % (tag, _permc[0])
    t = fresh("t", "I")
    pi = lambda x: tm.app(f, [x], "I"); pinv = lambda x: tm.app(g, [x], "I")
    self.last_perm = (pi, pinv)
    st.fact(forall([t], implies(rng(lo, t, hi), and_(rng(lo, pi(t), hi), eq(pinv(pi(t)), t))), ((pi(t),),)))
    st.fact(forall([t], implies(rng(lo, t, hi), and_(rng(lo, pinv(t), hi), eq(pi(pinv(t)), t))), ((pinv(t),),)))
    # new contents
    names = list(self.sorted_leaves) if self.sorted_leaves and not self.dry else None
    if names: self.sorted_leaves = None
    def freshleaf(a):
        if names:
            x = names.pop(0)
            if x.sort == a.sort: return x
        return fresh(tag + "ed", a.sort)
    ne_ = X.tmap(freshleaf, v.e)
    def leaf(a, o):
        st.fact(forall([t], implies(rng(lo, t, hi), eq(select(a, t), select(o, pi(t)))), ((select(a, t),),)))
        st.fact(forall([t], implies(not_(rng(lo, t, hi)), eq(select(a, t), select(o, t))), ((select(a, t),),)))
        return a
    X.tmap2(leaf, ne_, v.e)
    old = v.e
    vwrite(self, st, base, ne_)
    return old, ne_, pi, pinv
def _prove_cases(hy, alts, to=6000):
    """one of the alternative goals follows, or: under one quantifier-free condition the hypotheses branch on, some alternative follows in each case"""
    import smt, term
    t = 0.0
    def any_(hy, to):
        nonlocal t
        for gs in alts:
            ok = True; got = []
            for g in gs:
                r = smt.prove(hy + got, g, to); t += r.time
                if r.status != "proved": ok = False; break
                got.append(g)
            if ok: return True
        return False
    if any_(hy, to // 6): return True, t
    conds = []
    for h in reversed(hy):
        for x in term.walk(h):
            if x.op == "ite" and not any(y.op == "var" and str(y.args[0])[0] == "#" for y in term.walk(x.args[0])) and x.args[0] not in conds: conds.append(x.args[0])
    for c in conds[:3]:
        if all(any_([term.replace(h, {c: v}) for h in hy] + [cc], to) for v, cc in ((TRUE, c), (FALSE, not_(c)))): return True, t
    return False, t
def b_sort(self, st, fr, args, n):
    X = _X()
    vs = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, vs[0], vs[1])
    oblige_range(self, st, base, lo, hi, "std::sort")
    comp = (lambda x, y: self.less(st, x, y)) if len(vs) == 2 else (lambda x, y: self.as_bool(call_pred(self, st, fr, vs[2], [x, y])))
    if not self.dry and self.check_orders:
        v0 = self.read(st, base); a, b, c = (fresh(x, "I") for x in "abc"); ab, bc, ac, ba, cb, ca = (comp(X.t_select(v0.e, x), X.t_select(v0.e, y)) for x, y in ((a, b), (b, c), (a, c), (b, a), (c, b), (c, a)))
        inr = and_(*[rng(lo, x, hi) for x in (a, b, c)])
        self.oblige(st, "std::sort: the comparator is irreflexive and transitive", implies(inr, and_(not_(comp(X.t_select(v0.e, a), X.t_select(v0.e, a))), implies(and_(ab, bc), ac))), kind="pre")
        self.oblige(st, "std::sort: incomparability is transitive", implies(and_(inr, not_(ab), not_(ba), not_(bc), not_(cb)), and_(not_(ac), not_(ca))), kind="pre")
    old, new, pi, pinv = permute_fact(self, st, base, lo, hi, "sort")
    t = fresh("t", "I"); u = fresh("u", "I")
    c = _simp_under(self, st, [le(lo, t), lt(t, u), lt(u, hi)], comp(X.t_select(new, u), X.t_select(new, t)))
    pats = []
    lt_ = next(X.leaves(new))
    st.fact(forall([t, u], implies(and_(le(lo, t), lt(t, u), lt(u, hi)), not_(c)), ((select(lt_, t), select(lt_, u)),)))
    for h in self.perm_hooks: h(self, st, base, old, new, lo, hi)
    # closed forms of the sorted contents suggested by the contract, accepted only when proved (strong induction on the position)
    if not self.dry:
        leaf = next(X.leaves(new))
        for g in self.sort_hints:
            for H in g(st, lo, hi):
                # H: G(j) suggested contents, inverses: candidate inverses of the old contents, values in [vlo, vhi)
                hy0 = st.facts() + self.axioms; tt = 0.0
                v, z, k, j = fresh("v", "I"), fresh("z", "I"), fresh("k", "I"), fresh("j", "I")
                pos = _fn("sortpos"); G = H["G"]
                hy = hy0 + [rng(H["vlo"], v, H["vhi"]), rng(lo, z, hi)]
                alts = []
                for oi in H["inverses"]:
                    p = lambda x, oi=oi: pinv(oi(x))
                    alts.append([and_(rng(lo, p(v), hi), eq(select(leaf, p(v)), v)), rng(H["vlo"], select(leaf, z), H["vhi"]), eq(p(select(leaf, z)), z)])
                good, t_ = _prove_cases(hy, alts); tt += t_
                if not good: continue
                ax = [forall([v], implies(rng(H["vlo"], v, H["vhi"]), and_(rng(lo, pos(v), hi), eq(select(leaf, pos(v)), v))), [[pos(v)]]),
                      forall([z], implies(rng(lo, z, hi), and_(rng(H["vlo"], select(leaf, z), H["vhi"]), eq(pos(select(leaf, z)), z))), [[select(leaf, z)]])]
                hy = hy0 + ax + [rng(lo, k, hi), forall([j], implies(and_(le(lo, j), lt(j, k)), eq(select(leaf, j), G(j))), [[select(leaf, j)], [G(j)]])] + H["touch"](k, leaf, pos)
                good, t_ = _prove_cases(hy, [H["steps"](k, leaf, pos) + [eq(select(leaf, k), G(k))]]); tt += t_
                if not good: continue
                for f in ax + [forall([j], implies(rng(lo, j, hi), eq(select(leaf, j), G(j))), [[select(leaf, j)]])]: st.fact(f)
                if not self.quiet:
                    o = X.Oblig(); o.name = "the sorted contents are the suggested enumeration (induction on the position)"; o.fn = self.cur; o.kind = "lemma"; o.hyps = hy0; o.goal = TRUE
                    o.status, o.time, o.backend, o.info = "proved", tt, "z3", ""
                    self.obls.append(o)
                return X.VOID
    return X.VOID
def b_stable_sort(self, st, fr, args, n): return b_sort(self, st, fr, args, n)
def b_pdqsort_branchless(self, st, fr, args, n): return b_sort(self, st, fr, args, n)
def b_pdqsort(self, st, fr, args, n): return b_sort(self, st, fr, args, n)
def b_unique(self, st, fr, args, n):
    """std::unique: keeps the first element of every run of equal neighbours, in order; what lies behind the kept elements is unspecified"""
    X = _X(); vs = _vals(self, st, fr, _strip_policy(self, args)); base, lo, hi = ptr_range(self, st, vs[0], vs[1])
    oblige_range(self, st, base, lo, hi, "std::unique")
    v = self.read(st, base); at = lambda i: X.t_select(v.e, i)
    same = (lambda x, y: not_(self.differs(st, x, y))) if len(vs) == 2 else (lambda x, y: self.as_bool(call_pred(self, st, fr, vs[2], [x, y])))
    i, a, b, c = (fresh(x, "I") for x in "iabc")
    if not self.dry:
        self.oblige(st, "std::unique: the predicate is an equivalence on the elements", implies(and_(rng(lo, a, hi), rng(lo, b, hi), rng(lo, c, hi)), and_(same(at(a), at(a)), implies(same(at(a), at(b)), same(at(b), at(a))), implies(and_(same(at(a), at(b)), same(at(b), at(c))), same(at(a), at(c))))), kind="pre")
    H, rank = _fn("uniqpos"), _fn("uniqrank"); m = fresh("nuniq", "I"); kept = lambda i: or_(eq(i, lo), not_(same(at(sub(i, num(1))), at(i))))
    st.fact(and_(ge(m, num(0)), le(m, sub(hi, lo))))
    st.fact(forall([a], implies(rng(num(0), a, m), and_(rng(lo, H(a), hi), ge(H(a), add(lo, a)), kept(H(a)), eq(rank(H(a)), a))), ((H(a),),)))
    st.fact(forall([i], implies(and_(rng(lo, i, hi), kept(i)), and_(rng(num(0), rank(i), m), eq(H(rank(i)), i))), ((rank(i),),)))
    st.fact(forall([a, b], implies(and_(le(num(0), a), lt(a, b), lt(b, m)), lt(H(a), H(b))), ((H(a), H(b)),)))
    new = X.tmap(lambda x: fresh("uniq", x.sort), v.e)
    def leaf(x, o):
        st.fact(forall([a], implies(rng(num(0), a, m), eq(select(x, add(lo, a)), select(o, H(a)))), ((select(x, add(lo, a)),),)))
        st.fact(forall([a], implies(not_(rng(lo, a, hi)), eq(select(x, a), select(o, a))), ((select(x, a),),)))
        return x
    X.tmap2(leaf, new, v.e); vwrite(self, st, base, new)
    self.last_unique = (m, H, rank)
    return X.Ptr(base, add(lo, m))
def b_partition(self, st, fr, args, n):
    """std::partition: a rearrangement of the range, elements that satisfy the predicate first"""
    X = _X(); vs = _vals(self, st, fr, _strip_policy(self, args)); base, lo, hi = ptr_range(self, st, vs[0], vs[1]); oblige_range(self, st, base, lo, hi, "std::partition")
    old, new, pi, pinv = permute_fact(self, st, base, lo, hi, "partition"); m, t = fresh("parted", "I"), fresh("t", "I"); self.last_mid = m
    P = self.as_bool(call_pred(self, st, fr, vs[2], [X.t_select(new, t)])); l = select(next(X.leaves(new)), t)
    st.fact(and_(le(lo, m), le(m, hi))); st.fact(forall([t], implies(rng(lo, t, m), P), ((l,),))); st.fact(forall([t], implies(rng(m, t, hi), not_(P)), ((l,),)))
    for h in self.perm_hooks: h(self, st, base, old, new, lo, hi)
    return X.Ptr(base, m)
b_stable_partition = b_partition
def b_nth_element(self, st, fr, args, n):
    """std::nth_element: a rearrangement of the range; nothing from nth on precedes an element before it"""
    X = _X(); vs = _vals(self, st, fr, _strip_policy(self, args)); base, lo, nth = ptr_range(self, st, vs[0], vs[1]); _, _, hi = ptr_range(self, st, vs[1], vs[2]); oblige_range(self, st, base, lo, hi, "std::nth_element")
    if not self.dry and not self.quiet: self.oblige(st, "std::nth_element: position inside the range", and_(le(lo, nth), le(nth, hi)), kind="pre")
    old, new, pi, pinv = permute_fact(self, st, base, lo, hi, "nth"); t, u = fresh("t", "I"), fresh("u", "I"); x, y = X.t_select(new, t), X.t_select(new, u)
    c = self.less(st, y, x) if len(vs) == 3 else self.as_bool(call_pred(self, st, fr, vs[3], [y, x]))
    st.fact(forall([t, u], implies(and_(le(lo, t), le(t, nth), le(nth, u), lt(u, hi)), not_(c)), ((select(next(X.leaves(new)), t), select(next(X.leaves(new)), u)),)))
    self.perm_mid = nth
    for h in self.perm_hooks: h(self, st, base, old, new, lo, hi)
    self.perm_mid = None
    return X.VOID
def b_prev_permutation(self, st, fr, args, n):
    """std::prev_permutation of a whole vector: the enumeration it walks is given (and named as an assumption) by the contract"""
    X = _X(); vs = _vals(self, st, fr, args)
    if getattr(self, "permutations", None) is None or len(vs) != 2: raise X.Unsupported("prev_permutation")
    base, lo, hi = ptr_range(self, st, vs[0], vs[1])
    return self.permutations(self, st, base, lo, hi)
def b_for_each(self, st, fr, args, n): raise _X().Unsupported("for_each")
def b_reverse(self, st, fr, args, n):
    b, e = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, b, e); src = self.read(st, base)
    map_write(self, st, base, lo, hi, lambda j: self.vec_read(st, src, sub(add(lo, hi), add(j, num(1)))))
    return _X().VOID
def sum_type(self, st, arg, src, what, partial):
    """the running sum has the type of the initial value: its values fit that type where the elements are wider"""
    X = _X()
    if self.dry or self.quiet: return
    t = ct.parse(X.ty_of(arg)); t = t[1] if t[0] == "ref" else t; e = getattr(src, "ty", None)
    if t[0] == "int" and e and e[0] == "int" and e[1] > t[1]: self.oblige(st, what + ": sums fit the type of the initial value", partial(t), kind="pre")
def prefix_form(self, st, lo, hi, body):
    """a function of the contract whose differences are the elements on [lo, hi): its differences are the running sums"""
    k = fresh("k", "I")
    if self.dry: return None
    for F in self.sum_hints:
        if F(k).sort != "I": continue
        hy = st.facts() + self.axioms; r = _smt().prove(hy + [le(lo, k), lt(k, hi)], eq(F(add(k, num(1))), add(F(k), body(k))), 2500)
        if r.status != "proved": continue
        o = _X().Oblig(); o.name = "closed form of running sums (induction on the bound)"; o.fn = self.cur; o.kind = "lemma"; o.hyps = hy; o.goal = TRUE; o.status, o.time, o.backend, o.info = "proved", r.time, r.backend, ""
        if not self.quiet: self.obls.append(o)
        return F
    return None
def _smt():
    import smt
    return smt
def b_exclusive_scan(self, st, fr, args, n):
    X = _X()
    vs = _vals(self, st, fr, _strip_policy(self, args))
    base, lo, hi = ptr_range(self, st, vs[0], vs[1]); d = vs[2]; init = vs[3]
    src = self.read(st, base)
    t = fresh("t", "I"); j_ = fresh("j", "I")
    F = prefix_form(self, st, lo, hi, lambda k: self.vec_read(st, src, k)); S = (lambda j: sub(F(j), F(lo))) if F else (lambda j: sum_(t, lo, j, self.vec_read(st, src, t)))
    sum_type(self, st, _strip_policy(self, args)[3], src, "std::exclusive_scan", lambda ty: forall([j_], implies(rng(lo, j_, hi), and_(ge(add(init, S(j_)), num(-2 ** (ty[1] - 1) if ty[2] else 0)), lt(add(init, S(j_)), num(2 ** (ty[1] - 1 if ty[2] else ty[1])))))))
    def fn(j): return add(init, S(add(lo, sub(j, d.off))))
    map_write(self, st, d.base, d.off, add(d.off, sub(hi, lo)), fn)
    return X.Ptr(d.base, add(d.off, sub(hi, lo)))
def b_partial_sum(self, st, fr, args, n):
    X = _X()
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1]); d = vs[2]
    src = self.read(st, base); t = fresh("t", "I")
    def fn(j): return sum_(t, lo, add(lo, add(sub(j, d.off), num(1))), self.vec_read(st, src, t))
    map_write(self, st, d.base, d.off, add(d.off, sub(hi, lo)), fn)
    return X.Ptr(d.base, add(d.off, sub(hi, lo)))
b_inclusive_scan = b_partial_sum
def b_max_element(self, st, fr, args, n):
    X = _X()
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1]); src = self.read(st, base)
    r = fresh("maxel", "I"); t = fresh("t", "I")
    st.fact(and_(le(lo, r), le(r, hi))); st.fact(implies(lt(lo, hi), lt(r, hi)))
    x = self.vec_read(st, src, t); m = self.vec_read(st, src, r)
    c = self.less(st, m, x) if len(vs) == 2 else self.as_bool(call_pred(self, st, fr, vs[2], [m, x]))
    st.fact(forall([t], implies(rng(lo, t, hi), not_(c))))
    self.last_max = r
    return X.Ptr(base, r)
def b_min_element(self, st, fr, args, n):
    """the first smallest element"""
    X = _X()
    vs = _vals(self, st, fr, args)
    base, lo, hi = ptr_range(self, st, vs[0], vs[1]); src = self.read(st, base)
    r = fresh("minel", "I"); t = fresh("t", "I")
    st.fact(and_(le(lo, r), le(r, hi))); st.fact(implies(lt(lo, hi), lt(r, hi)))
    x = self.vec_read(st, src, t); m = self.vec_read(st, src, r)
    cmp = lambda a, b: self.less(st, a, b) if len(vs) == 2 else self.as_bool(call_pred(self, st, fr, vs[2], [a, b]))
    st.fact(forall([t], implies(rng(lo, t, hi), not_(cmp(x, m))))); st.fact(forall([t], implies(rng(lo, t, r), cmp(m, x))))
    return X.Ptr(base, r)
def b_omp_get_max_threads(self, st, fr, args, n): return num(1)
def b_omp_get_thread_num(self, st, fr, args, n): return num(0)
def b_runtime_error(self, st, fr, args, n): return _X().Opaque("exc")
def b_printf(self, st, fr, args, n): return num(0)
def b_flush(self, st, fr, args, n): return _X().VOID
def b___assert_fail(self, st, fr, args, n): return _X().VOID
def b_back_inserter(self, st, fr, args, n): return _X().Opaque("back_inserter", self.lv(st, fr, args[0]))
def b_now(self, st, fr, args, n): return _X().Opaque("time")

# ------------------------------------------------------------------ methods
def builtin_method(self, st, fr, name, base, args, n):
    X = _X()
    if isinstance(base, X.BitRef):
        b = self.load(st, base)
        if name == "flip": self.assign(st, base, not_(b)); return b
        return b
    v = self.read(st, base) if isinstance(base, X.Loc) else base
    if isinstance(v, X.Vec) and "std::set<" in X.ty_of(X.rx(self.callee(n))[0]) and name not in ("begin", "end", "cbegin", "cend", "size", "empty", "clear", "swap", "operator="):
        USED.add("std::set::" + name)
        return set_method(self, st, fr, name, base, v, args)
    if isinstance(v, X.Vec): 
        USED.add("std::vector::" + name)
        return vec_method(self, st, fr, name, base, v, args, n)
    if isinstance(v, T) and v.sort == "B" and "operator bool" in name: return v
    if isinstance(v, T) and isinstance(v.sort, tuple):
        USED.add("std::bitset::" + name)
        return bitset_method(self, st, fr, name, base, v, args, _bw(X.rx(self.callee(n))[0]) if v.sort[0] == "A" else v.sort[1])
    if isinstance(v, X.Obj) and v.ty == "opt":
        if name == "has_value" or name.startswith("operator bool"): return v.f["has"]
        if name == "value": return base.f("val")
        if name == "value_or": return self.merge_val(v.f["has"], v.f["val"], self.ev(st, fr, args[0]))
    if isinstance(v, X.Obj) and name == "operator=":
        return assign_val(self, st, fr, base, args[0])
    if isinstance(v, X.Ptr):
        if name in ("get", "base"): return v
        if name == "operator bool": return not_(v.null)
        if name == "reset": self.write(st, base, X.Ptr(None, None, TRUE)); return X.VOID
    if isinstance(v, X.Opaque) and str(v.ty).startswith("fstream."):
        h = self.externs.get(v.ty + "." + ("bool" if name.startswith("operator bool") else name))
        if h is None: raise X.Unsupported("file stream operation " + name)
        return h(self, st, fr, args, n)
    if isinstance(v, X.Opaque):
        if "logger" in str(v.ty) and name == "operator bool": return fresh("logger", "B")
        if "logger" in str(v.ty):
            for a in args:
                if changes(a): self.ev(st, fr, a)
        if isinstance(v.ty, str) and ("ostream" in v.ty or "logger" in v.ty or "chrono" in v.ty): return X.VOID
    raise X.Unsupported("method %s of %r" % (name, type(v).__name__))

def changes(a):
    """does an expression change a variable?"""
    if a.get("kind") == "UnaryOperator" and a.get("opcode") in ("++", "--") or a.get("kind") == "CompoundAssignOperator" or a.get("kind") == "BinaryOperator" and a.get("opcode") == "=": return True
    return any(changes(c) for c in a.get("inner", []) if isinstance(c, dict))
def set_facts(f, n, a, lo, hi):
    """the distinct elements of a[lo, hi) in ascending order; f(k): the k-th, n: how many"""
    k, u, t = (fresh(x, "I") for x in "kut"); w, pos = (lambda k: tm.app("setfrom", [a, lo, hi, k], "I")), (lambda t: tm.app("setpos", [a, lo, hi, t], "I"))
    return [le(num(0), n), le(n, ite(le(lo, hi), sub(hi, lo), num(0))), forall([k, u], implies(and_(le(num(0), k), lt(k, u), lt(u, n)), lt(f(k), f(u))), [[f(k), f(u)]]),
            forall([k], implies(rng(num(0), k, n), and_(rng(lo, w(k), hi), eq(f(k), select(a, w(k))))), [[f(k)]]),
            forall([t], implies(rng(lo, t, hi), and_(rng(num(0), pos(t), n), eq(f(pos(t)), select(a, t)))), [[select(a, t)]])]
def set_method(self, st, fr, name, base, v, args):
    X = _X()
    if name == "insert" and len(args) == 2:
        vs = _vals(self, st, fr, args)
        if v.n is not num(0): raise X.Unsupported("insertion of a range into a set that may hold elements")
        sb, lo, hi = ptr_range(self, st, vs[0], vs[1]); src = self.read(st, sb)
        if not isinstance(src.e, T) or src.e.sort != tm.asort("I"): raise X.Unsupported("set of %r" % (src.e,))
        a = src.e; k = fresh("k", "I"); f = lambda k: tm.app("setlist", [a, lo, hi, k], "I"); n = tm.app("setcount", [a, lo, hi], "I")
        for g in set_facts(f, n, a, lo, hi): st.fact(g)
        self.write(st, base, X.Vec(n, lam(k, f(k)), v.ty)); return X.VOID
    raise X.Unsupported("set::" + name)
def assign_val(self, st, fr, base, a):
    X = _X()
    v = self.ev(st, fr, a)
    cur = self.read(st, base)
    if isinstance(cur, X.Obj) and cur.ty == "tuple" and isinstance(v, X.Obj):
        for k in cur.f:
            x = v.f[k]
            x = self.load(st, x) if isinstance(x, X.Loc) else x
            if isinstance(cur.f[k], X.Loc): self.assign(st, cur.f[k], x)
            else: self.write(st, base.f(k), x)
        return base
    if isinstance(v, X.Vec) and isinstance(cur, X.Vec): v = X.Vec(v.n, v.e, cur.ty, v.view)
    self.write(st, base, v)
    if moved(a): self.moved_from(st, fr, a, v)
    return base
def moved(a):
    while a.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"): a = a["inner"][0]
    if a.get("kind") == "CallExpr":
        c = a["inner"][0]
        while c.get("kind") == "ImplicitCastExpr": c = c["inner"][0]
        return c.get("referencedDecl", {}).get("name") == "move"
    return False

def vec_method(self, st, fr, name, base, v, args, n):
    X = _X()
    if name == "size": return v.n
    if name == "length": return v.n
    if name == "capacity": return v.n
    if name in ("data", "begin", "cbegin"): return X.Ptr(base, num(0))
    if name in ("end", "cend"): return X.Ptr(base, v.n)
    if name == "rbegin": return X.Ptr(base, v.n, FALSE, True)
    if name == "rend": return X.Ptr(base, num(0), FALSE, True)
    if name == "empty": return eq(v.n, num(0))
    if name == "operator[]":
        i = self.as_int(self.ev(st, fr, args[0])); self.bounds(st, base, i); return base.i(i)
    if name == "at":
        i = self.as_int(self.ev(st, fr, args[0]))
        f = and_(ge(i, num(0)), lt(i, v.n))
        if not self.quiet and not self.dry: self.oblige(st, "at(): index in bounds (no exception)", f, kind="bounds")
        return base.i(i)
    if name == "front": self.bounds(st, base, num(0)); return base.i(num(0))
    if name == "back":
        i = sub(v.n, num(1)); self.bounds(st, base, i); return base.i(i)
    if name in ("reserve", "shrink_to_fit"):
        for a in args: self.ev(st, fr, a)
        return X.VOID
    if name == "clear": self.write(st, base, X.Vec(num(0), v.e, v.ty)); return X.VOID
    if name == "resize":
        k = self.as_int(self.ev(st, fr, args[0]))
        fill = self.ev(st, fr, args[1]) if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr" else self.elem0(v.ty); v = self.read(st, base)
        j = fresh("j", "I")
        if self.autoview and k.op != "num" and self.leaf_sort(v.ty) == "R" and (v.view is not None or v.n is not num(0)):
            import blas      # kept elements are forgotten: the new contents are arbitrary, addressed through a view chosen at the first access
            self.write(st, base, blas.autovec(self, X.Vec(k, fresh("resized", tm.asort("R")), v.ty))); return X.VOID
        if self.autoview and k.op != "num" and self.leaf_sort(v.ty) == "R":
            import blas
            self.write(st, base, blas.autovec(self, X.Vec(k, tm.constarr(X._conv(fill, "R")), v.ty))); return X.VOID
        e = X.tmap2(lambda o, x: ite(lt(j, v.n), o, X._conv(x, o.sort)), X.t_select(v.e, j), fill) if v.n is not num(0) else None
        if e is None: ne_ = X.t_const(fill) if not isinstance(fill, T) else tm.constarr(fill if fill.sort == _esort(v) else X._conv(fill, _esort(v)))
        else: ne_ = X.tmap(lambda b: lam(j, b), e)
        self.write(st, base, X.Vec(k, ne_, v.ty)); return X.VOID
    if name == "assign":
        vs = _vals(self, st, fr, args)
        if isinstance(vs[0], X.Ptr):
            src = self.read(st, vs[0].base); j = fresh("j", "I")
            self.write(st, base, X.Vec(sub(vs[1].off, vs[0].off), X.t_lam(j, self.vec_read(st, src, add(vs[0].off, j))), v.ty))
        else: self.write(st, base, X.Vec(self.as_int(vs[0]), X.t_const(self.coerce(st, vs[1], v.ty)), v.ty))
        return X.VOID
    if name in ("push_back", "emplace_back"):
        if len(args) == 1 and (name == "push_back" or not isinstance(self.elem0(v.ty), X.Obj) or self.is_same_class(args[0], v.ty)): x = self.ev(st, fr, args[0])
        elif v.ty[0] == "tuple":
            vs = _vals(self, st, fr, args)
            x = X.Obj("tuple", {str(i): self.coerce(st, a, t) for i, (a, t) in enumerate(zip(vs, v.ty[1]))})
        elif v.ty[0] == "rec":
            x = emplace_rec(self, st, fr, v.ty, args)
        else: x = self.construct(st, fr, v.ty, args, {})
        if isinstance(x, X.Loc): x = self.load(st, x)
        v = self.read(st, base)
        self.write(st, base, X.Vec(add(v.n, num(1)), X.t_store(v.e, v.n, x), v.ty))
        return base.i(v.n)
    if name == "pop_back":
        self.write(st, base, X.Vec(sub(v.n, num(1)), v.e, v.ty)); return X.VOID
    if name == "operator=": return assign_val(self, st, fr, base, args[0])
    if name == "swap":
        o = self.lv(st, fr, args[0]); w = self.read(st, o)
        self.write(st, o, v); self.write(st, base, w); return X.VOID
    if name == "erase":
        vs = _vals(self, st, fr, args)
        v = self.read(st, base); lo = vs[0].off; hi = vs[1].off if len(vs) > 1 else add(lo, num(1))
        oblige_range(self, st, base, lo, hi, "erase")
        j = fresh("j", "I"); d = sub(hi, lo)
        e = X.tmap2(lambda a, b: ite(lt(j, lo), a, b), X.t_select(v.e, j), X.t_select(v.e, add(j, d)))
        self.write(st, base, X.Vec(sub(v.n, d), X.tmap(lambda b: lam(j, b), e), v.ty))
        return X.Ptr(base, lo)
    if name == "insert":
        vs = _vals(self, st, fr, args); v = self.read(st, base)
        if len(vs) == 3 and isinstance(vs[1], X.Ptr):
            p, b, e = vs
            sb, lo, hi = ptr_range(self, st, b, e)
            src = self.read(st, sb); k = sub(hi, lo); j = fresh("j", "I")
            a1 = X.t_select(v.e, j); a2 = self.vec_read(st, src, add(lo, sub(j, p.off))); a3 = X.t_select(v.e, sub(j, k))
            def f3(x, yz): return x
            e2 = X.tmap2(lambda x, y: ite(lt(j, add(p.off, k)), x, y), a2, a3)
            e1 = X.tmap2(lambda x, y: ite(lt(j, p.off), x, y), a1, e2)
            self.write(st, base, X.Vec(add(v.n, k), X.tmap(lambda b: lam(j, b), e1), v.ty))
            return X.Ptr(base, p.off)
    raise X.Unsupported("vector::" + name)
def _esort(v):
    return v.e.sort[1]
def emplace_rec(self, st, fr, ty, args):
    X = _X()
    fs = self.fields(ty[1])
    if fs is None: raise X.Unsupported("emplace of %s" % (ty,))
    # constructor with matching arity, else aggregate
    c = X.canon_rec(ty[1])
    cands = [f for f in self.prog.fns.values() if f.kind == "CXXConstructorDecl" and f.record is not None and X.canon_rec(f.record.get("_qual", "")) == c and len(f.params) == len(args)]
    if cands: return self.run_ctor(st, fr, cands[0], ty, args)
    return self.init_list(st, fr, ty, args)

def popcount(self, b):
    if b.op == "bvc": return num(bin(b.args[0]).count("1"))
    return tm.app("popcnt%d" % b.sort[1], [b], "I")
def _bw(e):
    """width of the bitset-typed expression e"""
    t = ct.parse(_X().ty_of(e))
    while t[0] in ("ref", "ptr"): t = t[1]
    if t[0] != "bitset": raise _X().Unsupported("bitset width of %s" % (t,))
    return t[1]
def bw_op(op, a, b):
    if a.sort[0] == "BV": return tm.bv(op, a, b)
    i = fresh("i", "I"); x, y = select(a, i), select(b, i)
    return lam(i, and_(x, y) if op == "and" else or_(x, y) if op == "or" else ne(x, y))
def bw_not(a, w):
    if a.sort[0] == "BV": return tm.bv("not", a)
    i = fresh("i", "I"); return lam(i, and_(rng(num(0), i, num(w)), not_(select(a, i))))
def bs_eq(a, b):
    if a.sort[0] == "BV" or a is b: return eq(a, b)
    i = fresh("i", "I"); return forall([i], eq(select(a, i), select(b, i)))
def bs_empty(v, w):
    if v.sort[0] == "BV": return eq(v, tm.bvc(0, w))
    i = fresh("i", "I"); return forall([i], implies(rng(num(0), i, num(w)), not_(select(v, i))))
def bs_flip(v, i, w):
    if v.sort[0] == "BV": return tm.bv("xor", v, one(i, w))
    if v.op in ("lam", "const"):
        k = fresh("i", "I"); return lam(k, ne(select(v, k), eq(k, i)))
    return store(v, i, not_(select(v, i)))
def bs_full(v, w):
    if v.sort[0] == "BV": return tm.bvc(-1, w)
    i = fresh("i", "I"); return lam(i, rng(num(0), i, num(w)))
def bitset_method(self, st, fr, name, base, v, args, w):
    X = _X()
    ab = v.sort[0] == "A"
    if name == "count":
        if ab:
            for h in self.count_hooks:
                r = h(self, st, v, w)
                if r is not None: return r
            i = fresh("i", "I"); return sum_(i, num(0), num(w), ite(select(v, i), num(1), num(0)))
        return popcount(self, v)
    if name == "size": return num(w)
    if name == "any": return not_(bs_empty(v, w))
    if name == "none": return bs_empty(v, w)
    if name == "all": return bs_empty(bw_not(v, w), w)
    if name in ("to_ulong", "to_ullong"):
        if ab: raise X.Unsupported("integer value of an abstract bitset")
        if w > 64:
            self.oblige(st, "bitset::%s does not overflow" % name, eq(tm.bvext(v, w - 1, 64), tm.bvc(0, w - 64)), kind="pre")
            return tm.bvext(v, 63, 0)
        return tm.bvzext(v, 64)
    if name == "flip":
        if not args: nv = bw_not(v, w)
        else: nv = bs_flip(v, self.bitidx(st, self.ev(st, fr, args[0]), w, name), w)
        self.write(st, base, nv); return base
    if name == "set":
        if not args: nv = bs_full(v, w)
        else:
            i = self.bitidx(st, self.ev(st, fr, args[0]), w, name)
            b = TRUE
            if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr": b = self.as_bool(self.ev(st, fr, args[1]))
            nv = bit_set(self, st, v, i, b)
        self.write(st, base, nv); return base
    if name == "reset":
        if not args: nv = tm.constarr(FALSE) if ab else tm.bvc(0, w)
        else: nv = bit_set(self, st, v, self.bitidx(st, self.ev(st, fr, args[0]), w, name), FALSE)
        self.write(st, base, nv); return base
    if name == "test":
        i = self.bitidx(st, self.ev(st, fr, args[0]), w, name); return bit_test(self, st, v, i)
    if name == "operator[]":
        i = self.as_int(self.ev(st, fr, args[0]))
        if self.check_bounds and not self.quiet and not self.dry: self.bitidx(st, i, w, name)
        return X.BitRef(base, i)
    if name.startswith("operator"): return bitset_op(self, st, fr, name, base, v, args, w)
    raise X.Unsupported("bitset::" + name)
def bitset_op(self, st, fr, name, base, v, args, w):
    X = _X()
    op = name[len("operator"):]
    if op == "~": return bw_not(v, w)
    y = self.ev(st, fr, args[0])
    if op in ("<<", ">>", "<<=", ">>="):
        y = self.as_int(y)
        sh = shift(self, st, v, y, "shl" if op[0] == "<" else "lshr", w)
        if op.endswith("="): self.write(st, base, sh); return base
        return sh
    if op in ("&=", "|=", "^="):
        self.write(st, base, bw_op({"&": "and", "|": "or", "^": "xor"}[op[0]], v, y)); return base
    if op in ("&", "|", "^"): return bw_op({"&": "and", "|": "or", "^": "xor"}[op], v, y)
    if op == "==": return bs_eq(v, y)
    if op == "!=": return not_(bs_eq(v, y))
    if op == "=": self.write(st, base, y); return base
    raise X.Unsupported("bitset " + name)
def shift(self, st, v, y, kind, w):
    if v.sort[0] == "A":
        i = fresh("i", "I"); j = sub(i, y) if kind == "shl" else add(i, y)
        return lam(i, and_(rng(num(0), i, num(w)), select(v, j), ge(j, num(0))))
    if y.op == "num": 
        if y.args[0] >= w: return tm.bvc(0, w)
        return tm.bv(kind, v, tm.bvc(y.args[0], w))
    if y.op == "bv2int":
        b = y.args[0]; bw = b.sort[1]
        if bw <= w: return tm.bv(kind, v, tm.bvzext(b, w))
        return ite(tm.bv("ult", b, tm.bvc(w, bw)), tm.bv(kind, v, tm.bvext(b, w - 1, 0)), tm.bvc(0, w))
    r = tm.bv(kind, v, tm.int2bv(y, w))
    if self.known(st, and_(ge(y, num(0)), lt(y, num(w)))): return r
    return ite(and_(ge(y, num(0)), lt(y, num(w))), r, tm.bvc(0, w))

# ------------------------------------------------------------------ operators
def builtin_op(self, st, fr, name, args, n):
    X = _X()
    op = name[len("operator"):]
    USED.add("std::" + name)
    t0 = ct.parse(X.ty_of(args[0])); t0 = t0[1] if t0[0] == "ref" else t0
    s0 = X.ty_of(args[0])
    if op == "<<" and ("ostream" in s0 or "stream" in s0): return X.Opaque("ostream")
    if op in ("<<", ">>") and t0[0] == "rec" and "stream" in str(t0[1]): return X.Opaque("ostream")
    base = self.lv(st, fr, args[0])
    if isinstance(base, X.BitRef):
        if op == "=":
            self.assign(st, base, self.as_bool(self.ev(st, fr, args[1]))); return base
        if op == "~": return not_(self.load(st, base))
    v = self.read(st, base) if isinstance(base, X.Loc) else base
    if isinstance(v, X.Vec):
        if op == "[]":
            i = self.as_int(self.ev(st, fr, args[1])); self.touch_view(st, base, i); self.bounds(st, base, i); return base.i(i)
        if op == "=": return assign_val(self, st, fr, base, args[1])
        if op in ("==", "!="):
            w = self.ev(st, fr, args[1])
            j = fresh("j", "I")
            c = []
            def ff(a, b): c.append(eq(a, b)); return a
            X.tmap2(ff, X.t_select(v.e, j), X.t_select(w.e, j))
            e = and_(eq(v.n, w.n), forall([j], implies(rng(num(0), j, v.n), and_(*c))))
            return e if op == "==" else not_(e)
    if isinstance(v, T) and isinstance(v.sort, tuple):
        if op == "[]":
            i = self.as_int(self.ev(st, fr, args[1])); return X.BitRef(base, i)
        return bitset_op(self, st, fr, name, base, v, args[1:], _bw(args[0]) if v.sort[0] == "A" else v.sort[1])
    if isinstance(v, X.Ptr):
        if op == "*" and len(args) == 1: return self.ptr_target(st, v)
        if op == "->": return v
        if op in ("++", "--"):
            nv = self.step(st, v, 1 if op == "++" else -1, ("ptr",))
            self.assign(st, base, nv)
            return base if len(args) == 1 else v
        if op == "[]": return self.elem_loc(st, v, self.as_int(self.ev(st, fr, args[1])))
        if op == "=": self.assign(st, base, self.ev(st, fr, args[1])); return base
        if op == "bool": return not_(v.null)
        y = self.ev(st, fr, args[1])
        if op in ("+=", "-="):
            self.assign(st, base, self.ptrop(st, op[0], v, y)); return base
        return self.ptrop(st, op, v, y)
    if isinstance(v, X.Obj):
        if op == "=": return assign_val(self, st, fr, base, args[1])
        if v.ty == "opt":
            if op == "*" or op == "->": return base.f("val")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            w = self.ev(st, fr, args[1])
            v = X.Obj(v.ty, {k: self.load(st, x) if isinstance(x, X.Loc) else x for k, x in v.f.items()})
            if isinstance(w, X.Obj): w = X.Obj(w.ty, {k: self.load(st, x) if isinstance(x, X.Loc) else x for k, x in w.f.items()})
            if op in ("==", "!="):
                c = []
                def ff(a, b): c.append(eq(a, b)); return a
                X.tmap2(ff, v, w)
                e = and_(*c)
                return e if op == "==" else not_(e)
            a, b = (v, w) if op in ("<", ">=") else (w, v)
            r = self.less(st, a, b)
            return r if op in ("<", ">") else not_(r)
    if isinstance(v, T):
        if op == "[]": pass
        if op == "=": self.assign(st, base, self.ev(st, fr, args[1])); return base
        if len(args) == 2:
            y = self.ev(st, fr, args[1])
            return self.binop(st, op, v, y, ct.parse(X.ty_of(args[0])), ct.parse(X.ty_of(n)))
    if isinstance(v, X.Opaque) and str(v.ty).startswith("fstream.") and op == "!" and v.ty + ".bool" in self.externs: return not_(self.externs[v.ty + ".bool"](self, st, fr, [], n))
    if isinstance(v, X.Opaque):
        if op in ("<<", ">>", "="): return base if isinstance(base, X.Loc) else X.Opaque("ostream")
        if op in ("-", "+"): return X.Opaque("time")
        if op == "->" and "logger" in str(v.ty): return base
    raise X.Unsupported("operator %s on %s" % (op, type(v).__name__))
