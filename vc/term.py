"""Hash-consed terms with polynomial / Sum normal forms, and translation to z3.

Sorts: 'I' (mathematical integer), 'R' (real), 'B' (bool), ('BV',n), ('A',elem) (total map Int->elem), ('U',name).
Numeric terms are kept as polynomials over atoms, so ring-equal terms are identical objects.
Binders (lam, sum, forall, exists) use bound names numbered by binder height, so alpha-equal terms
are identical objects.
"""
from fractions import Fraction
import itertools

class T:
    __slots__ = ("op", "args", "sort", "uid", "_fv", "_h", "__weakref__")
    def __repr__(self): return show(self)
    def __hash__(self): return self.uid
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __lt__(self, o): raise TypeError("no ordering on terms")
    # arithmetic sugar
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __neg__(self): return scale(self, -1)
    def __getitem__(self, i): return select(self, lift(i, "I"))

_tab = {}
_cnt = [0]
_order = {}

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T); t.op = op; t.args = args; t.sort = sort
        _cnt[0] += 1; t.uid = _cnt[0]; t._fv = None; t._h = None
        _tab[key] = t
    return t

def lift(x, sort="I"):
    if isinstance(x, T):
        if x.sort == "I" and sort == "R": return toreal(x)
        return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, int) and isinstance(sort, tuple) and sort[0] == "BV": return bvc(x, sort[1])
    return num(x, sort if sort in ("I", "R") else ("R" if isinstance(x, (float, Fraction)) else "I"))

TRUE = mk("true", (), "B"); FALSE = mk("false", (), "B")

def var(name, sort): return mk("var", (name,), sort)
_fresh = itertools.count()
def fresh(name, sort): return var("%s!%d" % (name, next(_fresh)), sort)

# ---------------------------------------------------------------- polynomials
# ('poly', (const, ((mono, coef), ...))) with mono = tuple of atoms sorted by uid (with repetition)
def num(c, sort="I"):
    if sort == "I": c = int(c)
    else: c = Fraction(c)
    return mk("num", (c,), sort)

def _poly(t):
    """-> dict mono->coef ; mono () is the constant"""
    if t.op == "num": return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly": return dict(t.args)
    return {(t,): 1}

def _unpoly(d, sort):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return num(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c, sort)
        if len(m) == 1 and c == 1: return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(a.uid for a in mc[0]))))
    return mk("poly", items, sort)

def _chk(a, b):
    if a.sort != b.sort: raise TypeError("sort mismatch %s:%s vs %s:%s" % (a, a.sort, b, b.sort))

def add(a, b):
    if a.sort == "I" and b.sort == "R": a = toreal(a)
    if a.sort == "R" and b.sort == "I": b = toreal(b)
    _chk(a, b)
    d = _poly(a)
    for m, c in _poly(b).items(): d[m] = d.get(m, 0) + c
    return _unpoly(d, a.sort)
def scale(a, k):
    return _unpoly({m: c * k for m, c in _poly(a).items()}, a.sort)
def sub(a, b): return add(a, scale(b, -1))
def _cancel(m):
    """x * inv(x) is kept (no cancellation: x may be zero)."""
    return m
def mul(a, b):
    if a.sort == "I" and b.sort == "R": a = toreal(a)
    if a.sort == "R" and b.sort == "I": b = toreal(b)
    _chk(a, b)
    pa, pb = _poly(a), _poly(b)
    if len(pa) > 64 and len(pb) > 64: raise OverflowError("polynomial product too large")
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.uid))
            d[m] = d.get(m, 0) + c1 * c2
    return _unpoly(d, a.sort)
def neg(a): return scale(a, -1)
def toreal(a):
    if a.sort == "R": return a
    if a.op == "num": return num(a.args[0], "R")
    if a.op == "ite": return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    if a.op == "poly":
        r = num(0, "R")
        for m, c in a.args:
            t = num(c, "R")
            for x in m: t = mul(t, toreal(x))
            r = add(r, t)
        return r
    return mk("toreal", (a,), "R")
def inv(a):
    if a.op == "num" and a.args[0] != 0: return num(1 / a.args[0], "R")
    p = _poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        r = num(Fraction(1) / c, "R")
        for x in m: r = mul(r, x.args[0] if x.op == "inv" else mk("inv", (x,), "R"))
        return r
    # normalise the leading coefficient
    items = a.args; c = items[-1][1] if a.op == "poly" else 1
    if c != 1: return scale(mk("inv", (scale(a, Fraction(1) / c),), "R"), Fraction(1) / c)
    return mk("inv", (a,), "R")
def rdiv(a, b): return mul(toreal(a), inv(toreal(b)))
def idiv(a, b):      # floor division for non-negative operands / C truncation handled by caller
    if a.op == "num" and b.op == "num" and b.args[0] != 0: return num(a.args[0] // b.args[0])
    if b.op == "num" and b.args[0] == 1: return a
    return mk("idiv", (a, b), "I")
def imod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0: return num(a.args[0] % b.args[0])
    if b.op == "num" and b.args[0] == 1: return num(0)
    return mk("imod", (a, b), "I")

def is_num(t): return t.op == "num"
def const_of(t): return t.args[0] if t.op == "num" else None

# ---------------------------------------------------------------- comparisons / booleans
from math import gcd
def _normge(d, sort):
    """p >= 0"""
    if not d: return TRUE
    if len(d) == 1 and () in d: return TRUE if d[()] >= 0 else FALSE
    if sort == "I":
        g = 0
        for m, c in d.items():
            if m != (): g = gcd(g, abs(c))
        c0 = d.get((), 0)
        d = {m: c // g for m, c in d.items() if m != ()}
        c0 = c0 // g   # floor
        if c0: d[()] = c0
    else:
        m0 = max((m for m in d if m != ()), key=lambda m: (len(m), tuple(a.uid for a in m)))
        k = abs(Fraction(d[m0]))
        if k != 1: d = {m: c / k for m, c in d.items()}
    return d
def ge(a, b):
    if a.sort != b.sort: a, b = toreal(a), toreal(b)
    d = _poly(sub(a, b)); r = _normge(d, a.sort)
    if isinstance(r, T): return r
    return mk("ge0", (_unpoly(r, a.sort),), "B")
def le(a, b): return ge(b, a)
def gt(a, b): return not_(le(a, b))
def lt(a, b): return gt(b, a)
def eq(a, b):
    if a is b: return TRUE
    if a.sort != b.sort:
        if {a.sort, b.sort} == {"I", "R"}: a, b = toreal(a), toreal(b)
        else: raise TypeError("eq sorts %s %s" % (a.sort, b.sort))
    if a is b: return TRUE
    if a.sort in ("I", "R"):
        d = _poly(sub(a, b))
        if not d: return TRUE
        if len(d) == 1 and () in d: return FALSE
        m0 = max((m for m in d if m != ()), key=lambda m: (len(m), tuple(x.uid for x in m)))
        k = d[m0]
        if a.sort == "I":
            g = 0
            for m, c in d.items():
                if m != (): g = gcd(g, abs(c))
            if d.get((), 0) % g: return FALSE
            if k < 0: g = -g
            d = {m: c // g for m, c in d.items()}
        else:
            d = {m: Fraction(c) / k for m, c in d.items()}
        return mk("eq0", (_unpoly(d, a.sort),), "B")
    if a.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if a is not_(b): return FALSE
    if a.op == "bvc" and b.op == "bvc": return FALSE
    if a.uid > b.uid: a, b = b, a
    return mk("eq", (a, b), "B")
def ne(a, b): return not_(eq(a, b))
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "ge0" and a.args[0].sort == "I":    # p<0  <=>  -p-1>=0
        return ge(sub(scale(a.args[0], -1), num(1)), num(0))
    return mk("not", (a,), "B")
def and_(*xs):
    s = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == "and" else (x,)):
            if y is TRUE or y in seen: continue
            if y is FALSE: return FALSE
            seen.add(y); s.append(y)
    for y in s:
        if not_(y) in seen: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return mk("and", tuple(sorted(s, key=lambda t: t.uid)), "B")
def or_(*xs): return not_(and_(*[not_(x) for x in xs])) if len(xs) != 1 else xs[0]
def implies(a, b):
    return or_(not_(a), b)
def iff(a, b): return eq(a, b)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort:
        if {a.sort, b.sort} == {"I", "R"}: a, b = toreal(a), toreal(b)
        else: raise TypeError("ite sorts %s %s" % (a.sort, b.sort))
    if c.op == "not": return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk("ite", (c, a, b), a.sort)

# ---------------------------------------------------------------- bit vectors
def bvc(v, n): return mk("bvc", (v & ((1 << n) - 1), n), ("BV", n))
def bv(op, *args, sort=None):
    if sort is None: sort = args[0].sort
    if all(isinstance(a, T) and a.op == "bvc" for a in args):
        n = args[0].args[1]; v = [a.args[0] for a in args]; M = (1 << n) - 1
        r = None
        if op == "and": r = v[0] & v[1]
        elif op == "or": r = v[0] | v[1]
        elif op == "xor": r = v[0] ^ v[1]
        elif op == "not": r = ~v[0]
        elif op == "add": r = v[0] + v[1]
        elif op == "sub": r = v[0] - v[1]
        elif op == "mul": r = v[0] * v[1]
        elif op == "shl": r = v[0] << v[1] if v[1] < n else 0
        elif op == "lshr": r = v[0] >> v[1] if v[1] < n else 0
        if r is not None: return bvc(r & M, n)
        if op == "ult": return TRUE if v[0] < v[1] else FALSE
        if op == "ule": return TRUE if v[0] <= v[1] else FALSE
    if op in ("and", "or", "xor", "add", "mul") and args[0].uid > args[1].uid: args = (args[1], args[0])
    if op in ("and", "or") and args[0] is args[1]: return args[0]
    if op == "and":
        for x, y in (args, args[::-1]):
            if x.op == "bvc" and x.args[0] == 0: return x
            if x.op == "bvc" and x.args[0] == (1 << x.args[1]) - 1: return y
    if op in ("or", "xor", "add"):
        for x, y in (args, args[::-1]):
            if x.op == "bvc" and x.args[0] == 0: return y
    if op in ("shl", "lshr") and args[1].op == "bvc" and args[1].args[0] == 0: return args[0]
    if op == "not" and args[0].op == "bv" and args[0].args[0] == "not": return args[0].args[1]
    if op in ("ult", "ule"): sort = "B"
    return mk("bv", (op,) + args, sort)
def bvext(x, hi, lo):
    if x.op == "bvc": return bvc((x.args[0] >> lo), hi - lo + 1)
    if lo == 0 and hi == x.sort[1] - 1: return x
    return mk("bvext", (x, hi, lo), ("BV", hi - lo + 1))
def bvzext(x, n):
    if x.sort[1] == n: return x
    if x.op == "bvc": return bvc(x.args[0], n)
    return mk("bvzext", (x,), ("BV", n))
def bvsext(x, n):
    if x.sort[1] == n: return x
    return mk("bvsext", (x,), ("BV", n))
def bvcat(a, b):
    return mk("bvcat", (a, b), ("BV", a.sort[1] + b.sort[1]))
def bv2int(x):
    if x.op == "bvc": return num(x.args[0])
    return mk("bv2int", (x,), "I")
def int2bv(x, n):
    if x.op == "num": return bvc(x.args[0], n)
    if x.op == "bv2int" and x.args[0].sort[1] <= n: return bvzext(x.args[0], n)
    return mk("int2bv", (x, n), ("BV", n))

# ---------------------------------------------------------------- applications, arrays, binders
def app(f, args, sort): return mk("app", (f,) + tuple(args), sort)

def asort(e): return ("A", e)
def height(t):
    """binder height"""
    h = t._h
    if h is not None: return h
    m = 0
    if t.op == "var" and t.args[0][0] == "#": m = int(t.args[0][1:])      # a loose bound name: enclosing terms must number above it
    for x in subterms1(t):
        hh = height(x)
        if hh > m: m = hh
    if t.op in ("lam", "msum", "forall", "exists"): m += len(t.args[0])
    t._h = m
    return m

def subterms1(t):
    op = t.op
    if op in ("var", "num", "true", "false", "bvc"): return ()
    if op == "poly":
        r = []
        for m, c in t.args: r.extend(m)
        return r
    if op == "msum":
        r = []
        for v, lo, hi in t.args[0]: r.append(lo); r.append(hi)
        r.append(t.args[1]); return r
    if op in ("lam",): return (t.args[1],)
    if op in ("forall", "exists"):
        r = [t.args[1]]
        for p in t.args[2]: r.extend(p)
        return r
    return tuple(a for a in t.args if isinstance(a, T))

def fv(t):
    """free variables (frozenset of var terms)"""
    if t._fv is not None: return t._fv
    if t.op == "var": r = frozenset((t,))
    else:
        r = frozenset()
        if t.op == "msum":
            bound = []
            for v, lo, hi in t.args[0]:
                r = r | (fv(lo) - frozenset(bound)) | (fv(hi) - frozenset(bound)); bound.append(v)
            r = r | (fv(t.args[1]) - frozenset(bound))
        elif t.op in ("lam", "forall", "exists"):
            for x in subterms1(t): r = r | fv(x)
            r = r - frozenset(t.args[0])
        else:
            for x in subterms1(t): r = r | fv(x)
    t._fv = r
    return r

def _bname(k, sort): return var("#%d" % k, sort)

def lam(v, body):
    """array value: lambda v:Int. body"""
    # eta: lam v. a[v] -> a
    if body.op == "select" and body.args[1] is v and v not in fv(body.args[0]): return body.args[0]
    h = height(body)
    nv = _bname(h + 1, v.sort)
    if nv is not v: body = subst(body, {v: nv})
    return mk("lam", ((nv,), body), asort(body.sort))

def quant(kind, vs, body, pats=()):
    vs = [v for v in vs if v in fv(body)]
    if body is TRUE or body is FALSE or not vs: return body
    h = height(body); 
    for p in pats:
        for x in p: h = max(h, height(x))
    m = {}
    nvs = []
    for i, v in enumerate(vs):
        nv = _bname(h + 1 + i, v.sort); nvs.append(nv); m[v] = nv
    body = subst(body, m)
    pats = tuple(tuple(subst(x, m) for x in p) for p in pats)
    return mk(kind, (tuple(nvs), body, pats), "B")
def forall(vs, body, pats=()): return quant("forall", vs, body, pats)
def exists(vs, body, pats=()): return quant("exists", vs, body, pats)

def select(a, i):
    while True:
        if a.op == "lam":
            return subst(a.args[1], {a.args[0][0]: i})
        if a.op == "store":
            d = sub(a.args[1], i)
            if d.op == "num":
                if d.args[0] == 0: return a.args[2]
                a = a.args[0]; continue
        if a.op == "const": return a.args[0]
        if a.op == "ite":
            x, y = select(a.args[1], i), select(a.args[2], i)
            return ite(a.args[0], x, y)
        break
    return mk("select", (a, i), a.sort[1])
def store(a, i, v):
    if a.sort[1] != v.sort:
        if a.sort[1] == "R" and v.sort == "I": v = toreal(v)
        else: raise TypeError("store %s into %s" % (v.sort, a.sort))
    if a.op == "store" and a.args[1] is i: a = a.args[0]
    if v.op == "select" and v.args[0] is a and v.args[1] is i: return a
    return mk("store", (a, i, v), a.sort)
def constarr(v): return mk("const", (v,), asort(v.sort))

# ---- sums.  msum(((v,lo,hi),...), body) with body a monomial-product term (coef 1)
def sum_(v, lo, hi, body):
    """Sum_{v in [lo,hi)} body (0 when hi<=lo)."""
    if body.sort == "I" or body.sort == "R": pass
    else: raise TypeError("sum of %s" % (body.sort,))
    d = sub(hi, lo)
    if lo.op != "num" or lo.args[0] != 0:      # normal form: sums start at zero
        w = fresh("$z", "I")
        return sum_(w, num(0), d, subst(body, {v: add(w, lo)}))
    if d.op == "num":
        n = d.args[0]
        if n <= 0: return num(0, body.sort)
        if n <= 4:
            r = num(0, body.sort)
            for k in range(n): r = add(r, subst(body, {v: add(lo, num(k))}))
            return r
    res = num(0, body.sort)
    for m, c in _indp(body, v).items():
        res = add(res, scale(_sum_ind(v, lo, hi, m, body.sort), c))
    return res
def fv_mono(m):
    r = frozenset()
    for a in m: r = r | fv(a)
    return r
def _lin1(p, v):
    c = 0
    for m, k in _poly(p).items():
        if v in m:
            if m != (v,): return None
            c = k
        else:
            for a in m:
                if v in fv(a): return None
    return c
def is_ind(f): return f.op == "ite" and f.args[1].op == "num" and f.args[1].args[0] == 1 and f.args[2].op == "num" and f.args[2].args[0] == 0
def _mk_ind(c, sort): return mk("ite", (c, num(1, sort), num(0, sort)), sort)
def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = list(m1)
            for x in m2:
                if is_ind(x) and x in m: continue
                m.append(x)
            m = tuple(sorted(m, key=lambda x: x.uid))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}
def ind_of(c, sort):
    """indicator polynomial of a condition"""
    if c is TRUE: return {(): 1}
    if c is FALSE: return {}
    if c.op == "not":
        p = {m: -k for m, k in ind_of(c.args[0], sort).items()}
        p[()] = p.get((), 0) + 1
        return {m: k for m, k in p.items() if k != 0}
    if c.op == "and":
        r = {(): 1}
        for x in c.args: r = _pmul(r, ind_of(x, sort))
        return r
    return {(_mk_ind(c, sort),): 1}
def _indp(body, v):
    """polynomial of `body` with guards that involve v expanded into indicator factors"""
    out = {}
    for m, c in _poly(body).items():
        r = {(): c}
        for f in m:
            if f.op == "ite" and v in fv(f) and not is_ind(f):
                g = ind_of(f.args[0], f.sort)
                a, b = f.args[1], f.args[2]
                q = {}
                if not (a.op == "num" and a.args[0] == 0): 
                    for mm, cc in _pmul(g, _indp(a, v)).items(): q[mm] = q.get(mm, 0) + cc
                if not (b.op == "num" and b.args[0] == 0):
                    ng = ind_of(not_(f.args[0]), f.sort)
                    for mm, cc in _pmul(ng, _indp(b, v)).items(): q[mm] = q.get(mm, 0) + cc
                r = _pmul(r, q)
            elif is_ind(f): r = _pmul(r, ind_of(f.args[0], f.sort))
            else: r = _pmul(r, {(f,): 1})
            if len(r) > 400: raise OverflowError("guard expansion too large")
        for mm, cc in r.items(): out[mm] = out.get(mm, 0) + cc
    return {m: c for m, c in out.items() if c != 0}
def _pinned(c, v):
    if c.op == "eq0" and c.args[0].sort == "I":
        k = _lin1(c.args[0], v)
        if k in (1, -1): return scale(sub(c.args[0], scale(v, k)), -k)
    return None
def _sum_ind(v, lo, hi, m, sort):
    """sum of one guarded product: single-point guards collapse, guards independent of the bound variable move out"""
    g1, g2 = ge(v, lo), lt(v, hi)
    m = tuple(x for x in m if not (is_ind(x) and (x.args[0] is g1 or x.args[0] is g2)))
    for f in m:
        if is_ind(f):
            e = _pinned(f.args[0], v)
            if e is not None:
                gs = [le(lo, e), lt(e, hi)]; r = num(1, sort)
                for x in m:
                    if x is f: continue
                    y = subst(x, {v: e})
                    if is_ind(x): gs.append(subst(x.args[0], {v: e}))
                    else: r = mul(r, y)
                return ite(and_(*gs), r, num(0, sort))
    gs = [x.args[0] for x in m if is_ind(x) and v not in fv(x)]
    rest = [x for x in m if not (is_ind(x) and v not in fv(x))]
    r = _sum_mono([(v, lo, hi)], rest, sort)
    return ite(and_(*gs), r, num(0, sort)) if gs else r

def _sum_mono(rngs, factors, sort):
    """canonical multi-sum of a product of factors"""
    # open up nested msums that depend on our bound variables
    changed = True
    rngs = list(rngs); factors = list(factors)
    while changed:
        changed = False
        bound = {v for v, _, _ in rngs}
        for idx, f in enumerate(factors):
            if f.op == "msum" and (fv(f) & bound):
                m = {}
                newr = []
                for v, lo, hi in f.args[0]:
                    nv = fresh("$b", "I"); 
                    newr.append((nv, subst(lo, m), subst(hi, m))); m[v] = nv
                body = subst(f.args[1], m)
                factors.pop(idx)
                p = _poly(body)
                if len(p) != 1 or next(iter(p.values())) != 1:
                    r = num(0, sort)
                    for mm, c in p.items(): r = add(r, scale(_sum_mono(rngs + newr, factors + list(mm), sort), c))
                    return r
                (mm, c), = p.items()
                factors.extend(mm); rngs.extend(newr)
                changed = True
                break
    bound = [v for v, _, _ in rngs]; bset = set(bound)
    if len(rngs) > 1:
        # a guard that pins one of the (joined) bound variables
        for f in factors:
            if not is_ind(f): continue
            for k, (w, lo, hi) in enumerate(rngs):
                e = _pinned(f.args[0], w)
                if e is None: continue
                if any(w in fv(l2) or w in fv(h2) for _, l2, h2 in rngs): continue
                body = num(1, sort)
                for x in factors:
                    if x is not f: body = mul(body, subst(x, {w: e}))
                body = ite(and_(le(lo, e), lt(e, hi)), body, num(0, sort))
                rest = [r for j, r in enumerate(rngs) if j != k]
                for (v2, l2, h2) in reversed(rest): body = sum_(v2, l2, h2, body)
                return body
    # free factors
    free = [f for f in factors if not (fv(f) & bset)]
    dep = [f for f in factors if (fv(f) & bset)]
    # connected components of bound variables
    parent = {v: v for v in bound}
    def find(x):
        while parent[x] is not x: x = parent[x]
        return x
    def uni(a, b):
        a, b = find(a), find(b)
        if a is not b: parent[a] = b
    for v, lo, hi in rngs:
        for w in (fv(lo) | fv(hi)) & bset: uni(v, w)
    for f in dep:
        ws = list(fv(f) & bset)
        for w in ws[1:]: uni(ws[0], w)
    comps = {}
    for r in rngs: comps.setdefault(find(r[0]), ([], []))[0].append(r)
    for f in dep: comps[find(next(iter(fv(f) & bset)))][1].append(f)
    res = num(1, sort)
    for f in free: res = mul(res, f)
    for rs, fs in comps.values():
        if len(rs) > 1 and not fs:
            pass
        res = mul(res, _canon_msum(rs, fs, sort))
    return res

def _canon_msum(rs, fs, sort):
    body = num(1, sort)
    for f in fs: body = mul(body, f)
    h = height(body)
    for v, lo, hi in rs: h = max(h, height(lo), height(hi))
    n = len(rs)
    best = None; bestkey = None
    perms = itertools.permutations(rs) if n <= 5 else [rs]
    seen = set()
    for perm in perms:
        ok = True
        later = {r[0] for r in perm}
        for v, lo, hi in perm:
            later.discard(v)
            if (fv(lo) | fv(hi)) & later or v in fv(lo) or v in fv(hi): ok = False; break
        if not ok: continue
        m = {r[0]: _bname(h + 1 + i, "I") for i, r in enumerate(perm)}
        nr = tuple((m[v], subst(lo, m), subst(hi, m)) for v, lo, hi in perm)
        b = subst(body, m)
        t = mk("msum", (nr, b), sort)
        k = skey(t)
        if best is None or k < bestkey: best, bestkey = t, k
    assert best is not None, "no order for nested sum"
    return best

_sk = {}
def skey(t):
    """structural key independent of creation order of compound terms (string)"""
    r = _sk.get(t)
    if r is None:
        op = t.op
        if op in ("var",): r = t.args[0]
        elif op == "num": r = str(t.args[0])
        elif op == "poly":
            r = "(+ " + " ".join(sorted("%s*%s" % (c, ".".join(sorted(skey(a) for a in m))) for m, c in t.args)) + ")"
        elif op == "msum":
            r = "(S " + " ".join("%s:%s:%s" % (skey(v), skey(lo), skey(hi)) for v, lo, hi in t.args[0]) + " | " + skey(t.args[1]) + ")"
        else:
            r = "(" + op + " " + " ".join(_skx(a) for a in t.args) + ")"
        _sk[t] = r
    return r
def _skx(a):
    if isinstance(a, T): return skey(a)
    if isinstance(a, tuple): return "[" + " ".join(_skx(x) for x in a) + "]"
    return str(a)

# ---------------------------------------------------------------- substitution
def subst(t, m, cache=None):
    if not m: return t
    if cache is None: cache = {}
    keys = frozenset(m)
    return _subst(t, m, keys, cache)

def _subst(t, m, keys, cache):
    r = cache.get(t)
    if r is not None: return r
    if t.op == "var":
        r = m.get(t, t)
    elif not (fv(t) & keys): r = t
    else:
        s = lambda x: _subst(x, m, keys, cache)
        op, a = t.op, t.args
        if op == "poly":
            r = num(0, t.sort)
            acc = {}
            for mono, c in a:
                p = num(c, t.sort)
                for x in mono: p = mul(p, s(x))
                for mm, cc in _poly(p).items(): acc[mm] = acc.get(mm, 0) + cc
            r = _unpoly(acc, t.sort)
        elif op == "ge0": r = ge(s(a[0]), num(0, a[0].sort))
        elif op == "eq0": r = eq(s(a[0]), num(0, a[0].sort))
        elif op == "eq": r = eq(s(a[0]), s(a[1]))
        elif op == "not": r = not_(s(a[0]))
        elif op == "and": r = and_(*[s(x) for x in a])
        elif op == "ite": r = ite(s(a[0]), s(a[1]), s(a[2]))
        elif op == "select": r = select(s(a[0]), s(a[1]))
        elif op == "store": r = store(s(a[0]), s(a[1]), s(a[2]))
        elif op == "const": r = constarr(s(a[0]))
        elif op == "toreal": r = toreal(s(a[0]))
        elif op == "inv": r = inv(s(a[0]))
        elif op == "idiv": r = idiv(s(a[0]), s(a[1]))
        elif op == "imod": r = imod(s(a[0]), s(a[1]))
        elif op == "app": r = app(a[0], [s(x) for x in a[1:]], t.sort)
        elif op == "bv": r = bv(a[0], *[s(x) for x in a[1:]], sort=t.sort)
        elif op == "bvext": r = bvext(s(a[0]), a[1], a[2])
        elif op == "bvzext": r = bvzext(s(a[0]), t.sort[1])
        elif op == "bvsext": r = bvsext(s(a[0]), t.sort[1])
        elif op == "bvcat": r = bvcat(s(a[0]), s(a[1]))
        elif op == "bv2int": r = bv2int(s(a[0]))
        elif op == "int2bv": r = int2bv(s(a[0]), a[1])
        elif op == "lam":
            v = a[0][0]; nv = fresh("$l", v.sort)
            m2 = dict(m); m2.pop(v, None); m2[v] = nv
            r = lam(nv, subst(a[1], m2))
        elif op in ("forall", "exists"):
            m2 = dict(m); nvs = []
            for v in a[0]:
                nv = fresh("$q", v.sort); m2[v] = nv; nvs.append(nv)
            r = quant(op, nvs, subst(a[1], m2), tuple(tuple(subst(x, m2) for x in p) for p in a[2]))
        elif op == "msum":
            m2 = dict(m); nr = []
            for v, lo, hi in a[0]:
                lo2, hi2 = subst(lo, m2), subst(hi, m2)
                nv = fresh("$s", "I"); m2[v] = nv; nr.append((nv, lo2, hi2))
            body = subst(a[1], m2)
            r = num(0, t.sort)
            for v, lo, hi in [None] and []: pass
            # rebuild from the inside out so the constructor re-normalises
            r = body
            for v, lo, hi in reversed(nr): r = sum_(v, lo, hi, r)
        else: raise NotImplementedError(op)
    cache[t] = r
    return r

def replace(t, m):
    """replace arbitrary (non-variable) subterms bottom-up"""
    cache = {}
    def go(x):
        if x in m: return m[x]
        r = cache.get(x)
        if r is None:
            subs = subterms1(x)
            mm = {}
            ch = False
            for y in subs:
                z = go(y)
                if z is not y: ch = True; mm[y] = z
            r = rebuild(x, mm) if ch else x
            cache[x] = r
        return r
    return go(t)
def rebuild(t, mm):
    g = lambda x: mm.get(x, x)
    op, a = t.op, t.args
    if op == "poly":
        acc = {}
        for mono, c in a:
            p = num(c, t.sort)
            for x in mono: p = mul(p, g(x))
            for m2, cc in _poly(p).items(): acc[m2] = acc.get(m2, 0) + cc
        return _unpoly(acc, t.sort)
    if op == "ge0": return ge(g(a[0]), num(0, a[0].sort))
    if op == "eq0": return eq(g(a[0]), num(0, a[0].sort))
    if op == "eq": return eq(g(a[0]), g(a[1]))
    if op == "not": return not_(g(a[0]))
    if op == "and": return and_(*[g(x) for x in a])
    if op == "ite": return ite(*[g(x) for x in a])
    if op == "select": return select(g(a[0]), g(a[1]))
    if op == "store": return store(*[g(x) for x in a])
    if op == "const": return constarr(g(a[0]))
    if op == "toreal": return toreal(g(a[0]))
    if op == "inv": return inv(g(a[0]))
    if op == "idiv": return idiv(g(a[0]), g(a[1]))
    if op == "imod": return imod(g(a[0]), g(a[1]))
    if op == "app": return app(a[0], [g(x) for x in a[1:]], t.sort)
    if op == "bv": return bv(a[0], *[g(x) for x in a[1:]], sort=t.sort)
    if op == "bvext": return bvext(g(a[0]), a[1], a[2])
    if op == "bvzext": return bvzext(g(a[0]), t.sort[1])
    if op == "bvsext": return bvsext(g(a[0]), t.sort[1])
    if op == "bvcat": return bvcat(g(a[0]), g(a[1]))
    if op == "bv2int": return bv2int(g(a[0]))
    if op == "int2bv": return int2bv(g(a[0]), a[1])
    if op == "lam":
        nv = fresh("$l", a[0][0].sort); return lam(nv, subst(g(a[1]), {a[0][0]: nv}))
    if op in ("forall", "exists"):
        m = {v: fresh("$q", v.sort) for v in a[0]}
        return quant(op, [m[v] for v in a[0]], subst(g(a[1]), m), tuple(tuple(subst(g(x), m) for x in p) for p in a[2]))
    if op == "msum":
        m = {}; nr = []
        for v, lo, hi in a[0]:
            l2, h2 = subst(g(lo), m), subst(g(hi), m)
            nv = fresh("$s", "I"); m[v] = nv; nr.append((nv, l2, h2))
        r = subst(g(a[1]), m)
        for v, lo, hi in reversed(nr): r = sum_(v, lo, hi, r)
        return r
    raise NotImplementedError(op)

def walk(t, seen=None):
    """all distinct subterms"""
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        st.extend(subterms1(x))

# ---------------------------------------------------------------- printing
def show(t, depth=0):
    op, a = t.op, t.args
    if depth > 12: return "..."
    s = lambda x: show(x, depth + 1)
    if op == "var": return a[0]
    if op == "num": return str(a[0])
    if op == "poly":
        out = []
        for m, c in a:
            ms = "*".join(s(x) for x in m)
            out.append(str(c) if not m else (ms if c == 1 else "%s*%s" % (c, ms)))
        return "(" + " + ".join(out) + ")"
    if op == "ge0": return "(%s >= 0)" % s(a[0])
    if op == "eq0": return "(%s = 0)" % s(a[0])
    if op == "select": return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "app": return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "msum": return "SUM{%s}(%s)" % (", ".join("%s in %s..%s" % (s(v), s(lo), s(hi)) for v, lo, hi in a[0]), s(a[1]))
    if op in ("forall", "exists"): return "(%s %s. %s)" % (op, ",".join(s(v) for v in a[0]), s(a[1]))
    if op == "lam": return "(lam %s. %s)" % (s(a[0][0]), s(a[1]))
    if op == "bvc": return "0x%x:%d" % a
    return "(%s %s)" % (op, " ".join(s(x) if isinstance(x, T) else str(x) for x in a))
