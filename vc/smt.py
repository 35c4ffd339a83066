"""Discharge of obligations: terms -> z3 (main back end) and cvc5 (second back end through SMT-LIB text)."""
import time, z3, os, subprocess, tempfile
from fractions import Fraction
import term as tm
from term import T

z3.set_param("smt.auto_config", False)
z3.set_param("smt.mbqi", False)

_sorts = {}
def zsort(s):
    r = _sorts.get(s)
    if r is None:
        if s == "I": r = z3.IntSort()
        elif s == "R": r = z3.RealSort()
        elif s == "B": r = z3.BoolSort()
        elif s[0] == "BV": r = z3.BitVecSort(s[1])
        elif s[0] == "A": r = z3.ArraySort(z3.IntSort(), zsort(s[1]))
        elif s[0] == "U": r = z3.DeclareSort(s[1])
        else: raise NotImplementedError(s)
        _sorts[s] = r
    return r

_cache = {}
_fdecl = {}
def fdecl(name, argsorts, ret):
    k = (name, argsorts, ret)
    f = _fdecl.get(k)
    if f is None:
        f = z3.Function(name, *[zsort(s) for s in argsorts], zsort(ret)); _fdecl[k] = f
    return f

def to_z3(t):
    r = _cache.get(t)
    if r is None:
        r = _to(t); _cache[t] = r
    return r

_realinv = z3.Function("inv", z3.RealSort(), z3.RealSort())
def _trig(x):
    """usable as a trigger: an application without logical structure"""
    return x.op in ("select", "app") and not any(y.op in ("lam", "ite", "and", "or", "not", "forall", "exists", "eq", "eq0", "ge0") or y.sort == "B" and y.op not in ("select", "app", "var") for y in tm.walk(x, set()))
def _to(t):
    op, a = t.op, t.args
    g = to_z3
    if op == "var": return z3.Const(a[0], zsort(t.sort))
    if op == "num": return z3.IntVal(a[0]) if t.sort == "I" else z3.RealVal(str(a[0]))
    if op == "true": return z3.BoolVal(True)
    if op == "false": return z3.BoolVal(False)
    if op == "poly":
        parts = []
        for m, c in a:
            cc = z3.IntVal(c) if t.sort == "I" else z3.RealVal(str(c))
            if not m: parts.append(cc); continue
            p = g(m[0])
            for x in m[1:]: p = p * g(x)
            parts.append(p if c == 1 else cc * p)
        return z3.Sum(*parts) if len(parts) > 1 else parts[0]
    if op == "ge0":
        pos, neg = _split(a[0]); return pos >= neg
    if op == "eq0":
        pos, neg = _split(a[0]); return pos == neg
    if op == "eq": return g(a[0]) == g(a[1])
    if op == "not": return z3.Not(g(a[0]))
    if op == "and": return z3.And(*[g(x) for x in a])
    if op == "ite": return z3.If(g(a[0]), g(a[1]), g(a[2]))
    if op == "select": return z3.Select(g(a[0]), g(a[1]))
    if op == "store": return z3.Store(g(a[0]), g(a[1]), g(a[2]))
    if op == "const": return z3.K(z3.IntSort(), g(a[0]))
    if op == "toreal": return z3.ToReal(g(a[0]))
    if op == "inv": return _realinv(g(a[0]))
    if op == "idiv": return g(a[0]) / g(a[1])
    if op == "imod": return g(a[0]) % g(a[1])
    if op == "app":
        f = fdecl(a[0], tuple(x.sort for x in a[1:]), t.sort)
        return f(*[g(x) for x in a[1:]])
    if op == "bvc": return z3.BitVecVal(a[0], a[1])
    if op == "bv":
        o = a[0]; x = [g(y) for y in a[1:]]
        return {"and": lambda: x[0] & x[1], "or": lambda: x[0] | x[1], "xor": lambda: x[0] ^ x[1], "not": lambda: ~x[0],
                "add": lambda: x[0] + x[1], "sub": lambda: x[0] - x[1], "mul": lambda: x[0] * x[1],
                "shl": lambda: x[0] << x[1], "lshr": lambda: z3.LShR(x[0], x[1]),
                "ult": lambda: z3.ULT(x[0], x[1]), "ule": lambda: z3.ULE(x[0], x[1]),
                "neg": lambda: -x[0]}[o]()
    if op == "bvext": return z3.Extract(a[1], a[2], g(a[0]))
    if op == "bvzext": return z3.ZeroExt(t.sort[1] - a[0].sort[1], g(a[0]))
    if op == "bvsext": return z3.SignExt(t.sort[1] - a[0].sort[1], g(a[0]))
    if op == "bvcat": return z3.Concat(g(a[0]), g(a[1]))
    if op == "bv2int": return z3.BV2Int(g(a[0]))
    if op == "int2bv": return z3.Int2BV(g(a[0]), a[1])
    if op == "lam":
        return z3.Lambda([g(a[0][0])], g(a[1]))
    if op in ("forall", "exists"):
        vs = [g(v) for v in a[0]]
        q = z3.ForAll if op == "forall" else z3.Exists
        pats = [z3.MultiPattern(*[g(x) for x in p]) if len(p) > 1 else g(p[0]) for p in a[2] if all(_trig(x) for x in p)]
        if pats:
            try: return q(vs, g(a[1]), patterns=pats)
            except z3.Z3Exception: pass          # a trigger that simplified to something without the bound variables
        return q(vs, g(a[1]))
    if op == "msum":
        f, args = sumfn(t)
        return f(*[g(x) for x in args])
    raise NotImplementedError(op)

def _split(p):
    """p = pos - neg with non-negative coefficients (keeps z3 terms small)"""
    pos, neg = {}, {}
    for m, c in tm._poly(p).items():
        if c > 0: pos[m] = c
        else: neg[m] = -c
    return to_z3(tm._unpoly(pos, p.sort)), to_z3(tm._unpoly(neg, p.sort))

# ---- sums as lambda-lifted functions F_key(lo, hi, params...)
_sumkeys = {}
def sumparts(t):
    """single-range msum -> (key, lo, hi, params, bodyfn)  ; body abstracted over maximal closed subterms"""
    r = _sumkeys.get(t)
    if r is not None: return r
    (v, lo, hi) = t.args[0][0]
    rest = t.args[0][1:]
    u = tm.var("$u", "I")
    m0 = {v: u}; nr0 = []
    for vv, l2, h2 in rest:      # open every binder before rebuilding (bound names are positional)
        l2, h2 = tm.subst(l2, m0), tm.subst(h2, m0)
        nv = tm.fresh("$i", "I"); m0[vv] = nv; nr0.append((nv, l2, h2))
    body = tm.subst(t.args[1], m0)
    for vv, l2, h2 in reversed(nr0): body = tm.sum_(vv, l2, h2, body)
    params = []; names = {}
    def absn(x, bound):
        if x.op in ("num", "true", "false", "bvc"): return x
        if not (tm.fv(x) & bound):
            if x not in names:
                names[x] = tm.var("$p%d" % len(params), x.sort); params.append(x)
            return names[x]
        if x.op == "var": return x
        if x.op == "msum":
            m = {}; nr = []; bb = set(bound)
            for w, l, h in x.args[0]:
                nw = tm.fresh("$i", "I"); nr.append((nw, absn(tm.subst(l, m), frozenset(bb)), absn(tm.subst(h, m), frozenset(bb)))); m[w] = nw; bb.add(nw)
            r = absn(tm.subst(x.args[1], m), frozenset(bb))
            for w, l, h in reversed(nr): r = tm.sum_(w, l, h, r)
            return r
        if x.op == "lam":
            nw = tm.fresh("$i", x.args[0][0].sort)
            return tm.lam(nw, absn(tm.subst(x.args[1], {x.args[0][0]: nw}), bound | {nw}))
        if x.op in ("forall", "exists"):
            m = {w: tm.fresh("$i", w.sort) for w in x.args[0]}
            return tm.quant(x.op, list(m.values()), absn(tm.subst(x.args[1], m), bound | set(m.values())))
        mm = {}
        for y in tm.subterms1(x):
            z = absn(y, bound)
            if z is not y: mm[y] = z
        return tm.rebuild(x, mm) if mm else x
    ab = absn(body, frozenset((u,)))
    key = tm.skey(ab)
    r = (key, lo, hi, tuple(params), ab, u)
    _sumkeys[t] = r
    return r
_sumids = {}
def sumfn(t):
    key, lo, hi, params, ab, u = sumparts(t)
    k = (key, tuple(p.sort for p in params), t.sort)
    n = _sumids.setdefault(k, len(_sumids))
    f = fdecl("Sum%d" % n, ("I", "I") + tuple(p.sort for p in params), t.sort)
    return f, (lo, hi) + params

def sum_mk(t, lo, hi):
    """same summand, other bounds"""
    key, _, _, params, ab, u = sumparts(t)
    m = {tm.var("$p%d" % i, p.sort): p for i, p in enumerate(params)}
    return tm.sum_(u, lo, hi, tm.subst(ab, m))
def sum_body(t, at):
    key, _, _, params, ab, u = sumparts(t)
    m = {tm.var("$p%d" % i, p.sort): p for i, p in enumerate(params)}
    m[u] = at
    return tm.subst(ab, m)

_iv = {}
def interval_axioms(s):
    """counting: for s = #{u in [0,n) : P(u)} name the first three change points of P (they exist by well-ordering);
    when P changes at most twice the count is the length of the middle run"""
    r = _iv.get(s)
    if r is not None: return r
    out = []
    key, lo, hi, params, ab, u = sumparts(s)
    fs = []
    p = tm._poly(ab)
    if len(p) == 1 and list(p.values()) == [1]: fs = list(next(iter(p)))
    if fs and all(tm.is_ind(f) for f in fs) and lo is tm.num(0):
        m = {tm.var("$p%d" % i, q.sort): q for i, q in enumerate(params)}
        P0 = tm.subst(tm.and_(*[f.args[0] for f in fs]), m)
        P = lambda x: tm.subst(P0, {u: x})
        # absolute position for triggers
        off = None
        for x in tm.walk(P0):
            if x.op == "select" and u in tm.fv(x.args[1]) and not any(w.args[0].startswith("#") for w in tm.fv(x)):
                if tm._lin1(x.args[1], u) == 1: off = tm.sub(x.args[1], u); arr = x.args[0]; break
        a, b, d = (tm.var("chg%s%d" % (c, s.uid), "I") for c in "abd")
        t = tm.fresh("t", "I")
        le, lt, and_, imp, not_ = tm.le, tm.lt, tm.and_, tm.implies, tm.not_
        z = tm.num(0)
        def all_(l, h, f):
            if off is None: return tm.forall([t], imp(and_(le(l, t), lt(t, h)), f(t)))
            x = tm.sub(t, off)
            return tm.forall([t], imp(and_(le(l, x), lt(x, h)), f(x)), [[tm.select(arr, t)]])
        N = lambda x: not_(P(x))
        body = and_(le(z, a), le(a, b), le(b, d), le(d, hi), all_(z, a, N), imp(lt(a, hi), P(a)), all_(a, b, P), imp(lt(b, hi), N(b)), all_(b, d, N), imp(lt(d, hi), P(d)),
                    imp(tm.eq(a, hi), tm.eq(b, hi)), imp(lt(a, hi), lt(a, b)), imp(lt(b, hi), lt(b, d)))
        val = tm.sub(b, a) if s.sort == "I" else tm.toreal(tm.sub(b, a))
        out.append(imp(le(z, hi), and_(body, imp(tm.eq(d, hi), tm.eq(s, val)), imp(tm.eq(b, hi), tm.eq(s, val)))))
    _iv[s] = out
    return out
def sum_axioms(terms):
    """ground facts about the sums that occur (unbound) in `terms`"""
    sums = []; seen = set()
    for t in terms:
        for x in tm.walk(t, seen):
            if x.op == "msum" and not any(w.args[0].startswith("#") for w in tm.fv(x)): sums.append(x)
    out = []
    groups = {}
    for s in sums:
        key, lo, hi, params, ab, u = sumparts(s)
        groups.setdefault((key, params, s.sort), []).append((s, lo, hi))
        z = tm.num(0, s.sort)
        out.append(tm.implies(tm.le(hi, lo), tm.eq(s, z)))
        if key == "1": out.append(tm.implies(tm.le(lo, hi), tm.eq(s, tm.sub(hi, lo) if s.sort == "I" else tm.toreal(tm.sub(hi, lo)))))
        if s.sort == "I":
            b = ab
            if b.op == "ite" and b.args[1] is tm.num(1) and b.args[2] is tm.num(0) or b.op == "ite" and b.args[2] is tm.num(1) and b.args[1] is tm.num(0):
                out.append(tm.ge(s, z)); out.append(tm.implies(tm.le(lo, hi), tm.le(s, tm.sub(hi, lo))))
        if key != "1":
            # a sum whose terms all vanish is zero; a sum of non-negative terms is non-negative
            w = tm.var("wit%d" % s.uid, "I"); b = sum_body(s, w); inr = tm.and_(tm.le(lo, w), tm.lt(w, hi))
            out.append(tm.or_(tm.eq(s, z), tm.and_(inr, tm.ne(b, z))))
            w2 = tm.var("witn%d" % s.uid, "I"); b2 = sum_body(s, w2)
            out.append(tm.or_(tm.ge(s, z), tm.and_(tm.le(lo, w2), tm.lt(w2, hi), tm.lt(b2, z))))
        # one unfolding at the top
        h1 = tm.sub(hi, tm.num(1))
        out.append(tm.implies(tm.gt(hi, lo), tm.eq(s, tm.add(sum_mk(s, lo, h1), sum_body(s, h1)))))
    for s in sums: out.extend(interval_axioms(s))
    # extensionality for pairs with the same range
    if len(sums) <= 8:
        for i in range(len(sums)):
            for j in range(i + 1, len(sums)):
                s, t = sums[i], sums[j]
                if s.sort != t.sort: continue
                _, l1, h1, _, _, _ = sumparts(s); _, l2, h2, _, _, _ = sumparts(t)
                w = tm.var("wite%d_%d" % (s.uid, t.uid), "I")
                out.append(tm.or_(tm.eq(s, t), tm.ne(l1, l2), tm.ne(h1, h2), tm.and_(tm.le(l1, w), tm.lt(w, h1), tm.ne(sum_body(s, w), sum_body(t, w)))))
    return out

class Result:
    __slots__ = ("status", "time", "backend", "info")
    def __init__(s, status, time, backend, info=""): s.status, s.time, s.backend, s.info = status, time, backend, info
    def __bool__(s): return s.status == "proved"

SEED = int(os.environ.get("VC_SEED", "0")); SCALE = float(os.environ.get("VC_SCALE", "1"))
STATS = {"queries": 0, "time": 0.0, "cache": 0}
_pcache = {}

def skolem(goal):
    """strip outer foralls / implications; returns (hyps, goal')"""
    hyps = []
    while True:
        if goal.op == "forall":
            m = {v: tm.fresh("sk", v.sort) for v in goal.args[0]}
            goal = tm.subst(goal.args[1], m); continue
        if goal.op == "not" and goal.args[0].op == "and":
            xs = goal.args[0].args
            # (not (and a b (not c))) : a & b -> c
            pick = None
            for x in xs:
                if x.op == "not": pick = x; break
            if pick is None:
                hyps.extend(xs); return hyps, tm.FALSE
            hyps.extend(x for x in xs if x is not pick)
            goal = pick.args[0]; continue
        if goal.op == "not" and goal.args[0].op == "exists":
            e = goal.args[0]
            m = {v: tm.fresh("sk", v.sort) for v in e.args[0]}
            hyps.append(tm.subst(e.args[1], m)); return hyps, tm.FALSE
        return hyps, goal

def prove(hyps, goal, timeout=2000, lemmas=(), want_model=False, seed=0):
    if goal is tm.TRUE: return Result("proved", 0, "syntactic")
    hs = []
    for h in hyps:
        if h is tm.FALSE: return Result("proved", 0, "syntactic")
        if h is goal: return Result("proved", 0, "syntactic")
        hs.append(h)
    if goal.op == "and":
        tt = 0; be = "z3"
        for g in goal.args:
            r = prove(hyps, g, timeout, lemmas)
            tt += r.time
            if not r: return Result(r.status, tt, r.backend, r.info)
        return Result("proved", tt, be)
    key = (frozenset(hs), goal, frozenset(lemmas))
    c = _pcache.get(key)
    if c is not None and (c.status == "proved" or timeout <= c.info2):
        STATS["cache"] += 1; return c
    eh, g2 = skolem(goal)
    if g2.op == "and" and g2 is not goal:
        r = prove(list(hs) + eh, g2, timeout, lemmas)
    else:
        if g2 is tm.TRUE or any(h is tm.FALSE for h in eh) or g2 in eh: r = Result("proved", 0, "syntactic")
        else: r = _z3(hs + eh, g2, timeout, lemmas, seed)
    r2 = _R(r.status, r.time, r.backend, r.info); r2.info2 = timeout
    _pcache[key] = r2
    return r2
class _R(Result):
    __slots__ = ("info2",)

def _z3(hs, goal, timeout, lemmas, seed=0):
    t0 = time.time()
    hs = list(hs) + list(lemmas)
    ax = sum_axioms(hs + [goal])
    hz = [to_z3(h) for h in hs] + [to_z3(h) for h in ax]; gz = z3.Not(to_z3(goal))
    r = None
    for k, (part, opts) in enumerate(PORTFOLIO):
        s = z3.SimpleSolver() if k == 2 else z3.Solver()      # the plain solver keeps quantified definitions (and their triggers) as they are
        s.set("timeout", max(50, int(timeout * part * SCALE)))
        if seed + SEED + k: s.set("random_seed", seed + SEED + k)
        for o, v in opts: s.set(o, v)
        for h in hz: s.add(h)
        s.add(gz)
        r = s.check()
        if r == z3.unsat: break
    if r == z3.unknown and goal.op in ("eq", "not") and _bvonly(goal):
        s = z3.SolverFor("QF_BV"); s.set("timeout", int(timeout * SCALE))
        for h in hs:
            if _bvonly(h): s.add(to_z3(h))
        s.add(gz); r2 = s.check()
        if r2 == z3.unsat: r = r2
    dt = time.time() - t0
    STATS["queries"] += 1; STATS["time"] += dt
    if r == z3.unsat: return Result("proved", dt, "z3")
    if r == z3.sat: return Result("refuted", dt, "z3", str(s.model())[:4000])
    return Result("unknown", dt, "z3", s.reason_unknown())
def _bvonly(t):
    """a formula over bit-vectors only (no quantifier, array or integer)"""
    return all((x.sort == "B" or isinstance(x.sort, tuple) and x.sort[0] == "BV") and x.op not in ("forall", "exists", "app", "select", "msum") for x in tm.walk(t, set()))
# attempts of one query: share of the time limit, solver options
PORTFOLIO = [(0.35, ()), (0.35, (("smt.arith.solver", 2),)), (0.3, ())]

def smtlib(hs, goal):
    s = z3.Solver()
    for h in list(hs) + sum_axioms(list(hs) + [goal]): s.add(to_z3(h))
    s.add(z3.Not(to_z3(goal)))
    return s.to_smt2()

def cvc5_check(hs, goal, timeout=5000):
    txt = "(set-logic ALL)\n" + smtlib(hs, goal)
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
    t0 = time.time()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout / 1000 + 5)
        o = r.stdout.strip()
    except subprocess.TimeoutExpired:
        o = "timeout"
    os.unlink(f.name)
    st = "proved" if o.startswith("unsat") else ("refuted" if o.startswith("sat") else "unknown")
    return Result(st, time.time() - t0, "cvc5", o[:500])
