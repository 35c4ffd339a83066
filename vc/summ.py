"""Exact loop summaries.  A loop whose iterations are counted by one unit-step counter, whose scalars are
affine in the counter / accumulated / temporary, and whose array writes are either accumulations or hit each cell in at
most one iteration, is replaced by its exact effect on the state.  The side conditions are checked on the symbolic
execution of one generic iteration; if any fails the summary is not used (the invariant rule of loops.py applies)."""
import term as tm
from term import T, TRUE, FALSE, num, var, fresh, add, sub, mul, ge, le, gt, lt, eq, ne, and_, or_, not_, implies, ite, select, store, lam, forall, asort, sum_
import smt

class No(Exception): pass
import os
DEBUG = bool(os.environ.get("SUMM_DEBUG"))

def lin(p, v):
    """p linear in v -> coefficient, or None"""
    c = 0
    for m, k in tm._poly(p).items():
        if v in m:
            if m != (v,): return None
            c = k
        else:
            for a in m:
                if v in tm.fv(a): return None
    return c

def conj(c): return list(c.args) if c.op == "and" else [c]

def pin(c, v):
    """value e (free of v) with c => v = e"""
    for x in conj(c):
        if x.op == "eq0" and x.args[0].sort == "I":
            p = x.args[0]; k = lin(p, v)
            if k in (1, -1):
                rest = sub(p, tm.scale(v, k))
                return tm.scale(rest, -k)
    return None

def cases(t, h_sel):
    """ite tree -> list of (cond, leaf)"""
    out = []
    def go(t, c):
        if t.op == "ite" and t is not h_sel:
            go(t.args[1], and_(c, t.args[0])); go(t.args[2], and_(c, not_(t.args[0])))
        elif c is not FALSE: out.append((c, t))
        if len(out) > 64: raise No("too many cases")
    go(t, TRUE)
    return out

def delta(t, h):
    """t - h as an ite tree"""
    if t is h: return num(0, h.sort)
    if t.op == "ite":
        if h in tm.fv(t.args[0]) if h.op == "var" else False: raise No("condition on the accumulator")
        return ite(t.args[0], delta(t.args[1], h), delta(t.args[2], h))
    return sub(t, h)

def has(t, x):
    if x.op == "var": return x in tm.fv(t)
    return any(y is x for y in tm.walk(t))

def psel(a, p):
    """select with every store resolved by a case split; reads of the same cell inside the stored value are read at p"""
    if a.op == "select" and a.args[0].op in ("store", "ite", "select"):
        b = psel(a.args[0], a.args[1])
        if b is not a: return psel(b, p)
    if a.op == "store":
        b, i, x = a.args
        c = eq(i, p)
        y = psel(b, p)
        if c is FALSE: return y
        m = {}
        for z in tm.walk(x):
            if z.op == "select" and z.args[1] is i: m[z] = select(z.args[0], p)
        if m: x = tm.replace(x, m)
        return ite(c, x, y)
    if a.op == "ite": return ite(a.args[0], psel(a.args[1], p), psel(a.args[2], p))
    return select(a, p)

def rd(a, idx, alias=()):
    """element of a (nested) array expression, stores resolved by case split; the cells of one row share one split"""
    if not idx: return a
    if a.op == "store":
        b, i, x = a.args; c = eq(i, idx[0])
        if c is FALSE: return rd(b, idx, alias)
        y = rd(x, idx[1:], alias + ((b, i, idx[0]),))
        if c is TRUE: return y
        z = rd(b, idx, alias)
        if y is z: return z
        if y.op == "ite" and y.args[2] is z: return ite(and_(c, y.args[0]), y.args[1], z)
        return ite(c, y, z)
    if a.op == "ite": return ite(a.args[0], rd(a.args[1], idx, alias), rd(a.args[2], idx, alias))
    if a.op == "select":
        b, i = a.args
        for b2, i2, j in alias:
            if b2 is b and i2 is i: i = j; break
        return rd(b, [i] + idx, alias)
    for i in idx: a = select(a, i)
    return a
def chain(x):
    idx = []
    while x.op == "select": idx.append(x.args[1]); x = x.args[0]
    return x, idx[::-1]
def eqs(path): return [c.args[0] for c in path if c.op == "eq0" and c.args[0].sort == "I"]
def implied(E, d):
    """d = 0 by one or two of the equations E"""
    z = num(0)
    if d is z: return True
    for q in E:
        if sub(d, q) is z or add(d, q) is z: return True
    for q in E:
        for r in E:
            if q is not r and (sub(d, sub(q, r)) is z or sub(d, add(q, r)) is z or add(d, add(q, r)) is z): return True
    return False
def under(t, path):
    """t with the conditions that the path settles removed"""
    E = eqs(path); m = {}; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == "ite" and x.sort in ("I", "R"):
            c = and_(*[k for k in conj(x.args[0]) if not (k in path or k.op == "eq0" and k.args[0].sort == "I" and implied(E, k.args[0]))])
            y = ite(c, under(x.args[1], path), under(x.args[2], path))
            if y is not x: m[x] = y
            return
        if x.op in ("select", "sum"): return
        for y in tm.subterms1(x): go(y)
    go(t)
    return tm.replace(t, m) if m else t
def norm_cell(t, ps, path=()):
    """every read that the path condition identifies with the cell ps is written as a read of that cell"""
    if t.op == "ite": return ite(t.args[0], norm_cell(t.args[1], ps, path + tuple(conj(t.args[0]))), norm_cell(t.args[2], ps, path))
    E = eqs(path)
    def same(x, p): return implied(E, sub(x, p))
    m = {}; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == "select" and not (isinstance(x.sort, tuple) and x.sort[0] == "A"):
            r, idx = chain(x)
            if len(idx) == len(ps) or len(idx) < len(ps) and r.op in ("store", "ite"):
                i2 = [p if same(a, p) else a for a, p in zip(idx, ps[len(ps) - len(idx):])]
                y = norm_cell(rd(r, i2), ps, path) if r.op in ("store", "ite") else rd(r, i2)
                if y is not x: m[x] = y
                return
        if x.op == "ite":
            y = norm_cell(x, ps, path)
            if y is not x: m[x] = y
            return
        for y in tm.subterms1(x): go(y)
    if t.op == "select" or t.op != "ite": go(t)
    return tm.replace(t, m) if m else t
def delta_acc(t, h):
    """t - h of a sequence of conditional accumulations, as a sum of conditional terms"""
    if t is h: return num(0, h.sort)
    if t.op == "ite":
        b = delta_acc(t.args[2], h); d = sub(delta_acc(t.args[1], h), b)
        for m, k in tm._poly(d).items():
            x = num(k, h.sort)
            for y in m: x = mul(x, y)
            b = add(b, ite(t.args[0], x, num(0, h.sort)))
        return b
    at = [(m, k) for m, k in tm._poly(t).items() if any(x is h for y in m for x in tm.walk(y))]
    if len(at) == 1 and len(at[0][0]) == 1 and at[0][1] == 1 and at[0][0][0] is not t:
        y = at[0][0][0]; return add(sub(t, y), delta_acc(y, h))
    raise No("not an accumulation")

def array_reads(t, arrs):
    """selects rooted at one of the given array variables (maximal)"""
    out = {}
    seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == "select" and not (isinstance(x.sort, tuple) and x.sort[0] == "A"):
            r = x; idx = []
            while r.op == "select": idx.append(r.args[1]); r = r.args[0]
            if r in arrs:
                out[x] = (r, tuple(reversed(idx)))
                for i in idx: go(i)
                return
        if x in arrs: raise No("whole-array use of a modified array")
        for y in tm.subterms1(x): go(y)
    go(t)
    return out

def try_summary(ex, st, fr, node, cond, inc, body):
    nob = len(ex.obls); nth = len(ex.throws); ninfo = len(ex.loopinfo)
    import exec as X
    try:
        return _try(ex, st, fr, node, cond, inc, body)
    except No as e:
        if DEBUG: print("  [no summary: %s]" % e)
        del ex.obls[nob:]; del ex.throws[nth:]; del ex.loopinfo[ninfo:]
        return None

def _try(ex, st, fr, node, cond, inc, body):
    import loops, exec as X
    w0 = None
    wl = {k: list(v) for k, v in ex.wlog.items()} if ex.wlog is not None else None
    cells, vals0, hvals, hv, changed, steps = loops.build(ex, st, cond, inc, body)
    if wl is not None: ex.wlog.clear(); ex.wlog.update(wl)
    H = st.copy()
    back = {h: v for h, v in hv.items() if h not in changed}
    for c in cells:
        v = X.tmap(lambda x: back.get(x, x), hvals[c]); loops.write_cell(ex, H, c, v); hvals[c] = v
    mod = [h for h in hv if h in changed]
    mset = set(mod)
    ex.quiet += 1
    try: cnd = cond(H.copy())
    finally: ex.quiet -= 1
    # conversions between signed and unsigned: decide them for counter values on the counting side of the start
    if any(x.op == "ite" for x in tm.walk(cnd)):
        sg = st.copy()
        for g in mod:
            s = steps.get(g)
            if g.sort == "I" and s and len(s) == 1 and None not in s:
                d = next(iter(s)); sg.fact(ge(g, hv[g]) if d >= 0 else le(g, hv[g]))
        for _ in range(8):
            m = {}
            for x in tm.walk(cnd):
                if x.op == "ite" and not any(str(v.args[0]).startswith("#") for v in tm.fv(x.args[0])):
                    if ex.known(sg, x.args[0], 600): m[x] = x.args[1]
                    elif ex.known(sg, not_(x.args[0]), 600): m[x] = x.args[2]
            if not m: break
            cnd = tm.replace(cnd, m)
    # the counter
    ctr = None
    for h in mod:
        if h.sort != "I": continue
        s = steps.get(h)
        if not s or len(s) != 1: continue
        d = next(iter(s))
        if d not in (1, -1): continue
        if cnd.op == "ge0":
            k = lin(cnd.args[0], h)
            if k == -d: ctr = (h, d, "ge", tm.scale(sub(cnd.args[0], tm.scale(h, k)), 1)); 
        elif cnd.op == "not" and cnd.args[0].op == "eq0":
            p = cnd.args[0].args[0]; k = lin(p, h)
            if k in (1, -1): ctr = (h, d, "ne", tm.scale(sub(p, tm.scale(h, k)), -k))
        if ctr: break
    if ctr is None: raise No("no unit-step counter in %s" % str(cnd)[:120])
    h, d, kind, rest = ctr
    if tm.fv(rest) & mset: raise No("loop bound is modified")
    lo0 = hv[h]
    i = fresh("i", "I")
    if d == 1:
        lo = lo0; hi = add(rest, num(1)) if kind == "ge" else rest
        # ge: rest - h >= 0 -> h < rest+1
    else:
        hi = add(lo0, num(1)); lo = tm.neg(rest) if kind == "ge" else add(rest, num(1))
        # ge: h + rest >= 0 -> h >= -rest ; ne: stops at rest
    if kind == "ne" and not ex.known(st, le(lo, hi), 600): raise No("!= loop bound not ordered")
    nonempty = lt(lo, hi)
    ne_known = True
    if nonempty is not TRUE: ne_known = ex.known(st, nonempty) 
    le_known = ne_known or ex.known(st, le(lo, hi))
    idx = (lambda x: sub(x, lo0)) if d == 1 else (lambda x: sub(lo0, x))     # iteration number of counter value x
    closed = {h: (d, hv[h])}
    for g in mod:
        if g is h or g.sort != "I": continue
        s = steps.get(g)
        if s and len(s) == 1 and None not in s: closed[g] = (next(iter(s)), hv[g])
    mark = next(tm._fresh)
    while True:
        sub0 = {g: add(v0, tm.scale(idx(i), k)) for g, (k, v0) in closed.items()}
        B = H.copy()
        for c in cells: loops.write_cell(ex, B, c, X.tmap(lambda x: tm.subst(x, sub0), hvals[c]))
        B.fact(and_(le(lo, i), lt(i, hi)))
        base = len(B.pc)
        nob = len(ex.obls); nth = len(ex.throws)
        oldw = ex.wlog; ex.wlog = None; ex.in_summ += 1
        try:
            cond(B)
            outs = body(B)
            if any(o[0] not in ("next", "continue") for o in outs): raise No("loop leaves early")
            ss = ex.merge_states([o[1] for o in outs], base)
            if len(ss) != 1: raise No("paths do not merge")
            E = ss[0]; inc(E)
        finally: ex.wlog = oldw; ex.in_summ -= 1
        if len(ex.throws) != nth: raise No("loop throws")
        fin = {}
        for c in cells:
            v = loops.read_cell(ex, E, c)
            if not loops.same_shape(hvals[c], v): raise No("pointer target changes")
            def f(a, b):
                if a in mset: fin[a] = b
                elif a is not b: raise No("unexpected change")
            loops._zip_leaves(hvals[c], v, f)
        bad = [g for g, (k, v0) in closed.items() if sub(fin[g], tm.subst(add(g, num(k)), sub0)) is not num(0)]
        if h in bad: raise No("counter step")
        if not bad: break
        for g in bad: del closed[g]
        del ex.obls[nob:]
    # locals of the body that survive: none (cells cover everything that existed before)
    leaks = set()
    def clean(t):
        for v in tm.fv(t):
            if v is i or v.args[0].startswith("#"): continue
            nm = v.args[0]
            if "!" in nm:
                k = nm.rsplit("!", 1)[1]
                if k.isdigit() and int(k) > mark and v not in ps_all: raise No("value depends on a choice made in the body (%s)" % nm)
    ps_all = set()
    accs = [g for g in mod if g not in closed]
    scal = [g for g in accs if not isinstance(g.sort, tuple) or g.sort[0] != "A"]
    arrs = [g for g in accs if g not in scal]
    aset = set(arrs); sset = set(scal)
    # a vector that iterations replace as a whole under a condition, and nothing else reads across iterations: forgotten
    vleaf = set()
    for c in cells:
        if isinstance(hvals[c], X.Vec): loops._zip_leaves(hvals[c], hvals[c], lambda a, b: vleaf.add(a))
    def latch(t, g):
        if t is g: return True
        if t.op == "ite": return not tm.fv(t.args[0]) & mset - set(closed) and latch(t.args[1], g) and latch(t.args[2], g)
        return not (tm.fv(t) & (sset | aset))
    lat = [g for g in accs if g in vleaf and fin[g].op == "ite" and not (tm.fv(fin[g].args[0]) & (sset | aset)) and latch(fin[g], g)]
    for g in lat:
        if any(g in tm.fv(fin[o]) for o in accs if o is not g and o not in lat): lat = []; break
    scal = [g for g in scal if g not in lat]; arrs = [g for g in arrs if g not in lat]
    pw = {}; accd = {}
    for g in arrs:
        ps = []; s = g.sort; t = fin[g]; hs = g
        while isinstance(s, tuple) and s[0] == "A":
            p = fresh("p", "I"); ps.append(p); ps_all.add(p); t = psel(t, p); hs = select(hs, p); s = s[1]
        if hs.sort in ("I", "R"):
            try:
                tn = norm_cell(rd(fin[g], ps), ps); dn = delta_acc(tn, hs)
                if DEBUG and any(x is hs for x in tm.walk(dn)): print("  [cell %s\n   raw %s\n delta %s]" % (tn, fin[g], dn))
                if not any(x is hs for x in tm.walk(dn)): accd[g] = dn
                try: cases(t, hs)
                except No: t = tn
            except No: pass
        pw[g] = (ps, hs, t)
    # conditions under which array g's cell ps is written
    wcond = {}
    for g in arrs:
        ps, hs, t = pw[g]
        cs = cases(t, hs)
        wcond[g] = or_(*[c for c, l in cs if l is not hs]) if any(l is not hs for c, l in cs) else FALSE
    def written(g, at, it):
        ps, hs, t = pw[g]
        return tm.subst(wcond[g], {**dict(zip(ps, at)), i: it})
    stH = st.copy(); stH.fact(and_(le(lo, i), lt(i, hi)))
    def resolve(t, own=None, extra=TRUE):
        """replace reads of modified arrays by their value before the loop, when no earlier iteration wrote them"""
        r = array_reads(t, aset)
        m = {}
        for x, (g, at) in r.items():
            if x is own: continue
            j = fresh("j", "I")
            early = and_(le(lo, j), lt(j, i)) if d == 1 else and_(lt(i, j), lt(j, hi))
            s = stH.copy(); s.fact(early); 
            if extra is not TRUE: s.fact(extra)
            w = written(g, at, j)
            if tm.fv(w) & sset or array_reads(w, aset): raise No("write position depends on modified state")
            if not ex.known(s, not_(w), 800): raise No("reads a cell that an earlier iteration may have written: %s" % str(x)[:100])
            v = hv[g]
            for a in at: v = select(v, a)
            m[x] = v
        if m:
            t = tm.replace(t, m)
            if array_reads(t, aset) and any(x is not own for x in array_reads(t, aset)): return resolve(t, own, extra)
        return t
    new = {}
    last = sub(hi, num(1)) if d == 1 else lo
    for g, (k, v0) in closed.items():
        n = sub(hi, lo)
        if not le_known: n = ite(le(lo, hi), n, num(0))
        new[g] = add(v0, tm.scale(n, k))
    for g in lat: new[g] = tm.fresh("forgotten", g.sort)
    def pick(a, b): return a if ne_known else ite(nonempty, a, b)
    for g in scal:
        t = fin[g]; clean(t)
        if not has(t, g):
            if tm.fv(t) & sset: raise No("scalar depends on another accumulator")
            t = resolve(t)
            new[g] = pick(tm.subst(t, {i: last}), hv[g]); continue
        if g.sort not in ("I", "R"): raise No("flag or search loop")
        dd = delta(t, g)
        if has(dd, g) or tm.fv(dd) & sset: raise No("not an accumulation: %s" % str(dd)[:100])
        dd = resolve(dd)
        new[g] = add(hv[g], sum_(i, lo, hi, dd))
    for g in arrs:
        ps, hs, t = pw[g]; clean(t)
        v0 = hv[g]
        for p in ps: v0 = select(v0, p)
        if t is hs: new[g] = hv[g]; continue
        if tm.fv(t) & sset: raise No("array value depends on an accumulator")
        # accumulation
        r = None
        if hs.sort in ("I", "R"):
            try:
                try: dd = delta(t, hs)
                except No: dd = None
                if dd is None or any(x is hs for x in tm.walk(dd)) or array_reads(dd, {g}): dd = accd.get(g)
                if dd is not None and not any(x is hs for x in tm.walk(dd)):
                    dd = resolve(dd)
                    r = add(v0, sum_(i, lo, hi, dd))
            except No: r = None
        if r is None:
            cs = cases(t, hs)
            W = [(c, l) for c, l in cs if l is not hs]
            e = None; inv_ = True; groups = {}
            for c, l in W:
                q = pin(c, i)
                if q is None: e = False; break
                groups.setdefault(q, []).append(c)
                e = q
            if e is not False and len(groups) > 1:
                # written by at most one iteration: the writing conditions of different iterations exclude each other
                conds = [(q, and_(le(lo, q), lt(q, hi), tm.subst(or_(*cc), {i: q}))) for q, cc in groups.items()]
                for a_ in range(len(conds)):
                    for b_ in range(a_):
                        if not ex.known(st, not_(and_(conds[a_][1], conds[b_][1])), 800): e = False
            if e is False or e is None:
                # same value in every iteration
                if all(i not in tm.fv(l) and i not in tm.fv(c) and not has(l, hs) and not has(c, hs) for c, l in W):
                    t2 = resolve(t, own=hs)
                    r = ite(nonempty if not ne_known else TRUE, tm.replace(t2, {hs: v0}), v0)
                else: raise No("cell written by several iterations: %s" % str(t)[:200])
            else:
                inr = and_(le(lo, e), lt(e, hi))
                def go(x, path):
                    if x.op == "ite" and x is not hs: return ite(go_c(x.args[0], path), go(x.args[1], and_(path, x.args[0])), go(x.args[2], and_(path, not_(x.args[0]))))
                    if x is hs: return hs
                    return resolve(x, own=hs, extra=path)
                def go_c(c, path):
                    return resolve(c, own=hs, extra=path)
                t2 = go(t, TRUE)
                def at(e):
                    t3 = tm.subst(t2, {i: e})
                    if any(x is hs for x in tm.walk(t3)): t3 = tm.replace(t3, {hs: v0})
                    return t3
                if len(groups) == 1: r = ite(inr, at(e), v0)
                else:
                    r = v0
                    for q, w in conds:
                        if array_reads(w, aset): raise No("write position depends on modified state")
                        r = ite(w, at(q), r)
        if tm.fv(r) & (mset | {i}): raise No("summary mentions loop state")
        r = ex.note_sum(st.copy(), r, ps)
        for p in reversed(ps): r = lam(p, r)
        new[g] = r
    for g, r in new.items():
        if tm.fv(r) & (mset | {i}): raise No("summary mentions loop state")
    R = st.copy()
    for g, r in new.items():
        if isinstance(r.sort, str) and r.sort in ("I", "R"): new[g] = ex.note_sum(R, r)
    for c in cells:
        v = X.tmap(lambda x: new.get(x, x), hvals[c])
        if ex.wlog is not None: ex.wlog.setdefault(c, []).append((X.Loc(c[0], c[1]), v))
        loops.write_cell(ex, R, c, v)
    ex.houdini_stats["summaries"] = ex.houdini_stats.get("summaries", 0) + 1
    return [("next", R, None)]
