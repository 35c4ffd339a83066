"""Loop rules: (1) exact summaries of map / reduction loops, (2) inductive invariants found among candidates (Houdini)."""
import os
import term as tm
from term import T, TRUE, FALSE, num, var, fresh, add, sub, mul, ge, le, gt, lt, eq, ne, and_, or_, not_, implies, ite, select, store, lam, forall, asort, sum_
import smt

class Leaf:
    """one modified scalar/array leaf of the state at the loop head"""
    __slots__ = ("cell", "path", "hv", "v0", "step", "name", "role", "vlen")
    def __repr__(s): return "%s %s(v0=%s)" % (s.name, s.hv, s.v0)

class LoopInfo:
    pass

def _zip_leaves(a, b, f):
    """parallel walk; f(x, y) on T leaves"""
    import exec as X
    if isinstance(a, T): f(a, b); return
    if isinstance(a, X.Vec):
        if a.n is not None: f(a.n, b.n)
        _zip_leaves(a.e, b.e, f); return
    if isinstance(a, X.Obj):
        for k in a.f: _zip_leaves(a.f[k], b.f[k], f)
        return
    if isinstance(a, X.Ptr):
        if isinstance(b, X.Ptr):
            if a.off is not None: f(a.off, b.off)
            f(a.null, b.null)
        return

def same_shape(a, b):
    import exec as X
    if isinstance(a, X.Ptr) and isinstance(b, X.Ptr):
        return a.base == b.base and (a.off is None) == (b.off is None) and a.rev == b.rev
    if isinstance(a, X.Obj): return isinstance(b, X.Obj) and all(same_shape(a.f[k], b.f.get(k)) for k in a.f)
    if isinstance(a, X.Vec): return isinstance(b, X.Vec)
    return True

def read_cell(ex, st, cell):
    import exec as X
    return ex.read(st, X.Loc(cell[0], cell[1]))
def write_cell(ex, st, cell, v):
    import exec as X
    w = ex.wlog; ex.wlog = None
    st.store[cell[0]] = ex._upd(st, st.store[cell[0]], cell[1], v)
    ex.wlog = w

def find_modified(ex, st, cond, inc, body):
    """-> dict cell -> True ; cells are (root, field path)"""
    import exec as X
    cells = {}
    for rnd in range(4):
        s = st.copy()
        havoc(ex, s, cells)
        oldw = ex.wlog; ex.wlog = {}; ex.dry += 1; ex.quiet += 1
        nth = len(ex.throws)
        try:
            c = cond(s)
            if c is not FALSE:
                for o in body(s):
                    if o[0] in ("next", "continue"): inc(o[1])
            w = ex.wlog
        finally:
            ex.wlog = oldw; ex.dry -= 1; ex.quiet -= 1
            del ex.throws[nth:]
        if ex.wlog is not None:
            for k, v in w.items():
                ex.wlog.setdefault(k, []).extend(v)
        new = dict(cells)
        for (root, path), ws in w.items():
            if root not in st.store: continue
            # cut at pointer-free prefix
            new[(root, path)] = True
        # keep only minimal prefixes
        ks = sorted(new, key=lambda c: len(c[1]))
        keep = {}
        for c in ks:
            if not any(c[0] == d[0] and c[1][:len(d[1])] == d[1] for d in keep): keep[c] = True
        if set(keep) == set(cells): break
        cells = keep
    return cells

def havoc(ex, s, cells, name="h"):
    import exec as X
    m = {}
    for c in cells:
        v = read_cell(ex, s, c)
        nm = c[0].split("@")[0] + "".join("." + p[1] for p in c[1])
        def f(x):
            h = fresh(nm, x.sort); m[h] = x; return h
        write_cell(ex, s, c, X.tmap(f, v))
    return m

def build(ex, st, cond, inc, body):
    """find the modified leaves precisely"""
    import exec as X
    cells = find_modified(ex, st, cond, inc, body)
    # leaf-level refinement
    s = st.copy()
    vals0 = {c: read_cell(ex, s, c) for c in cells}
    hv = {}
    for c in cells:
        nm = c[0].split("@")[0] + "".join("." + p[1] for p in c[1])
        def f(x, nm=nm):
            h = fresh(nm, x.sort); hv[h] = x; return h
        write_cell(ex, s, c, X.tmap(f, vals0[c]))
    hvals = {c: read_cell(ex, s, c) for c in cells}
    changed = set(); steps = {}
    ends = []
    oldw = ex.wlog; ex.wlog = {}; ex.dry += 1; ex.quiet += 1
    nth = len(ex.throws)
    try:
        s1 = s.copy()
        c = cond(s1)
        outs = body(s1) if c is not FALSE else []
        for o in outs:
            if o[0] in ("next", "continue"): inc(o[1])
            ends.append(o[1])
    finally:
        ex.wlog = oldw; ex.dry -= 1; ex.quiet -= 1
        del ex.throws[nth:]
    for e in ends:
        for c in cells:
            v = read_cell(ex, e, c)
            if not same_shape(hvals[c], v):
                raise X.Unsupported("loop changes the target of a pointer (%s)" % (c[0],))
            def f(h, x):
                if h is not x:
                    changed.add(h)
                    if h.sort == "I":
                        d = sub(x, h)
                        steps.setdefault(h, set()).add(d.args[0] if d.op == "num" else None)
            _zip_leaves(hvals[c], v, f)
    return cells, vals0, hvals, hv, changed, steps

def run(ex, st, fr, node, cond, inc, body):
    import exec as X
    if ex.dry:
        outs = []
        c = cond(st)
        if c is FALSE: return [("next", st, None)]
        # both: body executed once, and not executed (state kept mutable-safe)
        s = st.copy()
        res = [("next", st, None)]
        for o in body(s):
            if o[0] in ("next", "continue"):
                inc(o[1]); res.append(("next", o[1], None))
            elif o[0] == "break": res.append(("next", o[1], None))
            else: res.append(o)
        # continue with the state that executed the body (modification analysis only)
        nx = [r for r in res if r[0] == "next"]
        return [nx[-1]] + [r for r in res if r[0] != "next"]
    if ex.summarise:
        import summ
        if ex.wlog is not None: 
            pass
        r = summ.try_summary(ex, st, fr, node, cond, inc, body)
        if r is not None: return r
    cells, vals0, hvals, hvmap, changed, steps = build(ex, st, cond, inc, body)
    L = LoopInfo()
    L.ex, L.pre, L.node = ex, st.copy(), node
    H = st.copy()
    back = {h: v for h, v in hvmap.items() if h not in changed}
    leaves = []
    for c in cells:
        v = X.tmap(lambda x: back.get(x, x), hvals[c])
        write_cell(ex, H, c, v)
        hvals[c] = v
    seen = set()
    def reg(c):
        val = hvals[c]
        def go(v, path, vlen):
            if isinstance(v, T):
                if v in hvmap and v in changed and v not in seen:
                    seen.add(v)
                    l = Leaf(); l.cell, l.path, l.hv, l.v0 = c, path, v, hvmap[v]
                    l.step = steps.get(v); l.name = v.args[0]; l.role = path[-1] if path else ""; l.vlen = vlen
                    leaves.append(l)
                return
            if isinstance(v, X.Vec):
                if v.n is not None: go(v.n, path + ("n",), None)
                go(v.e, path + ("e",), v.n)
            elif isinstance(v, X.Obj):
                for k in v.f: go(v.f[k], path + (k,), vlen)
            elif isinstance(v, X.Ptr):
                if v.off is not None: go(v.off, path + ("off",), None)
                go(v.null, path + ("null",), None)
        go(val, (), None)
    for c in cells: reg(c)
    L.leaves, L.H, L.cells, L.hvals = leaves, H, cells, hvals
    # arrays whose length is modified elsewhere etc. keep shape
    L.outer = list(ex.loopstack)
    sc = H.copy()
    ex.quiet += 1
    try: L.cond = cond(sc)
    finally: ex.quiet -= 1
    base_pc = len(H.pc)
    cands = auto_cands(ex, L)
    for g in ex.cand_gens:
        for c in g(ex, L):
            if c is not None and c not in (TRUE, FALSE): cands.append(c)
    uniq = []; sset = set()
    for c in cands:
        if c not in sset: sset.add(c); uniq.append(c)
    cands = uniq
    ex.houdini_stats["loops"] += 1; ex.houdini_stats["cands"] += len(cands)
    pre = {l.hv: l.v0 for l in leaves}
    hy = st.facts()
    cto = getattr(ex, "cand_to", 400)
    # initiation
    keep = []
    if os.environ.get("LOOP_DEBUG"): print("LOOP in", ex.cur, len(cands), "candidates; leaves", [(l.name, l.cell[0], str(l.hv.sort)) for l in leaves], flush=True)
    for c in cands:
        if ex_prove(ex, hy, tm.subst(c, pre), cto): keep.append(c)
    cands = keep
    ex.loopstack.append(L)
    try:
        rounds = 0
        while True:
            rounds += 1
            S = H.copy()
            for c in cands: S.fact(c)
            ex.quiet += 1
            nth = len(ex.throws)
            try: ends = iterate(ex, S, cond, inc, body)
            finally:
                ex.quiet -= 1; del ex.throws[nth:]
            bad = set()
            for kind, e in ends:
                if kind != "next": continue
                post = post_map(ex, L, e)
                ehy = e.facts()
                for c in cands:
                    if c in bad: continue
                    if not ex_prove(ex, ehy, tm.subst(c, post), cto):
                        if os.environ.get("LOOP_DEBUG"): print("DROP", str(c)[:400], "\n   goal", str(tm.subst(c, post))[:1500])
                        bad.add(c)
            if not bad: break
            cands = [c for c in cands if c not in bad]
            if rounds > 30: raise X.Unsupported("no invariant found")
        ex.houdini_stats["kept"] += len(cands); ex.houdini_stats["rounds"] += rounds
        L.inv = cands
        ex.loopinfo.append((ex.cur, len(L.outer), [str(c)[:300] for c in cands], len(keep)))
        # final pass: obligations of the body, recorded; exits collected
        S = H.copy()
        for c in cands: S.fact(c)
        outs = []
        s = S.copy()
        c = cond(s)
        bodyS = s.copy(); bodyS.branch(c)
        exitS = s; 
        brk = []
        if c is not FALSE:
            for o in body(bodyS):
                if o[0] in ("next", "continue"):
                    inc(o[1])
                    if not ex.quiet:
                        post = post_map(ex, L, o[1])
                        for cc in cands: ex.oblige(o[1], "loop invariant is preserved: %s" % str(cc)[:160], tm.subst(cc, post), kind="inv")
                elif o[0] == "break": brk.append(o[1])
                else: outs.append(o)
        if not ex.quiet:
            for cc in cands: ex.oblige(st, "loop invariant holds on entry: %s" % str(cc)[:160], tm.subst(cc, pre), kind="inv")
    finally:
        ex.loopstack.pop()
    # exit
    exitS.fact(not_(c))
    alls = []
    outs2 = []
    def tag(s):
        b = fresh("exit", "B")
        pc = s.pc[:base_pc]
        r = s.copy()
        # path facts from the loop become facts under a fresh discriminating branch condition
        r.pc = tuple(pc) + (("b", b),) + tuple(("f", f) for k, f in s.pc[base_pc:])
        return r, b
    if brk or outs:
        rest = []
        used = []
        for s in brk:
            r, b = tag(s); 
            r.pc = r.pc[:base_pc] + tuple(("b", not_(u)) for u in used) + r.pc[base_pc:]
            used.append(b); alls.append(r)
        for kind, s, v in outs:
            r, b = tag(s)
            r.pc = r.pc[:base_pc] + tuple(("b", not_(u)) for u in used) + r.pc[base_pc:]
            used.append(b); outs2.append((kind, r, v))
        r = exitS
        r.pc = r.pc[:base_pc] + tuple(("b", not_(u)) for u in used) + tuple(("f", f) for k, f in r.pc[base_pc:])
        alls.append(r)
        ms = ex.merge_states(alls, base_pc)
        return outs2 + [("next", s, None) for s in ms]
    exitS.pc = exitS.pc[:base_pc] + tuple(("f", f) for k, f in exitS.pc[base_pc:])
    return [("next", exitS, None)]

def iterate(ex, S, cond, inc, body):
    s = S.copy()
    c = cond(s)
    s.branch(c)
    ends = []
    if c is FALSE: return ends
    for o in body(s):
        if o[0] in ("next", "continue"):
            inc(o[1]); ends.append(("next", o[1]))
    return ends

def post_map(ex, L, e):
    m = {}
    for c in L.cells:
        v = read_cell(ex, e, c)
        if not same_shape(L.hvals[c], v):
            import exec as X
            raise X.Unsupported("loop changes the target of a pointer")
        def f(h, x): m[h] = x
        _zip_leaves(L.hvals[c], v, f)
    return {l.hv: m[l.hv] for l in L.leaves if l.hv in m}

def ex_prove(ex, hy, goal, to):
    if goal is TRUE: return True
    if goal is FALSE: return smt.prove(hy + ex.axioms, FALSE, to).status == "proved"
    depth = int(ex.cand_split)
    if smt.prove(hy + ex.axioms, goal, to if depth < 2 else min(to, 500)).status == "proved": return True
    if not depth: return False
    # case splits on the conditions the goal branches on
    h2, g = smt.skolem(goal)
    return split_prove(ex, hy + ex.axioms + h2, g, to, depth)
def split_prove(ex, hy, g, to, depth):
    conds = []
    for x in tm.walk(g):
        if x.op == "ite" and not any(y.op == "var" and str(y.args[0])[0] == "#" for y in tm.walk(x.args[0])): conds.append(x.args[0])
    if not conds: return False
    c = conds[0]
    for v, cc in ((tm.TRUE, c), (tm.FALSE, tm.not_(c))):
        g2 = tm.replace(g, {c: v})
        if g2 is tm.TRUE: continue
        if smt.prove(hy + [cc], g2, to if depth == 1 else min(to, 1500)).status == "proved": continue
        if depth == 1 or not split_prove(ex, hy + [cc], g2, to, depth - 1): return False
    return True

def auto_cands(ex, L):
    out = []
    ints = [l for l in L.leaves if l.hv.sort == "I"]
    hvs = {l.hv for l in L.leaves}
    for l in ints:
        st = l.step or set()
        if all(x is not None and x >= 0 for x in st) or None in st: out.append(ge(l.hv, l.v0))
        if all(x is not None and x <= 0 for x in st) or None in st: out.append(le(l.hv, l.v0))
        out.append(ge(l.hv, num(0)))
    # from the loop condition
    for c in (L.cond.args if L.cond.op == "and" else (L.cond,)):
        if c.op == "ge0" and tm.fv(c) & hvs:
            out.append(ge(add(c.args[0], num(1, c.args[0].sort)), num(0, c.args[0].sort)))
        if c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            if p.sort == "I": out.append(ge(p, num(0))); out.append(le(p, num(0)))
    # affine relations
    cs = [(l, next(iter(l.step))) for l in ints if l.step and len(l.step) == 1 and None not in l.step]
    for i, (a, da) in enumerate(cs):
        for b, db in cs[i + 1:]:
            out.append(eq(mul(sub(a.hv, a.v0), num(db)), mul(sub(b.hv, b.v0), num(da))))
    # frame for arrays: untouched entries below/above counters
    arrs = [l for l in L.leaves if isinstance(l.hv.sort, tuple) and l.hv.sort[0] == "A" and l.hv.sort[1] in ("I", "R", "B")]
    return out
